"""Reading files of samples while they are written."""
import gc, io, locale, os, random, shutil, sys, tempfile, types
from tracelib import main_traces

HP = PROF = None
NAMES = ['A', 'B', 'Cc', 'e\xe9', '\u4e2d\u6587', '\U0001f600', '.end: ', '.loader: _load_stat', 'x y', '.r: 1 2', '\xa0n']


class Tk:
    """Stands in for the classes of tkinter, which nothing here uses."""
    def __init__(self, *a, **k): pass


def start():
    global HP, PROF
    if HP is not None:
        return
    tk = types.ModuleType('tkinter')
    for n in ('Tk Frame Label Button Menu StringVar IntVar DoubleVar Canvas Scrollbar Text Toplevel Checkbutton Entry '
              'Radiobutton Listbox Menubutton Message Scale Wm Misc Widget BooleanVar Event').split():
        setattr(tk, n, type(n, (Tk,), {}))
    for n in 'N S E W NW NE SW SE NSEW LEFT RIGHT TOP BOTTOM BOTH X Y GROOVE RAISED SUNKEN FLAT RIDGE NORMAL DISABLED ACTIVE END INSERT ALL YES NO WORD HIDDEN VERTICAL HORIZONTAL CENTER'.split():
        setattr(tk, n, n.lower())
    sys.modules['tkinter'] = tk
    for n in ('filedialog', 'messagebox', 'font', 'ttk'):
        m = sys.modules['tkinter.' + n] = types.ModuleType('tkinter.' + n)
        setattr(tk, n, m)
    from guppy import hpy
    HP = hpy()
    PROF = HP._parent.Prof


class Os:
    """What the reader knows as os: something may be written whenever it asks."""
    def __init__(self, w):
        self.w = w
    def __getattr__(self, n):
        f = getattr(os, n)
        if n in ('stat', 'fstat'):
            def g(*a, **k):
                self.w.meanwhile()
                r = f(*a, **k)
                self.w.meanwhile()
                return r
            return g
        return f


class World:
    def __init__(self, rng):
        self.rng = rng
        self.ev = []
        self.dir = tempfile.mkdtemp(prefix='prof')
        self.clock = 1_700_000_000_000_000_000 + rng.randrange(10 ** 9)
        self.coarse = rng.random() < .3
        self.files = {f: None for f in (1, 2, 3)}       # chunks
        self.text = [None]
        self.known = {}
        self.readers = []
        self.lazy = {}
        self.lens = {}
        self.ws = None
        self.odds = 0
        self.utf = locale.getpreferredencoding(False).lower().replace('-', '') == 'utf8'
        self.samples()

    def emit(self, o, a, r=0):
        self.ev.append(dict(o=o, a=a, r=r))

    # ------------------------------------------------------------- samples
    def whole(self, s):
        """Everything there is to know about a sample."""
        return repr((s.count, s.size, s.kindheader, s.kindname, s.format_name, '%f' % s.timemade, s.numrows,
                     [(r.count, r.size, r.name) for r in s.get_rows()]))

    def samples(self):
        rng = self.rng
        for k in range(rng.randint(2, 6)):
            names = rng.sample(NAMES if self.utf else [n for n in NAMES if n.isascii()], rng.randint(1, 4))
            cls = [type(n, (list,), {'__module__': 'w', '__slots__': ()}) for n in names]
            X = HP.iso(*[c([0] * rng.randint(0, 3)) for c in cls for _ in range(rng.randint(1, 3))])
            for twin in range(rng.choice([1, 1, 2])):
                s = X.by(HP.Clodo).stat
                o = io.StringIO()
                t = float(rng.randint(10 ** 9, 2 * 10 ** 9))
                s.timemade = t
                s.dump(o)
                text = o.getvalue()
                i = text.index('.timemade: ') + 11
                text = text[:i] + '%f' % t + text[text.index('\n', i):]
                if rng.random() < .1:
                    text = text.replace('\n', '\r\n')
                text = text.encode(locale.getpreferredencoding(False))
                if text in self.text:
                    continue
                n = len(self.text)
                self.text.append(text)
                s = HP.load(io.StringIO(text.decode(locale.getpreferredencoding(False)).replace('\r\n', '\n')))
                assert s.timemade == t
                self.known[self.whole(s)] = n
                self.emit('sample', [s.size])

    def number(self, s):
        try:
            return self.known.get(self.whole(s), -2)
        except Exception as e:
            return -3

    # ------------------------------------------------------------- writing
    def path(self, f):
        return os.path.join(self.dir, 'file%d' % f)

    def tick(self, f):
        self.clock += 1 if self.coarse else self.rng.choice([1, 10 ** 6, 10 ** 9, 10 ** 10])
        os.utime(self.path(f), ns=(self.clock, self.clock))

    def bytes(self, chunks):
        return b''.join(b'garbage\n' * 3 if s == 0 else self.text[s][a:b] for s, a, b, n in chunks)

    def cut(self, s, a):
        """A place to stop after byte a of the text of sample s."""
        rng, t = self.rng, self.text[s]
        spots = [i for i in range(a + 1, len(t)) if t[i] >= 0x80 or t[i - 1] >= 0x80 or t[i] == 10 or t[i - 1] == 10]
        e = t.rindex(b'.end')
        x = rng.random()
        if x < .4 and spots:
            return rng.choice(spots)
        if x < .6 and max(a, e) < len(t):
            return rng.randint(max(a, e), len(t) - 1)
        return rng.randint(a, len(t))

    def open_end(self, f):
        """Number and position of the sample being written, or None."""
        for s, a, b, n in reversed(self.files[f] or ()):
            return (s, b) if b < n else None

    def write(self, f=None, soft=False):
        rng = self.rng
        f = f or rng.choice([1, 1, 1, 2, 3])
        old = self.files[f]
        x = rng.random()
        garbage = old is not None and any(c[0] == 0 for c in old)
        if old is not None and not garbage and x < .72 or soft and old is not None and not garbage:
            how, chunks = 'put', []
            at = self.open_end(f)
            for _ in range(rng.randint(1, 3)):
                s, a = at or (rng.randrange(1, len(self.text)), 0)
                n = len(self.text[s])
                b = n if rng.random() < .5 else self.cut(s, a)
                chunks.append([s, a, b, n])
                at = None if b == n else (s, b)
                if at and rng.random() < .7:
                    break
            with open(self.path(f), 'ab') as o:
                o.write(self.bytes(chunks))
            self.files[f] = self.join((old or []) + chunks)
            self.tick(f)
        elif x < .75 and old is not None and not soft:
            how, chunks = 'gone', []
            os.unlink(self.path(f))
            self.files[f] = None
        elif old and not garbage and x < .87:
            # Cut off, or one sample exchanged by one of the same length
            how, chunks = 'set', [list(c) for c in old]
            same = [(k, s) for k, c in enumerate(chunks) for s in range(1, len(self.text))
                    if s != c[0] and len(self.text[s]) == c[3] and c[1] == 0 and c[2] == c[3]]
            if same and rng.random() < .6:
                k, s = rng.choice(same)
                chunks[k][0] = s
            else:
                k = rng.randrange(len(chunks))
                s, a, b, n = chunks[k]
                del chunks[k + 1:]
                if rng.random() < .6:
                    chunks[k][2] = min(b, self.cut(s, a)) if a < n else b
                if rng.random() < .3:
                    del chunks[k]
            self.put(f, chunks, rng.random() < .7)
        else:
            how = 'set'
            if rng.random() < .12:
                chunks = [[0, 0, 1, 1]]
            else:
                chunks = []
                for _ in range(rng.randint(0, 4)):
                    s = rng.randrange(1, len(self.text))
                    chunks.append([s, 0, len(self.text[s]), len(self.text[s])])
                if rng.random() < .4:
                    s = rng.randrange(1, len(self.text))
                    b = self.cut(s, 0)
                    chunks.append([s, 0, b, len(self.text[s])])
            self.put(f, chunks, rng.random() < .5)
        return [how, f, chunks]

    def join(self, chunks):
        """Pieces of one sample as one piece."""
        out = []
        for c in chunks:
            if out and out[-1][0] == c[0] and out[-1][2] == c[1] and c[1]:
                out[-1] = [c[0], out[-1][1], c[2], c[3]]
            elif c[2]:
                out.append(list(c))
        return out

    def put(self, f, chunks, inplace):
        p = self.path(f)
        q = p if inplace else p + '.new'
        with open(q, 'wb') as o:
            o.write(self.bytes(chunks))
        os.replace(q, p)
        self.files[f] = self.join(chunks)
        self.tick(f)

    def meanwhile(self):
        if self.ws is not None and self.rng.random() < self.odds:
            self.ws.append(self.write(self.target, soft=self.rng.random() < .8))

    # ------------------------------------------------------------- reading
    def reading(self, f, g):
        """Calls g, with something written now and then; what was."""
        self.ws, self.target = [], f
        self.odds = self.rng.choice([0, 0, .3])
        try:
            return g(), self.ws
        except Exception as e:
            return e, self.ws
        finally:
            self.ws = None

    def seen(self, S):
        return [self.number(s) for s in S.stats]

    def step(self):
        rng = self.rng
        x = rng.random()
        if not self.readers or x < .06:
            f = rng.choice([0, 1, 1, 2])
            S = self.reader(f)
            self.readers.append([S, f])
            self.emit('new', [f])
            self.lazy[len(self.readers)] = 1
            return
        if x < .45:
            self.emit('write', self.write())
            return
        n = rng.randint(1, len(self.readers))
        S, f = self.readers[n - 1]
        if x < .75:
            r, ws = self.reading(f, S.collect)
            if isinstance(r, Exception):
                self.ev.append(dict(o='collect', a=[n, ws], r=[-1, -1, []], x='%s: %s' % (type(r).__name__, r)))
            else:
                self.ev.append(dict(o='collect', a=[n, ws], r=[r[0], r[1], self.seen(S)]))
                self.lazy.pop(n, None)
        elif x < .8:
            f = rng.choice([0, 1, 1, 1, 2, 3])
            def g():
                S.open(self.path(f) if f else rng.choice([None, '']))
                return 0
            r, ws = self.reading(f, g)
            if isinstance(r, Exception):
                self.ev.append(dict(o='open', a=[n, f, ws], r=[-1], x='%s: %s' % (type(r).__name__, r)))
            else:
                self.ev.append(dict(o='open', a=[n, f, ws], r=self.seen(S)))
                self.readers[n - 1][1] = f
                self.lazy.pop(n, None)
        elif x < .87:
            try:
                r = self.seen(S)
                self.lazy.pop(n, None)
            except Exception as e:
                r = [-1]
            self.emit('seen', [n], r)
        elif x < .9:
            S.clear_cache()
            self.emit('clear', [n])
            self.lazy[n] = 1
        elif n not in self.lazy:
            q = rng.choice(['len', 'max', 'item'])
            try:
                if q == 'len':
                    self.emit('len', [n], len(S))
                elif q == 'max':
                    self.emit('max', [n], S.get_max_size())
                else:
                    i = rng.randint(-6, 6)
                    try:
                        r = self.number(S[i])
                    except IndexError:
                        r = -1
                    self.emit('item', [n, i], r)
            except Exception as e:
                self.ev.append(dict(o=q, a=[n, 0], r=-9, x='%s: %s' % (type(e).__name__, e)))

    def reader(self, f):
        mod = MODULE()
        S = mod.Stats(PROF, self.path(f) if f else None)
        S.os = Os(self)
        return S


def MODULE():
    import guppy.heapy.Prof as m
    return m


def reads(rng, i):
    start()
    w = World(rng)
    try:
        for _ in range(rng.randint(10, 40)):
            w.step()
        return dict(ev=w.ev)
    finally:
        shutil.rmtree(w.dir)


if __name__ == '__main__':
    main_traces(globals()[sys.argv[1]], sys.argv[2:])
