"""Tables of classes, statistics, their files, and the pages they are shown on."""
import gc, io, os, random, re, shutil, sys, tempfile
from decimal import Decimal
from tracelib import main_traces

HP = None
NAMES = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'name', 'with space', ' first', 'last ', 'a:b', '.r: 5 6 x', '.end',
         'x%d', 'n"q"', "p'q", 'back\\slash', 'e\xe9', '\u4e2d\u6587', '1', '12 34', '0 0 0', '#', '', 'tab\there',
         '<Other>', 'long ' + 'very ' * 25 + 'name', 'x' * 130, '-', '.count: 3', 'end.', 'Z', 'zz', 'zzz', 'zzzz', 'y']


def squeeze(s):
    return re.sub(r'\s+', '', s)


class World:
    def __init__(self, rng):
        self.rng = rng
        self.ev = []
        self.labels = set()
        self.texts = {}
        self.ntab = 0
        self.tabs = {}       # number -> Stat
        self.parts = {}      # number -> set
        self.rowtabs = {}    # number -> number of rows
        self.pages = 0
        self.pg = {}
        self.max = rng.choice([10, 10, 10, 1, 2, 3, 5, 7])
        HP._parent.OutputHandling.max_more_lines = self.max
        self.emit('max', [self.max])
        self.dir = None
        self.objs = []
        self.num = {}

    def emit(self, o, a, r=0):
        self.ev.append(dict(o=o, a=a, r=r))

    def raised(self, o, a, bad, e):
        self.ev.append(dict(o=o, a=a, r=bad, x='%s: %s' % (type(e).__name__, e)))

    def ask(self, o, a, f, bad=-1):
        try:
            r = f()
        except Exception as e:
            self.raised(o, a, bad, e)
            return False
        self.ev.append(dict(o=o, a=a, r=r))
        return True

    # labels and texts are replaced by numbers at the end
    def lab(self, s):
        self.labels.add(s)
        return ('L', s)
    def text(self, s):
        return self.texts.setdefault(str(s), len(self.texts) + 1)

    def done(self):
        rank = {s: i + 1 for i, s in enumerate(sorted(self.labels))}
        short = {}
        for s in self.labels:
            short.setdefault(squeeze(s), []).append(s)
        def fix(x):
            if isinstance(x, tuple):
                if x[0] == 'L':
                    return rank[x[1]]
                c = short.get(x[1], [])      # as shown, without whitespace
                return rank[c[0]] if len(c) == 1 else 0
            if isinstance(x, list):
                return [fix(y) for y in x]
            if isinstance(x, dict):
                return {k: fix(y) for k, y in x.items()}
            return x
        return dict(ev=fix(self.ev))

    # -------------------------------------------------------------- objects
    def cls(self, name):
        ns = {'__module__': self.rng.choice(['w', 'w', 'v', 'builtins'])}
        if self.rng.random() < .5:
            ns['__slots__'] = tuple('s%d' % i for i in range(self.rng.randint(0, 4)))
        return type(name, (self.rng.choice([object, object, list, tuple]),) if '__slots__' not in ns else (object,), ns)

    def make(self, far=False):
        rng = self.rng
        names = rng.sample(NAMES, rng.randint(2, 14 if not far else len(NAMES)))
        # the displays are compared without whitespace
        self.classes = [self.cls(n) for n in names]
        n = rng.randint(3, 40) if not far else rng.randint(60, 300)
        def one():
            x = rng.random()
            if x < .75:
                c = rng.choice(self.classes)
                return c(range(rng.randint(0, 4))) if issubclass(c, (list, tuple)) else c()
            return rng.choice([lambda: rng.randint(10 ** 6, 10 ** 7), lambda: 'x' * rng.randint(2, 90) + str(rng.random()),
                               lambda: [0] * rng.randint(0, 5), lambda: rng.random(), lambda: (rng.random(),) * rng.randint(1, 4),
                               lambda: complex(rng.randint(1, 9), 1), lambda: b'q' * rng.randint(5, 60)])()
        self.objs = [one() for _ in range(n)]
        self.num = {id(x): i + 1 for i, x in enumerate(self.objs)}

    def ids(self, nodes):
        return sorted(self.num[id(x)] for x in nodes)

    def add(self, stat=None, part=None, rows=0, fresh=True):
        self.ntab += 1
        self.rowtabs[self.ntab] = rows
        if stat is not None:
            self.tabs[self.ntab] = stat
            if fresh:
                self.ask('head', [self.ntab], lambda: self.told(stat), [-1, -1, -1, -1, '', -1])
        if part is not None:
            self.parts[self.ntab] = part
        return self.ntab

    # ----------------------------------------------------------- partitions
    def part(self):
        rng = self.rng
        how = rng.choice(['Type', 'Type', 'Clodo', 'Clodo', 'Size', 'Id', 'Id', 'TypeSize', 'Unity', 'Module'])
        objs = self.objs
        if how == 'Id' and rng.random() < .7:
            same = rng.choice([str, int, list, float, complex, bytes, tuple])
            objs = [x for x in objs if type(x) is same] or objs
        if rng.random() < .5:
            objs = rng.sample(objs, rng.randint(1, len(objs)))
        X = HP.iso(*objs)
        if how == 'TypeSize':
            X = X.by(HP.Type & HP.Size)
        elif how != 'Clodo' or rng.random() < .5:
            X = X.by(getattr(HP, how))
        t = {id(c): i for i, c in enumerate({type(x): 1 for x in objs})}
        size = sys.getsizeof
        def c(x):
            n = t[id(type(x))]
            return {'Type': n, 'Clodo': n, 'Size': size(x), 'Id': self.num[id(x)], 'TypeSize': n * 10000 + size(x),
                    'Unity': 0, 'Module': 0}[how]
        keys = {}
        if how == 'Id' and len(t) == 1 and type(objs[0]) in (int, float, str, bytes):
            ranks = {v: i for i, v in enumerate(sorted(set(objs)))}
            keys = {id(x): ranks[x] for x in objs}
        what = [[self.num[id(x)], size(x), c(x), keys.get(id(x), 0)] for x in objs]
        def f():
            # Read from a twin, so that nothing has been looked at before.
            Y = HP.iso(*objs).by(X.er)
            return [[r.index, r.count, r.size, r.cumulsize, self.lab(r.name), self.ids(r.set.nodes)]
                    for r in Y.partition.get_rows()]
        if self.ask('part', [what, 'Id' if how == 'Id' else 'Set'], f, []):
            n = len(self.ev[-1]['r'])
            return self.add(part=X, rows=n)

    def index(self, n):
        rng = self.rng
        return rng.choice([rng.randrange(n), rng.randrange(n), n - 1, 0, -1, -n, n, -n - 1, -2 * n - 1, rng.randrange(-n, n)]) if n else \
            rng.choice([0, -1, 1])

    def bounds(self, n):
        rng = self.rng
        p = lambda: rng.choice([None, None, 0, n, rng.randint(-n - 2, n + 2), rng.randint(0, n), rng.randint(0, n)])
        return slice(p(), p(), rng.choice([None, None, None, 1, 2, 3, n + 1]))

    def triple(self, s, n):
        a, b, c = s.indices(n)
        k = len(range(a, b, c))
        return [a if k else 0, k, c]

    def ask_part(self, t):
        rng = self.rng
        X, n = self.parts[t], self.rowtabs[t]
        q = rng.choice(['set', 'set', 'slice', 'slice', 'row', 'rows', 'len', 'show', 'stat', 'refused', 'fast', 'rowset'])
        if q == 'set':
            i = self.index(n)
            self.ask('set', [t, i], lambda: self.ids(X[i].nodes), [-1])
        elif q == 'rowset':
            i = rng.randrange(n)
            self.ask('set', [t, i], lambda: self.ids(X.partition.get_row(i).set.nodes), [-1])
        elif q == 'slice':
            s = self.bounds(n)
            self.ask('slice', [t] + self.triple(s, n), lambda: self.ids(X[s].nodes), [-1])
        elif q == 'refused':
            s = slice(None, None, rng.choice([-1, -2]))
            self.ask('refused', [], lambda: [X[s], 0][1])
        elif q == 'row':
            i = rng.randrange(n + 2)
            self.ask('row', [t, i], lambda: self.cells(X.partition.get_row(i)), [-1])
        elif q == 'rows':
            i = rng.randrange(n + 1)
            self.ask('rows', [t, i], lambda: [self.cells(r) for r in X.partition.get_rows(i)], [[-1]])
        elif q == 'len':
            self.ask('len', [t], lambda: len(X))
        elif q == 'stat':
            if self.ask('stat', [t], lambda: [self.keep(X.stat), 0][1]):
                self.add(stat=self.kept, rows=n)
        elif q == 'fast':
            # a set taken from a row is shown as a table of its own
            i = rng.randrange(n)
            if self.ask('index', [t, i], lambda: [self.keep(X[i]), 0][1]):
                u = self.add(part=self.kept, rows=1)
                if X.partition.__class__.__name__ == 'IdentityPartition':
                    return
                self.ask('rows', [u, 0], lambda: [self.cells(r) for r in self.parts[u].partition.get_rows()], [[-1]])
                self.show(u)
        else:
            self.show(t)

    def keep(self, x):
        self.kept = x

    def cells(self, r):
        return [r.count, r.size, self.lab(r.name), r.index, r.cumulsize]

    # ----------------------------------------------------------- statistics
    def stats(self):
        return list(self.tabs)

    def told(self, s):
        return [s.count, s.size, self.text(s.kindheader), self.text(s.kindname), s.format_name[:-6], self.text('%f' % s.timemade)]

    def ask_stat(self, t):
        rng = self.rng
        S, n = self.tabs[t], self.rowtabs[t]
        q = rng.choice(['row', 'row', 'rows', 'len', 'head', 'index', 'slice', 'diff', 'diff', 'kinds', 'other', 'show',
                        'dump', 'dump', 'load', 'load'])
        if q == 'row':
            i = rng.randrange(n + 2)
            self.ask('row', [t, i], lambda: self.cells(S.get_row(i)), [-1])
        elif q == 'rows':
            i = rng.randrange(n + 1)
            self.ask('rows', [t, i], lambda: [self.cells(r) for r in S.get_rows(i)], [[-1]])
        elif q == 'len':
            self.ask('len', [t], lambda: len(S))
        elif q == 'head':
            self.ask('head', [t], lambda: self.told(S), [-1, -1, -1, -1, '', -1])
        elif q == 'index':
            i = self.index(n)
            if self.ask('index', [t, i], lambda: [self.keep(S[i]), 0][1]):
                self.add(stat=self.kept, rows=1, fresh=False)
        elif q == 'slice':
            s = self.bounds(n)
            if rng.random() < .2:
                s = slice(s.start, s.stop, rng.choice([-1, -2]))
            c = self.triple(s, n)
            if self.ask('cut', [t] + c, lambda: [self.keep(S[s]), 0][1]):
                self.add(stat=self.kept, rows=c[1], fresh=False)
        elif q == 'diff':
            u = rng.choice([x for x in self.stats() if self.tabs[x].kindheader == S.kindheader])
            T = self.tabs[u]
            def f():
                self.keep(S - T)
                D = S - T
                return [[r.count, r.size, self.lab(r.name)] for r in D.get_rows()]
            if self.ask('diff', [t, u], f, []):
                self.add(stat=self.kept, rows=len(self.ev[-1]['r']))
        elif q == 'kinds':
            have = sorted({r.name for r in S.get_rows()} | {'nosuch', 'A'})
            ks = rng.sample(have, rng.randint(0, min(len(have), 4)))
            def f():
                return [[-1] if r is None else self.cells(r) for r in S.get_rows_of_kinds(ks)]
            self.ask('kinds', [t, [self.lab(k) for k in ks]], f, [])
        elif q == 'other':
            k = rng.randrange(n + 3)
            by = rng.choice(['Size', 'Count'])
            real = {id(r) for r in S.get_rows()}
            def f():
                return [[r.count, r.size, self.lab(r.name) if id(r) in real else -1] for r in S.get_rows_n_and_other(k, by)]
            self.ask('other', [t, k, by], f, [])
        elif q == 'dump':
            self.dump(t)
        elif q == 'load':
            self.load()
        else:
            self.show(t)

    # ---------------------------------------------------------------- files
    def path(self, f):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='tables-')
            self.files = {}
        return os.path.join(self.dir, 'f%s' % f)

    def dump(self, t):
        rng = self.rng
        f = rng.randint(1, 3)
        p = self.path(f)
        mode = rng.choice(['a', 'a', 'a', 'a', 'w'])
        if mode == 'w' and os.path.exists(p):
            os.rename(p, p + '.%d' % len(self.ev))      # may be in use
        how = rng.choice(['name', 'name', 'open'])
        def g():
            if how == 'name':
                self.tabs[t].dump(p, mode) if mode == 'w' or rng.random() < .5 else self.tabs[t].dump(p)
            else:
                with open(p, mode) as o:
                    self.tabs[t].dump(o)
            return 0
        if self.ask('dump', [t, f, mode], g):
            c = open(p, newline='').read()
            self.files[f] = (self.files.get(f, []) if mode == 'a' else []) + [(t, len(c))]

    def load(self):
        rng = self.rng
        if self.dir is None or not self.files:
            return
        f = rng.choice(sorted(self.files))
        p = self.path(f)
        tabs = self.files[f]
        q = rng.choice(['name', 'name', 'seq', 'iter', 'all', 'allname', 'cut', 'cut', 'cutname'])
        whole = lambda s: [self.told(s), [self.cells(r) for r in s.get_rows()]]
        bad = [[[-1, -1, -1, -1, '', -1], []]] * (len(tabs) + 1)
        if q in ('name', 'seq'):
            fn = p if q == 'name' else list(open(p))
            if self.ask('load', [f, 1], lambda: [self.keep(HP.load(fn)), 0][1]):
                self.add(stat=self.kept, rows=self.rowtabs[tabs[0][0]], fresh=False)
        elif q == 'iter':
            k = rng.randint(1, len(tabs))
            o = open(p)
            use = rng.choice([0, 1])
            def g():
                for _ in range(k):
                    s = HP.load(o, use_readline=use)
                self.keep(s)
                return 0
            if self.ask('load', [f, k], g):
                self.add(stat=self.kept, rows=self.rowtabs[tabs[k - 1][0]], fresh=False)
        elif q in ('all', 'allname'):
            self.ask('loadall', [f], lambda: [whole(s) for s in HP.loadall(p if q == 'allname' else open(p))], bad)
        else:
            text = open(p, newline='').read()
            near = rng.random() < .3
            pos = rng.randrange(len(text) + 1)
            if near:
                e = rng.choice(tabs)[1]
                pos = max(0, min(len(text), e - rng.randint(0, 40)))
            n = sum(e <= pos for t, e in tabs)
            if q == 'cutname':
                tmp = self.path('cut%d' % len(self.ev))
                open(tmp, 'w', newline='').write(text[:pos])
                n = min(n, 1)
            src = io.StringIO(text[:pos]) if q == 'cut' else None
            def g():
                res = []
                while 1:
                    try:
                        s = HP.load(src if src else tmp)
                    except StopIteration:
                        break
                    except Exception:
                        if len(res) < n:
                            raise
                        break
                    if len(res) < n:
                        res.append(whole(s))
                    else:
                        # Not wholly written: it may be unusable, but what
                        # rows it gives must be right.
                        rows = []
                        try:
                            for r in s.get_rows():
                                rows.append(self.cells(r))
                        except Exception:
                            pass
                        res.append([[-1, -1, -1, -1, '', -1], rows])
                        break
                    if not src:
                        break
                return res
            self.ask('broken', [f, n], g, bad[:n] + [[[-1, -1, -1, -1, '', -1], [[-1]] * 1000]])

    # ---------------------------------------------------------------- pages
    def listing(self, t):
        return self.parts.get(t) if t in self.parts else self.tabs[t]

    def page(self, tab, obj, o, a):
        self.pages += 1
        self.pg[self.pages] = (tab, obj, o)
        self.emit(o, a)
        return self.pages

    def show(self, t):
        """A walk over the pages of a listing."""
        rng = self.rng
        p = self.page(t, self.listing(t), 'top', [t])
        mine = [p]
        steps = rng.choice([1, 2, 4, 8]) if rng.random() < .8 else 40
        for _ in range(steps):
            if rng.random() < .8:
                self.look(p)
            tab, obj, o = self.pg[p]
            x = rng.random()
            try:
                if x < .7:
                    p = self.page(t, obj.more, 'more', [p]) if o != 'all' else rng.choice(mine)
                elif x < .8:
                    if o != 'all':
                        p = self.page(t, obj.all, 'all', [p])
                elif x < .9:
                    if o == 'more':
                        q = self.page(t, obj.prev, 'prev', [p])
                        self.pg[q] = (t, self.pg[q][1], self.pg[self.back[p]][2])
                        self.back[q] = self.back.get(self.back[p])
                        p = q
                    else:
                        p = rng.choice(mine)
                else:
                    p = rng.choice(mine)
            except AttributeError as e:
                self.raised('refused', [], 0, e)
                return
            mine.append(p)
            if self.ev[-1]['o'] in ('more', 'all') and self.pages == p:
                self.back[p] = self.ev[-1]['a'][0]

    back = {}

    def look(self, p):
        t, obj, o = self.pg[p]
        self.ask('page', [p], lambda: self.read(repr(obj), t), dict(rows=[[-1]] * 1000, label=[], more=[], hdr=0, empty=0))

    FORMS = {
        'Set': r' *(\d+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+)(?: (.*))?$',
        'Id': r' *(\d+) +(\d+) +([\d.]+) +(\d+) +([\d.]+)(?: (.*))?$',
        'Diff': r' *(\d+) +(-?\d+) +(-?\d+) +(-?\d+) +(\(n\.a\.\)|[-+.e\d]+)(?: (.*))?$'}

    def read(self, text, t):
        X = self.listing(t)
        form = X.partition.format.__class__.__name__[:-6] if t in self.parts else X.format_name[:-6]
        lines = text.split('\n')
        label, more, hdr, rows = [], [], 0, []
        def ints(pat, line, n):
            m = re.match(pat, line)
            assert m, (pat, line)
            return [int(x) for x in m.groups()[:n]]
        if lines[0].startswith('Partition of'):
            label = ints(r'Partition of a set of (\d+) objects?\. Total size = (\d+) bytes\.$', lines.pop(0), 2)
        elif lines[0].startswith('Set of'):
            label = ints(r'Set of (\d+) .* objects?\. Total size = (\d+) bytes\.$', lines.pop(0), 2)
        elif lines[0].startswith('Summary of'):
            assert lines[1].split() == ['Count', 'Size']
            for i, c in ((2, 'A'), (3, 'B'), (4, 'A-B')):
                label += ints(r' *%s +(-?\d+) +(-?\d+)' % c, lines[i], 2)
            del lines[:5]
            if lines and lines[0] == '':
                assert lines[1].startswith('Differences by kind')
                del lines[:2]
        if lines and lines[0].startswith(' Index'):
            hdr = 1
            lines.pop(0)
        if lines:
            m = re.match(r"<(\d+) more rows\. Type e\.g\. '_\.more' to view\.>$", lines[-1])
            if m:
                more = [int(m.group(1))]
                lines.pop()
        for line in lines:
            if not line:
                continue
            if not line[:6].strip():
                rows[-1][-1] += line.strip()
                continue
            m = re.match(self.FORMS[form], line)
            assert m, line
            g = list(m.groups())
            name = g.pop() or ''
            if form == 'Id':
                row = [int(g[0]), int(g[1]), round(float(g[2]) * 10), int(g[3]), round(float(g[4]) * 10)]
            elif form == 'Set':
                row = [int(x) for x in g]
            else:
                row = [int(x) for x in g[:4]] + self.three(g[4])
            rows.append(row + [name])
        for r in rows:
            r[-1] = ('S', squeeze(r[-1]))
        return dict(label=label, more=more, hdr=hdr, rows=rows, empty=0)

    def three(self, s):
        if s == '(n.a.)':
            return [0, 99]
        d = Decimal(s)
        if not d:
            return [0, 0]
        sign, digits, e = d.as_tuple()
        m = int(''.join(map(str, digits)))
        while m < 100:
            m *= 10
            e -= 1
        while m >= 1000 and m % 10 == 0:
            m //= 10
            e += 1
        return [-m if sign else m, e]

    # lines of a listing made by someone
    def lines(self):
        rng = self.rng
        n = rng.choice([0, 0, 1, 2, 3, 5, 9, 10, 11, 12, 20, 21, 22, 23, rng.randint(0, 60)])
        k = rng.choice([None, 1, 2, 3, 5, 10])
        told = rng.random() < .4
        stops = sorted(i for i in range(n) if rng.random() < .3)
        world = self
        def get_lines():
            for i in range(n):
                yield ('STOP_AFTER', 'line %d' % i) if i in stops else 'line %d' % i
        class Client:
            _hiding_tag_ = HP._hiding_tag_
            _oh_get_line_iter = staticmethod(get_lines)
            def _oh_get_label(self):
                return 'The label'
            def _oh_get_num_lines(self):
                return n
            def _oh_get_row_header(self):
                return 'The header'
            def _oh_get_empty_msg(self):
                return 'Nothing'
        c = Client()
        HP._parent.OutputHandling.setup_printing(c, stop_only_when_told=told, max_more_lines=k)
        p = self.page(0, c, 'lines', [n, k or self.max, stops if told else [-1]])
        self.read_table, self.read = self.read, self.read_lines
        x = self.show
        mine = [p]
        for _ in range(rng.choice([1, 3, 8, 30])):
            if rng.random() < .8:
                self.look(p)
            tab, obj, o = self.pg[p]
            y = rng.random()
            if y < .7 and o != 'all':
                q = self.page(0, obj.more, 'more', [p])
                self.back[q] = p
            elif y < .8 and o != 'all':
                q = self.page(0, obj.all, 'all', [p])
            elif y < .9 and o == 'more':
                q = self.page(0, obj.prev, 'prev', [p])
                self.pg[q] = (0, self.pg[q][1], self.pg[self.back[p]][2])
                self.back[q] = self.back.get(self.back[p])
            else:
                q = rng.choice(mine)
            mine.append(q)
            p = q
        self.read = self.read_table

    def read_lines(self, text, t):
        lines = text.split('\n') if text else []
        res = dict(label=[], more=[], hdr=0, rows=[], empty=0)
        for line in lines:
            m = re.match(r'line (\d+)$', line)
            if m:
                res['rows'].append(int(m.group(1)))
            elif line == 'The label':
                res['label'].append(1)
            elif line == 'The header':
                res['hdr'] += 1
            elif line == 'Nothing':
                res['empty'] += 1
            else:
                m = re.match(r"<Lines (\d+)\.\.(\d+) of (\d+)\. Type e\.g\. '_\.more' for more\.>$", line)
                res['more'] += [int(x) for x in m.groups()]
        return res


def start():
    global HP
    if HP is None:
        from guppy import hpy
        HP = hpy()
    return HP


def run(rng, plan):
    start()
    w = World(rng)
    w.back = {}
    try:
        plan(w, rng)
        return w.done()
    finally:
        if w.dir:
            shutil.rmtree(w.dir)


def parts(rng, i):
    def plan(w, rng):
        w.make(far=i % 10 == 0)
        for _ in range(rng.randint(1, 3)):
            t = w.part()
            if t:
                for _ in range(rng.randint(3, 12)):
                    w.ask_part(t)
    return run(rng, plan)


def stats(rng, i):
    def plan(w, rng):
        for _ in range(rng.randint(1, 3)):
            w.make(far=i % 25 == 0)
            for _ in range(rng.randint(1, 3)):
                t = w.part()
                if t and w.ask('stat', [t], lambda: [w.keep(w.parts[t].stat), 0][1]):
                    w.add(stat=w.kept, rows=w.rowtabs[t])
        for _ in range(rng.randint(5, 25)):
            if w.stats():
                w.ask_stat(rng.choice(w.stats()))
    return run(rng, plan)


def files(rng, i):
    def plan(w, rng):
        for _ in range(rng.randint(1, 3)):
            w.make()
            for _ in range(rng.randint(1, 2)):
                t = w.part()
                if t and w.ask('stat', [t], lambda: [w.keep(w.parts[t].stat), 0][1]):
                    w.add(stat=w.kept, rows=w.rowtabs[t])
        for _ in range(rng.randint(8, 25)):
            if w.stats():
                x = rng.random()
                if x < .3:
                    w.dump(rng.choice(w.stats()))
                elif x < .7:
                    w.load()
                else:
                    w.ask_stat(rng.choice(w.stats()))
    return run(rng, plan)


def breaks(rng, i):
    """A class whose name holds a line break, and one after it (no other
    scenario uses such names)."""
    rng = random.Random(1)
    def plan(w, rng):
        one, two = (type(n, (list,), {'__module__': 'w', '__slots__': ()}) for n in ('one\ntwo', 'three'))
        w.objs = [one(), one(), two()]
        w.num = {id(x): i + 1 for i, x in enumerate(w.objs)}
        X = HP.iso(*w.objs).byclodo
        what = [[w.num[id(x)], sys.getsizeof(x), int(type(x) is one), 0] for x in w.objs]
        w.ask('part', [what, 'Set'], lambda: [[r.index, r.count, r.size, r.cumulsize, w.lab(r.name), w.ids(r.set.nodes)]
                                              for r in X.partition.get_rows()], [])
        w.add(part=X, rows=2)
        w.ask('stat', [1], lambda: [w.keep(X.stat), 0][1])
        w.add(stat=w.kept, rows=2)
        def dump():
            w.kept.dump(w.path(1))
            return 0
        w.ask('dump', [2, 1, 'a'], dump)
        w.ask('load', [1, 1], lambda: [w.keep(HP.load(w.path(1))), 0][1])
        w.add(stat=w.kept, rows=2, fresh=False)
        S = w.kept
        w.ask('rows', [3, 0], lambda: [w.cells(r) for r in S.get_rows(0)], [[-1]])
    return run(rng, plan)


def pages(rng, i):
    def plan(w, rng):
        if rng.random() < .6:
            for _ in range(rng.randint(1, 4)):
                w.lines()
            return
        w.make(far=i % 5 == 0)
        for _ in range(rng.randint(1, 3)):
            t = w.part()
            if t:
                for _ in range(rng.randint(1, 3)):
                    w.show(t)
                if w.ask('stat', [t], lambda: [w.keep(w.parts[t].stat), 0][1]):
                    u = w.add(stat=w.kept, rows=w.rowtabs[t])
                    w.show(u)
    return run(rng, plan)


if __name__ == '__main__':
    main_traces(globals()[sys.argv[1]], sys.argv[2:])
