"""Objects of known structure, and the names the analyser gives to the
references between them."""
import functools, gc, re, sys, types, weakref
from tracelib import main_traces

class Inst: pass
class LSub(list): pass
class DSub(dict): pass
class TSub(tuple): pass
class SSub(set): pass
class Slotted: __slots__ = 'a', 'b'
class Slotted2(Slotted): __slots__ = 'c', 'd'
class SlottedD(Slotted): pass
class PartSub(functools.partial): pass
for c in (Inst, LSub, DSub, TSub, SSub, Slotted, Slotted2, SlottedD, PartSub):
    c.__module__ = 'w'


def maker(pick):
    """A function whose finished frame is the graph's: x and y are locals, c
    a cell."""
    def inner(x, y, c, get=sys._getframe):
        def use():
            return c
        del get
        return sys._getframe(), use
    return inner


def gmaker(x, c, items):
    for v in items:
        def use():
            return c
        yield use


NONE = type(None)


class Graph:
    def __init__(self, rng, hp):
        self.rng = rng
        self.hv = hp.View.hv
        self.path = hp._parent.Path
        self.ev = []
        self.obj = []
        self.kind = []
        self.num = {}
        self.x = []         # per node: bookkeeping
        self.nk = 0

    def emit(self, o, a, r=0, d=()):
        self.ev.append(dict(o=o, a=a, r=r, d=list(d)))

    def add(self, kind, obj, ty=0, attr=0, via=0, seq=(), map=(), fix=(), **extra):
        assert id(obj) not in self.num
        self.obj.append(obj)
        self.kind.append(kind)
        self.x.append(extra)
        n = len(self.obj)
        self.num[id(obj)] = n
        self.emit('new', [n, ty, attr, via, list(seq), [list(m) for m in map], [list(f) for f in fix], int(type(obj) is str)])
        return n

    def o(self, n):
        return self.obj[n - 1]
    def n(self, o):
        return self.num.get(id(o), 0)

    def pick(self, *kinds):
        c = [i + 1 for i, k in enumerate(self.kind) if not kinds or k in kinds]
        return self.rng.choice(c) if c else None

    def cls(self, default):
        """Mostly a class of the graph's, so that there is an edge to it."""
        return default

    # ------------------------------------------------------------- creation
    def attrs(self, x):
        """The attribute dictionary of a new object, as a node."""
        d = x.__dict__
        assert not d
        return self.add('D', d)
    def O(self): return self.add('O', object())
    def ST(self):
        self.nk += 1
        return self.add('ST', ''.join(['key', str(self.nk)]))
    def L(self):
        m = [self.pick() for _ in range(self.rng.randint(0, 3))]
        m = [i for i in m if i]
        return self.add('L', [self.o(i) for i in m], seq=m)
    def LS(self):
        x = LSub()
        d = self.attrs(x)
        return self.add('L', x, attr=d)
    def D(self): return self.add('D', {})
    def DS(self):
        x = DSub()
        d = self.attrs(x)
        return self.add('D', x, attr=d)
    def T(self):
        m = [self.pick() for _ in range(self.rng.randint(1, 4))]
        m = [i for i in m if i] or [self.O()]
        return self.add('T', tuple([self.o(i) for i in m]), seq=m)
    def TS(self):
        m = [self.pick() for _ in range(self.rng.randint(1, 4))]
        m = [i for i in m if i]
        x = TSub([self.o(i) for i in m])
        d = self.attrs(x)
        return self.add('T', x, attr=d, seq=m)
    def S(self): return self.add('S', set())
    def SS(self):
        x = SSub()
        d = self.attrs(x)
        return self.add('S', x, attr=d)
    HASH = ('O', 'I', 'U', 'F', 'B', 'FS', 'ST', 'K')
    def FS(self):
        m = sorted({i for i in (self.pick(*self.HASH) for _ in range(3)) if i}) or [self.O()]
        x = frozenset([self.o(i) for i in m])
        n = self.add('FS', x)
        for i in m:
            self.emit('sadd', [n, i])
        return n
    def I(self):
        k = self.pick('K') if self.rng.random() < .6 else None
        x = (self.o(k) if k else Inst)()
        if k and not hasattr(x, '__dict__'):
            return self.add('U', x, ty=k)
        d = self.attrs(x)
        return self.add('I', x, ty=k or 0, attr=d)
    def NS(self):
        x = types.SimpleNamespace()
        return self.add('NS', x, attr=self.attrs(x))
    def U(self): return self.add('U', Slotted(), names='ab')
    def U2(self): return self.add('U', Slotted2(), names='abcd')
    def UD(self):
        x = SlottedD()
        return self.add('U', x, attr=self.attrs(x), names='ab')
    def C(self):
        return self.add('C', types.CellType())
    def P(self):
        m = [self.pick() or self.O() for _ in range(3)]
        return self.add('P', property(*[self.o(i) for i in m]),
                        fix=[(1, a, i) for a, i in zip(('fget', 'fset', 'fdel'), m)])
    def SL(self):
        m = [self.pick() or self.O() for _ in range(3)]
        return self.add('SL', slice(*[self.o(i) for i in m]),
                        fix=[(1, a, i) for a, i in zip(('start', 'stop', 'step'), m)])
    def MP(self):
        d = self.pick('D')
        if not d:
            d = self.D()
        return self.add('MP', types.MappingProxyType(self.o(d)), via=d, fix=[(4, 'mapping', d)])
    def B(self):
        f, s = self.pick('F') or self.F(), self.pick()
        return self.add('B', types.MethodType(self.o(f), self.o(s)), fix=[(1, '__func__', f), (1, '__self__', s)])
    def BM(self):
        l = self.pick('L') or self.L()
        return self.add('BM', self.o(l).append, fix=[(1, '__self__', l)])
    def SM(self):
        f = self.pick('O', 'L', 'D', 'S', 'T') or self.O()
        mk = self.rng.choice([staticmethod, classmethod])
        try:
            x = mk(self.o(f))
            if x.__dict__:
                return self.O()
        except Exception:
            return self.O()
        d = self.attrs(x)
        return self.add('SM', x, attr=d, fix=[(1, '__func__', f), (1, '__wrapped__', f)])
    def PA(self):
        f = self.pick('F') or self.F()
        m = [self.pick() for _ in range(2)]
        x = self.rng.choice([functools.partial, PartSub])(self.o(f), *[self.o(i) for i in m], k=self.o(m[0]))
        t = self.add('T', x.args, seq=m)
        kw = self.add('D', x.keywords, map=[('k', 0, m[0])])
        d = self.attrs(x)
        return self.add('PA', x, attr=d, fix=[(1, 'func', f), (1, 'args', t), (1, 'keywords', kw)])
    def WR(self):
        f, s = self.pick('F') or self.F(), self.pick('F', 'I')
        if not s or not type(self.o(s)).__weakrefoffset__:
            return self.O()
        return self.add('WR', weakref.ref(self.o(s), self.o(f)), fix=[(1, '__callback__', f)])
    def MO(self):
        x = types.ModuleType('m')
        x.__dict__.clear()
        d = self.attrs(x)
        return self.add('MO', x, attr=d)
    def F(self):
        b = self.pick('D') if self.rng.random() < .5 else None
        if not b or '__builtins__' in self.o(b) or len(self.o(b)):
            b = self.D()
        g = {'__builtins__': self.o(b)}
        gn = self.add('D', g, map=[('__builtins__', 0, b)])
        code = self.code()
        m = [self.pick() for _ in range(2)]
        df = tuple([self.o(i) for i in m])
        fix = [(1, '__globals__', gn), (1, '__builtins__', b), (1, '__code__', code)]
        clo = None
        nf = len(self.o(code).co_freevars)
        if nf:
            cells = [self.pick('C') or self.C() for _ in range(nf)]
            clo = tuple([self.o(c) for c in cells])
        if self.rng.random() < .5:
            dn = self.add('T', df, seq=m)
            fix.append((1, '__defaults__', dn))
        else:
            df = None
        f = types.FunctionType(self.o(code), g, 'f', df, clo)
        if nf:
            fix.append((1, '__closure__', self.add('T', f.__closure__, seq=cells)))
        return self.add('F', f, fix=fix)
    def code(self):
        """Code with a constant of the graph."""
        k = self.rng.randint(0, 2)
        base = CODES[k]
        m = [self.pick() for _ in range(self.rng.randint(1, 3))]
        m = [i for i in m if i] or [self.O()]
        try:
            co = base.replace(co_consts=(None,) + tuple([self.o(i) for i in m]))
        except Exception:
            co = base.replace()
            m = []
        if id(co.co_consts) in self.num:
            raise AssertionError
        fix = []
        if m and len(co.co_consts) == len(m) + 1 and all(a is self.o(b) for a, b in zip(co.co_consts[1:], m)):
            t = self.add('T', co.co_consts, seq=[0] + m)
            fix = [(1, 'co_consts', t)]
        return self.add('CO', co, fix=fix)
    def K(self):
        base = self.pick('K') if self.rng.random() < .5 else None
        meta = self.pick('M') if not base and self.rng.random() < .5 else None
        mt = self.o(meta) if meta else type(self.o(base)) if base else type
        ns = {}
        r = self.rng.random()
        if r < .3:
            ns['__slots__'] = ('s', 't')
        k = mt('K', (self.o(base),) if base else (), ns)
        return self.klass('K', k, base, self.n(mt))
    def M(self):
        return self.klass('M', type('M', (type,), {}), None, 0)
    def klass(self, kind, k, base, meta):
        td = next(x for x in gc.get_referents(k) if type(x) is dict and '__module__' in x)
        dn = self.add('KD', td)
        n = self.add(kind, k, ty=meta, fix=[(1, '__dict__', dn)] + ([(1, '__base__', base)] if base else []),
                     dict=dn)
        for name in ('__dict__', '__weakref__'):
            if name in td:
                self.emit('put', [dn, name, 0, self.add('G', td[name], fix=[(1, '__objclass__', n)])])
        mro = self.add('T', k.__mro__, seq=[self.n(c) for c in k.__mro__])
        bases = self.add('T', k.__bases__, seq=[base or 0])
        self.emit('fix', [n, 1, '__mro__', mro])
        self.emit('fix', [n, 1, '__bases__', bases])
        return n
    def FR(self):
        """The frame of a finished call: it owns what it refers to."""
        m = [self.pick() for _ in range(3)]
        f, use = maker(self)(self.o(m[0]), self.o(m[1]), self.o(m[2]))
        cell = use.__closure__[0]
        c = self.add('C', cell, fix=[(1, 'cell_contents', m[2])])
        n = self.add('FR', f, fix=[(6, 'x', m[0]), (6, 'y', m[1]), (6, 'c', c), (7, 'c', m[2])], cell=c)
        fn = self.add('F0', use)
        self.emit('fix', [n, 6, 'use', fn])
        return n
    def GF(self):
        """The frame of a suspended generator."""
        m = [self.pick() for _ in range(2)]
        it = iter([1, 2])
        g = gmaker(self.o(m[0]), self.o(m[1]), it)
        use = next(g)
        it = g.gi_frame
        c = self.add('C', use.__closure__[0], fix=[(1, 'cell_contents', m[1])])
        n = self.add('FR', it, fix=[(6, 'x', m[0]), (6, 'c', c), (7, 'c', m[1])], gen=g, cell=c)
        fn = self.add('F0', use)
        self.emit('fix', [n, 6, 'use', fn])
        return n
    def TB(self):
        nxt = self.pick('TB') if self.rng.random() < .5 else None
        f = self.pick('FR') or self.FR()
        x = types.TracebackType(self.o(nxt) if nxt else None, self.o(f), 0, 1)
        return self.add('TB', x, fix=[(1, 'tb_frame', f)] + ([(1, 'tb_next', nxt)] if nxt else []))

    KINDS = ['O', 'ST', 'L', 'L', 'LS', 'D', 'D', 'DS', 'T', 'TS', 'S', 'S', 'SS', 'FS', 'I', 'I', 'I', 'NS', 'U', 'U2',
             'UD', 'C', 'P', 'SL', 'MP', 'B', 'BM', 'SM', 'PA', 'WR', 'MO', 'F', 'F', 'K', 'K', 'M', 'FR', 'GF', 'TB']
    def make(self, k):
        for _ in range(k):
            kind = self.rng.choice(self.KINDS)
            getattr(self, kind)()

    # ------------------------------------------------------------- mutation
    def change(self):
        rng = self.rng
        s = self.pick('L', 'D', 'S', 'I', 'NS', 'U', 'C', 'F', 'FR', 'K', 'M', 'MO', 'L', 'D', 'S')
        t = self.pick()
        if not s:
            return
        k, x, v = self.kind[s - 1], self.o(s), self.o(t)
        if k == 'L':
            if len(x) and rng.random() < .3:
                i = rng.randrange(len(x))
                del x[i]
                self.emit('del', [s, i + 1])
            else:
                i = rng.randint(0, len(x))
                x.insert(i, v)
                self.emit('ins', [s, i + 1, t])
        elif k == 'D':
            self.item(s, x, t)
        elif k == 'S':
            if len(x) and rng.random() < .3:
                y = rng.choice(sorted(x, key=id))
                x.remove(y)
                self.emit('sdel', [s, self.n(y)])
            else:
                t = self.pick(*self.HASH)
                if t:
                    x.add(self.o(t))
                    self.emit('sadd', [s, t])
        elif k in ('I', 'NS', 'MO') or k == 'U' and hasattr(x, '__dict__') and rng.random() < .5:
            d = x.__dict__
            if rng.random() < .2 and d:
                key = rng.choice(list(d))
                if type(key) is str and not id(key) in self.num:
                    delattr(x, key)
                    self.emit('drop', [self.n(d), key])
            else:
                key = 'k%d' % rng.randint(1, 4)
                setattr(x, key, v)
                self.emit('put', [self.n(d), key, 0, t])
        elif k == 'U':
            a = rng.choice(self.x[s - 1].get('names') or 'st')
            if hasattr(x, a) and rng.random() < .3:
                delattr(x, a)
                t = 0
            else:
                setattr(x, a, v)
            self.emit('fix', [s, 1, a, t])
        elif k == 'C':
            if rng.random() < .2:
                del x.cell_contents
                t = 0
            else:
                x.cell_contents = v
            self.emit('fix', [s, 1, 'cell_contents', t])
            for i, f in enumerate(self.x):
                if f.get('cell') == s:
                    self.emit('fix', [i + 1, 7, 'c', t])
        elif k == 'F':
            y = rng.random()
            if y < .4:
                # attributes of a function
                new = self.n(x.__dict__) == 0
                if new:
                    d = self.attrs(x)
                    # attr is set once: told as a new description of the object
                    self.emit('attr', [s, d])
                key = 'k%d' % rng.randint(1, 3)
                setattr(x, key, v)
                self.emit('put', [self.n(x.__dict__), key, 0, t])
            elif y < .6:
                x.__doc__ = v
                self.emit('fix', [s, 1, '__doc__', t])
            elif y < .8:
                x.__module__ = v
                self.emit('fix', [s, 1, '__module__', t])
            else:
                t = self.pick('T')
                if t and type(self.o(t)) is tuple:
                    if rng.random() < .5:
                        x.__defaults__ = self.o(t)
                        self.emit('fix', [s, 1, '__defaults__', t])
                    else:
                        x.__type_params__ = self.o(t)
                        self.emit('fix', [s, 1, '__type_params__', t])
        elif k == 'FR':
            if 'gen' in self.x[s - 1]:
                return
            y = rng.random()
            if y < .5:
                x.f_trace = v
                self.emit('fix', [s, 1, 'f_trace', t])
            elif y < .6:
                x.clear()
                for c, a in ((6, 'x'), (6, 'y'), (6, 'c'), (7, 'c'), (6, 'use'), (1, 'f_trace')):
                    self.emit('fix', [s, c, a, 0])
                self.x[s - 1].pop('cell', None)
        elif k in ('K', 'M'):
            key = 'k%d' % rng.randint(1, 3)
            setattr(x, key, v)
            self.emit('put', [self.x[s - 1]['dict'], key, 0, t])

    def item(self, s, x, t):
        rng = self.rng
        v = self.o(t)
        y = rng.random()
        if y < .2 and x:
            key = rng.choice(list(x))
            if key == '__builtins__':
                return
            del x[key]
            self.emit('drop', [s, self.text(key)])
        elif y < .5:
            kn = self.pick(*self.HASH)
            if kn:
                if self.kind[kn - 1] == 'FS' or any(key == self.o(kn) and key is not self.o(kn) for key in x):
                    return
                x[self.o(kn)] = v
                self.emit('put', [s, '#%d' % kn, kn, t])
        else:
            key = rng.choice(['k1', 'k2', 'k3', 7])
            if any(key == q and q is not key for q in x):
                return
            x[key] = v
            self.emit('put', [s, self.text(key), 0, t])

    # -------------------------------------------------------------- queries
    def text(self, r):
        if id(r) in self.num:
            return '#%d' % self.num[id(r)]
        return r if type(r) is str else repr(r)

    def counts(self):
        g = sys.getrefcount
        return [g(x) for x in self.obj]

    def asking(self, o, a, f):
        before = self.counts()
        r = f()
        after = self.counts()
        self.emit(o, a, r, [i + 1 for i in range(len(before)) if before[i] != after[i]])

    def orders(self):
        for i, k in enumerate(self.kind):
            if k in ('S', 'FS'):
                self.emit('order', [i + 1], [self.n(y) for y in self.obj[i]])

    def rel(self, s, t):
        x, y = self.o(s), self.o(t)
        def f():
            out = []
            for code, names in enumerate(self.hv.relate(x, y)):
                for r in names:
                    out.append([code, self.text(r)])
            return out
        self.asking('rel', [s, t], f)

    def follow(self, s, t):
        """Follows each printed name."""
        if self.kind[s - 1] in ('FR', 'BM'):
            return
        def f():
            out = []
            for r in self.path.relations(self.o(s), self.o(t)):
                e = r.stra('X', safe=False)
                if '->' in e or '<' in e or e == 'X' or re.match(r'X\.\d', e):
                    continue
                e = re.sub(r'^X((?:\.__dict__)?)\.keys\(\)\[(\d+)\]$', r'list(X\1.keys())[\2]', e)
                if e.startswith('X[') and not re.match(r"X\[(\d+|'[^']*')\]$", e):
                    continue
                try:
                    y = eval(e, {'X': self.o(s), 'list': list, '__builtins__': {}})
                except Exception as ex:
                    out.append(-1)
                    continue
                if e == 'X.__doc__' or e == 'X.__dict__' and self.kind[s - 1] in 'KM':
                    continue
                out.append(self.n(y))
                del y
            return out
        self.asking('eval', [s, t], f)

    def direct(self, s):
        self.asking('direct', [s], lambda: sorted(self.n(y) for y in self.hv.relimg([self.o(s)]) if self.n(y)))


def _codes():
    a = b = 0
    return [f.__code__ for f in ((lambda: 0), (lambda: a), (lambda: (a, b)))]
CODES = _codes()

HP = None
def use():
    global HP
    if HP is None:
        from guppy import hpy
        HP = hpy()
        HP._parent.Path
    return HP


def names(rng, i):
    hp = use()
    g = Graph(rng, hp)
    g.O()
    g.L()
    g.make(rng.randint(2, 9))
    for _ in range(rng.randint(0, 12)):
        g.change()
    for _ in range(rng.randint(1, 3)):
        g.orders()
        n = len(g.obj)
        P = [(s, t) for s in range(1, n + 1) for t in range(1, n + 1)]
        for s, t in rng.sample(P, min(len(P), 60)):
            g.rel(s, t)
        for s in range(1, n + 1):
            ref = {g.n(y) for y in gc.get_referents(g.o(s))} - {0}
            for t in sorted(ref):
                g.rel(s, t)
                g.follow(s, t)
            g.direct(s)
        for _ in range(rng.randint(1, 6)):
            g.change()
    return dict(ev=g.ev, kinds=g.kind)


class Prof:
    def __call__(self, *a): pass


def deep(k, hold, ready, done, top):
    x = hold
    if k:
        deep(k - 1, hold, ready, done, top)
    else:
        top.append(sys._getframe())
        ready.set()
        done.wait()


def roots(rng, i):
    """What the interpreter and thread structures refer to."""
    import builtins, threading
    hp = use()
    g = Graph(rng, hp)
    R = hp.View.heapyc.RootState
    g.add('R', R)
    fix = [(1, 'i0_modules', g.add('D', sys.modules)), (1, 'i0_sysdict', g.add('D', sys.__dict__)),
           (1, 'i0_builtins', g.add('D', builtins.__dict__)),
           (1, 'i0_importlib', g.add('MO', sys.modules['_frozen_importlib'])),
           (1, 'i0_import_func', g.add('O', builtins.__import__))]
    for f in fix:
        g.emit('fix', [1] + list(f))
    g.O()
    g.L()
    ts = []
    for _ in range(rng.randint(0, 2)):
        h = g.O()
        done, ready, top = threading.Event(), threading.Event(), []
        t = threading.Thread(target=deep, args=(rng.randint(0, 3), g.o(h), ready, done, top), daemon=True)
        t.start()
        ready.wait()
        f, st = top.pop(), []
        while f:
            st.append(f)
            f = f.f_back
        st.reverse()
        nums = []
        for k, f in enumerate(st):
            n = g.add('FR', f)
            g.emit('fix', [1, 1, 'i0_t%d_f%d' % (t.ident, k), n])
            if f.f_builtins is builtins.__dict__:
                g.emit('fix', [n, 1, 'f_builtins', 4])
            if f.f_globals is sys.__dict__:
                g.emit('fix', [n, 1, 'f_globals', 3])
            if nums:
                g.emit('fix', [n, 1, 'f_back', nums[-1]])
            nums.append(n)
            if f.f_code is deep.__code__:
                g.emit('fix', [n, 6, 'x', h])
                g.emit('fix', [n, 6, 'hold', h])
        del f, st
        ts.append((t, done))
    me = threading.get_ident()
    f, st = sys._getframe(), []
    while f:
        st.append(f)
        f = f.f_back
    st.reverse()
    for k, f in enumerate(st):
        g.emit('fix', [1, 1, 'i0_t%d_f%d' % (me, k), g.add('F0', f)])
    del f, st
    def ask():
        for t in rng.sample(range(1, len(g.obj) + 1), min(8, len(g.obj))):
            g.rel(1, t)
        for t in range(1, len(g.obj) + 1):
            if any(e['o'] == 'fix' and e['a'][0] == 1 and e['a'][3] == t for e in g.ev):
                g.rel(1, t)
                g.follow(1, t)
    ask()
    for s in range(1, len(g.obj) + 1):
        if g.kind[s - 1] == 'FR':
            for t in range(1, len(g.obj) + 1):
                g.rel(s, t)
    x = rng.random()
    try:
        if x < .3:
            p = g.add('O', Prof())
            sys.setprofile(g.o(p))
            g.emit('fix', [1, 1, 'i0_t%d_c_profileobj' % me, p])
            ask()
        elif x < .6:
            p = g.add('O', Prof())
            sys.settrace(g.o(p))
            g.emit('fix', [1, 1, 'i0_t%d_c_traceobj' % me, p])
            ask()
        elif x < .8:
            try:
                raise ValueError
            except ValueError as e:
                p = g.add('O', e)
                g.emit('fix', [1, 1, 'i0_t%d_exc_value' % me, p])
                ask()
    finally:
        sys.setprofile(None)
        sys.settrace(None)
        for t, done in ts:
            done.set()
            t.join()
        for x in g.obj:
            if isinstance(x, BaseException):
                x.__traceback__ = None
        g.obj.clear()
    return dict(ev=g.ev, kinds=g.kind)


if __name__ == '__main__':
    gc.disable()
    main_traces({"names": names, "roots": roots}[sys.argv[1]], sys.argv[2:])
