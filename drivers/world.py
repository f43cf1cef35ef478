"""Random object graphs of known shape, and what the analyser says about them.

Every object of the graph is a numbered node; the references each object
holds are known by construction (from what the language says the object
holds).  Answers are projected to the numbered objects.  Nothing outside the
graph leads back into it."""
import gc, importlib.util, sys, types
from tracelib import main_traces

CODE = (lambda: 0).__code__
def _mk():
    a = b = c = 0
    return [f.__code__ for f in ((lambda: a), (lambda: (a, b)), (lambda: (a, b, c)))]
CODES = _mk()


class World:
    def __init__(self, rng, log=True):
        self.rng = rng
        self.ev = []
        self.obj = []          # node number - 1 -> object
        self.kind = []
        self.num = {}          # id -> node number
        self.extra = {}        # per node: bookkeeping of the maker
        self.lazy = []         # (node, owner): owner's __dict__, not yet looked at
        self.adj = {}
        self.nkey = 0
        self.tag = None
        self.hidden = set()
        self.log = log

    # ------------------------------------------------------------ recording
    def emit(self, o, a, r=0, d=()):
        self.ev.append(dict(o=o, a=a, r=r, d=sorted(d)))

    def add(self, kind, obj, refs, **extra):
        self.obj.append(obj)
        self.kind.append(kind)
        n = len(self.obj)
        if obj is not None:
            self.num[id(obj)] = n
        self.extra[n] = extra
        self.adj[n] = list(refs)
        self.emit('new', [n, list(refs)])
        return n

    def settle(self):
        """Finds the attribute dictionaries that were left unlooked at."""
        for n, owner in self.lazy:
            d = self.obj[owner - 1].__dict__
            self.obj[n - 1] = d
            self.num[id(d)] = n
        self.lazy = []

    def o(self, n):
        return self.obj[n - 1]

    def ids(self, objs):
        self.settle()
        num = self.num
        return sorted(num[id(x)] for x in objs if id(x) in num)

    def pick(self, *kinds):
        c = [i + 1 for i, k in enumerate(self.kind) if (not kinds or k in kinds) and self.obj[i] is not None]
        return self.rng.choice(c) if c else None

    def some(self, lo, hi, *kinds):
        return [n for n in (self.pick(*kinds) for _ in range(self.rng.randint(lo, hi))) if n]

    # ------------------------------------------------------------- creation
    def L(self):
        return self.add('L', [], [])
    def LS(self):
        x = LSub()
        n = self.add('LS', x, [])
        d = self.add('D', x.__dict__, [])
        self._link(n, d)
        return n
    def D(self):
        return self.add('D', {}, [])
    def DS(self):
        x = DSub()
        n = self.add('DS', x, [])
        d = self.add('D', x.__dict__, [])
        self._link(n, d)
        return n
    def S(self):
        return self.add('S', set(), [])
    def Q(self):
        x = types.SimpleNamespace()
        n = self.add('Q', x, [])
        self._link(n, self.add('D', x.__dict__, []))
        return n
    def SL(self):
        m = self.some(3, 3)
        return self.add('SL', slice(*[self.o(i) for i in m]), m)
    def MP(self):
        d = self.pick('D', 'DS') or self.D()
        return self.add('MP', types.MappingProxyType(self.o(d)), [d])
    def O(self):
        return self.add('O', object(), [])
    def T(self):
        m = self.some(0, 4)
        if not m:
            m = [self.O()]
        if len(m) == 1:
            m = m * 2
        return self.add('T', tuple([self.o(i) for i in m]), m)
    HASHABLE = ('O', 'I', 'U', 'F', 'B', 'K', 'FS')
    def FS(self):
        m = []
        for i in sorted(set(self.some(1, 4, *self.HASHABLE))) or [self.O()]:
            if all(self.o(i) != self.o(j) for j in m):    # of equal objects a set has but one
                m.append(i)
        return self.add('FS', frozenset([self.o(i) for i in m]), m)
    def I(self):
        cls = self.pick('K') if self.rng.random() < .4 else None
        x = (self.o(cls) if cls else Inst)()
        n = self.add('I', x, [cls] if cls else [])
        if self.rng.random() < .5:
            d = self.add('D', x.__dict__, [])
            self._link(n, d)
        else:
            # its attributes are not yet in a dictionary of their own
            d = self.add('ID', None, [])
            self.lazy.append((d, n))
            self._link(n, d)
            for m in self.some(0, 3):
                setattr(x, 'i%d' % m, self.o(m))
                if m not in self.adj[d]:
                    self._link(d, m)
        return n
    def U(self):
        return self.add('U', Slotted(), [], slots={})
    def C(self):
        return self.add('C', types.CellType(), [])
    def F(self):
        cells = self.some(0, 3, 'C')
        k = len(cells)
        g = {'__builtins__': {}}
        gn = self.add('D', g, [])
        clo = tuple([self.o(c) for c in cells]) if cells else None
        dn = None
        defaults = None
        if self.rng.random() < .4:
            m = self.some(1, 3) or [gn]
            defaults = tuple([self.o(i) for i in m])
            dn = self.add('T', defaults, m)
        f = types.FunctionType(CODES[k - 1] if k else CODE, g, 'f', defaults, clo)
        refs = [gn]
        if dn:
            refs.append(dn)
        if cells:
            refs.append(self.add('T', clo, cells))
        return self.add('F', f, refs)
    def B(self):
        f = self.pick('F') or self.F()
        s = self.pick()
        return self.add('B', types.MethodType(self.o(f), self.o(s)), [f, s])
    def P(self):
        m = self.some(3, 3)
        return self.add('P', property(*[self.o(i) for i in m]), m)
    def K(self):
        base = self.pick('K') if self.rng.random() < .5 else None
        ns = {'a%d' % m: m for m in sorted(set(self.some(0, 3)))}
        meta = self.pick('M') if not base and self.rng.random() < .5 else None
        mt = self.o(meta) if meta else type
        if base:
            mt = type(self.o(base))
        d = {k: self.o(v) for k, v in ns.items()}
        k = mt('K', (self.o(base),) if base else (), d)
        return self._class('K', k, base, list(ns.values()), self.num.get(id(mt)))
    def M(self):
        return self._class('M', type('M', (type,), {}), None, [], None)
    def X(self):
        """An extension module of its own, and the type it made."""
        spec = importlib.util.find_spec('_random')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        del m.__loader__, m.__spec__        # these lead to the modules of the program
        k = m.Random
        n = self.add('X', k, [])
        td = next(x for x in gc.get_referents(k) if type(x) is dict and '__module__' in x)
        self._link(n, self.add('TD', td, [self.add('G', v, [n]) for v in td.values()
                                          if any(r is k for r in gc.get_referents(v))]))
        self._link(n, self.add('T', k.__mro__, [n]))
        self._link(n, self.add('T', k.__bases__, []))
        mn = self.add('MO', m, [n, self.add('D', m.__dict__, [n])])
        self._link(n, mn)
        return n
    def _class(self, kind, k, base, vals, meta):
        n = self.add(kind, k, [])
        if base:
            self._link(n, base)
        if meta:
            self._link(n, meta)
        td = next(x for x in gc.get_referents(k) if type(x) is dict and '__module__' in x)
        descr = [td[a] for a in ('__dict__', '__weakref__') if a in td]
        dn = self.add('KD', td, vals + [self.add('G', g, [n]) for g in descr])
        self._link(n, dn)
        mro = k.__mro__
        mn = self.add('T', mro, [self.num[id(c)] for c in mro if id(c) in self.num])
        self._link(n, mn)
        bn = self.add('T', k.__bases__, [base] if base else [])
        self._link(n, bn)
        return n

    def make(self, k):
        for _ in range(k):
            getattr(self, self.rng.choice(
                ['L', 'L', 'D', 'T', 'I', 'I', 'U', 'S', 'C', 'F', 'B', 'P', 'Q', 'SL', 'MP', 'O', 'LS', 'DS', 'FS', 'K', 'M'] + ['X'] * (self.rng.random() < .3)))()

    # ------------------------------------------------------------- mutation
    def _link(self, s, t):
        self.adj[s].append(t)
        self.emit('link', [s, t])
    def _unlink(self, s, t):
        assert t in self.adj[s], (s, self.kind[s-1], t, self.kind[t-1], self.adj[s], self.o(s))
        self.adj[s].remove(t)
        self.emit('unlink', [s, t])

    def link(self, s=None, t=None):
        rng = self.rng
        s = s or self.pick('L', 'LS', 'D', 'DS', 'S', 'U', 'C', 'I', 'KD', 'ID')
        if not s:
            return
        k, x = self.kind[s - 1], self.o(s)
        if k == 'S':
            t = t or self.pick(*self.HASHABLE)
            if not t or self.kind[t - 1] not in self.HASHABLE or self.o(t) in x:
                return
            x.add(self.o(t))
            self._link(s, t)
            return
        t = t or self.pick()
        v = self.o(t)
        if v is None:
            return
        if k in ('L', 'LS'):
            if rng.random() < .5:
                x.append(v)
            else:
                x.insert(0, v)
            self._link(s, t)
        elif k in ('D', 'DS'):
            if rng.random() < .25 and self.kind[t - 1] in self.HASHABLE and v not in x:
                w = self.pick()
                if self.o(w) is None:
                    return
                x[v] = self.o(w)
                self._link(s, t)
                self._link(s, w)
            else:
                self.nkey += 1
                x['k%d' % self.nkey] = v
                self._link(s, t)
        elif k == 'U':
            slots = self.extra[s]['slots']
            a = rng.choice('ab')
            if a in slots:
                self._unlink(s, slots[a])
            setattr(x, a, v)
            slots[a] = t
            self._link(s, t)
        elif k == 'C':
            if self.adj[s]:
                self._unlink(s, self.adj[s][0])
            x.cell_contents = v
            self._link(s, t)
        elif k == 'I':
            # through the attribute, whether or not there is a dictionary
            d = next(m for m in self.adj[s] if self.kind[m - 1] in ('D', 'ID') and self.isdict(m, s))
            self.nkey += 1
            setattr(x, 'k%d' % self.nkey, v)
            self._link(d, t)
        elif k == 'KD':
            owner = next(n for n, c in enumerate(self.obj, 1)
                         if self.kind[n - 1] in 'KM' and self.adj[n] and s in self.adj[n])
            self.nkey += 1
            setattr(self.o(owner), 'k%d' % self.nkey, v)
            self._link(s, t)

    def isdict(self, m, owner):
        return self.o(m) is None and (m, owner) in self.lazy or \
            self.o(m) is not None and self.o(m) is getattr(self.o(owner), '__dict__', None)

    def unlink(self):
        s = self.pick('L', 'LS', 'D', 'DS', 'S', 'U', 'C')
        if not s or not self.adj[s]:
            return
        k, x = self.kind[s - 1], self.o(s)
        if k in ('L', 'LS'):
            if not len(x):
                return
            i = self.rng.randrange(len(x))
            t = self.num[id(x[i])]
            del x[i]
            self._unlink(s, t)
        elif k in ('D', 'DS'):
            if not x:
                return
            key = self.rng.choice(list(x))
            if key == '__builtins__' or key == '_hiding_tag_' or type(key) is str and key.startswith('__'):
                return
            v = x.pop(key)
            if id(key) in self.num and not isinstance(key, str):
                self._unlink(s, self.num[id(key)])
            self._unlink(s, self.num[id(v)])
        elif k == 'S':
            t = self.rng.choice(self.adj[s])
            x.remove(self.o(t))
            self._unlink(s, t)
        elif k == 'U':
            a = self.rng.choice(sorted(self.extra[s]['slots']) or [None])
            if a:
                delattr(x, a)
                self._unlink(s, self.extra[s]['slots'].pop(a))
        elif k == 'C':
            del x.cell_contents
            self._unlink(s, self.adj[s][0])

    def release(self):
        """Lets go of most objects that the root keeps alive: they live on
        with only the references of the graph."""
        self.settle()
        seen, todo = {1}, [1]
        while todo:
            for m in self.adj[todo.pop()]:
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        for n in sorted(seen):
            if n > 1 and self.rng.random() < .75:
                self.obj[n - 1] = None

    # --------------------------------------------------------------- hiding
    def hidden_node(self):
        """An object of a kind that the view hides, or may hide."""
        rng = self.rng
        kind = rng.choice(['HX', 'HXS', 'HT', 'HTS', 'HD', 'HL'])
        if kind in ('HX', 'HXS'):
            x = (HX if kind == 'HX' else HXSub)()
            n = self.add('U', x, [], slots={})
            if kind == 'HX':
                self.hidden.add(n)
                self.emit('hide', [n, 1, 1])
            return n
        if kind in ('HT', 'HTS'):
            x = (HT if kind == 'HT' else HTSub)()
            n = self.add('U', x, [], slots={}, tagged='slot')
        elif kind == 'HL':
            x = HL()
            n = self.add('L', x, [], tagged='slot')
        else:
            x = Inst()
            n = self.add('HI', x, [], tagged='dict')
            d = self.add('D', x.__dict__, [])
            self._link(n, d)
            self.extra[n]['dict'] = d
        self.retag(n)
        return n

    def retag(self, n=None):
        n = n or self.rng.choice([m for m in self.extra if 'tagged' in self.extra[m]] or [0])
        if not n:
            return
        x = self.o(n)
        y = self.rng.random()
        on = y < .55
        if self.extra[n]['tagged'] == 'slot':
            x._hiding_tag_ = self.tag if on else OTHER if y < .8 else None
            self.emit('hide', [n, int(on), int(on)])
        else:
            if y > .9:
                x.__dict__.pop('_hiding_tag_', None)
            else:
                x.__dict__['_hiding_tag_'] = self.tag if on else OTHER
            self.emit('hide', [n, int(on), 0])
            self.emit('hide', [self.extra[n]['dict'], 0, int(on)])
        (self.hidden.add if on else self.hidden.discard)(n)

    # -------------------------------------------------------------- queries
    def counts(self):
        g = sys.getrefcount
        return [g(x) for x in self.obj]

    def ask(self, o, a, f, check=True):
        """Asks, and notes which reference counts differ afterwards.  The
        result of f must be plain data."""
        before = self.counts()
        r = f()
        after = self.counts()
        self.settle()
        d = [i + 1 for i in range(len(before)) if before[i] != after[i] and self.obj[i] is not None
             and not (self.kind[i] == 'ID')] if check else []
        self.emit(o, a, r, d)
        return r


class Inst: pass
class LSub(list): pass
class DSub(dict): pass
class Slotted: __slots__ = 'a', 'b'
class HX: __slots__ = 'a', 'b'
class HXSub(HX): __slots__ = ()
class HT: __slots__ = 'a', 'b', '_hiding_tag_'
class HTSub(HT): __slots__ = ()
class HL(list): __slots__ = '_hiding_tag_',
OTHER = ['other tag']
for c in (Inst, LSub, DSub, Slotted, HX, HXSub, HT, HTSub, HL):
    c.__module__ = 'w'


def reach(rng, i):
    from guppy.heapy import heapyc
    from guppy.sets import immnodeset, mutnodeset
    import guppy.sets.setsc
    w = World(rng)
    w.tag = ['tag']
    w.L()
    w.emit('root', [1])
    hv = heapyc.HeapView(w.o(1), (guppy.sets.setsc._NyHeapDefs_,))
    hv._hiding_tag_ = w.tag
    hv.register_hidden_exact_type(HX)
    hv.register__hiding_tag__type(HT)
    hv.register__hiding_tag__type(HL)
    w.make(rng.randint(2, 8))
    for _ in range(rng.randint(0, 2)):
        w.hidden_node()
    for _ in range(rng.randint(4, 25)):
        w.link()
    for _ in range(rng.randint(0, 3)):
        w.link(1)
    nset = lambda q: immnodeset([w.o(n) for n in q if w.o(n) is not None], hiding_tag=w.tag)
    mset = lambda q: mutnodeset([w.o(n) for n in q if w.o(n) is not None])
    def q(*kinds):
        w.settle_some = None
        return sorted(set(n for n in w.some(0, 3) if w.o(n) is not None))
    for _ in range(rng.randint(4, 14)):
        x = rng.random()
        if x < .15:
            w.link() if rng.random() < .6 else w.unlink()
        elif x < .2:
            w.retag()
        elif x < .4:
            S, A = q(), q()
            mk = rng.choice([nset, mset])
            s, a = mk(S), nset(A)
            w.ask('reach', [S, A], lambda: w.ids(hv.reachable(s, a)))
            assert w.ids(s) == S and w.ids(a) == A
        elif x < .55:
            S, A = q(), q()
            s, a = nset(S), mset(A)
            w.ask('reachx', [S, A], lambda: w.ids(hv.reachable_x(s, a)))
            assert w.ids(s) == S and w.ids(a) == A
        elif x < .65:
            w.ask('heap', [], lambda: w.ids(hv.heap()))
        elif x < .75:
            S = q()
            s = rng.choice([nset, mset, lambda z: [w.o(n) for n in z]])(S)
            w.ask('relimg', [S], lambda: w.ids(hv.relimg(s)))
        elif x < .85:
            a, b = w.pick(), w.pick()
            if w.o(a) is not None:
                if w.o(b) is not None:
                    w.ask('numedges', [a, b], lambda: hv.numedges(w.o(a), w.o(b)))
        else:
            w.settle()
            U, S = q(), sorted(set(q() + q()))
            av = []
            for _ in range(rng.randint(0, 3)):
                a = w.pick()
                if w.adj[a]:
                    av.append([a, rng.choice(w.adj[a])])
            one = rng.random() < .4
            u, s = mset(U), mset(S)
            def f():
                G = heapyc.NodeGraph()
                AE = heapyc.NodeGraph([(w.o(a), w.o(b)) for a, b in av])
                V = hv.shpathstep(G, u, s, AE, one)
                num = w.num
                return [w.ids(V), sorted([num[id(a)], num[id(b)]] for a, b in G if id(a) in num and id(b) in num)]
            w.ask('step', [U, S, av, int(one)], f)
            assert w.ids(s) == S and w.ids(u) == U
    return dict(ev=w.ev, kinds=w.kind)


HP = None
def use():
    """The analyser as a user gets it, with the types of the hidden kinds
    registered; the same for all traces of the process."""
    global HP
    if HP is None:
        from guppy import hpy
        HP = hpy()
        hv = HP.View.hv
        hv.register_hidden_exact_type(HX)
        hv.register__hiding_tag__type(HT)
        hv.register__hiding_tag__type(HL)
        x = ['warm up']
        HP.View.root = [x]
        s = HP.iso(x)
        s.referrers, s.referents, s.imdom, s.dominos, s.domisize
        str(s.shpaths), str(s.rp), str(s)
        del x, s
        gc.collect()
    return HP


def world(rng, hp, lo=2, hi=8, links=25):
    w = World(rng)
    w.tag = hp.View._hiding_tag_
    w.L()
    w.emit('root', [1])
    hp.View.root = w.o(1)
    w.make(rng.randint(lo, hi))
    for _ in range(rng.randint(0, 2)):
        w.hidden_node()
    for _ in range(rng.randint(4, links)):
        w.link()
    for _ in range(rng.randint(1, 3)):
        w.link(1)
    return w


def askable(w):
    return [n for n in range(1, len(w.obj) + 1) if w.o(n) is not None]


def change(w, hp, rng):
    x = rng.random()
    if x < .5:
        w.link()
    elif x < .85:
        w.unlink()
    elif x < .93:
        w.retag()
    else:
        w.make(1)
        w.link(t=len(w.obj)) if w.o(len(w.obj)) is not None else None


def refer(rng, i):
    hp = use()
    w = world(rng, hp)
    gc.collect()
    w.emit('gc', [])
    frozen = rng.random() < .4
    if frozen:
        w.release()
        gc.collect()
        w.emit('gc', [])
    for _ in range(rng.randint(4, 16)):
        x = rng.random()
        if x < .25:
            if frozen:
                continue
            change(w, hp, rng)
            if rng.random() < .6:
                gc.collect()
                w.emit('gc', [])
        elif x < .3:
            gc.collect(rng.choice([0, 1, 2]))
            w.emit('gc', [])
        elif x < .35:
            r = rng.choice([n for n in askable(w) if n not in w.hidden])
            hp.View.root = w.o(r)
            w.emit('root', [r])
        elif x < .45 and not frozen:
            # something without referrers that gets one later
            w.settle()
            w.O()
            t = len(w.obj)
            S = sorted(set([t] + w.some(0, 2)))
            s = hp.iso(*[w.o(n) for n in S])
            for k in range(rng.randint(1, 3)):
                w.ask('referrers', [S], lambda: w.ids(s.referrers.nodes), check=False)
                if rng.random() < .7:
                    w.link(s=1 if w.rng.random() < .7 else None, t=t)
                if rng.random() < .7:
                    gc.collect()
                    w.emit('gc', [])
            w.ask('referrers', [S], lambda: w.ids(s.referrers.nodes), check=False)
        elif x < .55:
            S = sorted(set(w.some(0, 3)))
            s = hp.iso(*[w.o(n) for n in S])
            w.ask('relimg', [S], lambda: w.ids(s.referents.nodes))
        else:
            S = sorted(set(w.some(1, 3)))
            s = hp.iso(*[w.o(n) for n in S])
            w.ask('referrers', [S], lambda: w.ids(s.referrers.nodes), check=False)
    return dict(ev=w.ev, kinds=w.kind)


def domin(rng, i):
    hp = use()
    w = world(rng, hp)
    gc.collect()
    w.emit('gc', [])
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        S = sorted(set(w.some(0, 3)))
        s = hp.iso(*[w.o(n) for n in S])
        if x < .2:
            change(w, hp, rng)
            gc.collect()
            w.emit('gc', [])
        elif x < .25:
            r = rng.choice([n for n in askable(w) if n not in w.hidden])
            hp.View.root = w.o(r)
            w.emit('root', [r])
            gc.collect()
            w.emit('gc', [])
        elif x < .55:
            w.ask(rng.choice(['dominated', 'dominos']), [S], lambda: w.ids(s.dominos.nodes))
            if w.ev[-1]['o'] == 'dominos':
                w.ev[-1]['a'] = [[S]]
                w.ev[-1]['r'] = [w.ev[-1]['r']]
        elif x < .65:
            T = sorted(set(w.some(1, 3)))
            t = hp.iso(*[w.o(n) for n in T])
            w.ask('dominos', [[S, T]], lambda: [w.ids(q.nodes) for q in hp.View.dominos_tuple((s, t))])
        elif x < .8:
            sizes = []
            def f():
                r = s.domisize
                sizes.extend(hp.iso(o).size for o in s.dominos.nodes)
                return r
            w.ask('size', [sizes], f)
        else:
            w.ask('imdom', [S], lambda: w.ids(s.imdom.nodes), check=False)
    return dict(ev=w.ev, kinds=w.kind)


def paths(rng, i):
    hp = use()
    w = world(rng, hp, lo=2, hi=9, links=rng.choice([15, 25, 40]))
    w.settle()
    num = w.num
    names = {}
    nodes = lambda ns: w.ids(ns)

    def show(p):
        """Everything a listing shows, as plain data."""
        sets = [nodes(s.nodes) for s in p.sets]
        edges = [sorted([num[id(a)], num[id(b)]] for a, b in e if id(a) in num and id(b) in num) for e in p.edges]
        n = p.numpaths
        r = dict(sets=sets, edges=edges, num=n, listed=n <= 80, paths=[])
        if n <= 80:
            r['paths'] = [path(x) for x in p]
        return r

    def path(x):
        return [[num[id(list(y.nodes)[0])] for y in x.path[::2]],
                names.setdefault(str(x), len(names) + 1)]

    def rels(r):
        return [[a, b, len(hp._parent.Path.relations(w.o(a), w.o(b)))]
                for a, b in sorted(set(tuple(x) for e in r['edges'] for x in e))]

    def listing(o, a, f):
        box = []
        def g():
            box.append(f())
            r = show(box[0])
            if r['num'] >= 10 ** 8:
                return None
            return r
        w.ask(o, a, g, check=False)
        e = w.ev[-1]
        if e['r'] is None:
            w.ev.pop()
            return None, None
        e['rel'] = rels(e['r'])
        return box[0], e['r']

    av = []
    p = None
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        if p is None or x < .3:
            if rng.random() < .3:
                change(w, hp, rng)
                w.settle()
            S = sorted(set(w.some(1, 2)))
            if rng.random() < .5:
                S = [1]
            D = sorted(set(w.some(1, 3)))
            N = sorted(set(w.some(0, 2))) if rng.random() < .4 else []
            A = []
            for _ in range(rng.choice([0, 0, 1, 3])):
                a = w.pick()
                if w.adj[a]:
                    A.append([a, rng.choice(w.adj[a])])
            src = hp.iso(*[w.o(n) for n in S])
            dst = hp.iso(*[w.o(n) for n in D])
            kw = {}
            if N:
                kw['avoid_nodes'] = hp.iso(*[w.o(n) for n in N])
            if A:
                kw['avoid_edges'] = hp.View.nodegraph([(w.o(a), w.o(b)) for a, b in A])
            if S != [1] or rng.random() < .5:
                kw['src'] = src
            p, r = listing('shpaths', [D, S, N, A], lambda: dst.get_shpaths(**kw))
        elif x < .55 and r['edges']:
            lv = [rng.randrange(len(r['edges'])) for _ in range(rng.choice([1, 1, 2]))]
            p, r = listing('avoided', lv, lambda: p.avoided(*lv))
        elif r['listed']:
            n = r['num']
            if rng.random() < .5:
                k = rng.randint(-n - 2, n + 1)
                def f():
                    try:
                        return [path(p[k])]
                    except IndexError:
                        return []
                w.ask('item', [k], f, check=False)
            else:
                k = rng.randint(-n - 1, n + 1)
                j = rng.randint(0, n + 2)
                w.ask('iter', [k, j], lambda: [path(y) for y in p.iter(k, j)], check=False)
    return dict(ev=w.ev, kinds=w.kind)


if __name__ == '__main__':
    gc.disable()
    mode = sys.argv[1]
    main_traces(globals()[mode], sys.argv[2:])
