"""Random call sequences on node graphs, recorded for NodeGraphsTrace."""
import sys
from guppy.heapy.heapyc import NodeGraph
from guppy.sets import NodeSet, ImmNodeSet, MutNodeSet, immnodeset, mutnodeset
from nodesets import O, N, L, F, T, I, getref
from tracelib import main_traces

class SubNG(NodeGraph): pass
MAKERS = [O, N, lambda: L([1]), lambda: F(1.0), lambda: T((1,)), lambda: I(3), object, lambda: [], lambda: {}]

class Run:
    def __init__(self, rng, n, nreg):
        self.rng, self.n = rng, n
        self.objs = [rng.choice(MAKERS)() for _ in range(n)]
        self.ids = {id(o): i for i, o in enumerate(self.objs)}
        self.base = None
        self.regs = [None] * nreg
        self.ev = []
        self.base = [getref(self.objs[x]) for x in range(n)]
    def id(self, o): return self.ids.get(id(o), -1)
    def edges(self, l): return [[self.id(a), self.id(b)] for a, b in l]
    def graphs(self): return [i + 1 for i, g in enumerate(self.regs) if g is not None]
    def do(self, **e):
        e.setdefault('a', 1)
        try: e['r'] = self.perform(e)
        except (TypeError, ValueError, KeyError, NotImplementedError, RuntimeError) as x:
            e['r'] = {'t': 'exc', 'v': type(x).__name__}
        except Exception as x:
            e['r'] = {'t': 'bad', 'v': '%s: %s' % (type(x).__name__, x)}
        self.ev.append(e)
    def redges(self):
        rng = self.rng
        k = rng.choice([0, 1, 2, 3, 6, self.n])
        s = [[rng.randrange(self.n), rng.randrange(self.n)] for _ in range(k)]
        if s and rng.random() < .5: s += [rng.choice(s)]
        return s
    def rop(self):
        g = self.graphs()
        if g and self.rng.random() < .5: return {'k': 'reg', 'i': self.rng.choice(g)}
        return {'k': 'lit', 's': self.redges(), 'f': self.rng.choice(['list', 'gen', 'tuple', 'ng'])}
    def eop(self, b):
        if b['k'] == 'reg': return self.regs[b['i'] - 1]
        o = self.objs
        l = [(o[x], o[y]) for x, y in b['s']]
        f = b['f']
        return l if f == 'list' else tuple(l) if f == 'tuple' else (p for p in l) if f == 'gen' else NodeGraph(l)
    def nodes(self, e):
        l = [self.objs[x] for x in e['xs']]
        f = e['f']
        return l if f == 'list' else iter(l) if f == 'iter' else immnodeset(l) if f == 'imm' else mutnodeset(l) if f == 'mut' else tuple(l)
    def perform(self, e):
        o, O_ = e['o'], self.objs
        a = self.regs[e['a'] - 1]
        none = lambda x: {'t': 'none'} if x is None else {'t': 'bad', 'v': repr(x)}
        B = lambda b: {'t': 'bool', 'v': b} if b is True or b is False else {'t': 'notbool', 'v': repr(b)}
        def put(g):
            if not isinstance(g, NodeGraph): return {'t': 'bad', 'v': repr(type(g))}
            for h in self.regs:
                if h is g: return {'t': 'bad', 'v': 'not a new object'}
            self.regs[e['d'] - 1] = g
            return {'t': 'none'}
        if o == 'new':
            b = self.eop(e['b'])
            f = e['f']
            if f == 0: g = NodeGraph(b, e['m'])
            elif f == 1: g = NodeGraph(iterable=b, is_mapping=e['m'])
            elif f == 2: g = SubNG(b, e['m'])
            else:
                g = NodeGraph(None, e['m'])
                g.update(b)
            return put(g)
        if o == 'copy': return put(a.copy())
        if o == 'inverted': return put(a.inverted())
        if o == 'updated': return put(a.updated(self.eop(e['b'])))
        if o == 'restr': return put(a.domain_restricted(self.nodes(e)))
        if o == 'add': return none(a.add_edge(O_[e['x']], O_[e['y']]))
        if o == 'addn1': return none(a.add_edges_n1(self.nodes(e), O_[e['y']]))
        if o == 'update': return none(a.update(self.eop(e['b'])))
        if o == 'selfupdate': return none(a.update(a))
        if o == 'badupdate': return none(a.update([[(1, 2, 3)], [5], [[1, 2]], 7][e['n']]))
        if o == 'invert': return none(a.invert())
        if o == 'clear': return none(a.clear())
        if o == 'set':
            ys = tuple(O_[y] for y in e['ys'])
            if a.is_mapping: a[O_[e['x']]] = ys[0]
            elif e['tuple']: a[O_[e['x']]] = ys
            else: a[O_[e['x']]] = list(ys)
            return none(None)
        if o == 'delitem':
            del a[O_[e['x']]]
            return none(None)
        if o == 'get':
            v = a[O_[e['x']]]
            if a.is_mapping: return {'t': 'node', 'v': self.id(v)}
            if type(v) is not tuple: return {'t': 'bad', 'v': repr(v)}
            return {'t': 'nodes', 'v': [self.id(x) for x in v]}
        if o == 'len': return {'t': 'int', 'v': len(a)}
        if o == 'list': return {'t': 'edges', 'v': self.edges(list(a))}
        if o == 'flat':
            l = a.as_flat_list()
            return {'t': 'edges', 'v': self.edges(zip(l[::2], l[1::2]))} if len(l) % 2 == 0 else {'t': 'bad'}
        if o == 'ismap': return B(bool(a.is_mapping))
        if o in ('dom', 'ran', 'relimg'):
            v = a.get_domain() if o == 'dom' else a.get_range() if o == 'ran' else a.relimg(self.nodes(e))
            if not isinstance(v, NodeSet): return {'t': 'bad', 'v': repr(type(v))}
            return {'t': 'nodes', 'v': [self.id(x) for x in v]}
        if o == 'covers': return B(a.domain_covers(self.nodes(e)))
        if o == 'refs':
            a = None
            for g in self.regs:
                if g is not None: len(g)      # merges edges added more than once
            g = None
            return {'t': 'refs', 'v': [getref(O_[x]) - self.base[x] for x in e['xs']]}
        if o == 'del': self.regs[e['a'] - 1] = None; return none(None)
        raise AssertionError(o)
    def xs(self):
        rng = self.rng
        k = rng.choice([0, 1, 1, 2, 3, self.n])
        l = [rng.randrange(self.n) for _ in range(k)]
        return l
    def step(self):
        rng, n = self.rng, self.n
        d = rng.randrange(len(self.regs)) + 1
        gs = self.graphs()
        if not gs or rng.random() < .04:
            return self.do(o='new', d=d, m=rng.random() < .35, b=self.rop(), f=rng.randrange(4))
        a = rng.choice(gs)
        g = self.regs[a - 1]
        w = [('add', 10), ('addn1', 2), ('update', 2), ('set', 5), ('get', 8), ('len', 2), ('list', 2), ('flat', 1), ('dom', 1.5),
             ('ran', 1.5), ('relimg', 3), ('covers', 3), ('invert', 1), ('clear', .3), ('copy', 1), ('inverted', 1), ('updated', 1),
             ('restr', 1.5), ('refs', 3), ('del', .4), ('selfupdate', .3), ('badupdate', .2), ('delitem', .2), ('ismap', .3)]
        o = rng.choices([x for x, _ in w], [y for _, y in w])[0]
        F_ = rng.choice(['list', 'iter', 'imm', 'mut', 'tuple'])
        x, y = rng.randrange(n), rng.randrange(n)
        if o == 'add':
            for _ in range(rng.choice([1, 1, 2, 5])):
                self.do(o=o, a=a, x=x, y=y)
                if rng.random() < .8: x, y = rng.choice([(x, rng.randrange(n)), (rng.randrange(n), y), (rng.randrange(n), rng.randrange(n))])
        elif o in ('addn1',): self.do(o=o, a=a, xs=self.xs(), y=y, f=F_)
        elif o == 'update':
            b = self.rop()
            if b['k'] == 'reg' and b['i'] == a: return
            self.do(o=o, a=a, b=b)
        elif o == 'selfupdate': self.do(o=o, a=a)
        elif o == 'badupdate': self.do(o=o, a=a, n=rng.randrange(4))
        elif o == 'set':
            if rng.random() < .8:
                dom = self.edges(list(g))
                if dom: x = rng.choice(dom)[0]
            k = sum(1 for p in self.edges(list(g)) if p[0] == x)
            if rng.random() < .12: k += rng.choice([-1, 1])
            ys = rng.sample(range(n), max(1, min(n, k)))
            self.do(o=o, a=a, x=x, ys=ys, tuple=rng.random() < .93)
        elif o in ('get', 'delitem'): self.do(o=o, a=a, x=x)
        elif o in ('len', 'list', 'flat', 'dom', 'ran', 'invert', 'clear', 'del', 'ismap'): self.do(o=o, a=a)
        elif o in ('relimg', 'covers'): self.do(o=o, a=a, xs=self.xs(), f=F_)
        elif o in ('copy', 'inverted'): self.do(o=o, a=a, d=d)
        elif o == 'updated': self.do(o=o, a=a, d=d, b=self.rop())
        elif o == 'restr': self.do(o=o, a=a, d=d, xs=self.xs(), f=F_)
        elif o == 'refs': self.do(o=o, xs=list(range(n)))

def gen(rng, i):
    n = rng.choice([2, 3, 5, 8, 15, 30])
    r = Run(rng, n, 4)
    for _ in range(rng.choice([40, 80, 160])): r.step()
    for a in r.graphs():
        r.do(o='list', a=a)
        for x in range(n): r.do(o='get', a=a, x=x)
    r.do(o='refs', xs=list(range(n)))
    for a in r.graphs(): r.do(o='del', a=a)
    r.do(o='refs', xs=list(range(n)))
    return {'n': 4, 'ev': r.ev}

if __name__ == '__main__':
    main_traces(gen, sys.argv[2:])
