"""Random call sequences on guppy.sets node sets, recorded for NodeSetsTrace."""
import operator, sys, weakref, gc, copy
from guppy.sets import (NodeSet, ImmNodeSet, MutNodeSet, immnodeset, mutnodeset,
                        mutnodeset_union, immnodeset_union)
from tracelib import main_traces
getref = sys.getrefcount

class Fresh: pass
class SubImm(ImmNodeSet): pass
class SubMut(MutNodeSet): pass

# Members: distinct objects that all compare equal, or refuse comparing, or
# cannot be hashed; identity is all that counts.
class O:
    def __eq__(self, o): return True
    __hash__ = None
class N:
    __slots__ = ('__weakref__',)
    def __eq__(self, o): raise RuntimeError('compared')
    def __hash__(self): raise RuntimeError('hashed')
    def __bool__(self): raise RuntimeError('truth')
class L(list): pass
class D:        # looks at the sets while being destroyed
    run = None
    def __del__(self):
        r = self.run
        r.died.append((self.x, [i + 1 for i, v in enumerate(r.regs) if isinstance(v, NodeSet) and
                                (self in v or len(list(v)) != len(v))]))
class F(float): pass
class T(tuple): pass
class I(int):
    def __hash__(self): return 7
MAKERS = [O, N, lambda: L([1]), lambda: F(1.0), lambda: T((1,)), lambda: I(3), O, D, D, D, D]

class Sink:
    regs = []
    died = []

class Run:
    def __init__(self, rng, n, nreg):
        self.rng, self.n = rng, n
        self.objs = {}
        self.base = {}
        self.wr = {}
        self.ids = {}
        self.regs = [None] * nreg
        self.ev = []
        self.died = []
        for x in range(n): self.make(x)

    def make(self, x):
        o = self.rng.choice(MAKERS)()
        if isinstance(o, D): o.run, o.x = self, x
        self.objs[x] = o
        try: self.wr[x] = weakref.ref(o)
        except TypeError: self.wr[x] = None     # subclass of int or tuple
        self.ids[id(o)] = x
        del o
        self.base[x] = getref(self.objs[x])

    def id(self, o):
        x = self.ids.get(id(o), -1)
        if x == -1: return -1
        if x in self.objs:
            return x if self.objs[x] is o else -2
        w = self.wr[x]
        return x if w is None or w() is o else -3
    def is_set(self, v): return isinstance(v, NodeSet)
    def sets(self, mut=None):
        return [i + 1 for i, v in enumerate(self.regs) if isinstance(v, NodeSet) and
                (mut is None or isinstance(v, MutNodeSet) == mut)]
    def iters(self): return [i + 1 for i, v in enumerate(self.regs) if v is not None and not isinstance(v, NodeSet)]

    def proj(self, v):
        if not isinstance(v, NodeSet): return {'t': 'bad', 'v': repr(type(v))}
        return {'t': 'mut' if isinstance(v, MutNodeSet) else 'imm', 'v': [self.id(o) for o in v], 'same': False}

    def lit(self, b):
        xs = [self.objs[x] for x in b['s']]
        f = b['f']
        if f == 'list': return xs + xs[:2]
        if f == 'tuple': return tuple(xs + xs[1:2])
        if f == 'gen': return (x for x in xs + xs[:1] + xs[:1])
        if f == 'dictv': return dict(enumerate(xs)).values()
        if f == 'imm': return immnodeset(xs)
        if f == 'mut': return mutnodeset(xs)
        if f == 'subimm': return SubImm(xs)
        if f == 'submut': return SubMut(xs)
    def operand(self, b): return self.regs[b['i'] - 1] if b['k'] == 'reg' else self.lit(b)
    def rlit(self):
        rng = self.rng
        have = sorted(self.objs)
        k = rng.choice([0, 1, 2, 3, rng.randrange(len(have) + 1)])
        s = rng.sample(have, min(k, len(have)))
        return {'k': 'lit', 's': s, 'f': rng.choice(['list', 'tuple', 'gen', 'dictv', 'imm', 'mut', 'subimm', 'submut'])}
    def rop(self):
        r = self.sets()
        if r and self.rng.random() < .65: return {'k': 'reg', 'i': self.rng.choice(r)}
        return self.rlit()

    def do(self, **e):
        e.setdefault('a', 1)
        try: e['r'] = self.perform(e)
        except (TypeError, ValueError, AttributeError, StopIteration) as x:
            e['r'] = {'t': 'exc', 'v': type(x).__name__, 'same': False}
        except Exception as x:
            e['r'] = {'t': 'bad', 'v': '%s: %s' % (type(x).__name__, x), 'same': False}
        self.ev.append(e)
        for x, f in sorted(self.died):
            self.ev.append({'o': 'died', 'x': x, 'a': 1, 'r': {'t': 'ids', 'v': f}})
        self.died = []

    def put(self, d, v, obs=True):
        self.regs[d - 1] = v
        return self.proj(v) if obs else {'t': 'q', 'same': False}

    def perform(self, e):
        o = e['o']
        a = self.regs[e['a'] - 1]
        B = lambda b: {'t': 'bool', 'v': b, 'same': False} if b is True or b is False else {'t': 'notbool', 'v': repr(b)}
        none = lambda x: {'t': 'none', 'same': False} if x is None else {'t': 'bad', 'v': repr(x)}
        I_ = lambda n: {'t': 'int', 'v': n, 'same': False}
        if o == 'mk': self.make(e['x']); return none(None)
        if o == 'drop':
            x = e['x']
            if self.wr[x] is None and not any(isinstance(v, NodeSet) and self.objs[x] in v for v in self.regs):
                self.ids.pop(id(self.objs[x]))
            del self.objs[x]
            return none(None)
        if o == 'alive':
            return {'t': 'ids', 'v': [x for x in range(self.n) if x in self.objs or
                                      (self.wr[x] is not None and self.wr[x]() is not None) or
                                      (self.wr[x] is None and x in e['held'])]}
        if o == 'refs':
            return {'t': 'refs', 'v': [getref(self.objs[x]) - self.base[x] for x in e['xs']]}
        if o == 'new':
            b = self.operand(e['b'])
            f = e['f']
            if e['m']: v = {'f': mutnodeset, 'type': MutNodeSet, 'sub': SubMut}[f](b)
            else: v = {'f': immnodeset, 'type': ImmNodeSet, 'sub': SubImm}[f](b)
            if f == 'sub' and type(v) not in (SubMut, SubImm): return {'t': 'bad', 'v': 'type', 'same': False}
            r = self.put(e['d'], v)
            r['same'] = v is b
            return r
        if o == 'union':
            bs = [self.operand(b) for b in e['bs']]
            return self.put(e['d'], mutnodeset_union(bs) if e['m'] else immnodeset_union(iter(bs)))
        if o == 'bin':
            b = self.operand(e['b'])
            f = e['f']
            return self.put(e['d'], a & b if f == 'and' else a | b if f == 'or' else a - b if f == 'sub' else a ^ b)
        if o == 'ibin':
            b = self.operand(e['b'])
            f, v = e['f'], a
            if f == 'and': v &= b
            elif f == 'or': v |= b
            elif f == 'sub': v -= b
            else: v ^= b
            if isinstance(a, MutNodeSet) != (v is a): return {'t': 'bad', 'v': 'in place?'}
            return self.put(e['a'], v, e['obs'])
        if o == 'bad':
            f = e['f']
            b = [None, 5, object(), 3.5][e['n']]
            v = a
            if f == 0: return self.proj(a | b)
            if f == 1: return self.proj(a & b)
            if f == 2: v -= b
            elif f == 3: v ^= b
            elif f == 4: v |= b
            elif f == 5: v &= b
            elif f == 6: return self.proj([1] | a)
            elif f == 7: return self.proj(immnodeset(b) if b is not None else immnodeset(5))
            return {'t': 'q'}
        if o == 'cmp':
            b = self.operand(e['b'])
            return B({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                      'gt': lambda: a > b, 'ge': lambda: a >= b}[e['f']]())
        if o == 'hash':
            h = hash(a)
            l = list(a)
            self.rng.shuffle(l)
            z = immnodeset(l)
            return B(h == hash(z) == hash(SubImm(a)) and {a: 1}.get(z) == 1)
        if o == 'in': return B(self.objs[e['x']] in a)
        if o == 'fresh':
            # an operand whose elements are held by nothing else
            c = mutnodeset(a) if e['m'] else immnodeset(a)
            g = (Fresh() for _ in range(e['n']))
            c = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub, 'xor': operator.xor,
                 'iand': operator.iand, 'ior': operator.ior, 'isub': operator.isub, 'ixor': operator.ixor}[e['i'] + e['f']](c, g)
            k = sum([type(x) is Fresh for x in c])
            return I_(len(c)) if k == (e['n'] if e['f'] in ('or', 'xor') else 0) else {'t': 'bad', 'v': k, 'same': False}
        if o == 'len': return I_(len(a))
        if o == 'bool': return B(bool(a))
        if o == 'isimm': return B(a.is_immutable)
        if o == 'list': return {'t': 'ids', 'v': [self.id(x) for x in a]}
        if o == 'objat': return I_(self.id(a.obj_at(id(self.objs[e['x']]))))
        if o in ('add', 'discard', 'append', 'remove'): return none(getattr(a, o)(self.objs[e['x']]))
        if o in ('tas', 'tac'): return B(getattr(a, o)(self.objs[e['x']]))
        if o == 'clear': return none(a.clear())
        if o == 'pop': return I_(self.id(a.pop()))
        if o == 'iter': self.regs[e['d'] - 1] = iter(a); return none(None)
        if o == 'next': return I_(self.id(next(a)))
        if o == 'del': self.regs[e['a'] - 1] = None; return none(None)
        raise AssertionError(o)

    def check(self):
        gone = [x for x in range(self.n) if self.wr[x] is None and x not in self.objs]
        held = []
        for x in gone:       # objects without weak references: found by looking in the sets
            if any(isinstance(v, NodeSet) and any(self.ids.get(id(o)) == x for o in v) for v in self.regs): held.append(x)
        if not gone:
            self.do(o='alive', held=held)
        self.do(o='refs', xs=sorted(self.objs))

    def step(self):
        rng = self.rng
        R = len(self.regs)
        d = rng.randrange(R) + 1
        sets, mu, it = self.sets(), self.sets(True), self.iters()
        have = sorted(self.objs)
        F = lambda: rng.choice(['and', 'or', 'sub', 'xor'])
        if not sets or rng.random() < .05:
            return self.do(o='new', d=d, m=rng.random() < .6, b=self.rop(), f=rng.choice(['f', 'type', 'sub']))
        w = [('mut', 12), ('bulk', 3), ('ibin', 4), ('new', 2), ('bin', 4), ('iter', .6), ('next', 2), ('obs', 4), ('cmp', 3),
             ('del', .6), ('life', 3), ('union', .3), ('bad', .4), ('check', 2)]
        o = rng.choices([x for x, _ in w], [y for _, y in w])[0]
        a = rng.choice(sets)
        if o == 'mut':
            if mu and rng.random() < .95: a = rng.choice(mu)
            f = rng.choices(['add', 'discard', 'append', 'remove', 'tas', 'tac', 'pop', 'clear'], [5, 2, 3, 2, 3, 2, 3, .6])[0]
            if f in ('pop', 'clear'): return self.do(o=f, a=a)
            if have: return self.do(o=f, a=a, x=rng.choice(have))
        elif o == 'bulk' and mu:
            a = rng.choice(mu)
            xs = rng.sample(have, rng.randrange(len(have) + 1))
            f = rng.choice(['add', 'add', 'discard', 'tas', 'tac'])
            for x in xs: self.do(o=f, a=a, x=x)
        elif o == 'ibin':
            if mu and rng.random() < .8: a = rng.choice(mu)
            self.do(o=o, f=F(), a=a, b=self.rop(), obs=rng.random() < .5)
        elif o == 'new': self.do(o=o, d=d, m=rng.random() < .5, b=self.rop(), f=rng.choice(['f', 'type', 'sub']))
        elif o == 'bin': self.do(o=o, f=F(), a=a, b=self.rop(), d=d)
        elif o == 'union': self.do(o=o, d=d, m=rng.random() < .5, bs=[self.rop() for _ in range(rng.randrange(4))])
        elif o == 'iter': self.do(o=o, a=a, d=d)
        elif o == 'next' and it: self.do(o=o, a=rng.choice(it))
        elif o == 'cmp':
            b = self.rop()
            if rng.random() < .4:
                l = [self.id(x) for x in self.regs[a - 1]]
                if all(x in self.objs for x in l):
                    if l and rng.random() < .5: l.pop()
                    elif have and rng.random() < .5:
                        x = rng.choice(have)
                        if x not in l: l.append(x)
                    b = {'k': 'lit', 's': l, 'f': rng.choice(['imm', 'mut', 'subimm', 'submut', 'list'])}
            self.do(o=o, a=a, b=b, f=rng.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge']))
        elif o == 'del': self.do(o=o, a=rng.choice(sets + it))
        elif o == 'bad': self.do(o=o, a=a, f=rng.randrange(8), n=rng.randrange(4))
        elif o == 'check': self.check()
        elif o == 'life':
            dead = [x for x in range(self.n) if x not in self.objs and self.wr[x] is not None and self.wr[x]() is None]
            if dead and rng.random() < .6: self.do(o='mk', x=rng.choice(dead))
            else:
                have = [x for x in have if self.wr[x] is not None]
                if have: self.do(o='drop', x=rng.choice(have))
        elif o == 'obs':
            f = rng.choice(['in', 'in', 'bool', 'len', 'list', 'hash', 'objat', 'isimm', 'fresh'])
            if f == 'fresh':
                return self.do(o=f, a=a, f=F(), n=rng.choice([0, 1, 2, 5]), m=rng.random() < .5, i=rng.choice(['', '', 'i']))
            if f in ('in', 'objat'):
                if have: self.do(o=f, a=a, x=rng.choice(have))
            else: self.do(o=f, a=a)

def gen(rng, i):
    n = rng.choice([2, 4, 8, 20, 60, 60])
    r = Run(rng, n, 5)
    for _ in range(rng.choice([40, 80, 150])):
        r.step()
    for a in r.sets():
        r.do(o='list', a=a); r.do(o='len', a=a)
        for x in list(r.objs)[:10]: r.do(o='in', a=a, x=x)
    for a in r.iters():
        for _ in range(n + 1):
            r.do(o='next', a=a)
            if r.ev[-1]['r']['t'] == 'exc': break
    r.check()
    for a in range(1, 6): r.do(o='del', a=a)
    r.check()
    for o in r.objs.values():
        if isinstance(o, D): o.run = Sink
    return {'n': 5, 'ev': r.ev, 'prog': list(range(n))}

def gen_big(rng, i):
    n = 700
    r = Run(rng, n, 3)
    xs = list(range(n)); rng.shuffle(xs)
    r.do(o='new', d=1, m=True, b={'k': 'lit', 's': xs[:400], 'f': 'list'}, f='f')
    for k in range(30):
        q = rng.randrange(9)
        lit = {'k': 'lit', 's': rng.sample(xs, rng.choice([0, 3, 300, 600])), 'f': rng.choice(['list', 'imm', 'mut', 'gen'])}
        if q < 3: r.do(o='ibin', f=rng.choice(['and', 'or', 'sub', 'xor']), a=1, b=lit, obs=False)
        elif q == 3: r.do(o='new', d=2, m=rng.random() < .5, b={'k': 'reg', 'i': 1}, f='f')
        elif q == 4: r.do(o='bin', f=rng.choice(['and', 'or', 'sub', 'xor']), a=1, b=lit, d=3)
        elif q == 5:
            for _ in range(20): r.do(o='pop', a=1)
        elif q == 6: r.do(o='len', a=1)
        elif q == 7: r.do(o='refs', xs=xs)
        elif q == 8:
            for x in rng.sample(xs, 20): r.do(o=rng.choice(['add', 'discard']), a=1, x=x)
    r.do(o='list', a=1)
    for a in (1, 2, 3): r.do(o='del', a=a)
    r.do(o='refs', xs=xs)
    for o in r.objs.values():
        if isinstance(o, D): o.run = Sink
    return {'n': 3, 'ev': r.ev, 'prog': list(range(n))}

if __name__ == '__main__':
    main_traces(gen if sys.argv[1] == 'small' else gen_big, sys.argv[2:])
