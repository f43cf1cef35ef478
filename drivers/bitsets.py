"""Random call sequences on guppy.sets bit sets, recorded for BitSetsTrace."""
import sys, pickle, copy, random
from guppy.sets import (ImmBitSet, MutBitSet, immbit, immbitrange, immbitset, mutbitset)
from guppy.sets import setsc
from tracelib import main_traces
CplBitSet = type(~immbitset([1]))

class SubImm(ImmBitSet): pass
class SubMut(MutBitSet): pass

WMAX, WMIN = 2**63 - 1, -2**63

class Map:
    """strictly increasing map from ids to machine integers"""
    def __init__(self, rng, n, dense, nonneg=None, wide=False):
        self.dense = dense
        self.n = n
        if dense:
            b = rng.choice([0, 0, 0, -3, -64, -70, -128, 1, 60, 63, 64, 2**31 - 5, 2**32 - 70, -2**31 - 7,
                            2**62, -2**62 - 40, WMAX - n + 1, WMAX - n + 1, WMIN, WMIN, WMIN + 64, rng.randrange(-10**6, 10**6),
                            rng.randrange(WMIN, WMAX - n)])
            if nonneg: b = rng.choice([0, 0, 1, 5, 64, 1000])
            self.base = b
            self.c = [b + i for i in range(n)]
        else:
            kind = rng.choice([0, 1, 1, 2, 3, 4, 4, 5, 5]) if wide else rng.randrange(5)
            s = set()
            while len(s) < n:
                if kind == 0: s.add(rng.randrange(-300, 300))
                elif kind == 1: s.add(rng.randrange(-n * 3, n * 3) * 64 + rng.choice([0, 1, 31, 32, 62, 63]))
                elif kind == 2: s.add(rng.randrange(WMIN, WMAX))
                elif kind == 3: s.add(rng.choice([0, -1, 1, 63, 64, -64, -65, WMAX, WMIN, WMAX - 1, WMIN + 1,
                                                  WMAX - 63, WMAX - 64, WMIN + 63, WMIN + 64, 2**32, -2**32, 2**31,
                                                  rng.randrange(WMIN, WMAX), rng.randrange(-200, 200)]))
                elif kind == 4: s.add(rng.randrange(n) * 64 + rng.randrange(64))
                else: s.add(rng.randrange(3 * n) * 64 + rng.choice([0, 5, 62, 63]))
            self.c = sorted(s)
        self.inv = {v: i for i, v in enumerate(self.c)}
        self.small = self.c[0] >= 0 and self.c[-1] < 20000
    def of(self, x):
        return self.inv.get(x, -999999)

def raw(v):
    """(cpl, list of concrete elements) of a bit set, via iteration"""
    if isinstance(v, CplBitSet):
        return True, list(~v)
    if isinstance(v, MutBitSet):
        t = v[:]
        if isinstance(t, CplBitSet): return True, list(~t)
        return False, list(t)
    return False, list(v)

class Run:
    def __init__(self, rng, m, nreg):
        self.rng, self.m = rng, m
        self.regs = [None] * nreg
        self.ev = []
        self.nontriv = 0

    def proj(self, v, kind):
        c, l = raw(v)
        return {'t': kind, 'c': c, 'v': [self.m.of(x) for x in l]}
    def kind(self, v):
        return 'mut' if isinstance(v, MutBitSet) else 'imm' if isinstance(v, (ImmBitSet, CplBitSet)) else \
               'none' if v is None else 'iter'

    def lit(self, o):
        """concrete operand for a literal"""
        rng, m = self.rng, self.m
        xs = [m.c[i] for i in o['s']]
        f = o['f']
        if f == 'int':
            n = 0
            for x in xs: n |= 1 << x
            return ~n if o['c'] else n
        if o['c']:
            return ~immbitset(xs) if f != 'mut' else mutbitset(~immbitset(xs))
        ys = xs[:]
        o_rng = random.Random(len(self.ev))
        o_rng.shuffle(ys)
        if f == 'list': return ys + ys[:2]
        if f == 'tuple': return tuple(ys + ys[1:3])
        if f == 'dict': return dict.fromkeys(ys)
        if f == 'set': return set(ys)
        if f == 'gen': return (y for y in ys + ys[:1])
        if f == 'imm': return immbitset(xs)
        if f == 'mut': return mutbitset(xs)
        if f == 'sub': return SubImm(xs)
        if f == 'submut': return SubMut(xs)
        if f == 'bit' : return immbit(xs[0])
        raise AssertionError(f)

    def operand(self, o):
        return self.regs[o['i'] - 1] if o['k'] == 'reg' else self.lit(o)

    def rlit(self, cplok=True, maxn=None):
        rng, m = self.rng, self.m
        n = min(m.n, maxn or m.n)
        k = rng.choice([0, 1, 1, 2, 3, rng.randrange(n + 1)])
        mode = rng.randrange(3)
        if mode == 0:
            s = rng.sample(range(m.n), min(k, m.n))
        else:
            a = rng.randrange(m.n)
            s = list(range(a, min(m.n, a + k)))
        fs = ['list', 'tuple', 'dict', 'set', 'gen', 'imm', 'mut', 'sub', 'submut']
        c = False
        if cplok and rng.random() < .3:
            c, fs = True, ['imm', 'mut']
        if m.small: fs += ['int', 'int']
        if len(s) == 1 and not c: fs.append('bit')
        return {'k': 'lit', 'c': c, 's': sorted(s), 'f': rng.choice(fs)}

    def rop(self, kinds=('imm', 'mut'), **kw):
        regs = self.has(kinds)
        if regs and self.rng.random() < .65:
            return {'k': 'reg', 'i': self.rng.choice(regs)}
        return self.rlit(**kw)

    def has(self, kinds):
        return [i + 1 for i, v in enumerate(self.regs) if self.kind(v) in kinds]

    # ------------------------------------------------------------ execution
    def do(self, e):
        try:
            e['r'] = self.perform(e)
        except (TypeError, ValueError, IndexError, OverflowError, StopIteration) as x:
            e['r'] = {'t': 'exc', 'v': type(x).__name__}
        except Exception as x:     # not an exception the API may answer with
            e['r'] = {'t': 'bad', 'v': '%s: %s' % (type(x).__name__, x)}
        self.ev.append(e)
        return e['r']

    def put(self, d, v, want):
        self.regs[d - 1] = v
        k = self.kind(v)
        return self.proj(v, k)

    def perform(self, e):
        o, m = e['o'], self.m
        a = self.regs[e['a'] - 1] if 'a' in e else None
        T = lambda b: {'t': 'bool', 'v': bool(b)} if b in (True, False) else {'t': 'notbool', 'v': repr(b)}
        I = lambda x: {'t': 'int', 'v': m.of(x)}
        if o == 'new':
            b = self.operand(e['b'])
            if e['f'] == 'func': v = immbitset(b)
            else: v = immbitset() | b
            return self.put(e['d'], v, 'imm')
        if o == 'newsub':
            b = self.operand(e['b'])
            v = {'type': ImmBitSet, 'sub': SubImm}[e['f']](b)
            if type(v) is not {'type': ImmBitSet, 'sub': SubImm}[e['f']]: return {'t': 'bad', 'v': 'type %r' % type(v)}
            return self.put(e['d'], v, 'imm')
        if o == 'mnew':
            b = self.operand(e['b'])
            if e['f'] == 'copy' and hasattr(b, 'mutcopy'): v = b.mutcopy()
            elif e['f'] == 'sub': v = SubMut(b)
            else: v = mutbitset(b)
            if v is b: return {'t': 'bad', 'v': 'same object'}
            if 'sp' in e: v._splitting_size = e['sp']
            return self.put(e['d'], v, 'mut') if e['obs'] else self._setquiet(e, v)
        if o == 'range':
            lo, hi, st = m.c[0] + e['lo'], m.c[0] + e['hi'], e['step']
            f = e['f']
            if f == 3: v = immbitrange(lo, hi, st)
            elif f == 2: v = immbitrange(lo, hi)
            else: v = immbitrange(hi)
            return self.put(e['d'], v, 'imm')
        if o in ('bin', 'rbin'):
            b = self.operand(e['b'])
            x, y = (a, b) if o == 'bin' else (b, a)
            f = e['f']
            v = x & y if f == 'and' else x | y if f == 'or' else x - y if f == 'sub' else x ^ y
            return self.put(e['d'], v, 'imm')
        if o == 'ibin':
            b = self.operand(e['b'])
            f, v = e['f'], a
            if f == 'and': v &= b
            elif f == 'or': v |= b
            elif f == 'sub': v -= b
            else: v ^= b
            if isinstance(a, MutBitSet) and v is not a: return {'t': 'bad', 'v': 'not in place'}
            if not e['obs'] and v is a: return self._quiet(e)
            return self.put(e['a'], v, None)
        if o == 'inv': return self.put(e['d'], ~a, 'imm')
        if o == 'shl': return self.put(e['d'], a << e['n'], 'imm')
        if o == 'cmp':
            b = self.operand(e['b'])
            f = e['f']
            return T({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                      'gt': lambda: a > b, 'ge': lambda: a >= b}[f]())
        if o == 'hash':
            c, l = raw(a)
            z = immbitset(reversed(l))
            y = SubImm(l)
            if c: z, y = ~z, ~y
            return T(hash(a) == hash(z) == hash(y) and a == z and {a: 1}.get(z) == 1)
        if o == 'in': return T(m.c[e['x']] in a)
        if o == 'bool': return T(bool(a))
        if o == 'len': return {'t': 'int', 'v': len(a)}
        if o == 'list': return {'t': 'list', 'v': [m.of(x) for x in a]}
        if o == 'proj': return self.proj(a, self.kind(a))
        if o == 'round':
            f = e['f']
            if f == 'repr': v = eval(repr(a), {'MutBitSet': MutBitSet, 'ImmBitSet': ImmBitSet, 'SubImm': SubImm, 'immbitset': immbitset})
            elif f == 'pickle': v = pickle.loads(pickle.dumps(a, e['n']))
            elif f == 'copy': v = copy.copy(a)
            elif f == 'deepcopy': v = copy.deepcopy(a)
            elif f == 'int': v = (mutbitset if isinstance(a, MutBitSet) else immbitset)(int(a))
            return self.proj(v, self.kind(v))
        if o == 'first': return I(a[0])
        if o == 'last': return I(a[-1])
        if o == 'low': return self.put(e['d'], a[:e['n']], 'imm')
        if o == 'high': return self.put(e['d'], a[-e['n']:], 'imm')
        if o == 'all': return self.put(e['d'], a[:] if e['n'] == 0 else a[0:2**70], 'imm')
        N = {'t': 'none'}
        def none(x):
            return N if x is None else {'t': 'bad', 'v': repr(x)}
        if o == 'add': return none(a.add(m.c[e['x']]))
        if o == 'discard': return none(a.discard(m.c[e['x']]))
        if o == 'append': return none(a.append(m.c[e['x']]))
        if o == 'remove': return none(a.remove(m.c[e['x']]))
        if o == 'tas': return T(a.tas(m.c[e['x']]))
        if o == 'tac': return T(a.tac(m.c[e['x']]))
        if o == 'clear': return none(a.clear())
        if o == 'pop':
            return I(a.pop() if e['n'] == -1 and self.rng.random() < .5 else a.pop(e['n']))
        if o == 'split':
            a._splitting_size = e['n']
            return N
        if o == 'iter':
            self.regs[e['d'] - 1] = iter(a)
            return N
        if o == 'next': return I(next(a))
        if o == 'del':
            self.regs[e['a'] - 1] = None
            return N
        raise AssertionError(o)

    # A call whose resulting contents are not looked at (looking would take a
    # snapshot and so hide sharing bugs): the specification only advances.
    def _quiet(self, e):
        return {'t': 'q'}
    def _setquiet(self, e, v):
        self.regs[e['d'] - 1] = v
        return {'t': 'q'}

    # ----------------------------------------------------------- generation
    def step(self, mode):
        rng, m = self.rng, self.m
        R = len(self.regs)
        d = rng.randrange(R) + 1
        im, mu, it, bs = self.has(('imm',)), self.has(('mut',)), self.has(('iter',)), self.has(('imm', 'mut'))
        F = lambda: rng.choice(['and', 'or', 'sub', 'xor'])
        if not bs or rng.random() < .06:
            o = rng.choice(['new', 'new', 'newsub', 'mnew', 'range'])
        elif mode == 'mut':
            w = [('mut', 12), ('bulk', 4), ('ibin', 3), ('mnew', 1.2), ('new', 1.5), ('bin', 1.2), ('iter', 1),
                 ('next', 2), ('obs', 4), ('split', .3), ('cmp', 1.5), ('del', .3), ('slice', .8)]
            o = rng.choices([x for x, _ in w], [y for _, y in w])[0]
        else:
            w = [('mut', .7), ('ibin', 2), ('mnew', .6), ('new', 1.5), ('bin', 8), ('rbin', 2), ('inv', 1.5),
                 ('shl', 2), ('range', 2), ('iter', .2), ('next', .3), ('obs', 6), ('cmp', 4), ('slice', 1.5), ('newsub', .7)]
            o = rng.choices([x for x, _ in w], [y for _, y in w])[0]
        if o == 'new':
            return self.do({'o': 'new', 'd': d, 'b': self.rop(), 'f': rng.choice(['func', 'or'])})
        if o == 'newsub':
            return self.do({'o': 'newsub', 'd': d, 'b': self.rop(), 'f': rng.choice(['type', 'sub'])})
        if o == 'mnew':
            e = {'o': 'mnew', 'd': d, 'b': self.rop(), 'f': rng.choice(['copy', 'func', 'sub']), 'obs': rng.random() < .3}
            if rng.random() < .7: e['sp'] = rng.choice([0, 1, 1, 2, 3, 4, 6])
            return self.do(e)
        if o == 'range':
            if not m.dense: return
            lo = rng.randrange(m.n)
            hi = rng.randrange(m.n + 1)
            if rng.random() < .8 and hi < lo: lo, hi = hi, lo
            hi = min(hi, m.n)
            st = rng.choice([1, 1, 2, 3, 5, 7, 31, 32, 63, 64, 65, rng.randrange(1, 200)])
            f = 3
            if st == 1 and rng.random() < .5:
                f = 2
                if m.c[0] == 0 and lo == 0 and rng.random() < .6: f = 1
            if m.c[0] + hi > WMAX: return
            return self.do({'o': 'range', 'd': d, 'lo': lo, 'hi': hi, 'step': st, 'f': f})
        if o in ('bin', 'rbin'):
            return self.do({'o': o, 'f': F(), 'a': rng.choice(bs), 'b': self.rop() if o == 'bin' else self.rlit(), 'd': d})
        if o == 'ibin':
            a = rng.choice(mu or bs) if mode == 'mut' else rng.choice(bs)
            b = self.rop()
            if rng.random() < .35:
                # one that has something in common with it
                v = self.regs[a - 1]
                s = [x for x in range(m.n) if (m.c[x] in v) != (rng.random() < .2)]
                s = sorted(rng.sample(s, min(len(s), rng.choice([1, 2, 4, 60]))))
                b = {'k': 'lit', 'c': rng.random() < .2, 's': s, 'f': rng.choice(['imm', 'mut'] + ['int'] * 6 * m.small)}
            return self.do({'o': o, 'f': F(), 'a': a, 'b': b, 'obs': rng.random() < .4})
        if o == 'inv': return self.do({'o': o, 'a': rng.choice(bs), 'd': d})
        if o == 'shl':
            if not m.dense: return
            a = rng.choice(im or [0])
            if not a: return
            c, l = raw(self.regs[a - 1])
            l = [m.of(x) for x in l]
            lo, hi = (-l[0], m.n - 1 - l[-1]) if l else (-5, 5)
            n = rng.choice([rng.randint(lo, hi), lo, hi])
            elo, ehi = (0 if m.c[0] == WMIN else -2**31 + 1), (m.n - 1 if m.c[-1] == WMAX else 2**31 - 1)
            far = rng.choice([1, 1, 2, 5, 63, 64, 65, rng.randrange(1, 300), 10**9])
            if rng.random() < .5:
                if elo == 0: n = lo - far
                elif ehi == m.n - 1: n = hi + far
            return self.do({'o': o, 'a': a, 'n': n, 'd': d, 'lo': elo, 'hi': ehi})
        if o == 'cmp':
            return self.cmp(rng, m, bs, rng.choice(bs))
        if o == 'slice':
            a = rng.choice(bs)
            k = self.regs[a - 1]
            o = rng.choice(['low', 'high', 'all'])
            if o != 'all' and isinstance(k, CplBitSet): return
            if o == 'all' and isinstance(k, CplBitSet): return
            e = {'o': o, 'a': a, 'd': d, 'n': rng.choice([1, 2, 3, 64, rng.randrange(1, m.n + 2)]) if o != 'all' else rng.randrange(2)}
            return self.do(e)
        if o == 'split' and mu:
            return self.do({'o': 'split', 'a': rng.choice(mu), 'n': rng.choice([0, 1, 2, 3, 4, 8, 500])})
        if o == 'iter':
            cand = [i for i in bs if not isinstance(self.regs[i - 1], CplBitSet)]
            if cand: return self.do({'o': o, 'a': rng.choice(cand), 'd': d})
            return
        if o == 'next' and it: return self.do({'o': o, 'a': rng.choice(it)})
        if o == 'del' and len(bs) > 2: return self.do({'o': o, 'a': rng.choice(bs + it)})
        if o == 'mut' and mu:
            a = rng.choice(mu)
            f = rng.choices(['add', 'discard', 'append', 'remove', 'tas', 'tac', 'pop', 'clear'], [5, 2, 3, 2, 3, 2, 5, .25])[0]
            if f == 'pop':
                for _ in range(rng.choice([1, 1, 2, 5, m.n // 3])):
                    self.do({'o': f, 'a': a, 'n': rng.choice([0, -1])})
                if rng.random() < .3: self.cmp(rng, m, bs, a)
                return
            if f == 'clear':
                if rng.random() < .5 and mode != 'mut': return
                c = self.regs[a - 1]
                return self.do({'o': f, 'a': a})
            return self.do({'o': f, 'a': a, 'x': rng.randrange(m.n)})
        if o == 'bulk' and mu:
            a = rng.choice(mu)
            n = rng.choice([2, 4, 8, m.n, m.n])
            s = rng.randrange(m.n)
            xs = list(range(s, min(m.n, s + n)))
            rng.shuffle(xs)
            f = rng.choice(['add', 'add', 'discard'])
            for x in xs: self.do({'o': f, 'a': a, 'x': x})
            return
        if o == 'obs':
            a = rng.choice(bs)
            v = self.regs[a - 1]
            fs = ['in', 'in', 'bool', 'len', 'proj', 'first', 'last', 'list', 'round', 'hash', 'inall']
            if isinstance(v, CplBitSet): fs = ['in', 'in', 'bool', 'len', 'proj', 'round', 'hash', 'inall', 'list']
            f = rng.choice(fs)
            if f == 'in': return self.do({'o': 'in', 'a': a, 'x': rng.randrange(m.n)})
            if f == 'inall':
                xs = list(range(m.n)); rng.shuffle(xs)
                for x in xs[:24]: self.do({'o': 'in', 'a': a, 'x': x})
                return
            if f == 'hash':
                if isinstance(v, MutBitSet): return
                return self.do({'o': 'hash', 'a': a})
            if f == 'round':
                g = ['repr', 'pickle', 'copy', 'deepcopy']
                if isinstance(v, MutBitSet): g = ['repr']
                if m.small: g.append('int')
                return self.do({'o': 'round', 'a': a, 'f': rng.choice(g), 'n': rng.choice([2, 3, 4, 5])})
            return self.do({'o': f, 'a': a})

    def cmp(self, rng, m, bs, a):
        if rng.random() < .5:
            b = {'k': 'reg', 'i': rng.choice(bs)}
        else:   # an equal or nearly equal set
            v = self.regs[a - 1]
            if self.kind(v) == 'imm':
                c, l = raw(v)
                l = [m.of(x) for x in l]
            else:       # without taking a snapshot
                try:
                    len(v)
                    c = False
                except TypeError:
                    c = True
                l = [x for x in range(m.n) if (m.c[x] in v) != c]
            if -999999 in l: return
            if rng.random() < .5 and l: l.remove(rng.choice(l))
            elif rng.random() < .5:
                x = rng.randrange(m.n)
                if x not in l: l = sorted(l + [x])
            b = {'k': 'lit', 'c': c, 's': l, 'f': rng.choice(['imm', 'mut'])}
        return self.do({'o': 'cmp', 'f': rng.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge']), 'a': a, 'b': b})

    def final(self):
        for i in self.has(('imm', 'mut')):
            xs = list(range(self.m.n)); self.rng.shuffle(xs)
            for x in xs[:16]: self.do({'o': 'in', 'a': i, 'x': x})
            self.do({'o': 'bool', 'a': i})
            self.do({'o': 'proj', 'a': i})
        for i in self.has(('iter',)):
            for _ in range(self.m.n + 1):
                if self.do({'o': 'next', 'a': i})['t'] == 'exc': break

def gen(mode):
    def g(rng, i):
        if mode == 'imm':
            n = rng.choice([3, 8, 20, 70, 140, 200])
            m = Map(rng, n, rng.random() < .65, nonneg=rng.random() < .4)
            steps = rng.choice([20, 40, 60])
        elif mode == 'mut':
            n = rng.choice([4, 8, 12, 20, 30, 40, 60])
            m = Map(rng, n, rng.random() < .2, nonneg=rng.random() < .4, wide=True)
            steps = rng.choice([40, 80, 120])
        else:   # 'big': beyond the default segment size
            n = 1300
            m = Map(rng, n, False)
            while not (m.c[1] // 64 > m.c[0] // 64): m = Map(rng, n, False)
            r = Run(rng, m, 3)
            xs = list(range(n)); rng.shuffle(xs)
            r.do({'o': 'mnew', 'd': 1, 'b': {'k': 'lit', 'c': False, 's': sorted(xs[:900]), 'f': 'list'}, 'f': 'func', 'obs': False})
            for k in range(60):
                q = rng.randrange(12)
                if q < 2: r.do({'o': 'pop', 'a': 1, 'n': rng.choice([0, -1])})
                elif q < 4: r.do({'o': rng.choice(['add', 'discard', 'tas', 'tac']), 'a': 1, 'x': rng.randrange(n)})
                elif q == 4: r.do({'o': 'ibin', 'f': rng.choice(['and', 'or', 'xor', 'sub']), 'a': 1, 'b': r.rlit(cplok=True), 'obs': False})
                elif q == 5: r.do({'o': 'new', 'd': 2, 'b': {'k': 'reg', 'i': 1}, 'f': 'func'})
                elif q == 6: r.do({'o': 'mnew', 'd': 3, 'b': {'k': 'reg', 'i': 1}, 'f': 'func', 'obs': False})
                elif q == 7 and r.regs[1] is not None: r.do({'o': 'proj', 'a': 2})
                elif q == 8 and r.regs[2] is not None: r.do({'o': rng.choice(['add', 'discard']), 'a': 3, 'x': rng.randrange(n)})
                elif q == 9 and r.regs[1] is not None: r.do({'o': 'cmp', 'f': rng.choice(['eq', 'le', 'lt', 'ge']), 'a': 1, 'b': {'k': 'reg', 'i': 2}})
                elif q == 10 and r.regs[2] is not None: r.do({'o': 'cmp', 'f': rng.choice(['eq', 'le', 'lt', 'ge']), 'a': 3, 'b': {'k': 'reg', 'i': 1}})
                else: r.do({'o': 'len', 'a': 1})
            r.final()
            return {'n': 3, 'ev': r.ev}
        r = Run(rng, m, 5)
        if mode == 'imm' and m.dense and m.c[0] == 0 and n >= 30:
            # the hash of this complement would come out as -1 (CPython's error mark)
            b = {'k': 'lit', 'c': False, 's': [k for k in range(32) if 0x1d567f9f >> k & 1], 'f': 'imm'}
            r.do({'o': 'new', 'd': 1, 'b': b, 'f': 'func'})
            r.do({'o': 'inv', 'a': 1, 'd': 2})
            r.do({'o': 'hash', 'a': 2})
        for _ in range(steps):
            r.step(mode)
        r.final()
        return {'n': 5, 'ev': r.ev, 'map': [str(x) for x in m.c[:6]]}
    return g

if __name__ == '__main__':
    main_traces(gen(sys.argv[1]), sys.argv[2:])
