"""Random packages of lazily linked modules."""
import os, shutil, sys, tempfile, types
from tracelib import main_traces
from guppy import Root

BASE, WRAPPED, PERROOT = 1000000, 2000000, 10000


class V:
    """A value; what it is goes by its number."""
    def __init__(self, k):
        self.k = k


class Odd(Exception):
    pass


class OddImport(Odd, ImportError):
    pass


class Hooks(types.ModuleType):
    """What the generated modules use."""
    def start(self, t):
        self.t = t
        self.made = {}
        self.calls = []
        self.failed = set()

    def v(self, k):
        if k not in self.made:
            self.made[k] = V(k)
        return self.made[k]

    def root(self, inter):
        return self.t.roots.index(inter._root._share) + 1

    def get(self, inter, m, n):
        t = self.t
        r = self.root(inter)
        self.calls.append([r, m, n, 0])
        base, kind, dm, dn = t.M[m].defs[n]['get']
        x = None
        if dm:
            p = inter if dm == m else getattr(inter, t.name(dm)) if m == 2 else \
                getattr(inter._parent, t.name(dm)) if (m + n) % 2 else \
                getattr(getattr(inter._root, t.name(2)), t.name(dm))
            x = getattr(p, t.nm(dn))
        if kind == 1 and (r, m, n) not in self.failed:
            self.failed.add((r, m, n))
            raise Odd
        if kind == 2:
            return x
        if kind == 3:
            return inter
        # what it is tells how often it was made
        again = sum(1 for c in self.calls if c == [r, m, n, 0]) - 1
        return V(base + PERROOT * r + (0 if again <= 0 else 100000))

    def body(self, m):
        """The body of a module begins."""
        if self.t.M[m].broken and m not in self.failed:
            self.failed.add(m)
            p = self.t.name(2) + '.' + self.t.name(m)
            raise [OddImport("No module named 'zz'"), OddImport(m), OddImport("No module named '%s.zz'" % p), Odd(p),
                   OddImport("cannot import name 'zz' from '%s'" % p)][self.t.M[m].broken - 1]

    def set(self, inter, m, n, v):
        self.calls.append([self.root(inter), m, n, v.k])
        if self.t.M[m].hand[n] == 2 and v.k % 2:
            raise Odd

    def wrap(self, x):
        return V(x.k + WRAPPED) if isinstance(x, V) else V(WRAPPED + 999)


hooks = Hooks('_glue_hooks')
sys.modules['_glue_hooks'] = hooks


class Module:
    pass


class Trace:
    def __init__(self, rng, i):
        self.rng = rng
        self.i = i
        self.N = rng.randint(3, 6)
        self.L = rng.randint(3, 6)
        self.k = 0
        self.dir = tempfile.mkdtemp()
        self.M = {1: self.empty()}
        for m in range(self.L, 1, -1):
            self.M[m] = self.module(m)
        os.mkdir(os.path.join(self.dir, self.name(2)))
        for m in range(2, self.L + 1):
            fn = '__init__' if m == 2 else self.name(m)
            with open(os.path.join(self.dir, self.name(2), fn + '.py'), 'w') as f:
                f.write(self.source(m))

    def name(self, m):
        return 'gp%d' % self.i if m == 2 else 'm%d' % m

    def nm(self, n):
        """The name written for a number."""
        if n <= self.N:
            return 'n%d' % n
        if n == self.N + self.L + 1:
            return '_parent'
        if n == self.N + self.L + 2:
            return '_root'
        return self.name(n - self.N)

    def new(self):
        self.k += 1
        return self.k

    def empty(self):
        x = Module()
        x.clamp = x.broken = 0
        x.defs = {n: dict(own=0, get=[], imp=0, glob=0) for n in range(1, self.N + 1)}
        x.fun, x.inherited = set(), set()
        x.setable, x.chgable, x.preload, x.path, x.nowrap, x.mods = [], [], [], [], [], []
        x.hand = {n: 0 for n in x.defs}
        x.wrap = 0
        return x

    def module(self, m):
        rng = self.rng
        x = self.empty()
        x.clamp = int(rng.random() < .9)
        if rng.random() < .25:
            x.broken = rng.randint(1, 5)
        names = list(x.defs)
        later = list(range(max(m, 2) + 1, self.L + 1))
        if not x.clamp:
            for n in names:
                if rng.random() < .6:
                    x.defs[n]['glob'] = self.new()
            return x
        for n in names:
            if rng.random() < .2:
                x.chgable.append(n)
            elif rng.random() < .35:
                x.setable.append(n)
            if n in x.chgable + x.setable:
                x.hand[n] = rng.choice([0, 0, 1, 2])
        x.wrap = int(m > 2 and rng.random() < .15)
        objects = x.wrap
        if x.wrap:
            x.nowrap = [n for n in names if rng.random() < .3]
        for n in reversed(names):
            d = x.defs[n]
            if rng.random() < .35:
                d['own'] = self.new()
                if rng.random() < .4 and not objects:
                    x.fun.add(n)
                if rng.random() < .3:
                    x.inherited.add(n)
            q = rng.random()
            if q < .4:
                dm = dn = 0
                kind = rng.choice([0, 0, 0, 1, 2, 3])
                if objects and kind > 1:
                    kind = 0
                if rng.random() < .6 or kind == 2:
                    here = [b for b in names if b > n]
                    if here and (rng.random() < .5 or not later):
                        dm, dn = m, rng.choice(here)
                    elif later:
                        dm = rng.choice(later)
                        dn = rng.choice(names)
                    if kind == 2 and (not dm or dn in (x.chgable if dm == m else self.M[dm].chgable)):
                        kind = 0
                d['get'] = [self.new(), kind, dm, dn]
            elif q < .75 and later:
                p = rng.choice(later)
                if n not in self.M[p].chgable and not objects:
                    d['imp'] = p
            if rng.random() < .3:
                d['glob'] = self.new()
        if m > 2 and not objects:
            x.mods = [p for p in later if rng.random() < .3]
        if rng.random() < .25 and m > 2 and not objects:
            ok = [p for p in later if not self.M[p].chgable]
            x.path = rng.sample(ok, min(len(ok), rng.randint(1, 2)))
        if rng.random() < .4:
            safe = [n for n in names if x.defs[n]['own'] or
                    (x.defs[n]['get'] and x.defs[n]['get'][1] in (0, 1) and not x.defs[n]['get'][2]) or
                    (x.defs[n]['glob'] and not x.path and not x.defs[n]['get'] and not x.defs[n]['imp'])]
            x.preload = rng.sample(safe, min(len(safe), rng.randint(1, 2)))
        return x

    def source(self, m):
        rng, x = self.rng, self.M[m]
        out = ['import _glue_hooks as H', 'H.body(%d)' % m]
        tup = lambda ns: '(%s)' % ''.join(repr(self.nm(n)) + ', ' for n in ns)
        for n, d in x.defs.items():
            if d['glob']:
                out.append('%s = H.v(%d)' % (self.nm(n), d['glob']))
        if not x.clamp:
            return '\n'.join(out) + '\n'
        body = {True: ['class _B:', '    pass'], False: ['class _GLUECLAMP_(_B):', '    pass']}
        for n, d in x.defs.items():
            b = body[n in x.inherited]
            if d['own'] and n in x.fun:
                b += ['    def %s(self):' % self.nm(n), '        return self', '    %s.k = %d' % (self.nm(n), d['own'])]
            elif d['own']:
                b.append('    %s = H.v(%d)' % (self.nm(n), d['own']))
        b = body[False]
        for n, d in x.defs.items():
            if d['get']:
                b += ['    def _get_%s(self):' % self.nm(n), '        return H.get(self, %d, %d)' % (m, n)]
            if x.hand[n]:
                b += ['    def _set_%s(self, v):' % self.nm(n), '        H.set(self, %d, %d, v)' % (m, n)]
        imps = {}
        for n, d in x.defs.items():
            if d['imp'] and not d['get']:
                imps.setdefault(d['imp'], []).append(n)
        if x.mods:
            imps[2] = [self.N + p for p in x.mods]
        dirs = []
        for p, l in imps.items():
            while l:
                k = rng.randint(1, len(l))
                pre = rng.choice(['_root.' + self.name(2), '_parent'] if p == 2 else
                                 ['_root.%s.%s' % (self.name(2), self.name(p)),
                                  '_parent.%s' % (self.name(p) if m > 2 else self.name(2) + '.' + self.name(p))])
                dirs.append(repr(rng.choice(['%s:%s', '%s :%s ', '%s: %s']) %
                                 (pre, rng.choice([',', ', ', ' , ']).join(map(self.nm, l[:k])))))
                del l[:k]
        if dirs:
            b.append('    _imports_ = (%s,)' % ', '.join(dirs))
        if x.setable:
            b.append('    _setable_ = ' + tup(x.setable))
        if x.chgable:
            b.append('    _chgable_ = ' + tup(x.chgable))
        if x.preload:
            b.append('    _preload_ = ' + tup(x.preload))
        if x.nowrap:
            b.append('    _nowrap_ = ' + tup(x.nowrap))
        if x.wrap:
            b += ['    def _wrapattr_(self, x, name):', '        return H.wrap(x)']
        if x.path:
            b.append('    _GLUEPATH_ = ' + repr(', '.join('_parent.' + self.name(p) for p in x.path)))
        return '\n'.join(out + body[True] + body[False]) + '\n'

    def json(self):
        out = []
        for m in range(1, self.L + 1):
            x = self.M[m]
            out.append(dict(clamp=x.clamp, defs=[x.defs[n] for n in sorted(x.defs)], setable=x.setable, chgable=x.chgable,
                            hand=[x.hand[n] for n in sorted(x.hand)], preload=x.preload, path=x.path, wrap=x.wrap, mods=x.mods,
                            nowrap=x.nowrap, broken=x.broken))
        return out

    def code(self, x, r):
        """The number of what an access gave."""
        if isinstance(x, V):
            return x.k
        if isinstance(x, types.MethodType):
            m = [m for m in self.M if any(self.M[m].defs[n]['own'] == x.__func__.k for n in self.M[m].fun)]
            return x.__func__.k if m and self.code(x.__self__, r) == BASE + m[0] and x() is x.__self__ else -8
        s = getattr(x, '_share', None)
        if s is None or s.__class__.__name__ != 'Share' or self.roots[r - 1] is not x._root._share:
            return -9
        if s is self.roots[r - 1]:
            return BASE + 1
        names = [self.name(2)] + [self.name(2) + '.' + self.name(m) for m in range(3, self.L + 1)]
        return BASE + 2 + names.index(s.name)


def packages(rng, i):
    t = Trace(rng, i)
    hooks.start(t)
    sys.path.insert(0, t.dir)
    try:
        R = rng.choice([1, 1, 2])
        H = [[Root(), r, 1] for r in range(1, R + 1)]
        t.roots = [h[0]._share for h in H]
        ev, last = [], {}
        vals = [t.new() for _ in range(6)]
        N, L = t.N, t.L
        for _ in range(rng.choice([10, 25, 40])):
            hn = rng.randrange(len(H)) if rng.random() < .8 or len(H) < 4 else len(H) - 1
            h, r, m = H[hn]
            ns = [N + L + 1, N + L + 2] if m == 1 or rng.random() < .2 else []
            if m == 1:
                ns += [N + 2] * 6
            elif m == 2:
                ns += [N + p for p in range(3, L + 1)] * 3
            if m > 2:
                ns += [N + p for p in t.M[m].mods] * 2
            if m > 1:
                ns += list(range(1, N + 1)) * (2 if m == 2 else 4)
            n = rng.choice(ns or [N + L + 1])
            hooks.calls = []
            if n <= N and rng.random() < .3:
                v = rng.choice(vals)
                if rng.random() < .3 and last.get((r, m, n)):
                    v = last[r, m, n]
                if v >= BASE:
                    continue
                x = hooks.v(v) if v < PERROOT else next((o for (a, b), o in seen(last) if b == v), None)
                if x is None:
                    continue
                try:
                    setattr(h, t.nm(n), x)
                    k = 1
                    for key in [q for q in last if len(q) == 2 and H[q[0]][1:] == [r, m] and q[1] == n]:
                        del last[key]
                except ValueError:
                    k = -2
                except Odd:
                    k = -3
                ev.append(dict(o='set', a=[hn + 1, n, v], r=k, d=hooks.calls, same=1))
                continue
            same = 1
            try:
                x = getattr(h, t.nm(n))
                k = t.code(x, r)
                if (hn, n) in last and last[hn, n] is not x:
                    same = 0
                last[hn, n] = x
                if BASE > k > 0 and k < PERROOT and isinstance(x, V):
                    last[r, m, n] = k
            except AttributeError as e:
                k = 0
            except Odd:
                k = -1
            ev.append(dict(o='get', a=[hn + 1, n], r=k, d=hooks.calls, same=same))
            if BASE < k < WRAPPED:
                H.append([x, r, k - BASE])
        return dict(ev=ev, mods=t.json(), names=N, roots=R)
    finally:
        sys.path.remove(t.dir)
        shutil.rmtree(t.dir)
        for k in [k for k in sys.modules if k.split('.')[0] == t.name(2)]:
            del sys.modules[k]


def seen(last):
    return [((k, 0), v) for k, v in last.items() if len(k) == 2]


if __name__ == '__main__':
    sys.dont_write_bytecode = True
    main_traces(dict(packages=packages)[sys.argv[1]], sys.argv[2:])
