"""References and lifetimes of the objects of a program under analysis."""
import array, collections, functools, gc, io, os, sys, tempfile, threading, types, warnings, weakref
from tracelib import main_traces
from world import World, use, Inst
from guppy import sets
from guppy.heapy import heapyc
import world

def gen(a, b):
    """A suspended generator with two variables."""
    x = a
    y = b
    a = b = None
    while 1:
        what = yield
        if what == 'x':
            x = None
        elif what == 'y':
            y = None


class Program(World):
    HASHABLE = World.HASHABLE

    def GN(self):
        m = self.some(2, 2)
        if not m:
            return
        if self.hollow(m):
            return
        g = gen(*[self.o(i) for i in m])
        next(g)
        return self.add('GN', g, m, slots=dict(x=m[0], y=m[1]))

    def hollow(self, m):
        return any(self.o(i) is None for i in m)

    def DQ(self):
        return self.add('DQ', collections.deque(), [])

    def PT(self):
        f = self.pick('F') or self.F()
        m = self.some(1, 2)
        if self.hollow(m + [f]):
            return
        x = functools.partial(self.o(f), *[self.o(i) for i in m])
        t = self.add('T', x.args, m)
        return self.add('PT', x, [f, t])

    def OD(self):
        return self.add('OD', collections.OrderedDict(), [])

    def ER(self):
        m = self.some(1, 2)
        if self.hollow(m) or not m:
            return
        e = ValueError(*[self.o(i) for i in m])
        t = self.add('T', e.args, m)
        return self.add('ER', e, [t])

    def WR(self):
        n = self.pick('S', 'LS', 'I', 'F', 'K')
        if not n or self.o(n) is None:
            return
        return self.add('WR', weakref.ref(self.o(n), lambda r: None), [])

    # What the library itself provides, as objects of the program
    def NS(self):
        return self.add('NS', sets.mutnodeset(), [])

    def IS(self):
        m = sorted(set(self.some(1, 4)))
        if self.hollow(m):
            return
        return self.add('IS', sets.immnodeset([self.o(i) for i in m]), m)

    def RE(self):
        m = self.some(1, 1)
        if self.hollow(m) or not m:
            return
        return self.add('RE', heapyc.Relation(self.rng.randint(1, 9), self.o(m[0])), m)

    def NG(self):
        return self.add('NG', heapyc.NodeGraph(), [], edges=set())

    def make(self, k):
        for _ in range(k):
            try:
                getattr(self, self.rng.choice(
                    ['L', 'L', 'D', 'T', 'I', 'I', 'U', 'S', 'C', 'F', 'B', 'P', 'Q', 'SL', 'MP', 'O', 'LS', 'DS', 'FS', 'K',
                     'M', 'GN', 'GN', 'DQ', 'PT', 'OD', 'ER', 'WR', 'LS', 'I', 'S', 'NS', 'IS', 'RE', 'NG']))()
            except Skip:
                pass

    def pick(self, *kinds):
        # (the dictionary of a class is emptied when the class goes: nothing else is to hold it)
        c = [i + 1 for i, k in enumerate(self.kind) if (not kinds or k in kinds) and self.obj[i] is not None and k != 'KD']
        return self.rng.choice(c) if c else None

    def link(self, s=None, t=None):
        rng = self.rng
        s = s or self.pick('L', 'LS', 'D', 'DS', 'S', 'U', 'C', 'I', 'K', 'M', 'ID', 'DQ', 'OD', 'NS', 'NG')
        if not s or self.o(s) is None:
            return
        k, x = self.kind[s - 1], self.o(s)
        if k == 'I' and any(self.o(m) is None for m in self.adj[s]):
            return
        if k in 'KM':
            t = t or self.pick()
            self.nkey += 1
            setattr(x, 'k%d' % self.nkey, self.o(t))
            self._link(next(m for m in self.adj[s] if self.kind[m - 1] == 'KD'), t)
            return
        if k in ('U', 'C'):
            t = t or self.pick()
            v = self.o(t)
            if v is None:
                return
            slots = self.extra[s].get('slots')
            a = rng.choice('ab')
            if k == 'C':
                if self.adj[s]:
                    self.cut(x, 'cell_contents')
                    self._unlink(s, self.adj[s][0])
                x.cell_contents = v
            else:
                if a in slots:
                    self.cut(x, a)
                    self._unlink(s, slots.pop(a))
                setattr(x, a, v)
                slots[a] = t
            self._link(s, t)
            return
        if k == 'NG':
            a, b = self.pick(), t or self.pick()
            if self.hollow([a, b]) or (a, b) in self.extra[s]['edges']:
                return
            self.extra[s]['edges'].add((a, b))
            x.add_edge(self.o(a), self.o(b))
            self._link(s, a)
            self._link(s, b)
            return
        if k == 'NS':
            t = t or self.pick()
            if self.o(t) is None or t in self.adj[s]:
                return
            x.add(self.o(t))
            self._link(s, t)
            return
        if k in ('DQ', 'OD'):
            t = t or self.pick()
            v = self.o(t)
            if v is None:
                return
            if k == 'DQ':
                (x.append if rng.random() < .5 else x.appendleft)(v)
            else:
                self.nkey += 1
                x['k%d' % self.nkey] = v
            self._link(s, t)
            return
        World.link(self, s, t)

    def cut(self, x, a):
        delattr(x, a)

    def unlink(self):
        s = self.pick('L', 'LS', 'D', 'DS', 'S', 'U', 'C', 'GN', 'DQ', 'OD', 'NS')
        if not s or not self.adj[s]:
            return
        k, x = self.kind[s - 1], self.o(s)
        if k == 'GN':
            a = self.rng.choice(sorted(self.extra[s]['slots']) or [None])
            if a:
                x.send(a)
                self._unlink(s, self.extra[s]['slots'].pop(a))
        elif k == 'NS':
            t = self.rng.choice(self.adj[s])
            if self.rng.random() < .3:
                t = self.num[id(x.pop())]
            elif self.o(t) is not None:
                x.discard(self.o(t))
            else:
                return
            self._unlink(s, t)
        elif k == 'DQ':
            t = self.num[id(x[0])]
            x.popleft()
            self._unlink(s, t)
        elif k == 'OD':
            key = self.rng.choice(list(x))
            t = self.num[id(x[key])]
            del x[key]
            self._unlink(s, t)
        elif k in ('D', 'DS'):
            keys = [y for y in x if type(y) is str and not y.startswith('_')]
            if keys:
                key = self.rng.choice(keys)
                t = self.num[id(x[key])]
                del x[key]
                self._unlink(s, t)
        elif k == 'S':
            t = self.rng.choice(self.adj[s])
            if self.o(t) is not None:
                x.remove(self.o(t))
                self._unlink(s, t)
        elif k in ('L', 'LS'):
            if len(x):
                i = self.rng.randrange(len(x))
                t = self.num[id(x[i])]
                del x[i]
                self._unlink(s, t)
        elif k == 'U':
            a = self.rng.choice(sorted(self.extra[s]['slots']) or [None])
            if a:
                delattr(x, a)
                self._unlink(s, self.extra[s]['slots'].pop(a))
        else:
            del x.cell_contents
            self._unlink(s, self.adj[s][0])

    # What happened since the last event
    def emit(self, o, a, r=0, d=()):
        if o in ('hide', 'root', 'gc'):
            return
        d, self.fallen = sorted(self.fallen), []
        self.ev.append(dict(o=o, a=a, r=r, d=d))

    fallen = ()


class Skip(Exception):
    pass


def watch(w, watched):
    for n in range(1, len(w.obj) + 1):
        x = w.o(n)
        if x is None or n in watched or w.kind[n - 1] == 'WR':
            continue
        try:
            watched[n] = weakref.ref(x, lambda r, n=n: w.fallen.append(n))
        except TypeError:
            pass
    x = None
    w.emit('watch', sorted(watched))


def contents(w, n):
    """What an object holds, by its own account."""
    x, k = w.o(n), w.kind[n - 1]
    if k in ('L', 'LS', 'T', 'S', 'FS', 'DQ', 'NS', 'IS'):
        l = list(x) + ([x.__dict__] if k == 'LS' else [])
    elif k in ('D', 'DS', 'OD'):
        l = [x[y] for y in x if y != '__builtins__'] + [y for y in x if not isinstance(y, str)] + ([x.__dict__] if k == 'DS' else [])
    elif k == 'U':
        l = [getattr(x, a) for a in 'ab' if hasattr(x, a)]
    elif k == 'C':
        try:
            l = [x.cell_contents]
        except ValueError:
            l = []
    elif k == 'B':
        l = [x.__func__, x.__self__]
    elif k == 'P':
        l = [x.fget, x.fset, x.fdel]
    elif k == 'SL':
        l = [x.start, x.stop, x.step]
    elif k == 'GN':
        l = [y for y in gc.get_referents(x) if type(y) not in (types.FrameType, types.CodeType)]
    elif k == 'RE':
        l = [x.relator]
    elif k == 'PT':
        l = [x.func, x.args]
    elif k == 'ER':
        l = [x.args]
    else:
        return None
    return [w.num[id(y)] for y in l if id(y) in w.num]


def env():
    return (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), sys.getrecursionlimit(),
            sys.getprofile(), sys.gettrace(), threading.active_count(), sys.getswitchinterval(), len(gc.garbage))


def some(w, lo=1, hi=3):
    return [w.o(n) for n in sorted(set(w.some(lo, hi)))]


ERS = ['Clodo', 'Type', 'Size', 'Id', 'Unity', 'Module', 'Rcs', 'Class']


def ops(w, hp, rng):
    """One operation of the analysis; what it gives is to be kept or not."""
    hv = hp.View.hv
    s = lambda lo=1, hi=3: hp.iso(*some(w, lo, hi))
    one = lambda: rng.choice(some(w, 1, 1))

    def edge():
        # an object and one it refers to
        for _ in range(9):
            n = w.pick()
            t = [m for m in w.adj[n] if w.o(m) is not None]
            if t:
                return w.o(n), w.o(rng.choice(t))
        return one(), one()
    er = lambda: getattr(hp, rng.choice(ERS[:7]))

    def listing(x):
        str(x)
        return x

    def wander(x, k):
        it = iter(x)
        out = []
        for y in it:
            out.append(y)
            if len(out) >= k:
                break
        return out, it

    def kinds():
        a, b = s().by(er()).kind, s().by(er()).kind
        return rng.choice([lambda: a & b, lambda: a | b, lambda: a - b, lambda: ~a, lambda: (a & s(), a <= b, a.brief),
                           lambda: s() & a, lambda: (s() | s()) & ~b])()

    def graph():
        G = hp.View.nodegraph([(one(), one()) for _ in range(rng.randint(0, 5))])
        S = s()
        return rng.choice([
            lambda: (G.copy(), len(G)), lambda: G.inverted(), lambda: G.relimg(S.nodes), lambda: list(G),
            lambda: wander(G, 1), lambda: G.domain_covered(S.nodes), lambda: G.domain_restricted(S.nodes),
            lambda: (G.add_edge(one(), one()), G.add_edges_n1(S.nodes, one()), G[one()]), lambda: G.get_domain(),
            lambda: (G.invert(), G), lambda: G.update(G.copy()), lambda: (G.__setitem__(one(), (one(), one())), G.as_flat_list())
            if hasattr(G, 'as_flat_list') else G, lambda: (G.clear(), G), lambda: G.get_range()])()

    def nodes():
        from guppy.sets import mutnodeset, immnodeset
        a, b = mutnodeset(some(w)), immnodeset(some(w, 0, 3))
        return rng.choice([
            lambda: (a | b, a & b, a - b, a ^ b), lambda: (b | some(w), b & some(w), b - some(w)),
            lambda: (a.add(one()), a.discard(one()), a.pop()), lambda: wander(b, 1), lambda: hash(b),
            lambda: a.__ior__(some(w)), lambda: a.__ixor__(b), lambda: (b <= a, b == a, a.copy()),
            lambda: immnodeset(a), lambda: (a.tas(one()), a.tac(one())), lambda: a.append(one()), lambda: a.remove(one()),
            lambda: a.__iand__(b), lambda: b.obj_at(id(one()))])()

    def classify():
        c = rng.choice([
            lambda: hv.cli_type(), lambda: hv.cli_id({}, None) if 0 else hv.cli_none(), lambda: hv.cli_inrel(
                hp.View.nodegraph([(one(), one()) for _ in range(3)]), {}, {}), lambda: hv.cli_rcs(
                hp.View.nodegraph([(one(), one()) for _ in range(3)]), hv.cli_type(), {}),
            lambda: hv.cli_indisize({}) , lambda: hv.cli_dictof({}, {}, {}) if 0 else hv.cli_type(),
            lambda: hv.cli_and((hv.cli_type(), hv.cli_indisize({})), {})])()
        return rng.choice([lambda: c.partition(some(w)), lambda: c.classify(one()),
                           lambda: c.select(some(w), c.classify(one()), rng.choice(['==', '!=', '<=', '>=']) if rng.random() < .2
                                            else '==')])()

    def bad():
        return rng.choice([
            lambda: hv.relate(1), lambda: hv.relimg(3), lambda: hv.reachable(some(w), None),
            lambda: hp.View.nodegraph([(one(), one()), 3]), lambda: hp.View.nodegraph([(one(),)]),
            lambda: s() & 3, lambda: s().nodes | 3, lambda: s()[77], lambda: s().by(3), lambda: hv.cli_type().partition(3),
            lambda: hv.shpathstep(1, 2, 3), lambda: hv.indisize_sum(7), lambda: hv.numedges(one()), lambda: hp.iso(),
            lambda: s() + 3, lambda: hv.cli_and(3, {}), lambda: hp.View.nodegraph()[one()], lambda: s().nosuch,
            lambda: s().nodes.mutcopy().remove(one()), lambda: hv.cli_type().select(some(w), list, 'no'),
            lambda: hv.cli_inrel(1, {}, {}), lambda: s().by(er()).get_rp(depth='x'), lambda: s().shpaths[10 ** 6],
            lambda: hv.update_referrers(hp.View.nodegraph(), 3), lambda: hp.load('/nonexistent')])()

    def dump():
        fd, name = tempfile.mkstemp()
        os.close(fd)
        try:
            x = rng.choice([s(), s().by(er())])
            st = x.stat
            st.dump(name)
            y = hp.load(name)
            return st, str(y), y - st, y
        finally:
            os.unlink(name)

    def horizon():
        h = heapyc.Horizon(gc.get_objects())
        y = [], {}
        return h.news(some(w) + list(y)), h

    def frames():
        g = w.pick('GN')
        if not g:
            return
        f = w.o(g).gi_frame
        x = hp.iso(f, w.o(g))
        return rng.choice([lambda: x.referents, lambda: str(x.rp), lambda: hv.relate(f, one()), lambda: x.referents.byid,
                           lambda: (x.referents.shpaths if 0 else x.sp, str(x)), lambda: [hv.relate(f, o) for o in some(w)],
                           lambda: (str(x.kind), x.size, str(x.byid))])()

    def raw():
        """Calls of the C level, arguments right and wrong."""
        from guppy.sets import setsc, mutnodeset, immnodeset, immbitset, mutbitset

        def stop(*a):
            raise KeyError(*a)

        def grumpy():
            yield one()
            raise KeyError(one())

        def lazy():
            for x in some(w, 0, 3):
                yield x
        G = lambda: hp.View.nodegraph([(one(), one()) for _ in range(rng.randint(0, 4))], rng.random() < .2)
        CLIS = [
            lambda d: hv.cli_type(), lambda d: hv.cli_none(), lambda d: hv.cli_id({}), lambda d: hv.cli_indisize({}),
            lambda d: hv.cli_prod({}), lambda d: hv.cli_idset(), lambda d: hv.cli_inrel(G(), {}, {}),
            lambda d: hv.cli_rcs(G(), C(d), {}), lambda d: hv.cli_and(tuple([C(d) for _ in range(rng.randint(0, 3))]), {}),
            lambda d: hv.cli_dictof(G(), C(d), one(), one()), lambda d: hv.cli_inrel(full(), {}, {}),
            lambda d: hv.cli_rcs(full(), C(d), {}), lambda d: hv.cli_dictof(owners(), C(d), one(), one()),
            lambda d: hv.cli_findex(tuple([(C(d), one(), rng.choice(['==', '<=', '!=', 'no'])) for _ in range(rng.randint(0, 3))]), {}),
            lambda d: hv.cli_user_defined(C(d), one() if rng.random() < .5 else list, rng.choice([stop, type, id, one()]),
                                          rng.choice([None, stop, lambda k: k, lambda k: one()]))]

        def full():
            g = hp.View.nodegraph()
            rng.choice([hv.update_referrers_completely, lambda g: hv.update_referrers(g, immnodeset(some(w)))])(g)
            return g

        def owners():
            g = hp.View.nodegraph()
            hv.update_dictowners(g)
            return g

        def C(d=3):
            return rng.choice(CLIS[:2 if d < 1 else None])(d - 1)
        N = lambda: rng.choice([mutnodeset, immnodeset])(some(w, 0, 4))
        B = lambda: rng.choice([mutbitset, immbitset])([rng.randint(0, 99) for _ in range(rng.randint(0, 4))])
        pool = [one, one, one, one, lambda: some(w, 0, 3), lambda: tuple(some(w)), G, N, N, C, grumpy, lazy, stop, B,
                lambda: rng.choice([0, 1, -1, 10 ** 20, None, '==', 'x', (), 2.5]), lambda: {}, lambda: [(one(), one())],
                lambda: [(one(), one()), (one(),)], lambda: [(one(), (one(), one()))], lambda: [one(), 3], lambda: hp.iso(*some(w)).nodes,
                lambda: iter(some(w)), lambda: (C(), C()), lambda: (C(), one())]
        a = lambda: rng.choice(pool)()

        def o():
            # nothing of the program's own is given to be written to
            while 1:
                x = a()
                if not isinstance(x, (dict, collections.deque, types.GeneratorType, heapyc.NodeGraph, sets.MutNodeSet)) or id(x) not in w.num:
                    return x
        HV = ['cli_and', 'cli_dictof', 'cli_findex', 'cli_id', 'cli_idset', 'cli_indisize', 'cli_inrel', 'cli_none', 'cli_prod', 'cli_rcs',
              'cli_type', 'cli_user_defined', 'indisize_sum', 'heap', 'numedges', 'reachable', 'reachable_x', 'relate', 'relimg',
              'shpathstep', 'update_dictowners', 'update_referrers', 'update_referrers_completely']
        T = rng.choice([
            lambda: (hv, rng.choice(HV)),
            lambda: (G(), rng.choice(['add_edge', 'add_edges_n1', 'as_flat_list', 'clear', 'copy', 'domain_covers', 'domain_restricted',
                                      'get_domain', 'get_range', 'invert', 'inverted', 'relimg', 'update', 'updated', '__getitem__',
                                      '__setitem__', '__contains__', '__len__', '__iter__', '__init__'])),
            lambda: (N(), rng.choice(['add', 'append', 'clear', 'discard', 'pop', 'remove', 'tas', 'tac', 'obj_at', '__iand__', '__ior__',
                                      '__isub__', '__ixor__', '__and__', '__or__', '__sub__', '__xor__', '__contains__', '__lt__', '__le__',
                                      '__eq__', '__len__', '__iter__', '__hash__', 'mutcopy', 'immcopy'])),
            lambda: (B(), rng.choice(['add', 'append', 'clear', 'discard', 'pop', 'remove', 'tas', 'tac', '__iand__', '__ior__', '__isub__',
                                      '__ixor__', '__and__', '__or__', '__sub__', '__xor__', '__contains__', '__lt__', '__le__', '__eq__',
                                      '__len__', '__iter__', '__invert__', '__lshift__', '__int__', 'mutcopy', 'immcopy', '__getitem__',
                                      '__rand__', '__ror__', '__rsub__', '__rxor__'])),
            lambda: (C(), rng.choice(['classify', 'partition', 'epartition', 'select'])),
            lambda: (setsc, rng.choice(['MutNodeSet', 'MutBitSet', 'ImmBitSet', 'immbitrange', 'immbit'])),
            lambda: (sys.modules['guppy.sets'], rng.choice(['mutnodeset', 'immnodeset', 'mutbitset', 'immbitset'])),
            lambda: (hp.View, rng.choice(['nodegraph', 'nodeset', 'mutnodeset', 'immnodeset'])),
            lambda: (heapyc.Horizon(some(w, 0, 3)), 'news'), lambda: (heapyc, 'Horizon'), lambda: (heapyc, 'NodeGraph'),
            lambda: (hp, rng.choice(['iso', 'idset', 'findex', 'load']))])()
        f = getattr(T[0], T[1])
        x = f(*[o() for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))])
        if type(x).__name__ == 'generator' or hasattr(x, '__next__'):
            for _ in zip(range(50), x):
                pass
        return x, T[0]

    def rootstate():
        # the attributes the interpreter's own references go by
        R = heapyc.RootState
        t = threading.get_ident()
        names = dir(R) + ['i0_nosuch', 'i7_modules', 'nosuch', 'i0_t%d_nosuch' % t, 'i0_t%d_f99' % t, 'i0_t%d_f0' % t, 'i0_t1_f0',
                          'i0_t%d_f1' % t, 't%d_f0' % t, 't1_f0', 'i0_', 'i0_t%d_' % t, 'i7_t%d_f0' % t, 't%d_nosuch' % t]
        r = []
        for _ in range(rng.randint(1, 8)):
            n = rng.choice(names)
            r.append(type(calm(lambda: getattr(R, n))))
        return r, dir(R) == names[:1], str(hp.iso(one()).sp)

    def raws():
        return [calm(raw) for _ in range(rng.randint(1, 15))]

    def calm(f):
        try:
            return f()
        except RecursionError:
            raise
        except Exception as e:
            e.__traceback__ = e.__context__ = None

    def classes():
        # classes that come and go
        K = type('Tmp', (rng.choice([object, list, dict, Inst]),), rng.choice([dict(), dict(__slots__=('s',)), dict(a=one())]))
        x = K()
        r = [x]
        for y in (x, K):
            r.append(calm(rng.choice([lambda: hv.relate(y, K), lambda: str(hp.iso(y).byclodo), lambda: hp.iso(y).referents,
                                      lambda: hp.iso(y).indisize, lambda: hp.iso(y).rp, lambda: hp.iso(K, y).kind, lambda: hp.Type(K) & hp.iso(y),
                                      lambda: hp.iso(y, *some(w)).dominos, lambda: hv.reachable(hp.iso(y).nodes, hp.iso(K).nodes)])))
        return r

    table = [raws] * 25 + [classes] * 4 + [rootstate] * 3 + [
        lambda: s(), lambda: listing(s()), lambda: listing(s().by(er())), lambda: listing(s().byid), lambda: kinds(), lambda: kinds(),
        lambda: s().referents, lambda: s().referrers, lambda: listing(s().referrers.byclodo), lambda: s().referrers_gc,
        lambda: s().dominos, lambda: s().domisize, lambda: s().imdom, lambda: s().indisize, lambda: listing(s().rp),
        lambda: s().get_rp(depth=3, er=er()), lambda: listing(s().shpaths), lambda: (s().sp, str(s().theone) if 0 else 0),
        lambda: s().get_shpaths(src=s()), lambda: listing(s().get_shpaths(src=s())), lambda: wander(s().get_shpaths(src=s()), 2),
        lambda: s().shpaths.avoided(0), lambda: hp.heap(), lambda: listing(hp.heap()), lambda: hp.heap() - s(), lambda: hp.heap().by(er()),
        lambda: s().partition, lambda: s().maprox, lambda: listing(s().pathsin), lambda: listing(s().pathsout),
        lambda: s().stat, lambda: dump(), lambda: s().parts, lambda: (s().all, s().more), lambda: s().get_shpaths(s()),
        lambda: [hv.relate(*edge()) for _ in range(3)], lambda: [hv.relate(*edge()) for _ in range(3)],
        lambda: str(hp._parent.Path.relations(*edge())), lambda: hp.iso(edge()[1]).get_shpaths(hp.iso(edge()[0])), lambda: hv.numedges(*edge()), lambda: hv.indisize_sum(some(w)),
        lambda: [hp._parent.Path.relations(one(), one()) for _ in range(3)], lambda: hv.relimg(some(w)),
        lambda: (s().diff(s()), s().disjoint(s())), lambda: s() == s(), lambda: hash(s()), lambda: (s() | s(), s() ^ s()),
        lambda: hp.idset(some(w)), lambda: listing(hp.idset(some(w)).byrcs), lambda: s().bymodule, lambda: s().byunity,
        lambda: list(s().byid.nodes), lambda: s().theone, lambda: wander(s().by(er()).parts, 1), lambda: s().er,
        lambda: (hp.setref(), hp.heap()), lambda: s().test_contains(one()), lambda: hp.findex(s().kind, s().by('Type').kind),
        lambda: s() & hp.findex(s().kind).classifier if 0 else 0, lambda: s().by(hp.findex(s().kind, s().kind)),
        lambda: s().by(hp.Type & hp.Size), lambda: s().by(hp.Clodo.refdby), lambda: s().by(hp.Type.dictof),
        graph, graph, nodes, nodes, nodes, classify, classify, bad, bad, frames, frames, horizon]
    try:
        return rng.choice(table)()
    except (Skip, RecursionError):
        raise
    except Exception as e:
        e.__traceback__ = None
        e.__context__ = None
        return None


def traces(rng, i):
    hp = use()
    w = Program(rng)
    w.fallen = []
    w.tag = hp.View._hiding_tag_
    w.L()
    hp.View.root = w.o(1)
    w.make(rng.randint(3, 9))
    for _ in range(rng.randint(4, 20)):
        w.link()
    for _ in range(rng.randint(0, 3)):
        w.link(1)
    watched = {}
    w.settle()
    kd = [n for n in range(1, len(w.obj) + 1) if w.kind[n - 1] == 'KD']
    for n in kd:
        w.obj[n - 1] = None
    w.emit('release', kd)
    watch(w, watched)
    gc.collect()
    w.emit('collect', [])
    kept = []
    envs = []

    def count():
        ns = [n for n in range(1, len(w.obj) + 1) if w.obj[n - 1] is not None and w.kind[n - 1] not in ('ID',)]
        w.emit('count', ns, [sys.getrefcount(w.obj[n - 1]) for n in ns])

    def drop():
        del kept[:]
        hp.setref(hp.Nothing, hp.Nothing)
        # once for what was kept, again for what that held in turn
        for _ in range(3):
            gc.collect()
        w.emit('drop', [])

    def look():
        n = w.pick()
        if n:
            r = contents(w, n)
            if r is not None:
                w.emit('look', [n], r)

    def setting():
        e = env()
        if e not in envs:
            envs.append(e)
        w.emit('env', [], envs.index(e))

    def again():
        # the same once more, and the memory in use each time
        seed = rng.random()
        r = array.array('q', [0] * 7)
        for i in range(7):
            rng.seed(seed)
            ops(w, hp, rng)
            hp.setref(hp.Nothing, hp.Nothing)
            gc.collect()
            gc.collect()
            sys._clear_type_cache()    # (it keeps names)
            r[i] = sys.getallocatedblocks()
        w.emit('drop', [])
        w.emit('again', [], list(r)[1:])

    count()
    setting()
    for _ in range(rng.randint(6, 22)):
        x = rng.random()
        if x < .08 and not kept:
            w.emit('keep', [])
            again()
            count()
        elif x < .45:
            # analysed, and forgotten sooner or later
            for _ in range(rng.randint(1, 3)):
                kept.append(ops(w, hp, rng))
                w.emit('keep', [])
            if rng.random() < .75:
                drop()
                count()
        elif x < .6:
            if rng.random() < .6:
                w.link()
            else:
                w.unlink()
        elif x < .68:
            look()
        elif x < .75:
            if kept:
                drop()
            count()
        elif x < .9:
            ns = [n for n in w.some(1, 4) if n != 1]
            if rng.random() < .1:
                ns = [n for n in range(2, len(w.obj) + 1) if w.obj[n - 1] is not None]
            ns = sorted(set(ns))
            for n in ns:
                w.obj[n - 1] = None
            w.emit('release', ns)
        elif x < .95:
            gc.collect()
            w.emit('collect', [])
        else:
            setting()
    drop()
    count()
    setting()
    for n in range(1, len(w.obj) + 1):
        look()
    hp.View.root = [0]
    ns = [n for n in range(1, len(w.obj) + 1) if w.obj[n - 1] is not None]
    for n in ns:
        w.obj[n - 1] = None
    w.emit('release', ns)
    gc.collect()
    w.emit('collect', [])
    return dict(ev=w.ev, kinds=w.kind)


if __name__ == '__main__':
    gc.disable()
    warnings.simplefilter('ignore')
    main_traces(dict(lives=traces)[sys.argv[1]], sys.argv[2:])
