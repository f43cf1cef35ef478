"""Objects that come and go, and what horizons and reference sets show as
new."""
import collections, ctypes, datetime, decimal, functools, gc, random, sys, types, weakref, array, itertools, io
from tracelib import main_traces

class Inst: pass
class Slot: __slots__ = 'a', '__weakref__'
class Bare: __slots__ = ()
class LSub(list): pass
class ODSub(collections.OrderedDict): pass
class DqSub(collections.deque): pass
class Err(Exception): pass
class DateSub(datetime.date): pass
def gen():
    yield 1
def fun(a=[]): return (lambda: a)

KINDS = {
    'inst': Inst, 'slot': Slot, 'bare': Bare, 'list': lambda: [1], 'lsub': LSub, 'dict': lambda: {1: 2},
    'set': lambda: {1}, 'fset': lambda: frozenset([object()]), 'tuple': lambda: (object(), 2),
    'od': lambda: collections.OrderedDict([(1, 2)]), 'ods': lambda: ODSub(a=1), 'dd': lambda: collections.defaultdict(list),
    'deque': lambda: collections.deque([1]), 'dqs': DqSub, 'counter': lambda: collections.Counter('ab'),
    'fun': fun, 'meth': lambda: [].append, 'bound': lambda: types.MethodType(fun, Inst), 'prop': lambda: property(fun),
    'cell': lambda: types.CellType(1), 'gen': gen, 'ns': lambda: types.SimpleNamespace(a=1), 'exc': lambda: ValueError(1),
    'ose': lambda: OSError(1, 'x'), 'err': lambda: Err(1), 'date': lambda: datetime.date(2000, 1, 1),
    'dtime': lambda: datetime.datetime(2000, 1, 1), 'dates': lambda: DateSub(2000, 1, 2), 'bytes': lambda: bytes(bytearray(b'abcdefg')),
    'barr': lambda: bytearray(b'ab'), 'cplx': lambda: complex(len('ab'), 2), 'slice': lambda: slice(object(), 2),
    'range': lambda: range(len('abc')), 'part': lambda: functools.partial(fun), 'arr': lambda: array.array('i', [1]),
    'it': lambda: iter([1, 2]), 'count': lambda: itertools.count(5), 'sio': lambda: io.StringIO('a'), 'dec': lambda: decimal.Decimal('1.5'),
    'obj': object, 'mp': lambda: types.MappingProxyType({}), 'mv': lambda: memoryview(b'abc'), 'wr': lambda: weakref.ref(Inst, lambda w: 0),
}
NAMES = sorted(KINDS)
TYPES = sorted({t for k in NAMES for t in type(KINDS[k]()).__mro__}, key=lambda t: t.__name__)


def dealloc_of(t):
    return ctypes.c_void_p.from_address(id(t) + 48).value
ORIG = {t: dealloc_of(t) for t in TYPES}


class Run:
    def __init__(self, rng):
        self.rng = rng
        self.ev = []
        self.obj = {}
        self.kind = {}
        self.n = 0
        self.hz = {}
        self.nh = 0
        self.addr = {}

    def emit(self, o, a, r=0):
        self.ev.append(dict(o=o, a=a, r=r))

    def make(self, kind):
        self.n += 1
        x = KINDS[kind]()
        self.obj[self.n] = x
        self.kind[self.n] = kind
        self.emit('new', [self.n, self.addr.setdefault(id(x), len(self.addr) + 1)])

    def kill(self, n):
        x = self.obj.pop(n)
        kind = self.kind.pop(n)
        if kind in ('inst', 'list', 'lsub', 'dict', 'od', 'ods', 'deque', 'ns') and self.rng.random() < .3:
            # dies in a cycle
            if kind in ('list', 'lsub', 'deque', 'dqs'):
                x.append(x)
            elif kind in ('dict', 'od', 'ods', 'dd'):
                x['x'] = x
            else:
                x.x = x
            del x
            gc.collect()
        del_ref(locals())
        x = None
        self.emit('die', [n])

    def ids(self, objs):
        num = {id(x): n for n, x in self.obj.items()}
        return sorted(num[id(x)] for x in objs if id(x) in num)

    def slots(self):
        self.emit('slots', [], [t.__name__ for t in TYPES if dealloc_of(t) != ORIG[t]])


def del_ref(d):
    d.pop('x', None)


def churn(r, k):
    """Deaths and creations of the same kinds, so that memory is reused."""
    rng = r.rng
    for _ in range(k):
        if r.obj and rng.random() < .45:
            n = rng.choice(sorted(r.obj))
            kind = r.kind[n]
            r.kill(n)
            if rng.random() < .7:
                r.make(kind)
        else:
            r.make(rng.choice(r.focus))


def low(rng, i):
    """The horizon type itself, with sets of objects."""
    from guppy.heapy import heapyc
    r = Run(rng)
    r.focus = rng.sample(NAMES, rng.randint(2, 6))
    churn(r, rng.randint(3, 10))
    r.slots()
    for _ in range(rng.randint(4, 14)):
        x = rng.random()
        if x < .25 and len(r.hz) < 4:
            r.nh += 1
            S = sorted(r.obj) if rng.random() < .5 else sorted(n for n in r.obj if rng.random() < .6)
            r.hz[r.nh] = heapyc.Horizon([r.obj[n] for n in S])
            r.emit('take', [r.nh, S])
        elif x < .35 and r.hz:
            h = rng.choice(sorted(r.hz))
            del r.hz[h]
            r.emit('drop', [h])
            r.slots()
        elif x < .65 and r.hz:
            h = rng.choice(sorted(r.hz))
            S = sorted(r.obj)
            r.emit('news', [h, S], r.ids(r.hz[h].news([r.obj[n] for n in S])))
        else:
            churn(r, rng.randint(1, 8))
    for h in sorted(r.hz):
        S = sorted(r.obj)
        r.emit('news', [h, S], r.ids(r.hz[h].news([r.obj[n] for n in S])))
    while r.hz:
        h = rng.choice(sorted(r.hz))
        del r.hz[h]
        r.emit('drop', [h])
        r.slots()
    churn(r, 6)
    r.slots()
    return dict(ev=r.ev, kinds=r.focus)


HP = None
KEEP = []
def whole(rng, i):
    """Horizons and reference sets of the whole heap."""
    global HP
    if HP is None:
        from guppy import hpy
        HP = hpy()
        HP.heap()
    hp = HP
    r = Run(rng)
    KEEP[:] = [r.obj]
    # only what traversal can find (objects that are not containers are found
    # via the dictionary that holds them)
    r.focus = rng.sample(NAMES, rng.randint(3, 8))
    churn(r, rng.randint(3, 8))
    V = hp._parent.View
    ref = False
    for _ in range(rng.randint(3, 7)):
        x = rng.random()
        if x < .3 and len(r.hz) < 3:
            r.nh += 1
            r.hz[r.nh] = V.horizon()
            r.emit('take', [r.nh, sorted(r.obj)])
        elif x < .4 and r.hz:
            h = rng.choice(sorted(r.hz))
            del r.hz[h]
            r.emit('drop', [h])
        elif x < .6 and r.hz:
            h = rng.choice(sorted(r.hz))
            r.emit('news', [h, sorted(r.obj)], r.ids(r.hz[h].news().nodes))
        elif x < .75:
            hp.setrelheap()
            r.emit('setref', [])
            ref = True
            r.emit('heap', [], r.ids(hp.heap().nodes))
        elif x < .85:
            r.emit('heap', [], r.ids(hp.heap().nodes))
        if ref:
            for _ in range(rng.randint(1, 4)):
                r.make(rng.choice(r.focus))
            r.emit('heap', [], r.ids(hp.heap().nodes))
            if rng.random() < .5:
                hp.setrelheap(hp.Nothing)
                r.emit('unref', [])
                ref = False
        else:
            churn(r, rng.randint(1, 6))
    for h in sorted(r.hz):
        r.emit('news', [h, sorted(r.obj)], r.ids(r.hz[h].news().nodes))
    hp.setrelheap(hp.Nothing)
    r.emit('unref', [])
    for h in sorted(r.hz):
        del r.hz[h]
        r.emit('drop', [h])
    gc.collect()    # the objects behind a horizon are in cycles
    r.slots()
    return dict(ev=r.ev, kinds=r.focus)


if __name__ == '__main__':
    main_traces({'low': low, 'whole': whole}[sys.argv[1]], sys.argv[2:])
