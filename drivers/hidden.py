"""Objects, classes and tags that come and go, and what a heap listing shows."""
import ctypes, gc, os, sys, random, threading, types, _thread, contextvars, builtins, weakref, array
from tracelib import main_traces

incref = ctypes.pythonapi.Py_IncRef
decref = ctypes.pythonapi.Py_DecRef
incref.argtypes = decref.argtypes = [ctypes.py_object]


class Holder:
    """Keeps objects alive, and finds them, without referring to them in any
    way that a traversal sees."""
    def __init__(self):
        self.addr = {}        # node -> address
        self.num = {}         # address -> node
        self.n = 1

    def add(self, x):
        self.n += 1
        incref(x)
        self.addr[self.n] = id(x)
        self.num[id(x)] = self.n
        return self.n

    def o(self, n):
        return ctypes.cast(self.addr[n], ctypes.py_object).value

    def drop(self, n):
        """Forgets a node: from now on only the program keeps it."""
        x = self.o(n)
        del self.num[self.addr.pop(n)]
        decref(x)

    def ids(self, objs):
        num = self.num
        r = array.array('q')
        for x in objs:
            k = num.get(id(x))
            if k:
                r.append(k)
        return sorted(r)


# ------------------------------------------------------------- types and tags
TAGS = [None] + [['tag%d' % k] for k in (1, 2)]

def make_class(rng, base, form, k):
    ns = {'__module__': 'w'}
    if form == 'tagged':
        ns['__slots__'] = ('_hiding_tag_', 'r')
    elif form == 'slots':
        ns['__slots__'] = ('r',)
    return type('K', (base,) if base else (), ns)


def typed(rng, i):
    """Registered and tagged types in a view of a small heap of its own."""
    from guppy.heapy import heapyc
    import guppy.sets.setsc
    H = Holder()
    ev = []
    emit = lambda o, a, r=0: ev.append(dict(o=o, a=a, r=r))
    root = []
    hv = heapyc.HeapView(root, (guppy.sets.setsc._NyHeapDefs_,))
    hv._hiding_tag_ = TAGS[1]
    classes, insts = {}, {}      # node -> [tag slot?, dict?, base], node -> class

    def new_class(base=None, form=None):
        b = H.o(base) if base else None
        # a form that the base allows
        slot, hasdict = classes[base][:2] if base else (False, False)
        form = form or rng.choice(['plain', 'plain', 'tagged', 'slots'])
        if slot and form == 'tagged':
            form = 'plain'
        ns = {'__module__': 'w'}
        if form == 'tagged':
            ns['__slots__'] = ('_hiding_tag_', 's%d' % H.n)
        elif form == 'slots':
            ns['__slots__'] = ('s%d' % H.n,)
        k = type('K%d' % H.n, (b,) if b else (), ns)
        n = H.add(k)
        classes[n] = [slot or form == 'tagged', hasdict or form == 'plain', base]
        emit('class', [n, base or 0, [base] if base else []])
        return n

    def new_inst(c):
        x = H.o(c)()
        n = H.add(x)
        insts[n] = c
        emit('new', [n, c, [c]])
        return n

    def die(c):
        """The class, its instances and its subclasses cease to exist."""
        for d in [d for d in classes if classes[d][2] == c]:
            die(d)
        for n in [n for n in insts if insts[n] == c]:
            unroot(n)
            del insts[n]
            H.drop(n)
        unroot(c)
        a = H.addr[c]
        del classes[c]
        H.drop(c)
        return a

    def unroot(n):
        for s, t in list(edges):
            if t == n:
                cut(s, t)
            elif s == n:
                edges.remove((s, t))
    edges = []
    def join(s, t):
        if s == 1:
            root.append(H.o(t))
        else:
            x = H.o(s)
            c = insts[s]
            if not classes[c][1] or (s, t) in edges:
                return
            setattr(x, 'a%d' % t, H.o(t))
        edges.append((s, t))
        emit('link', [s, t])
    def cut(s, t):
        edges.remove((s, t))
        if s == 1:
            a = H.addr[t]
            for k, x in enumerate(root):
                if id(x) == a:
                    del root[k]
                    break
            x = None
        else:
            delattr(H.o(s), 'a%d' % t)
        emit('unlink', [s, t])

    def settag(n):
        slot, hasdict, _ = classes[insts[n]]
        k = rng.choice([0, 1, 1, 1, 2])
        x = H.o(n)
        if slot:
            x._hiding_tag_ = TAGS[k]
            emit('tag', [n, k])
            if hasdict and rng.random() < .3:
                k = rng.choice([0, 1])
                x.__dict__['_hiding_tag_'] = TAGS[k]
                emit('dtag', [n, k])
        elif hasdict:
            if rng.random() < .5:
                x._hiding_tag_ = TAGS[k]
            else:
                x.__dict__['_hiding_tag_'] = TAGS[k]
            emit('dtag', [n, k])

    def register(c, how=None):
        how = how or rng.choice(['HI', 'HE'])
        if how == 'HE' and not classes[c][0]:
            how = 'HI'
        f = hv.register_hidden_exact_type if how == 'HI' else hv.register__hiding_tag__type
        try:
            f(H.o(c))
            r = 'ok'
        except ValueError as e:
            assert 'already' in str(e), e
            r = 'ValueError'
        emit('register', [c, how], r)

    def look():
        if rng.random() < .85:
            emit('heap', [], H.ids(hv.heap()))
        else:
            emit('heap', [], H.ids(hv.reachable(guppy.sets.setsc.ImmNodeSet([root]), guppy.sets.setsc.ImmNodeSet())))

    for _ in range(rng.randint(1, 3)):
        new_class()
    for _ in range(rng.randint(15, 45)):
        x = rng.random()
        if x < .1 and len(classes) < 8:
            new_class(rng.choice(sorted(classes)) if classes and rng.random() < .6 else None)
        elif x < .3 and classes:
            n = new_inst(rng.choice(sorted(classes)))
            if rng.random() < .6:
                settag(n)
            s = 1 if rng.random() < .6 else rng.choice(sorted(insts))
            if s != n:
                join(s, n)
        elif x < .4 and insts:
            s, t = rng.choice([1] + sorted(insts)), rng.choice(sorted(insts))
            if s != t:
                join(s, t)
        elif x < .45 and edges:
            cut(*rng.choice(edges))
        elif x < .55 and insts:
            settag(rng.choice(sorted(insts)))
        elif x < .65 and classes:
            register(rng.choice(sorted(classes)))
        elif x < .68:
            k = rng.choice([1, 2])
            hv._hiding_tag_ = TAGS[k]
            emit('viewtag', [k])
        elif x < .8 and classes:
            # a class at the place of one that is gone
            look()
            gone = []
            c = rng.choice(sorted(classes))
            form = 'tagged' if classes[c][0] else 'plain' if classes[c][1] else 'slots'
            gone.append(die(c))
            gc.collect()
            for _ in range(rng.choice([1, 6])):
                c = new_class(None, rng.choice([form, form, 'plain']))
                if H.addr[c] in gone:
                    break
            n = new_inst(c)
            if rng.random() < .5:
                settag(n)
            join(1, n)
            look()
        else:
            look()
    look()
    del root[:]
    for c in sorted(classes):
        if c in classes:
            die(c)
    hv = None
    gc.collect()
    return dict(ev=ev)


# ------------------------------------------------------------------ the whole
class Inst: pass
class Hx: __slots__ = 'a'
class Ht: __slots__ = 'a', '_hiding_tag_'
class HtSub(Ht): pass

class Err(Exception): pass

PLACE = {}
CLS = type('CLS', (), {})
TL = threading.local()
MODS = {}
HP = None
SEEN = None

class Secret:
    """What the test itself must remember about listings; hidden."""
    __slots__ = 'a', 'b', 'x', 'f'
SEC = Secret()


def hold(box, up, go):
    x = box.pop()
    up.release()
    go.acquire()
def hold_deep(box, up, go):
    y = box.pop()
    hold([object()], up, go)
def hold_gen(box, up, go):
    def g(z):
        hold([object()], up, go)
        yield z
    list(g(box.pop()))
def hold_tl(box, up, go):
    TL.y = box.pop()
    up.release()
    go.acquire()
    del TL.y
def hold_exc(box, up, go):
    try:
        raise Err(box.pop())
    except Err:
        up.release()
        go.acquire()
def hold_ctx(box, up, go):
    VAR.set(box.pop())
    up.release()
    go.acquire()
def hold_cell(box, up, go):
    z = box.pop()
    def f():
        up.release()
        go.acquire()
        return z
    f()
def hold_hidden(box, up, go, _hiding_tag_=None):
    _hiding_tag_ = HP._parent.View._hiding_tag_
    z = box.pop()
    up.release()
    go.acquire()
def hold_behind(box, up, go):
    z = box.pop()
    hold_hidden([object()], up, go)
def hold_other(box, up, go):
    _hiding_tag_ = TAGS[2]
    z = box.pop()
    up.release()
    go.acquire()
THREADS = {f.__name__: f for f in (hold, hold_deep, hold_gen, hold_tl, hold_exc, hold_ctx, hold_cell, hold_other)}
UNSEEN = {f.__name__: f for f in (hold_hidden, hold_behind)}
VAR = contextvars.ContextVar('VAR')

def gen(x):
    yield 1
async def coro(x):
    pass
async def agen(x):
    yield 1
def fail(x):
    raise Err()


OPS = {
    'iso': lambda hp, X: hp.iso(*X),
    'byid': lambda hp, X: hp.iso(*X).byid,
    'bytype': lambda hp, X: hp.idset(X).bytype,
    'byrcs': lambda hp, X: hp.iso(*X).byrcs,
    'bymodule': lambda hp, X: hp.iso(*X).bymodule,
    'kind': lambda hp, X: hp.iso(*X).bytype[0].kind,
    'er': lambda hp, X: hp.iso(*X).bysize.er,
    'part': lambda hp, X: hp.iso(*X).partition,
    'stat': lambda hp, X: hp.iso(*X).bytype.stat,
    'text': lambda hp, X: str(hp.iso(*X).bytype) and hp.iso(*X),
    'nodes': lambda hp, X: hp.iso(*X).nodes,
    'heap': lambda hp, X: hp.heap(),
    'heapstr': lambda hp, X: [str(h) and h for h in [hp.heap()]][0],
    'shpaths': lambda hp, X: hp.iso(*X).shpaths,
    'spstr': lambda hp, X: [str(p) and p for p in [hp.iso(X[0]).sp]][0],
    'path': lambda hp, X: ([p for k, p in zip(range(1), hp.iso(X[0]).sp)] or [None])[0],
    'rp': lambda hp, X: [str(p) and p for p in [hp.iso(*X).rp]][0],
    'referrers': lambda hp, X: hp.iso(*X).referrers,
    'referents': lambda hp, X: hp.iso(*X).referents,
    'dominos': lambda hp, X: hp.iso(*X).dominos,
    'imdom': lambda hp, X: hp.iso(*X).imdom,
    'owners': lambda hp, X: hp.iso(*X).owners,
    'more': lambda hp, X: [str(p) and p for p in [hp.iso(*X).byid.more]][0],
    'diff': lambda hp, X: hp.heap() - hp.iso(*X),
    'kinds': lambda hp, X: hp.Type(list) & ~hp.Size(4) | hp.iso(*X).byid.kind,
    'horizon': lambda hp, X: hp._parent.View.horizon(),
    'hpy': lambda hp, X: [h.iso(*X) for h in [__import__('guppy').hpy()]][0],
    'idset': lambda hp, X: hp.idset(X) | hp.iso(X),
    'ng': lambda hp, X: hp._parent.View.nodegraph([(x, x) for x in X]),
    'mns': lambda hp, X: hp._parent.View.mutnodeset(X),
}
OPNAMES = sorted(OPS)
VISIBLE_RESULT = ('nodes', 'ng', 'mns')     # what these return is visible itself, not what it holds


def start():
    global HP
    if HP is None:
        from guppy import hpy
        import guppy.heapy.Spec
        HP = hpy()
        hv = HP._parent.View.hv
        hv.register_hidden_exact_type(Hx)
        hv.register_hidden_exact_type(Secret)
        hv.register__hiding_tag__type(Ht)
        PLACE['warm'] = x = [Inst()]
        for k in OPNAMES * 2:
            SEC.x = None
            PLACE['warmup'] = OPS[k](HP, [x, x[0]])
        x = SEC.x = None
        PLACE.clear()
        gc.collect()
        HP.heap()
    return HP


class Whole:
    def __init__(self, rng):
        self.rng, self.H, self.ev = rng, Holder(), []
        self.kind, self.edges, self.thr, self.nkey = {}, [], {}, 0

    def emit(self, o, a, r=0):
        self.ev.append(dict(o=o, a=a, r=r))

    def some(self, *kinds):
        c = [n for n in sorted(self.kind) if not kinds or self.kind[n] in kinds]
        return self.rng.choice(c) if c else None

    def new(self, kind=None):
        rng, H = self.rng, self.H
        kind = kind or rng.choice(['inst', 'inst', 'list', 'dict', 'set', 'fun', 'class', 'gen', 'coro', 'agen', 'exc', 'mod',
                                   'tuple', 'meth', 'hx', 'ht', 'htsub', 'hd', 'hd'])
        t = self.some() if kind in ('gen', 'coro', 'agen', 'exc', 'tuple', 'fun', 'meth') else None
        refs = [t] if t else []
        v = H.o(t) if t else None
        if kind == 'inst': x = Inst()
        elif kind == 'list': x = []
        elif kind == 'dict': x = {}
        elif kind == 'set': x = set()
        elif kind == 'fun':
            if rng.random() < .5: x = (lambda a: lambda: a)(v)
            else: x = types.FunctionType((lambda a=1: a).__code__, {'__builtins__': {}}, 'f', (v,))
        elif kind == 'class': x = type('W', (), {})
        elif kind == 'gen':
            x = gen(v)
            if rng.random() < .8: next(x)
        elif kind == 'coro':
            x = coro(v)
        elif kind == 'agen': x = agen(v)
        elif kind == 'exc':
            try:
                fail(v)
            except Err as e:
                x = e
                # the frames in between are this one's and they are gone later
                x.__traceback__ = x.__traceback__.tb_next
        elif kind == 'mod': x = types.ModuleType('m%d' % H.n)
        elif kind == 'tuple': x = (v, 'x')
        elif kind == 'meth': x = types.MethodType(Inst, Inst if v is None else v)
        elif kind == 'hx': x = Hx()
        elif kind == 'ht': x = Ht()
        elif kind == 'htsub': x = HtSub()
        elif kind == 'hd': x = Inst()
        n = H.add(x)
        self.kind[n] = kind
        self.emit('new', [n, 0, refs])
        tag = HP._parent.View._hiding_tag_
        if kind == 'hx':
            self.emit('dtag', [n, 1])      # hidden by its type
        elif kind in ('ht', 'htsub', 'hd'):
            k = rng.choice([0, 1, 1, 2])
            if k:
                x._hiding_tag_ = tag if k == 1 else TAGS[2]
            self.emit('dtag', [n, k])
        elif kind == 'coro':
            SEC.x = x, SEC.x       # closed at the end
        x = v = None
        return n

    def link(self, s, t):
        H, k = self.H, self.kind[s]
        if (s, t) in self.edges:
            return
        x, v, a = H.o(s), H.o(t), 'a%d' % t
        if k in ('inst', 'fun', 'class', 'mod', 'hd', 'htsub', 'exc'):
            setattr(x, a, v)
        elif k == 'list': x.append(v)
        elif k == 'dict': x[a] = v
        elif k == 'set':
            if self.kind[t] not in ('inst', 'fun', 'class', 'hx', 'ht', 'hd', 'mod', 'gen'):
                return
            x.add(v)
        elif k in ('hx', 'ht'):
            if [e for e in self.edges if e[0] == s]:
                return
            x.a = v
        else:
            return
        self.edges.append((s, t))
        self.emit('link', [s, t])

    def unlink(self, s, t):
        H, k = self.H, self.kind[s]
        x, a, d = H.o(s), 'a%d' % t, H.addr[t]
        if k in ('inst', 'fun', 'class', 'mod', 'hd', 'htsub', 'exc'): delattr(x, a)
        elif k == 'list':
            i = [id(y) for y in x].index(d)
            del x[i]
        elif k == 'dict': del x[a]
        elif k == 'set': x.discard(H.o(t))
        else: x.a = None
        self.edges.remove((s, t))
        self.emit('unlink', [s, t])

    # places from which the interpreter reaches an object
    def place(self, n):
        rng, H = self.rng, self.H
        how = rng.choice(['glob', 'glob', 'cls', 'tl', 'var', 'mod', 'bi', 'sys', 'thr', 'thr', 'weak', 'unseen', 'hidden'])
        x = H.o(n)
        self.nkey += 1
        key = 'k%d' % self.nkey
        if how == 'glob': PLACE[key] = x; undo = lambda: PLACE.pop(key)
        elif how == 'cls': setattr(CLS, key, x); undo = lambda: delattr(CLS, key)
        elif how == 'tl': setattr(TL, key, x); undo = lambda: delattr(TL, key)
        elif how == 'var':
            var = contextvars.ContextVar(key)
            var.set(x)
            var = None
            undo = None      # stays
        elif how == 'mod':
            m = types.ModuleType(key)
            m.x = x
            sys.modules['mod' + key] = m
            m = None
            undo = lambda: sys.modules.pop('mod' + key)
        elif how == 'bi': setattr(builtins, key, x); undo = lambda: delattr(builtins, key)
        elif how == 'sys': setattr(sys, key, x); undo = lambda: delattr(sys, key)
        elif how in ('thr', 'unseen'):
            if len(self.thr) >= 3:
                return
            f = rng.choice(sorted(THREADS if how == 'thr' else UNSEEN))
            up, go, box = _thread.allocate_lock(), _thread.allocate_lock(), [x]
            up.acquire(), go.acquire()
            _thread.start_new_thread((THREADS if how == 'thr' else UNSEEN)[f], (box, up, go))
            up.acquire()
            undo = go.release
            how += ' ' + f
            box = None
        elif how == 'weak':
            if self.kind[n] not in ('inst', 'class', 'fun'):
                return
            PLACE[key] = weakref.ref(x)
            undo = lambda: PLACE.pop(key)
        elif how == 'hidden':
            h = Inst()
            h.x = x
            h._hiding_tag_ = HP._parent.View._hiding_tag_
            PLACE[key] = h
            h = None
            undo = lambda: PLACE.pop(key)
        seen = how.split()[0] not in ('weak', 'unseen', 'hidden')
        self.thr[self.nkey] = (n, how, undo, seen) if 'thr' in how or 'unseen' in how else None
        if self.thr[self.nkey] is None:
            del self.thr[self.nkey]
            self.places[self.nkey] = (n, how, undo, seen)
        if seen:
            self.emit('link', [1, n])
        self.emit('note', [key, how])
        x = None

    def unplace(self, k):
        d = self.thr if k in self.thr else self.places
        n, how, undo, seen = d[k]
        if undo is None:
            return
        del d[k]
        undo()
        if 'hold' in how:
            import time
            time.sleep(.002)
            for _ in range(500):
                if _thread._count() <= len(self.thr):
                    break
                time.sleep(.002)
        if seen:
            self.emit('unlink', [1, n])
        self.emit('note', ['gone', how])


def listing():
    """A listing as a user asks for one; nothing but HP is in sight."""
    return HP.heap()


def whole(rng, i):
    w = contextvars.Context()
    w.run(whole0, rng, i)
    return W.pop()

W = []
def whole0(rng, i):
    hp = start()
    w = Whole(rng)
    w.places = {}
    H = w.H
    PLACE['res'] = [None] * 4
    for _ in range(rng.randint(4, 9)):
        n = w.new()
        if rng.random() < .5:
            w.place(n)
    def look():
        w.emit('heap', [], H.ids(listing().nodes))
    look()
    blind = False
    for _ in range(rng.randint(6, 14)):
        x = rng.random()
        if x < .12:
            w.place(w.new())
        elif x < .4:
            w.link(w.some(), w.some())
        elif x < .5 and w.edges:
            w.unlink(*rng.choice(w.edges))
        elif x < .6:
            w.place(w.some())
        elif x < .72 and (w.thr or w.places):
            w.unplace(rng.choice(sorted(w.thr) + sorted(w.places)))
            gc.collect()
        elif x < .9:
            # an analysis, the result of which is kept
            op = rng.choice(OPNAMES)
            k = rng.randrange(4)
            ns = sorted({w.some() for _ in range(rng.randint(1, 3))})
            check = rng.random() < .4
            if check:
                snap(k)
            keep(op, k, H, ns)
            if check:
                w.emit('same', [op], again(op))
            if rng.random() < .7:
                look()
        elif x < .93:
            hp._parent.View.hv.is_hiding_calling_interpreter = blind = not blind
            w.emit('blind', [int(blind)])
            look()
        else:
            look()
    look()
    if blind:
        hp._parent.View.hv.is_hiding_calling_interpreter = False
        w.emit('blind', [0])
        look()
    finish(w)
    W.append(dict(ev=[e for e in w.ev if e['o'] != 'note'], notes=[e for e in w.ev if e['o'] == 'note'], kinds=w.kind))


def keep(op, k, H, ns):
    PLACE['res'][k] = None
    PLACE['res'][k] = OPS[op](HP, [H.o(n) for n in ns])

def skip(x):
    # the caches of abstract base classes refer to every class met, weakly
    return type(x) in (types.FrameType, int, weakref.ref)

def snap(k):
    PLACE['res'][k] = None
    gc.collect()
    SEC.a = {id(SEC.f) for SEC.f in listing().nodes if not skip(SEC.f)}
    SEC.f = None

def again(op):
    gc.collect()
    SEC.f = listing().nodes
    SEC.b = {id(x): type(x).__name__ for x in SEC.f if not skip(x)}
    r = sorted({SEC.b[a] for a in SEC.b if a not in SEC.a} |
               {'gone' for a in SEC.a if a not in SEC.b})
    if op in VISIBLE_RESULT:
        r = [x for x in r if x not in ('ImmNodeSet', 'MutNodeSet', 'NodeGraph')]
    SEC.a = SEC.b = SEC.f = None
    return r

def finish(w):
    for k in sorted(w.thr) + sorted(w.places):
        if (w.thr.get(k) or w.places[k])[2] is not None:
            w.unplace(k)
    PLACE.clear()
    while SEC_x():
        pass
    for n in sorted(w.H.addr):
        w.H.drop(n)
    gc.collect()

def SEC_x():
    try:
        x = SEC.x
    except AttributeError:
        return
    if x:
        x[0].close()
        SEC.x = x[1]
        return True


if __name__ == '__main__':
    main_traces({'typed': typed, 'whole': whole}[sys.argv[1]], sys.argv[2:])
