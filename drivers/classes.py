"""Objects of known type, size, owner and referrers; how they are classified,
what kinds select, and what is claimed about kinds and sets."""
import gc, linecache, re, sys, tracemalloc, types, random
from tracelib import main_traces

HP = None
BUILTIN = {list: 'list', dict: 'dict', tuple: 'tuple', set: 'set', int: 'int', float: 'float', complex: 'complex',
           str: 'str', bytes: 'bytes', types.ModuleType: 'module', type: 'type', object: 'object',
           types.CellType: 'cell'}


# Classes that all claim to be equal and have no hash.  The comparison is a
# type, since a function would lead to this module.
Odd = type('Odd', (type,), {'__eq__': bool, '__hash__': None, '__module__': 'odd'})
assert (Odd('a', (), {}) == Odd('b', (), {})) is True


# Files that are nowhere; each has this text.  The lines of its scopes follow.
TEXT = """def f():
    return []

class C:
    def g(self):
        return 1
    z = 0

def h(): return 2

x = f()
y = x
"""
SCOPES = {'f': (1, 2), 'g': (5, 2), 'h': (9, 1), 'm': (1, 12)}
FILES = ['p/a.py', 'p/ab.py', 'p/b.py', 'q/a.py']
CODES, SCOPE = {}, {}
for f in FILES:
    linecache.cache[f] = (len(TEXT), None, TEXT.splitlines(True), f)
    ns = {}
    exec(compile(TEXT, f, 'exec'), ns)
    m = types.ModuleType('m')
    m.__file__ = f
    SCOPE[f] = {'f': ns['f'], 'g': ns['C'].g, 'h': ns['h'], 'm': m}


class ByIs(dict):
    def __init__(self, d):
        dict.__init__(self, {id(k): (k, v) for k, v in d.items()})
    def __getitem__(self, k):
        return dict.__getitem__(self, id(k))[1]
    def __setitem__(self, k, v):
        dict.__setitem__(self, id(k), (k, v))
    def keys(self):
        return [k for k, v in dict.values(self)]


class World:
    def __init__(self, rng):
        self.rng = rng
        self.ev = []
        self.obj = {}
        self.num = {}
        self.types = ByIs(BUILTIN)
        self.refs = {}
        self.own = {}
        self.types[Odd] = 'Odd'
        self.root = []
        self.k = 0
        for t, n in BUILTIN.items():
            self.emit('type', [n, sorted({n, 'object'})])
        self.emit('type', ['Odd', ['Odd', 'object', 'type']])
        self.obj[1] = self.root
        self.num[id(self.root)] = 1
        self.refs[1] = []
        self.traced = False

    def at(self, what, **ns):
        """An object, made by a line of one of the files."""
        where = self.rng.choice(FILES), self.rng.randint(1, 12), what
        if where not in CODES:
            CODES[where] = compile('\n' * (where[1] - 1) + 'made = ' + what, where[0], 'exec')
        exec(CODES[where], ns)
        return ns['made']

    def trace(self):
        self.traced = True
        tracemalloc.start(self.rng.choice([1, 1, 2, 5]))

    def producer(self, n):
        """Where the standard library says that an object was made."""
        t = tracemalloc.get_object_traceback(self.obj[n])
        if not t:
            return []
        return [t[-1].filename.replace(__file__, 'driver'), t[-1].lineno]

    def emit(self, o, a, r=0):
        self.ev.append(dict(o=o, a=a, r=r))

    def add(self, x, own=0):
        n = len(self.obj) + 1
        self.obj[n] = x
        self.num[id(x)] = n
        self.refs[n] = []
        self.own[n] = own
        self.emit('new', [n, self.types[type(x)], own])
        return n

    def ref(self, s, name, t):
        self.refs[s].append((name, t))
        self.emit('ref', [s, name, t, '.' + name[2:-2] if name[:2] == "['" else ''])

    def fresh(self):
        self.k += 1
        return self.k

    def of(self, *ts):
        return [n for n, x in self.obj.items() if n > 1 and any(type(x) is t for t in ts)]
    def plain(self):
        return [n for n, x in self.obj.items() if not isinstance(x, type)]
    def insts(self):
        return [n for n, x in self.obj.items() if type(x).__module__ == 'w']
    def reached(self):
        seen, front = {1}, [1]
        while front:
            for _, t in self.refs[front.pop()]:
                if t not in seen:
                    seen.add(t)
                    front.append(t)
        return seen
    def ids(self, X):
        return sorted(self.num[id(x)] for x in X if id(x) in self.num)

    # ------------------------------------------------------------- creation
    def cls(self):
        rng = self.rng
        bases = [n for n in self.of(type, Odd)]
        b = rng.choice(bases) if bases and rng.random() < .5 else None
        ns = {'__module__': 'w'}
        if rng.random() < .3:
            ns['__slots__'] = ('s%d' % self.fresh(),)
        base = self.obj[b] if b else object
        m = type(base) if type(base) is not type else rng.choice([type, type, type, Odd])
        k = m(rng.choice(['K', 'K%d' % self.fresh(), 'K%d' % self.fresh(), 'a"b\'\\ at 0x1']), (base,), ns)
        k._slot = ns.get('__slots__', (None,))[0]
        n = self.add(k)
        t = 'K%d' % n
        self.types[k] = t
        self.emit('type', [t, sorted(self.types[c] for c in k.__mro__)])
        if b:
            self.ref(n, '.__base__', b)
        return n

    def inst(self):
        k = self.rng.choice(self.of(type, Odd) or [self.cls()])
        x = self.at('K()', K=self.obj[k])
        n = self.add(x)
        self.ref(n, '.__class__', k)
        if hasattr(x, '__dict__'):
            d = self.add(x.__dict__, n)
            self.ref(n, '.__dict__', d)
        return n

    def leaf(self):
        k = self.fresh()
        return self.add(self.at(self.rng.choice([
            '10 ** 20 + k', 'k + .5', 'complex(k, 1)', "'x' * (k % 9 + 1) + str(k)",
            "b'y' * (k % 30) + str(k).encode()", 'object()']), k=k))

    def cont(self):
        x = self.at('K()', K=self.rng.choice([list, dict, list, dict, types.CellType]))
        return self.add(x)

    def tup(self):
        m = [self.rng.choice(self.plain()) for _ in range(self.rng.randint(1, 3))]
        n = self.add(self.at('tuple(m)', m=[self.obj[i] for i in m]))
        for i, t in enumerate(m):
            self.ref(n, '[%d]' % i, t)
        return n

    def module(self):
        x = types.ModuleType('m%d' % self.rng.randint(1, 3))
        n = self.add(x)
        d = self.add(x.__dict__, n)
        self.ref(n, '.__dict__', d)
        return n

    # ------------------------------------------------------------ mutation
    def link(self, s=None, t=None):
        rng = self.rng
        c = [n for n, x in self.obj.items() if n == 1 or any(type(x) is t for t in (list, dict, types.CellType)) or
             type(x).__module__ == 'w']
        s = s or (1 if rng.random() < .3 else rng.choice(c))
        t = t or rng.choice(self.plain())
        x, v = self.obj[s], self.obj[t]
        if type(x) is list:
            self.ref(s, '[%d]' % len(x), t)
            x.append(v)
        elif type(x) is dict:
            k = 'k%d' % self.fresh() if rng.random() < .8 else 'q'
            if k in x:
                return
            x[k] = v
            self.ref(s, '[%r]' % k, t)
        elif type(x) is types.CellType:
            if self.refs[s]:
                self.unref(s, *self.refs[s][0])
            x.cell_contents = v
            self.ref(s, '.cell_contents', t)
        else:
            k = type(x)._slot
            if k:
                for name, o in list(self.refs[s]):
                    if name == '.' + k:
                        self.unref(s, name, o)
                setattr(x, k, v)
                self.ref(s, '.' + k, t)
            elif hasattr(x, '__dict__'):
                d = self.num[id(x.__dict__)]
                k = 'k%d' % self.fresh()
                setattr(x, k, v)
                self.ref(d, '[%r]' % k, t)

    def unref(self, s, name, t):
        self.refs[s].remove((name, t))
        self.emit('unref', [s, name, t])

    def swap(self):
        """An object gets another attribute dictionary."""
        c = [n for n in self.insts() if hasattr(self.obj[n], '__dict__')]
        if not c:
            return
        n = self.rng.choice(c)
        x = self.obj[n]
        old = self.num[id(x.__dict__)]
        free = [m for m in self.of(dict) if not self.own[m]]
        new = self.rng.choice(free) if free and self.rng.random() < .5 else self.add({})
        x.__dict__ = self.obj[new]
        self.unref(n, '.__dict__', old)
        self.emit('owner', [old, 0])
        self.own[old] = 0
        self.ref(n, '.__dict__', new)
        self.emit('owner', [new, n])
        self.own[new] = n

    def grow(self, k):
        rng = self.rng
        for _ in range(k):
            rng.choice([self.inst, self.inst, self.leaf, self.leaf, self.cont, self.cont, self.tup, self.module,
                        self.cls])()
        for _ in range(2 * k):
            self.link()

    def look(self):
        gc.collect()
        HP.View.root = self.root
        if self.traced:
            for n in self.obj:
                self.emit('prod', [n, self.producer(n)])
        self.emit('look', [[sys.getsizeof(self.obj[n]) for n in sorted(self.obj)]])
        self.pool, self.plainp, self.made = [], [], []


class Asker:
    def __init__(self, w):
        self.w = w
        self.rng = w.rng
        self.pool = []       # the kinds and sets of the library
        self.src = []        # where from: (classifier, object) when a kind of one
        self.text = []       # 0: has no text that can be evaluated; 2: the text gives the same kind, not only
                             # one of the same objects

    # --------------------------------------------------------- classifiers
    def er(self, deep=2, refs=True, finds=True):
        rng = self.rng
        x = rng.random()
        if deep and x < .3:
            kind = rng.choice(['D', 'A', 'A', 'R', 'R', 'F'])
            if kind == 'D':
                C, e = self.er(deep - 1, refs, finds)
                return dict(c='D', of=C), e.dictof
            if kind == 'A':
                cs = [self.er(deep - 1, refs, finds) for _ in range(rng.choice([2, 2, 3]))]
                e = cs[0][1]
                for c in cs[1:]:
                    e = e & c[1]
                return dict(c='A', cs=[c[0] for c in cs]), e
            if kind == 'R' and refs:
                C, e = self.er(deep - 1, refs, finds)
                return dict(c='R', of=C), e.refdby
            if kind == 'F' and finds and self.pool:
                ks = [rng.randrange(len(self.pool)) for _ in range(rng.randint(1, 3))]
                if all(self.pool[k] is not HP.Nothing for k in ks):
                    return dict(c='F', ks=[k + 1 for k in ks]), HP.findex(*[self.pool[k] for k in ks])
        k = rng.choice(['U', 'T', 'T', 'S', 'S', 'I', 'M', 'K', 'K'] + ['V', 'Rcs'] * refs + ['P'] * (4 * self.w.traced))
        if k == 'Rcs':
            return dict(c='R', of=dict(c='K')), HP.Rcs
        return dict(c=k), getattr(HP, dict(U='Unity', T='Type', S='Size', I='Id', M='Module', K='Clodo', V='Via', P='Prod')[k])

    def needs_referrers(self, C):
        return C['c'] in 'RV' or any(self.needs_referrers(c) for c in C.get('cs', [])) or \
            'of' in C and self.needs_referrers(C['of']) or C['c'] == 'F'

    def some(self, lo=1, hi=12, C=None):
        w, rng = self.w, self.rng
        c = w.plain()
        return sorted(set(rng.choice(c) for _ in range(rng.randint(lo, hi))))

    def iso(self, ns):
        return HP.iso(*[self.w.obj[n] for n in ns])

    # ------------------------------------------------------------ questions
    def ask(self, o, a, f, bad=-1):
        """An exception is an answer that no question has; what it was goes
        along for the report."""
        try:
            r = f()
        except Exception as e:
            self.w.ev.append(dict(o=o, a=a, r=bad, x='%s: %s' % (type(e).__name__, e)))
            return None
        self.w.ev.append(dict(o=o, a=a, r=r))
        return r

    def part(self):
        w, rng = self.w, self.rng
        C, e = self.er()
        ns = self.some(1, 14)
        X = self.iso(ns)
        how = rng.choice(['parts', 'cli', 'rows'])
        def f():
            if how == 'cli':
                p = [v for k, v in e.classifier.partition(X.nodes)]
            elif how == 'rows':
                p = [r.set for r in X.by(e).partition.get_rows()]
            else:
                p = X.by(e).parts
            assert w.ids(X.nodes) == ns
            return [[[w.ids(b.nodes), b.count, b.size] for b in p], X.count, X.size]
        self.ask('part', [C, ns], f, [[], -1, -1])

    def written(self, C):
        """What is said above of kinds of a classifier."""
        if C['c'] == 'R' and C['of']['c'] in 'AR':
            return 0        # a referrer's kind of several parts is not written so that it can be read
        t = 2 if C['c'] not in 'AF' else min([1] + [self.text[k - 1] for k in C.get('ks', [])])
        return min([t] + [self.written(c) for c in C.get('cs', []) + ([C['of']] if 'of' in C else [])])

    def new(self, o, a, f, src=None, text=2):
        if a and isinstance(a[0], dict):
            text = self.written(a[0])
        box = []
        def g():
            box.append(f())
            return 0
        self.ask(o, a, g)
        if box:
            self.pool.append(box[0])
            self.src.append(src)
            self.text.append(text)
            return True
        return False

    def leaf(self):
        """A kind from its value, which may be no object's."""
        w, rng = self.w, self.rng
        k = rng.choice('TTTSSSIMKKKRRV' + 'PPPPPPPP' * w.traced)
        o = rng.choice(w.plain())
        if k in 'IM':        # asked for by address
            o = rng.choice(sorted(set(w.plain()) & w.reached()))
        x = w.obj[o]
        cmp = rng.choice(['==', '==', '==', '<', '<=', '>', '>=', '!='])
        C = dict(c=k)
        if k == 'T':
            t = rng.choice([type(x), rng.choice(w.types.keys())])
            v, f = w.types[t], lambda: HP.Type(t)
        elif k == 'S':
            v = sys.getsizeof(x) + rng.choice([0, 0, 0, 1, -8])
            f = lambda: HP.Size(v)
        elif k == 'I':
            v, f, cmp = o, lambda: HP.Id(id(x)), '=='
        elif k == 'M':
            m = o if type(x) is types.ModuleType else 0
            v, f, cmp = m, lambda: HP.Module(at=id(w.obj[m])) if m else HP.Module(), '=='
        elif k == 'K':
            t = type(x)
            if t is dict:
                ow = w.own.get(o, 0)
                if ow:
                    t = type(w.obj[ow])
                    v, f = ['of', w.types[t]], lambda: HP.Clodo(dictof=t)
                    C = dict(c='D', of=dict(c='T'))
                    v = [1, w.types[t]]
                    if cmp != '==':
                        # dictionaries of an owner whose type compares so
                        return self.alt_dictof(t, cmp)
                else:
                    v, f, cmp = ['free'], lambda: HP.Clodo(dictof=()), '=='
            else:
                v, f = ['is', w.types[t]], lambda: HP.Clodo(t)
                if cmp not in ('==', '!='):
                    C, v = dict(c='T'), w.types[t]
        elif k == 'P':
            return self.made()
        elif k == 'R':
            ts = [type(w.obj[n]) for n in w.obj if any(r == o for _, r in w.refs[n])] if rng.random() < .7 else \
                [type(w.obj[rng.choice(w.plain())]) for _ in range(rng.randint(0, 3))]
            ts = sorted({id(t): t for t in ts}.values(), key=lambda t: w.types[t])
            C = dict(c='R', of=dict(c='T'))
            v = [w.types[t] for t in ts]
            if len(set(v)) < len(v):
                return
            how = rng.random()
            if how < .5 or not ts:
                f = lambda: HP.Type.refdby(*[HP.Type(t) for t in ts])
            else:
                def f():
                    s = HP.Type.sokind(ts[0])
                    for t in ts[1:]:
                        s = s(t)
                    return s.refdby
        else:
            names = sorted({a for n in w.obj for a, r in w.refs[n] if r == o}) if rng.random() < .8 else ['[0]']
            C, v, f = dict(c='V'), names, lambda: HP.Via(*names)
        if cmp != '==':
            g = f
            f = lambda: g().alt(cmp)
        self.new('kind', [C, v, cmp], f)

    def made(self):
        """A kind from a place where objects are made."""
        w, rng = self.w, self.rng
        p = w.producer(rng.choice(w.plain()))
        if not p or p[0] not in FILES or rng.random() < .3:
            p = [rng.choice(FILES), rng.randint(1, 12)]
        f, i = p
        C, x = dict(c='P'), rng.random()
        if x < .12:
            return self.new('kind', [C, [], '=='], lambda: HP.Prod())
        if x < .3:
            pre = f[:rng.randint(0, len(f))] + rng.choice(['', '', '', 'x'])
            return self.new('kind', [C, [pre, 0], '<'], lambda: HP.Prod(pre)) if pre else None
        if x < .5:
            s = rng.choice('fghm')
            lo, n = SCOPES[s]
            return self.new('scope', [f, lo, n], lambda: HP.Prod(SCOPE[f][s]))
        if rng.random() < .3:
            f = f[:rng.randint(1, len(f))]
        i = max(1, i + rng.choice([0, 0, 0, 1, -1]))
        v, a = rng.choice([([f, i], (f, i)), ([f, i], (f, i)), ([f, 0], (f, None)), (['', i], (None, i))])
        cmp = rng.choice(['==', '==', '<', '<=', '>', '>=', '!='])
        def make():
            k = HP.Prod(filename=a[0], lineno=a[1]) if rng.random() < .3 else HP.Prod(*a)
            return k if cmp == '==' else k.alt(cmp)
        self.new('kind', [C, v, cmp], make)

    def again(self):
        """A kind as its text is evaluated."""
        w, rng, P = self.w, self.rng, self.pool
        c = [i for i in range(len(P)) if self.text[i]]
        if not c:
            return
        i = rng.choice(c)
        try:
            t = repr(P[i])
        except Exception as e:
            return self.ask('again', [i + 1, 0], lambda: {}[e], -1)
        ids = {id(w.obj[n]) for n in w.reached()}
        if not all(int(x, 16) in ids for x in re.findall(r'Id\((0x[0-9a-f]+)\)', t)):
            return      # what is not on the heap is not found by its address
        box = []
        def f():
            try:
                k = eval(t, {'hp': HP})
            except Exception as e:
                raise ValueError('%s: %s' % (t, e))
            box.append(k)
            return int(k == P[i])
        if self.ask('again', [i + 1, int(self.text[i] == 2)], f) == 0:
            w.ev[-1]['x'] = '%s: gives %r' % (t, box[0])
        if box:
            P.append(box[0])
            self.src.append(None)
            self.text.append(self.text[i])

    def where(self):
        """The printed traceback of an object begins with where it was made."""
        w = self.w
        o = self.rng.choice(w.plain())
        def f():
            t = self.iso([o]).prod
            if t is None:
                return []
            m = re.match(r'  File "(.*)", line (\d+)', str(t).split('\n')[1])
            return [m.group(1).replace(__file__, 'driver'), int(m.group(2))]
        self.ask('where', [o], f, [0])

    def alt_dictof(self, t, cmp):
        if self.new('kind', [dict(c='T'), self.w.types[t], cmp], lambda: HP.Type(t).alt(cmp)):
            self.new('dictsof', [len(self.pool)], lambda: HP.Clodo(dictof=t).alt(cmp))

    def grow(self):
        w, rng = self.w, self.rng
        x = rng.random()
        P = self.pool
        if x < .3 or not P:
            self.leaf()
        elif x < .4:
            C, e = self.er()
            o = rng.choice(w.plain())
            if rng.random() < .5:
                self.new('kindof', [C, o], lambda: self.iso([o]).by(e).kind, (str(C), o))
            else:
                ns = sorted(set([o] + self.some(1, 6)))
                def f():
                    for r in self.iso(ns).by(e).partition.get_rows():
                        if o in w.ids(r.set.nodes):
                            return r.kind
                self.new('kindof', [C, o], f, (str(C), o))
        elif x < .5:
            ns = self.some(0, 6) if rng.random() < .9 else []
            self.new('set', [ns], lambda: self.iso(ns), None, 0)
        elif x < .53:
            self.new('anything', [], lambda: HP.Anything)
        elif x < .58:
            C, e = self.er()
            ns = self.some(1, 4)
            self.new('kindsof', [C, ns], lambda: e[self.iso(ns)])
        elif x < .63:
            i = rng.randrange(len(P))
            if P[i] is not HP.Nothing:
                self.new('dictsof', [i + 1], lambda: P[i].dictof, None, self.text[i])
        else:
            op = rng.choice(['and', 'and', 'or', 'or', 'sub', 'xor', 'not', 'not'])
            self.op(op, rng.randrange(len(P)), rng.randrange(len(P)))

    def op(self, op, i, j):
            a, b = self.pool[i], self.pool[j]
            rec = ['' + op, i + 1, 0 if op == 'not' else j + 1, 0]
            def f():
                r = {'and': lambda: a & b, 'or': lambda: a | b, 'sub': lambda: a - b, 'xor': lambda: a ^ b,
                     'not': lambda: ~a}[op]()
                rec[3] = int(isinstance(r, HP._parent.UniSet.IdentitySet))
                return r
            self.new('op', rec, f, None, min(1, self.text[i], self.text[i if op == 'not' else j]))

    def ask_some(self):
        w, rng = self.w, self.rng
        P = self.pool
        i, j = rng.randrange(len(P)), rng.randrange(len(P))
        x = rng.random()
        if w.traced and rng.random() < .1:
            self.where()
        if rng.random() < .15:
            self.again()
        plain = isinstance(P[i], HP._parent.UniSet.IdentitySet)
        if x < .3:
            ns = self.some(1, 12)
            X = self.iso(ns)
            self.ask('select', [ns, i + 1], lambda: w.ids((X & P[i] if rng.random() < .7 else P[i] & X).nodes), [-1])
        elif x < .45:
            ns = w.plain()
            self.ask('select', [ns, i + 1], lambda: w.ids((self.iso(ns) & P[i]).nodes), [-1])
        elif x < .6:
            o = rng.choice(w.plain())
            self.ask('in', [o, i + 1], lambda: int(w.obj[o] in P[i]))
        else:
            self.claim(rng.choice(['le', 'eq', 'eq', 'lt', 'disjoint']), i, j)

    def claim(self, op, i, j):
            P = self.pool
            same = int(op == 'eq' and self.src[i] is not None and self.src[j] is not None and
                       self.src[i][0] == self.src[j][0])
            a, b = P[i], P[j]
            r = self.ask('claim', [op, i + 1, j + 1, same],
                         lambda: int({'le': lambda: a <= b, 'eq': lambda: a == b, 'lt': lambda: a < b,
                                      'disjoint': lambda: a.disjoint(b)}[op]()))
            if op == 'eq' and r:
                self.ask('hash', [i + 1, j + 1], lambda: int(hash(a) != hash(b)), 1)


def start():
    global HP
    if HP is None:
        from guppy import hpy
        HP = hpy()
        HP.View.is_rg_update_all = False
        HP.reprefix = 'hp.'
        HP.heap()       # from here on built-in types are found by their address
    return HP


def run(rng, plan):
    start()
    w = World(rng)
    w.cls()
    w.cls()
    if rng.random() < .3:
        w.grow(rng.randint(0, 2))
        w.trace()
    w.grow(rng.randint(3, 9))
    for _ in range(rng.choice([1, 1, 2, 3])):
        w.look()
        plan(Asker(w), rng)
        for _ in range(rng.randint(1, 4)):
            rng.choice([w.link, w.link, w.swap, lambda: w.grow(1)])()
    HP.View.root = []
    tracemalloc.stop()
    gc.collect()
    return dict(ev=w.ev)


def part(rng, i):
    def plan(a, rng):
        for _ in range(rng.randint(0, 3)):
            a.leaf()
        for _ in range(rng.randint(4, 12)):
            a.part()
    return run(rng, plan)


def select(rng, i):
    def plan(a, rng):
        for _ in range(rng.randint(2, 8)):
            a.grow()
        for _ in range(rng.randint(3, 10)):
            if a.pool:
                a.ask_some()
            if rng.random() < .3:
                a.grow()
    return run(rng, plan)


def algebra(rng, i):
    """Few kinds, related to each other, combined again and again."""
    def plan(a, rng):
        w = a.w
        for _ in range(rng.randint(2, 4)):
            a.grow() if rng.random() < .2 else a.leaf()
        if rng.random() < .6:
            # subtypes and supertypes of one type
            t = type(w.obj[rng.choice(w.plain())])
            u = rng.choice(t.__mro__)
            for t in {id(t): t, id(u): u}.values():
                cmp = rng.choice(['<', '<=', '=='])
                if a.rng.random() < .5 and cmp == '==':
                    a.new('kind', [dict(c='T'), w.types[t], '=='], lambda: HP.Type(t))
                else:
                    a.new('kind', [dict(c='T'), w.types[t], cmp], lambda: HP.Type(t).alt(cmp))
        if rng.random() < .5:
            ns = a.some(1, 4)
            a.new('set', [ns], lambda: a.iso(ns), None, 0)
        first = len(a.pool)
        if not first:
            return
        ops = ['and', 'and', 'or', 'or', 'sub', 'xor', 'not']
        for _ in range(rng.randint(4, 14)):
            op = rng.choice(ops)
            n = len(a.pool)
            i = rng.randrange(n) if rng.random() < .5 else n - 1 - rng.randrange(min(n, 3))
            a.op(op, i, rng.randrange(n))
        for _ in range(rng.randint(0, 4)):
            a.again()
        w_all = w.plain()
        n = len(a.pool)
        for i in range(n):
            a.ask('select', [w_all, i + 1], lambda: w.ids((a.iso(w_all) & a.pool[i]).nodes), [-1])
        pairs = [(i, j) for i in range(n) for j in range(n)]
        for i, j in rng.sample(pairs, min(len(pairs), 40)):
            a.claim(rng.choice(['le', 'eq', 'eq', 'eq', 'lt', 'disjoint']), i, j)
        for i in rng.sample(range(n), min(n, 4)):
            o = rng.choice(w_all)
            a.ask('in', [o, i + 1], lambda: int(w.obj[o] in a.pool[i]))
    return run(rng, plan)


if __name__ == '__main__':
    mode = sys.argv[1]
    main_traces(globals()[mode], sys.argv[2:])
