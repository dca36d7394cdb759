"""Abstract interpretation of the Python sources: numbers and arrays are normal forms over unknowns, dictionaries, lists and objects are
kept key by key, undecided conditions split the state, calls out of the repository give an unknown made of their arguments."""
import ast
import os
from fractions import Fraction

import frontend
import pysrc
from frontend import AnalysisBroken
from terms import Num


class Ref(object):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Ref) and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ref', self.n))


class Fn(object):
    def __init__(self, node, mod, frame, cls=None):
        self.node, self.mod, self.frame, self.cls = node, mod, frame, cls
        self.name = getattr(node, 'name', 'lambda')
        self.defaults = ()
        self.kw_defaults = {}


class Cls(object):
    def __init__(self, name, mod, bases, ns, node):
        self.name, self.mod, self.bases, self.ns, self.node = name, mod, bases, ns, node

    def find(self, a):
        if a in self.ns:
            return self.ns[a]
        for b in self.bases:
            if isinstance(b, Cls):
                v = b.find(a)
                if v is not None:
                    return v
        return None

    def below(self, o):
        return self is o or (isinstance(self, Cls) and isinstance(o, Cls) and self.name == o.name and self.mod == o.mod) or \
            any(b.below(o) if isinstance(b, Cls) else b == o for b in self.bases)


class Bound(object):
    def __init__(self, fn, this):
        self.fn, self.this = fn, this


class Mod(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Ext(object):
    """something of the language or of another package, by its dotted name"""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))


class Frame(object):
    def __init__(self, mod, ref, parent, cls, fn):
        self.mod, self.ref, self.parent, self.cls, self.fn = mod, ref, parent, cls, fn
        self.gl = set()


class St(object):
    def __init__(self):
        self.heap, self.facts, self.ev, self.exc, self.next, self.mods, self.cut = {}, {}, [], None, 1, {}, None

    def copy(self):
        s = St()
        s.heap, s.facts, s.ev = dict(self.heap), dict(self.facts), list(self.ev)
        s.exc, s.next, s.mods, s.cut = self.exc, self.next, dict(self.mods), self.cut
        return s

    def new(self, rec):
        r = Ref(self.next)
        self.next += 1
        self.heap[r.n] = rec
        return r

    def rec(self, r):
        return self.heap[r.n]

    def put(self, r, k, v):
        """item of a dictionary, attribute of an object, name of a frame"""
        c = self.heap[r.n]
        d = dict(c[1])
        d[k] = v
        self.heap[r.n] = (c[0], d) + c[2:]

    def drop(self, r, k):
        c = self.heap[r.n]
        d = dict(c[1])
        d.pop(k, None)
        self.heap[r.n] = (c[0], d) + c[2:]

    def get(self, r, k, default=None):
        return self.heap[r.n][1].get(k, default)


NATIVE = (type(None), bool, int, float, complex, str)
CONTAINERS = ('dict', 'list', 'obj')
BUILTIN = set('''range xrange len list tuple dict abs int float str sum hasattr getattr setattr isinstance type sorted enumerate zip map max min open
print _print_ eval object Exception AssertionError KeyError IndexError ValueError TypeError IOError OSError KeyboardInterrupt SystemExit RuntimeError
BaseException StandardError NotImplementedError super iter reversed any all filter reduce set frozenset round pow complex bool repr raw_input input ord chr id file unicode long
StopIteration ImportError AttributeError callable vars dir divmod isinstance issubclass slice basestring NameError ZeroDivisionError EnvironmentError exit quit'''.split())
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


def num(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num.c(int(v))
    if isinstance(v, int):
        return Num.c(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return Num.atom(('float', repr(v)))
        return Num.c(Fraction(repr(v)))
    if isinstance(v, complex):
        r = num(v.real)
        return r + num(v.imag) * Num.atom(('i',)) if v.imag else r
    return None


def back(n):
    """a constant normal form is a plain number"""
    c = n.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return n


def unknown(*t):
    return Num.atom(t)


class Interp(object):
    UNROLL = 40
    WHILE = 1

    def __init__(self):
        self.ints = set()
        self.below = {}          # atom -> Num it is below (and it is not negative)
        self.positive = set()
        self.scalars = set()
        self.prims = dict(PRIMS)
        self.steps = 0
        self.budget = 400000
        self.hooks = []          # (statement, state, frame) -> states that leave with an exception before the statement
        self.visited = {}
        self.given = {}          # frozen term -> value: what is assumed of the unknowns
        self.stops = set()
        self.iterate = None
        self.cap = None          # larger terms are named instead of spelt out
        self.names = {}
        self.summary = None      # modules whose calls are kept once per shape of the result
        self.paths = []

    # ---- modules

    def locate(self, name, rel):
        here = os.path.dirname(rel)
        parts = name.split('.')
        for d in ([here] if here else []) + ['', 'dyson']:
            p = os.path.join(d, *parts)
            if os.path.isfile(os.path.join(frontend.REPO, p + '.py')):
                return p + '.py'
            if os.path.isfile(os.path.join(frontend.REPO, p, '__init__.py')):
                return os.path.join(p, '__init__.py')
        return None

    def module(self, st, rel, name='?'):
        """the module, run when it is imported for the first time -> states"""
        if rel in st.mods:
            return [st]
        tree = pysrc.load(rel)
        st.mods[rel] = st.new(('frame', {'__name__': name, '__file__': rel}, ()))
        fr = Frame(rel, st.mods[rel], None, None, '<module>')
        out = []
        for s, sig in self.block(tree.body, st, fr):
            out.append(s)
        return out

    def imported(self, st, name, fr):
        rel = self.locate(name, fr.mod)
        if rel is None:
            return [(st, Ext(name))]
        return [(s, Mod(rel)) for s in self.module(st, rel, name)]

    # ---- results

    def each(self, res, f):
        out = []
        for s, v in res:
            if s.exc is not None or s.cut:
                out.append((s, None))
            else:
                out.extend(f(s, v))
        return out

    def seq(self, es, st, fr):
        res = [(st, ())]
        for e in es:
            res = self.each(res, lambda s, vs, e=e: [(s2, vs + (v,)) for s2, v in self.ev(e, s, fr)])
        return res

    def fail(self, st, kind, msg='', line=0):
        st.exc = (kind, msg, line)
        return [(st, None)]

    # ---- values

    def freeze(self, st, v, depth=0):
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.freeze(st, x, depth) for x in v)
        if isinstance(v, Ref):
            c = st.rec(v)
            if depth > 12:
                return ('deep', v.n)
            if c[0] == 'dict':
                return ('dict', tuple(sorted(((self.freeze(st, k, depth + 1), self.freeze(st, x, depth + 1)) for k, x in c[1].items()), key=repr)), c[2])
            if c[0] in ('list', 'set', 'arr'):
                return (c[0],) + tuple(self.freeze(st, x, depth + 1) for x in c[1])
            if c[0] == 'obj':
                return ('obj', c[2].name, v.n)
            return (c[0], v.n)
        if isinstance(v, Fn):
            return ('fn', v.mod, v.name)
        if isinstance(v, Cls):
            return ('class', v.mod, v.name)
        if isinstance(v, Bound):
            return ('bound', v.fn.name if isinstance(v.fn, Fn) else str(v.fn), self.freeze(st, v.this, depth + 1))
        if isinstance(v, Mod):
            return ('module', v.name)
        if isinstance(v, Ext):
            return ('ext', v.path)
        if isinstance(v, (float, complex)):
            return num(v)
        return v

    def isint(self, v):
        if isinstance(v, (bool, int)):
            return True
        if isinstance(v, Num):
            for m, c in v.d.items():
                if c.denominator != 1:
                    return False
                for a, e in m:
                    if e < 0 or not (a in self.ints or (isinstance(a, tuple) and a and a[0] == 'idiv')):
                        return False
            return True
        return False

    def nonneg(self, n):
        """surely >= 0, from what is known of the unknowns"""
        for m, c in n.d.items():
            if c < 0:
                return False
            for a, e in m:
                if not (a in self.positive or a in self.below or (isinstance(a, tuple) and a[0] == 'idiv' and self.nonneg(a[1]))):
                    return False
        return True

    def less(self, r, b):
        """surely 0 <= r < b"""
        if not self.nonneg(r):
            return False
        a = r.single()
        if a is not None and a in self.below and self.below[a] == b:
            return True
        k, m = r.const(), b.const()
        if k is not None:
            return k < m if m is not None else k == 0 and b.single() in self.positive
        # digits: each is at most its base less one
        up = r
        for x in list(r.atoms()):
            if x not in self.below or any(e != 1 for mm in r.d for y, e in mm if y == x):
                return False
            up = self.replace(up, x, self.below[x] - Num.c(1))
        d = b - up
        return self.nonneg(d - Num.c(1)) or d.const() is not None and d.const() > 0

    @staticmethod
    def replace(n, atom, by):
        out = Num({})
        for m, c in n.d.items():
            t = Num.c(c)
            for a, e in m:
                x = by if a == atom else Num.atom(a)
                if e < 0:
                    x, e = x.inv(), -e
                for _ in range(e):
                    t = t * x
            out = out + t
        return out

    def idiv(self, a, b):
        if b.const() is not None and a.const() is not None:
            return Num.c(a.const() // b.const())
        q, r = Num({}), Num({})
        mb = b.monomial()
        for m, c in a.d.items():
            t = Num({m: c})
            if mb is not None:
                w = t / b
                ww = w.monomial()
                if ww and ww[0].denominator == 1 and all(e >= 0 for e in ww[1].values()) and self.isint(w):
                    q = q + w
                    continue
            r = r + t
        if not r.d or self.less(r, b):
            return q
        # x//b inside (x - b*(x//b)) : a remainder is below its divisor
        for x in r.atoms():
            if isinstance(x, tuple) and x[0] == 'idiv' and x[2] == b and x[1] - b * Num.atom(x) == r:
                return q
        return q + Num.atom(('idiv', r, b))

    def binop(self, op, a, b, st, line):
        """-> value or None when it is not defined here"""
        if isinstance(a, NATIVE) and isinstance(b, NATIVE) and a is not None and b is not None:
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return self.tidy(a - b)
                if isinstance(op, ast.Mult):
                    return self.tidy(a * b)
                if isinstance(op, ast.Mod):
                    return a % b
                if isinstance(op, ast.FloorDiv) or isinstance(op, ast.Div) and isinstance(a, int) and isinstance(b, int):
                    return a // b
                if isinstance(op, ast.Div):
                    return back(num(a) / num(b)) if b != 0 else None
                if isinstance(op, ast.Pow) and isinstance(b, int) and abs(b) < 64:
                    return a ** b
            except Exception:
                return None
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and isinstance(op, ast.Mult):
            return a * b
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add):
                x = (a[1] if isinstance(a, Num) and False else a)
                return self.cat(x, b)
            return unknown('op', type(op).__name__, self.freeze(st, a), self.freeze(st, b))
        if isinstance(a, Num) and isinstance(op, ast.Add) and a.single() and a.single()[0] == 'cat':
            return self.cat(a, b)
        ra, rb = self.arr(st, a), self.arr(st, b)
        if ra is not None or rb is not None:
            r = self.elementwise(op, a, b, ra, rb, st, line)
            if r is not None:
                return r
        if isinstance(a, Ref) and st.rec(a)[0] == 'list' and isinstance(op, ast.Add) and isinstance(b, Ref) and st.rec(b)[0] == 'list':
            return st.new(('list', st.rec(a)[1] + st.rec(b)[1]))
        if isinstance(a, Ref) and st.rec(a)[0] == 'list' and isinstance(op, ast.Mult) and isinstance(b, int):
            return st.new(('list', st.rec(a)[1] * b))
        if isinstance(a, (Ref, tuple, Ext, Fn, Bound, Cls, Mod)) or isinstance(b, (Ref, tuple, Ext, Fn, Bound, Cls, Mod)):
            a = self.opaque(st, a)
            b = self.opaque(st, b)
        x, y = num(a), num(b)
        if x is None or y is None:
            return None
        if isinstance(op, ast.Add):
            return back(x + y)
        if isinstance(op, ast.Sub):
            return back(x - y)
        if isinstance(op, ast.Mult):
            return back(x * y)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            if self.isint(a) and self.isint(b):
                return back(self.idiv(x, y))
            if isinstance(op, ast.FloorDiv):
                return unknown('floor', x / y)
            return back(x / y) if y.d else None
        if isinstance(op, ast.Mod):
            if self.isint(a) and self.isint(b):
                return back(x - y * self.idiv(x, y))
            return unknown('mod', x, y)
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b < 10:
            r = Num.c(1)
            for _ in range(b):
                r = r * x
            return back(r)
        return unknown('op', type(op).__name__, x, y)

    def arr(self, st, v):
        return st.rec(v)[1] if isinstance(v, Ref) and st.rec(v)[0] == 'arr' else None

    def elementwise(self, op, a, b, ra, rb, st, line):
        if rb is None and isinstance(b, Ref) and st.rec(b)[0] == 'list':
            rb = st.rec(b)[1]
        if ra is None and isinstance(a, Ref) and st.rec(a)[0] == 'list':
            ra = st.rec(a)[1]
        if rb is None and isinstance(b, tuple):
            rb = b
        if ra is None and isinstance(a, tuple):
            ra = a
        if ra is not None and rb is not None:
            if len(ra) != len(rb):
                return None
            pairs = list(zip(ra, rb))
        elif ra is not None and num(b) is not None and not (isinstance(b, Num) and b.const() is None and not self.isscalar(b)):
            pairs = [(x, b) for x in ra]
        elif rb is not None and num(a) is not None and not (isinstance(a, Num) and a.const() is None and not self.isscalar(a)):
            pairs = [(a, x) for x in rb]
        else:
            return None
        out = []
        for x, y in pairs:
            r = self.binop(op, x, y, st, line)
            if r is None:
                return None
            out.append(r)
        return st.new(('arr', tuple(out)))

    def isscalar(self, n):
        return all(a in self.ints or a in self.positive or a in self.scalars or a == ('pi',) or a == ('i',) for a in n.atoms())

    @staticmethod
    def tidy(v):
        return v

    def opaque(self, st, v):
        return Num.atom(('value', self.freeze(st, v))) if isinstance(v, (Ref, tuple, Ext, Fn, Bound, Cls, Mod)) else v

    def cat(self, a, b):
        def parts(x):
            if isinstance(x, str):
                return (x,)
            t = x.single() if isinstance(x, Num) else None
            if t is not None and t[0] == 'cat':
                return t[1:]
            return (x,)
        out = []
        for p in parts(a) + parts(b):
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        if len(out) == 1 and isinstance(out[0], Num):
            return out[0]
        return unknown('cat', *out)

    # ---- conditions

    def truth(self, st, v):
        """-> [(state, bool)]"""
        if isinstance(v, NATIVE):
            return [(st, bool(v))]
        if isinstance(v, tuple):
            return [(st, bool(v))]
        if isinstance(v, Ref):
            c = st.rec(v)
            if c[0] in ('list', 'set') or c[0] == 'dict' and c[2] is None:
                return [(st, bool(c[1]))]
            return [(st, True)]
        if not isinstance(v, Num):
            return [(st, True)]
        neg = False
        a = v.single()
        while a is not None and a[0] == 'not':
            neg = not neg
            v = a[1]
            a = v.single() if isinstance(v, Num) else None
        if not isinstance(v, Num):
            return [(s, t != neg) for s, t in self.truth(st, v)]
        if a is not None and a in self.positive:
            return [(st, not neg)]
        if v in st.facts:
            return [(st, st.facts[v] != neg)]
        if a is not None and a[0] == 'cmp' and a[1] in ('<', '<=', '=='):
            # the same difference under another comparison
            for k, w in st.facts.items():
                t = k.single()
                if t is None or t[0] != 'cmp':
                    continue
                for s in (1, -1):
                    if t[2] == a[2].scale(s):
                        r = implied(t[1], w, s, a[1])
                        if r is not None:
                            return [(st, r != neg)]
            if self.nonneg(a[2]) and a[1] == '<':
                return [(st, neg)]
            if self.nonneg(-a[2]) and a[1] == '<=':
                return [(st, not neg)]
        out = []
        for w in (True, False):
            s = st.copy()
            s.facts[v] = w
            out.append((s, w != neg))
        return out

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            flip = isinstance(op, (ast.IsNot, ast.NotEq))
            r = self.same(st, a, b)
            if isinstance(r, bool):
                return r != flip
            return unknown('not', r) if flip else r
        if isinstance(op, (ast.In, ast.NotIn)):
            flip = isinstance(op, ast.NotIn)
            r = None
            if isinstance(b, Ref):
                c = st.rec(b)
                if c[0] == 'dict':
                    if isinstance(a, NATIVE + (tuple,)) and a in c[1]:
                        r = True
                    elif isinstance(a, NATIVE + (tuple,)) and c[2] is None and all(isinstance(k, NATIVE + (tuple,)) for k in c[1]):
                        r = False
                    elif c[2] is not None:
                        r = unknown('in', self.freeze(st, a), c[2])
                elif c[0] in ('list', 'set'):
                    r = self.member(st, a, c[1])
            elif isinstance(b, tuple):
                r = self.member(st, a, b)
            elif isinstance(b, str) and isinstance(a, str):
                r = a in b
            if r is None:
                r = unknown('in', self.freeze(st, a), self.freeze(st, b))
            if isinstance(r, bool):
                return r != flip
            return unknown('not', r) if flip else r
        x, y = num(a), num(b)
        if x is None or y is None:
            if isinstance(a, NATIVE) and isinstance(b, NATIVE) and type(a) == type(b):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[CMP[type(op)]]
            return unknown('cmp?', CMP[type(op)], self.freeze(st, a), self.freeze(st, b))
        o = CMP[type(op)]
        if o in ('>', '>='):
            x, y, o = y, x, {'>': '<', '>=': '<='}[o]
        d = self.content(x - y)
        k = d.const()
        if k is not None:
            return k < 0 if o == '<' else k <= 0
        if self.nonneg(-d - Num.c(1)) or o == '<=' and self.nonneg(-d):
            return True
        if self.nonneg(d - Num.c(1)) and self.isint(d) or o == '<' and self.nonneg(d):
            return False
        return unknown('cmp', o, d)

    def content(self, d):
        """the same sign with the common positive factors taken out"""
        if not d.d:
            return d
        low = {}
        for m in d.d:
            for a, e in m:
                if a in self.positive:
                    low.setdefault(a, []).append(e)
        f = Num.c(1)
        for a, es in low.items():
            e = min(es + ([0] if len(es) < len(d.d) else []))
            if e:
                f = f * Num.atom(a, -e)
        d = d * f
        c = max((abs(c) for c in d.d.values()))
        return d.scale(Fraction(1) / c) if c != 1 else d

    def member(self, st, a, items):
        maybe = False
        for x in items:
            r = self.same(st, a, x)
            if r is True:
                return True
            if r is not False:
                maybe = True
        return None if maybe else False

    def same(self, st, a, b):
        """-> bool or a condition"""
        if isinstance(a, NATIVE) and isinstance(b, NATIVE):
            return (a is None) == (b is None) and a == b
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Num):
                t = self.given.get(('none', o))
                return bool(t) if t is not None else False
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            conds = [self.same(st, x, y) for x, y in zip(a, b)]
            if all(c is True for c in conds):
                return True
            if any(c is False for c in conds):
                return False
            conds = [c for c in conds if c is not True]
            return conds[0] if len(conds) == 1 else unknown('all', tuple(conds))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            return True if fa == fb else unknown('same', fa, fb)
        if isinstance(a, NATIVE) and isinstance(b, (Ref, tuple)) or isinstance(b, NATIVE) and isinstance(a, (Ref, tuple)):
            return False
        x, y = num(a), num(b)
        if x is not None and y is not None:
            d = x - y
            if d.const() is not None:
                return d.const() == 0
            if self.isint(d) and (self.nonneg(d - Num.c(1)) or self.nonneg(-d - Num.c(1))):
                return False
            lead, n = d.normal()
            return unknown('cmp', '==', n)
        if isinstance(a, (Fn, Cls, Mod, Ext, Bound)) or isinstance(b, (Fn, Cls, Mod, Ext, Bound)):
            return True if a == b else (False if isinstance(a, (Fn, Cls, Mod, Ext)) and isinstance(b, (Fn, Cls, Mod, Ext)) else
                                        unknown('same', self.freeze(st, a), self.freeze(st, b)))
        fa, fb = sorted([self.freeze(st, a), self.freeze(st, b)], key=repr)
        return True if fa == fb else unknown('same', fa, fb)

    # ---- names and attributes

    def lookup(self, st, name, fr):
        f = fr
        while f is not None:
            d = st.rec(f.ref)[1]
            if name in d and not (name in fr.gl and f is fr and f.ref != st.mods.get(fr.mod)):
                return d[name]
            f = f.parent
        m = st.mods.get(fr.mod)
        if m is not None:
            c = st.rec(m)
            if name in c[1]:
                return c[1][name]
            if name not in BUILTIN:
                for s in c[2]:
                    return Ext(s + '.' + name)
        return Ext(name)

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls:
            return '_' + fr.cls.lstrip('_') + name
        return name

    def attr(self, st, v, name, line):
        """-> [(state, value)]"""
        if isinstance(v, Ref):
            c = st.rec(v)
            if c[0] == 'obj':
                if name in c[1]:
                    return [(st, c[1][name])]
                m = c[2].find(name)
                if m is not None:
                    return [(st, Bound(m, v) if isinstance(m, Fn) and not m.static else m)]
                if any(not isinstance(b, Cls) and b != Ext('object') and b != Ext('Exception') for b in roots(c[2])):
                    return [(st, Bound(name, v))]
                if name == '__class__':
                    return [(st, c[2])]
                return self.fail(st, 'AttributeError', name, line)
            return [(st, Bound(name, v))]
        if isinstance(v, Mod):
            m = st.rec(st.mods[v.name])
            if name in m[1]:
                return [(st, m[1][name])]
            sub = self.locate(name, v.name)
            if sub is not None and sub in st.mods:
                return [(st, Mod(sub))]
            return [(st, Ext(v.name + ':' + name))]
        if isinstance(v, Ext):
            if v.path + '.' + name == 'numpy.pi' or v.path + '.' + name == 'math.pi':
                return [(st, Num.atom(('pi',)))]
            return [(st, Ext(v.path + '.' + name))]
        if isinstance(v, Cls):
            m = v.find(name)
            if m is not None:
                return [(st, m)]
            return self.fail(st, 'AttributeError', name, line)
        if isinstance(v, Num):
            g = self.given.get(('attr', v, name))
            if g is not None:
                return [(st, g)]
            return [(st, Num.atom(('attr', v, name)))]
        return [(st, Bound(name, v))]

    def item(self, st, v, k, line):
        if isinstance(v, Ref):
            c = st.rec(v)
            if c[0] == 'dict':
                kk = k if isinstance(k, NATIVE + (tuple,)) else self.freeze(st, k)
                if kk in c[1]:
                    return [(st, c[1][kk])]
                if c[2] is not None:
                    return [(st, self.unknown_item(st, v, c[2], kk))]
                if all(isinstance(x, NATIVE + (tuple,)) for x in c[1]) and isinstance(k, NATIVE + (tuple,)):
                    st.ev.append(('missing', kk, line))
                    return self.fail(st, 'KeyError', kk, line)
                return [(st, unknown('item', self.freeze(st, v), kk))]
            if c[0] == 'arr' and isinstance(k, tuple) and k and k[0] != 'slice' and all(isinstance(x, int) for x in k):
                res = [(st, v)]
                for x in k:
                    res = self.each(res, lambda s, w, x=x: self.item(s, w, x, line))
                return res
            if c[0] in ('list', 'arr'):
                if isinstance(k, int):
                    if -len(c[1]) <= k < len(c[1]):
                        return [(st, c[1][k])]
                    return self.fail(st, 'IndexError', k, line)
                if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice' and all(x is None or isinstance(x, int) for x in k[1:]):
                    return [(st, st.new((c[0], c[1][slice(*k[1:])])))]
        if isinstance(v, (tuple, str)):
            if isinstance(k, int):
                try:
                    return [(st, v[k])]
                except IndexError:
                    return self.fail(st, 'IndexError', k, line)
            if isinstance(k, tuple) and len(k) == 4 and k[0] == 'slice' and all(x is None or isinstance(x, int) for x in k[1:]):
                return [(st, v[slice(*k[1:])])]
        if isinstance(v, Num):
            kk = self.freeze(st, k)
            g = self.given.get(('item', v, kk))
            if g is not None:
                return [(st, g)]
            st.ev.append(('item', v, kk, line))
            a = v.single()
            if a is not None and a[0] == 'store' and a[2] == kk:
                return [(st, a[3])]
            return [(st, Num.atom(('item', v, kk)))]
        return [(st, unknown('item', self.freeze(st, v), self.freeze(st, k)))]

    def unknown_item(self, st, ref, base, k):
        st.ev.append(('item', base, k, 0))
        g = self.given.get(('item', base, k))
        return g if g is not None else Num.atom(('item', base, k))

    # ---- expressions

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken('analysis budget exhausted in %s of %s' % (fr.fn, fr.mod))
        f = getattr(self, 'ev_' + type(e).__name__, None)
        if f is None:
            raise AnalysisBroken('unsupported %s in %s:%s' % (type(e).__name__, fr.mod, getattr(e, 'lineno', 0)))
        return f(e, st, fr)

    def ev_Constant(self, e, st, fr):
        return [(st, unknown('...') if e.value is Ellipsis else (e.value.decode('latin1') if isinstance(e.value, bytes) else e.value))]

    def ev_Name(self, e, st, fr):
        n = e.id
        if n in ('True', 'False', 'None'):
            return [(st, {'True': True, 'False': False, 'None': None}[n])]
        return [(st, self.lookup(st, self.mangle(n, fr), fr))]

    def ev_Attribute(self, e, st, fr):
        return self.each(self.ev(e.value, st, fr), lambda s, v: self.attr(s, v, self.mangle(e.attr, fr), e.lineno))

    def ev_Subscript(self, e, st, fr):
        return self.each(self.seq([e.value, e.slice], st, fr), lambda s, vk: self.item(s, vk[0], vk[1], e.lineno))

    def ev_Slice(self, e, st, fr):
        none = ast.Constant(value=None)
        return self.each(self.seq([e.lower or none, e.upper or none, e.step or none], st, fr), lambda s, v: [(s, ('slice',) + v)])

    def ev_Tuple(self, e, st, fr):
        return self.seq(e.elts, st, fr)

    def ev_List(self, e, st, fr):
        return self.each(self.seq(e.elts, st, fr), lambda s, v: [(s, s.new(('list', v)))])

    def ev_Set(self, e, st, fr):
        return self.each(self.seq(e.elts, st, fr), lambda s, v: [(s, s.new(('set', v)))])

    def ev_Dict(self, e, st, fr):
        def mk(s, v):
            n = len(e.keys)
            d = {}
            for k, x in zip(v[:n], v[n:]):
                d[k if isinstance(k, NATIVE + (tuple,)) else self.freeze(s, k)] = x
            return [(s, s.new(('dict', d, None)))]
        return self.each(self.seq(list(e.keys) + list(e.values), st, fr), mk)

    def ev_BinOp(self, e, st, fr):
        def f(s, ab):
            r = self.binop(e.op, ab[0], ab[1], s, e.lineno)
            if r is None:
                return self.fail(s, 'TypeError', '', e.lineno)
            return [(s, r)]
        return self.each(self.seq([e.left, e.right], st, fr), f)

    def ev_UnaryOp(self, e, st, fr):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                if isinstance(v, Num):
                    return [(s2, not t) for s2, t in self.truth(s, v)]
                return [(s2, not t) for s2, t in self.truth(s, v)]
            if isinstance(e.op, ast.USub):
                if isinstance(v, NATIVE) and not isinstance(v, (str, type(None))):
                    return [(s, -v)]
                if self.arr(s, v) is not None:
                    return [(s, self.binop(ast.Mult(), -1, v, s, e.lineno))]
                n = num(self.opaque(s, v))
                return [(s, back(-n))] if n is not None else self.fail(s, 'TypeError', '', e.lineno)
            return [(s, v)]
        return self.each(self.ev(e.operand, st, fr), f)

    def ev_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        res, out = [(st, None)], []
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in res:
                for s2, v in self.ev(x, s, fr):
                    if s2.exc is not None or s2.cut or i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, t in self.truth(s2, v):
                        if t == isand:
                            nxt.append((s3, None))
                        else:
                            out.append((s3, t if isinstance(v, Num) else v))
            res = nxt
        return out

    def ev_Compare(self, e, st, fr):
        if len(e.ops) == 1:
            return self.each(self.seq([e.left, e.comparators[0]], st, fr), lambda s, v: [(s, self.compare(s, e.ops[0], v[0], v[1]))])

        def f(s, v):
            res, out = [(s, None)], []
            for i, op in enumerate(e.ops):
                nxt = []
                for s1, _ in res:
                    c = self.compare(s1, op, v[i], v[i + 1])
                    for s2, t in self.truth(s1, c):
                        (nxt if t else out).append((s2, t))
                res = nxt
            return out + res
        return self.each(self.seq([e.left] + e.comparators, st, fr), f)

    def ev_IfExp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.test, st, fr):
            if s.exc is not None or s.cut:
                out.append((s, None))
                continue
            for s2, t in self.truth(s, v):
                out.extend(self.ev(e.body if t else e.orelse, s2, fr))
        return out

    def ev_Lambda(self, e, st, fr):
        f = Fn(e, fr.mod, fr, fr.cls)
        f.static = False
        return self.each(self.seq(e.args.defaults, st, fr), lambda s, d: (setattr(f, 'defaults', d), [(s, f)])[1])

    def ev_JoinedStr(self, e, st, fr):
        return self.each(self.seq([x.value if isinstance(x, ast.FormattedValue) else x for x in e.values], st, fr),
                         lambda s, v: [(s, ''.join(v) if all(isinstance(x, str) for x in v) else unknown('fmt', self.freeze(s, v)))])

    def ev_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def comp(self, e, st, fr, emit):
        """-> [(state, tuple of produced)]"""
        def gens(i, s):
            if i == len(e.generators):
                return [(s2, (v,)) for s2, v in emit(s)]
            g = e.generators[i]

            def over(s1, it):
                out = []
                for s2, items in self.elements(s1, it, e.lineno):
                    res = [(s2, ())]
                    for x in items:
                        nxt = []
                        for s3, acc in res:
                            if s3.exc is not None or s3.cut:
                                nxt.append((s3, acc))
                                continue
                            for s4 in self.assign(g.target, x, s3, fr):
                                conds = [(s4, True)]
                                for c in g.ifs:
                                    more = []
                                    for s5, t in conds:
                                        if not t:
                                            more.append((s5, t))
                                            continue
                                        for s6, v in self.ev(c, s5, fr):
                                            if s6.exc is not None or s6.cut:
                                                more.append((s6, False))
                                            else:
                                                more.extend(self.truth(s6, v))
                                    conds = more
                                for s5, t in conds:
                                    if not t:
                                        nxt.append((s5, acc))
                                    else:
                                        nxt.extend((s6, acc + (vs or ())) for s6, vs in gens(i + 1, s5))
                        res = nxt
                    out.extend(res)
                return out
            return self.each(self.ev(g.iter, s, fr), over)
        return gens(0, st)

    def ev_ListComp(self, e, st, fr):
        return self.each(self.comp(e, st, fr, lambda s: self.ev(e.elt, s, fr)), lambda s, v: [(s, s.new(('list', v)))])

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, st, fr):
        return self.each(self.comp(e, st, fr, lambda s: self.ev(e.elt, s, fr)), lambda s, v: [(s, s.new(('set', v)))])

    def ev_DictComp(self, e, st, fr):
        def mk(s, v):
            return [(s, s.new(('dict', {(k if isinstance(k, NATIVE + (tuple,)) else self.freeze(s, k)): x for k, x in v}, None)))]
        return self.each(self.comp(e, st, fr, lambda s: self.seq([e.key, e.value], s, fr)), mk)

    def ev_Call(self, e, st, fr):
        def args(s, f):
            out = []
            for s2, vs in self.seq([a for a in e.args] + [k.value for k in e.keywords], s, fr):
                if s2.exc is not None or s2.cut:
                    out.append((s2, None))
                    continue
                pos = []
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        if isinstance(v, tuple):
                            pos.extend(v)
                        elif isinstance(v, Ref) and s2.rec(v)[0] == 'list':
                            pos.extend(s2.rec(v)[1])
                        else:
                            pos.append(v)
                    else:
                        pos.append(v)
                kw = {}
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        if isinstance(v, Ref) and s2.rec(v)[0] == 'dict':
                            kw.update(s2.rec(v)[1])
                    else:
                        kw[k.arg] = v
                out.extend(self.call(s2, f, tuple(pos), kw, e.lineno, fr))
            return out
        return self.each(self.ev(e.func, st, fr), args)

    # ---- calls

    def call(self, st, f, args, kw, line, fr):
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.apply(st, f.fn, (f.this,) + args, kw, line, fr)
            return self.method(st, f.this, f.fn, args, kw, line, fr)
        if isinstance(f, Fn):
            return self.apply(st, f, args, kw, line, fr)
        if isinstance(f, Cls):
            o = st.new(('obj', {}, f))
            init = f.find('__init__')
            if init is None:
                if args:
                    st.put(o, 'args', args)
                return [(st, o)]
            return [(s, o if s.exc is None else None) for s, _ in self.apply(st, init, (o,) + args, kw, line, fr)]
        if isinstance(f, Ref) and st.rec(f)[0] == 'obj':
            m = st.rec(f)[2].find('__call__')
            if m is not None:
                return self.apply(st, m, (f,) + args, kw, line, fr)
        if isinstance(f, Ext):
            h = self.prims.get(f.path)
            if h is None and f.path.startswith('numpy.') and '.' in f.path:
                h = self.prims.get('numpy.*.' + f.path.split('.')[-1])
            if h is not None:
                return h(self, st, args, kw, line, fr)
            return self.outside(st, f.path, args, kw, line, fr)
        if isinstance(f, Num):
            a = f.single()
            if a is not None and a[0] == 'attr':
                h = self.prims.get('?.' + a[2])
                if h is not None:
                    return h(self, st, (a[1],) + args, kw, line, fr)
            fa = tuple(self.freeze(st, x) for x in args)
            st.ev.append(('call', f, args, fa, line, fr.fn))
            return [(st, Num.atom(('call', f, fa, tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items())))))]
        return [(st, unknown('call', self.freeze(st, f), tuple(self.freeze(st, x) for x in args)))]

    def outside(self, st, path, args, kw, line, fr):
        fa = tuple(self.freeze(st, x) for x in args)
        fk = tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items()))
        st.ev.append(('call', path, args, fa, line, fr.fn))
        return [(st, Num.atom(('call', path, fa, fk)))]

    def apply(self, st, fn, args, kw, line, fr):
        key = (fn.mod, fn.name)
        if key in self.prims:
            return self.prims[key](self, st, args, kw, line, fr)
        a = fn.node.args
        names = [x.arg for x in a.args]
        d = {}
        if len(args) > len(names) and not a.vararg:
            return self.fail(st, 'TypeError', 'arguments of ' + fn.name, line)
        for n, v in zip(names, args):
            d[n] = v
        for k, v in kw.items():
            if k in d or (k not in names and not a.kwarg):
                return self.fail(st, 'TypeError', 'arguments of ' + fn.name, line)
            d[k] = v
        for n, v in zip(names[len(names) - len(fn.defaults):], fn.defaults):
            d.setdefault(n, v)
        if any(n not in d for n in names):
            return self.fail(st, 'TypeError', 'arguments of ' + fn.name, line)
        if a.vararg:
            d[a.vararg.arg] = tuple(args[len(names):])
        if len(self.paths) > 60:
            raise AnalysisBroken('calls nested too deep at %s' % fn.name)
        self.visited[key] = self.visited.get(key, 0) + 1
        parent = fn.frame if fn.frame is not None and fn.frame.parent is not None or (fn.frame is not None and fn.frame.fn != '<module>') else None
        f = Frame(fn.mod, st.new(('frame', d, ())), parent, fn.cls, fn.name)
        self.paths.append(key)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, st, f)
            out = []
            for s, sig in self.block(fn.node.body, st, f):
                if s.exc is not None or s.cut:
                    out.append((s, None))
                else:
                    out.append((s, self.brief(sig[1]) if isinstance(sig, tuple) else None))
            if self.summary is not None and len(out) > 1 and self.summary(fn.mod):
                seen = {}
                for s, v in out:
                    k = (s.cut, None if s.exc is None else repr(self.exc_kinds(s, s.exc)), self.shape(s, v))
                    seen.setdefault(k, (s, v))
                out = list(seen.values())
            return out
        finally:
            self.paths.pop()

    def shape(self, st, v):
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.shape(st, x) for x in v)
        if isinstance(v, Ref):
            c = st.rec(v)
            if c[0] == 'dict':
                return ('dict', tuple(sorted(((k, self.shape(st, x)) for k, x in c[1].items()), key=repr)))
            if c[0] == 'obj':
                return ('obj', c[2].name, tuple(sorted((k, x) for k, x in c[1].items() if isinstance(x, str))))
            return c[0]
        return v if isinstance(v, (bool, str, type(None))) else '*'

    def method(self, st, this, name, args, kw, line, fr):
        if isinstance(this, str):
            if name == 'format':
                if all(isinstance(x, NATIVE) for x in args) and all(isinstance(x, NATIVE) for x in kw.values()):
                    try:
                        return [(st, this.format(*args, **kw))]
                    except Exception:
                        return self.fail(st, 'IndexError', 'format', line)
                return self.formatted(st, this, args, kw, line)
            if name == 'join' and args and isinstance(args[0], (tuple, Ref)):
                items = args[0] if isinstance(args[0], tuple) else st.rec(args[0])[1]
                r = ''
                for i, x in enumerate(items):
                    if i:
                        r = self.cat(r, this)
                    r = self.cat(r, x)
                return [(st, r)]
            if all(isinstance(x, NATIVE) for x in args):
                try:
                    r = getattr(this, name)(*args)
                    if isinstance(r, list):
                        r = st.new(('list', tuple(r)))
                    return [(st, r)]
                except Exception:
                    pass
            return [(st, unknown('call', ('attr', this, name), tuple(self.freeze(st, x) for x in args)))]
        if isinstance(this, Ref):
            c = st.rec(this)
            h = getattr(self, '%s_%s' % (c[0], name), None)
            if h is not None:
                return h(st, this, c, args, kw, line, fr)
        return [(st, unknown('call', ('attr', self.freeze(st, this), name), tuple(self.freeze(st, x) for x in args)))]

    def formatted(self, st, text, args, kw, line):
        import string
        r, auto = '', 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(text):
                r = self.cat(r, lit)
                if field is None:
                    continue
                if field == '':
                    field, auto = str(auto), auto + 1
                if field.isdigit():
                    if int(field) >= len(args):
                        return self.fail(st, 'IndexError', 'format', line)
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    v = unknown('fmt', text, field)
                if isinstance(v, NATIVE) and not spec:
                    v = str(v)
                elif spec or not isinstance(v, Num):
                    v = unknown('fmt', spec, self.freeze(st, v))
                r = self.cat(r, v)
        except ValueError:
            return [(st, unknown('fmt', text))]
        return [(st, r)]

    # dictionaries
    def dict_keys(self, st, r, c, args, kw, line, fr):
        if c[2] is not None:
            return [(st, unknown('keys', self.freeze(st, r)))]
        return [(st, st.new(('list', tuple(c[1]))))]

    dict_iterkeys = dict_keys

    def dict_values(self, st, r, c, args, kw, line, fr):
        return [(st, st.new(('list', tuple(c[1].values()))))]

    dict_itervalues = dict_values

    def dict_items(self, st, r, c, args, kw, line, fr):
        return [(st, st.new(('list', tuple(c[1].items()))))]

    dict_iteritems = dict_items

    def dict_has_key(self, st, r, c, args, kw, line, fr):
        return [(st, self.compare(st, ast.In(), args[0], r))]

    dict___contains__ = dict_has_key

    def dict_get(self, st, r, c, args, kw, line, fr):
        out = []
        for s, t in self.truth(st, self.compare(st, ast.In(), args[0], r)):
            out.extend(self.item(s, r, args[0], line) if t else [(s, args[1] if len(args) > 1 else None)])
        return out

    def dict_setdefault(self, st, r, c, args, kw, line, fr):
        out = []
        for s, t in self.truth(st, self.compare(st, ast.In(), args[0], r)):
            if not t:
                s.put(r, args[0], args[1] if len(args) > 1 else None)
            out.extend(self.item(s, r, args[0], line))
        return out

    def dict_update(self, st, r, c, args, kw, line, fr):
        for x in args:
            if isinstance(x, Ref) and st.rec(x)[0] == 'dict':
                d = dict(st.rec(r)[1])
                d.update(st.rec(x)[1])
                base = st.rec(r)[2] if st.rec(x)[2] is None else st.rec(x)[2]
                st.heap[r.n] = ('dict', d, base)
            elif isinstance(x, Num):
                st.heap[r.n] = ('dict', st.rec(r)[1], x)
        for k, v in kw.items():
            st.put(r, k, v)
        return [(st, None)]

    def dict_pop(self, st, r, c, args, kw, line, fr):
        out = []
        for s, t in self.truth(st, self.compare(st, ast.In(), args[0], r)):
            if not t:
                if len(args) > 1:
                    out.append((s, args[1]))
                else:
                    out.extend(self.fail(s, 'KeyError', args[0], line))
                continue
            for s2, v in self.item(s, r, args[0], line):
                s2.drop(r, args[0])
                out.append((s2, v))
        return out

    def dict_copy(self, st, r, c, args, kw, line, fr):
        return [(st, st.new(c))]

    def dict_clear(self, st, r, c, args, kw, line, fr):
        st.heap[r.n] = ('dict', {}, None)
        return [(st, None)]

    # lists
    def list_append(self, st, r, c, args, kw, line, fr):
        st.heap[r.n] = (c[0], c[1] + (args[0],))
        return [(st, None)]

    def list_extend(self, st, r, c, args, kw, line, fr):
        x = args[0]
        items = x if isinstance(x, tuple) else st.rec(x)[1] if isinstance(x, Ref) and st.rec(x)[0] in ('list', 'set') else (unknown('each', self.freeze(st, x)),)
        st.heap[r.n] = (c[0], c[1] + tuple(items))
        return [(st, None)]

    def list_pop(self, st, r, c, args, kw, line, fr):
        i = args[0] if args else -1
        if not isinstance(i, int) or not -len(c[1]) <= i < len(c[1]):
            return self.fail(st, 'IndexError', 'pop', line)
        l = list(c[1])
        v = l.pop(i)
        st.heap[r.n] = (c[0], tuple(l))
        return [(st, v)]

    def list_insert(self, st, r, c, args, kw, line, fr):
        l = list(c[1])
        l.insert(args[0] if isinstance(args[0], int) else len(l), args[1])
        st.heap[r.n] = (c[0], tuple(l))
        return [(st, None)]

    def list_sort(self, st, r, c, args, kw, line, fr):
        return [(st, None)]

    def list_remove(self, st, r, c, args, kw, line, fr):
        l = [x for x in c[1] if self.same(st, x, args[0]) is not True]
        st.heap[r.n] = (c[0], tuple(l))
        return [(st, None)]

    def set_add(self, st, r, c, args, kw, line, fr):
        if args[0] not in c[1]:
            st.heap[r.n] = (c[0], c[1] + (args[0],))
        return [(st, None)]

    # ---- iteration

    def elements(self, st, v, line):
        """what a loop goes over -> [(state, sequence)]"""
        if isinstance(v, str):
            return [(st, tuple(v))]
        if isinstance(v, tuple):
            return [(st, v)]
        if isinstance(v, Ref):
            c = st.rec(v)
            if c[0] in ('list', 'set', 'arr'):
                return [(st, c[1])]
            if c[0] == 'dict':
                return [(st, tuple(c[1]))]
        fz = self.freeze(st, v)
        if self.iterate is not None:
            r = self.iterate(self, st, v, fz, line)
            if r is not None:
                return r
        one = st.copy()
        x = Num.atom(('each', fz))
        a = v.single() if isinstance(v, Num) else None
        if a is not None and a[0] == 'call' and a[1] in ('range', 'xrange'):
            self.ints.add(('each', fz))
            b = a[2][-1] if len(a[2]) < 3 else None
            if isinstance(b, (Num, int)) and len(a[2]) == 1:
                self.below[('each', fz)] = num(b)
        if a is not None and a[0] == 'call' and a[1] == 'enumerate':
            x = (Num.atom(('each', 'index', fz)), Num.atom(('each', 'of', fz)))
            self.ints.add(('each', 'index', fz))
        return [(one, (x,))]

    # ---- assignment

    def assign(self, t, v, st, fr):
        """-> states"""
        if isinstance(t, ast.Name):
            n = self.mangle(t.id, fr)
            if n in fr.gl:
                st.put(st.mods[fr.mod], n, v)
            else:
                st.put(fr.ref, n, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = None
            if isinstance(v, tuple):
                items = v
            elif isinstance(v, Ref) and st.rec(v)[0] in ('list', 'arr'):
                items = st.rec(v)[1]
            if items is None:
                fz = self.freeze(st, v)
                items = tuple(Num.atom(('item', v if isinstance(v, Num) else fz, i)) for i in range(len(t.elts)))
            if len(items) != len(t.elts):
                st.exc = ('ValueError', 'unpacking', t.lineno)
                return [st]
            res = [st]
            for x, w in zip(t.elts, items):
                res = [s2 for s in res for s2 in (self.assign(x, w, s, fr) if s.exc is None else [s])]
            return res
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fr):
                if s.exc is None and not s.cut:
                    if isinstance(o, Ref):
                        s.ev.append(('set', o, self.mangle(t.attr, fr), v, t.lineno, fr.fn))
                        s.put(o, self.mangle(t.attr, fr), v)
                    elif isinstance(o, Mod):
                        s.put(s.mods[o.name], t.attr, v)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, ok in self.seq([t.value, t.slice], st, fr):
                if s.exc is not None or s.cut:
                    out.append(s)
                    continue
                o, k = ok
                if isinstance(o, Ref) and s.rec(o)[0] == 'dict':
                    s.put(o, k if isinstance(k, NATIVE + (tuple,)) else self.freeze(s, k), v)
                    out.append(s)
                elif isinstance(o, Ref) and s.rec(o)[0] in ('list', 'arr'):
                    c = s.rec(o)
                    if isinstance(k, int) and -len(c[1]) <= k < len(c[1]):
                        l = list(c[1])
                        l[k] = v
                        s.heap[o.n] = (c[0], tuple(l)) + c[2:]
                    else:
                        s.heap[o.n] = (c[0], tuple(unknown('item?', x) for x in range(len(c[1]))))
                    out.append(s)
                else:
                    fz = self.freeze(s, o)
                    new = self.brief(Num.atom(('store', num(o) if num(o) is not None else fz, self.freeze(s, k), self.freeze(s, v))))
                    if isinstance(t.value, (ast.Name, ast.Attribute, ast.Subscript)):
                        out.extend(self.assign(t.value, new, s, fr))
                    else:
                        out.append(s)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise AnalysisBroken('unsupported assignment in %s:%s' % (fr.mod, t.lineno))

    # ---- statements

    def block(self, body, st, fr):
        res, out = [(st, None)], []
        for b in body:
            nxt = []
            for s, _ in res:
                for s2, sig in self.stmt(b, s, fr):
                    if s2.exc is not None or s2.cut or sig is not None:
                        out.append((s2, sig))
                    else:
                        nxt.append((s2, None))
            res = nxt
            if len(res) + len(out) > 4000:
                raise AnalysisBroken('too many partitions in %s of %s' % (fr.fn, fr.mod))
        return out + res

    def stmt(self, b, st, fr):
        self.steps += 1
        out = []
        for h in self.hooks:
            out.extend((s, None) for s in h(self, b, st, fr))
        f = getattr(self, 'do_' + type(b).__name__, None)
        if f is None:
            raise AnalysisBroken('unsupported %s in %s:%s' % (type(b).__name__, fr.mod, b.lineno))
        return out + f(b, st, fr)

    def do_Expr(self, b, st, fr):
        return [(s, None) for s, _ in self.ev(b.value, st, fr)]

    def do_Pass(self, b, st, fr):
        return [(st, None)]

    def do_Global(self, b, st, fr):
        fr.gl.update(b.names)
        return [(st, None)]

    def brief(self, v):
        if self.cap is not None and isinstance(v, Num) and weight(v, self.cap) > self.cap:
            return Num.atom(('named', self.names.setdefault(v, len(self.names))))
        return v

    def do_Assign(self, b, st, fr):
        out = []
        for s, v in self.ev(b.value, st, fr):
            v = self.brief(v)
            if s.exc is not None or s.cut:
                out.append((s, None))
                continue
            ss = [s]
            for t in b.targets:
                ss = [s3 for s2 in ss for s3 in (self.assign(t, v, s2, fr) if s2.exc is None else [s2])]
            out.extend((x, None) for x in ss)
        return out

    def do_AugAssign(self, b, st, fr):
        out = []
        load = ast.copy_location(type(b.target)(**{**{f: getattr(b.target, f) for f in b.target._fields}, 'ctx': ast.Load()}), b.target)
        for s, vs in self.seq([load, b.value], st, fr):
            if s.exc is not None or s.cut:
                out.append((s, None))
                continue
            a, v = vs
            if isinstance(a, Ref) and s.rec(a)[0] == 'list' and isinstance(b.op, ast.Add):
                out.extend((s2, None) for s2, _ in self.list_extend(s, a, s.rec(a), (v,), {}, b.lineno, fr))
                continue
            r = self.brief(self.binop(b.op, a, v, s, b.lineno))
            if r is None:
                s.exc = ('TypeError', '', b.lineno)
                out.append((s, None))
                continue
            out.extend((x, None) for x in self.assign(b.target, r, s, fr))
        return out

    def do_Return(self, b, st, fr):
        if b.value is None:
            return [(st, ('ret', None))]
        return [(s, ('ret', v)) for s, v in self.ev(b.value, st, fr)]

    def do_If(self, b, st, fr):
        out = []
        for s, v in self.ev(b.test, st, fr):
            if s.exc is not None or s.cut:
                out.append((s, None))
                continue
            for s2, t in self.truth(s, v):
                out.extend(self.block(b.body if t else b.orelse, s2, fr))
        return out

    def do_For(self, b, st, fr):
        out = []
        for s, v in self.ev(b.iter, st, fr):
            if s.exc is not None or s.cut:
                out.append((s, None))
                continue
            for s1, items in self.elements(s, v, b.lineno):
                if len(items) > self.UNROLL:
                    items = items[:self.UNROLL]
                res = [s1]
                done = []
                for x in items:
                    nxt = []
                    for s2 in res:
                        for s3 in self.assign(b.target, x, s2, fr):
                            for s4, sig in self.block(b.body, s3, fr):
                                if s4.exc is not None or s4.cut or isinstance(sig, tuple):
                                    out.append((s4, sig))
                                elif sig == 'break':
                                    done.append(s4)
                                else:
                                    nxt.append(s4)
                    res = nxt
                for s2 in res:
                    out.extend(self.block(b.orelse, s2, fr) if b.orelse else [(s2, None)])
                out.extend((s2, None) for s2 in done)
        return out

    def do_While(self, b, st, fr):
        out, res = [], [st]
        forever = isinstance(b.test, ast.Constant) and b.test.value or isinstance(b.test, ast.Name) and b.test.id == 'True'
        n = self.WHILE if forever else 4
        for i in range(n + 1):
            nxt = []
            for s in res:
                for s1, v in self.ev(b.test, s, fr):
                    if s1.exc is not None or s1.cut:
                        out.append((s1, None))
                        continue
                    for s2, t in self.truth(s1, v):
                        if not t:
                            out.extend(self.block(b.orelse, s2, fr) if b.orelse else [(s2, None)])
                        elif i == n:
                            s2.cut = ('again', b.lineno)
                            out.append((s2, None))
                        else:
                            for s3, sig in self.block(b.body, s2, fr):
                                if s3.exc is not None or s3.cut or isinstance(sig, tuple):
                                    out.append((s3, sig))
                                elif sig == 'break':
                                    out.append((s3, None))
                                else:
                                    nxt.append(s3)
            res = nxt
        return out

    def do_Break(self, b, st, fr):
        return [(st, 'break')]

    def do_Continue(self, b, st, fr):
        return [(st, 'continue')]

    def do_FunctionDef(self, b, st, fr):
        f = Fn(b, fr.mod, fr, fr.cls)
        f.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in b.decorator_list)
        out = []
        for s, d in self.seq(b.args.defaults, st, fr):
            if s.exc is None and not s.cut:
                f.defaults = d
                s.put(fr.ref, self.mangle(b.name, fr), f)
            out.append((s, None))
        return out

    def do_ClassDef(self, b, st, fr):
        out = []
        for s, bases in self.seq(b.bases, st, fr):
            if s.exc is not None or s.cut:
                out.append((s, None))
                continue
            f = Frame(fr.mod, s.new(('frame', {}, ())), fr, b.name, '<class>')
            for s2, sig in self.block(b.body, s, f):
                ns = dict(s2.rec(f.ref)[1])
                for v in ns.values():
                    if isinstance(v, Fn):
                        v.frame = None
                s2.put(fr.ref, b.name, Cls(b.name, fr.mod, bases, ns, b))
                out.append((s2, None))
        return out

    def do_Import(self, b, st, fr):
        res = [st]
        for a in b.names:
            nxt = []
            for s in res:
                for s2, m in self.imported(s, a.name if a.asname else a.name.split('.')[0], fr) if not ('.' in a.name and a.asname) else \
                        self.imported(s, a.name, fr):
                    if '.' in a.name and not a.asname:
                        for s3, _ in self.imported(s2, a.name, fr):
                            s3.put(fr.ref, a.name.split('.')[0], m)
                            nxt.append(s3)
                        continue
                    s2.put(fr.ref, a.asname or a.name, m)
                    nxt.append(s2)
            res = nxt
        return [(s, None) for s in res]

    def do_ImportFrom(self, b, st, fr):
        out = []
        for s, m in self.imported(st, b.module or '', fr):
            for a in b.names:
                if a.name == '*':
                    if isinstance(m, Mod):
                        for k, v in s.rec(s.mods[m.name])[1].items():
                            if not k.startswith('_'):
                                s.put(fr.ref, k, v)
                        for x in s.rec(s.mods[m.name])[2]:
                            c = s.rec(fr.ref)
                            s.heap[fr.ref.n] = (c[0], c[1], c[2] + (x,))
                    else:
                        c = s.rec(fr.ref)
                        s.heap[fr.ref.n] = (c[0], c[1], c[2] + (m.path,))
                elif isinstance(m, Mod):
                    v = s.rec(s.mods[m.name])[1].get(a.name)
                    s.put(fr.ref, a.asname or a.name, v if a.name in s.rec(s.mods[m.name])[1] else Ext(m.name + ':' + a.name))
                else:
                    s.put(fr.ref, a.asname or a.name, Ext(m.path + '.' + a.name))
            out.append((s, None))
        return out

    def do_Raise(self, b, st, fr):
        if b.exc is None:
            st.exc = st.get(fr.ref, '!caught') or ('reraise', '', b.lineno)
            return [(st, None)]
        out = []
        for s, v in self.ev(b.exc, st, fr):
            if s.exc is None and not s.cut:
                s.exc = (v, '', b.lineno)
            out.append((s, None))
        return out

    def do_Assert(self, b, st, fr):
        out = []
        for s, v in self.ev(b.test, st, fr):
            if s.exc is not None or s.cut:
                out.append((s, None))
                continue
            for s2, t in self.truth(s, v):
                if not t:
                    s2.exc = ('AssertionError', '', b.lineno)
                out.append((s2, None))
        return out

    def do_Delete(self, b, st, fr):
        res = [st]
        for t in b.targets:
            nxt = []
            for s in res:
                if isinstance(t, ast.Name):
                    s.drop(fr.ref, t.id)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, fr):
                        if s2.exc is None and isinstance(o, Ref):
                            s2.drop(o, self.mangle(t.attr, fr))
                        nxt.append(s2)
                else:
                    for s2, ok in self.seq([t.value, t.slice], s, fr):
                        if s2.exc is None and isinstance(ok[0], Ref) and s2.rec(ok[0])[0] == 'dict':
                            s2.drop(ok[0], ok[1])
                        nxt.append(s2)
            res = nxt
        return [(s, None) for s in res]

    def kinds(self, exc):
        """names of the exception and of what it derives from; None: any kind"""
        k = exc[0]
        if k == 'any':
            return None
        if isinstance(k, str):
            names = {k}
        elif isinstance(k, Ext):
            names = {k.path}
        elif isinstance(k, Cls):
            return class_names(k)
        else:
            return None
        if not names & {'KeyboardInterrupt', 'SystemExit'}:
            names |= {'Exception', 'StandardError'}
        return names | {'BaseException'}

    def exc_kinds(self, st, exc):
        k = exc[0]
        if isinstance(k, Ref) and st.rec(k)[0] == 'obj':
            return class_names(st.rec(k)[2])
        if isinstance(k, Num):
            a = k.single()
            if a is not None and a[0] == 'call' and isinstance(a[1], str):
                return self.kinds((a[1], '', 0))
        return self.kinds(exc)

    def do_Try(self, b, st, fr):
        after = []
        for s, sig in self.block(b.body, st, fr):
            if s.cut:
                after.append((s, sig))
            elif s.exc is None:
                if sig is None and b.orelse:
                    after.extend(self.block(b.orelse, s, fr))
                else:
                    after.append((s, sig))
            else:
                kinds = self.exc_kinds(s, s.exc)
                cur = [s]
                for h in b.handlers:
                    if h.type is None:
                        names = None
                    else:
                        names = self.handler_names(h.type, s, fr)
                    hit = names is None or (kinds is not None and names & kinds)
                    maybe = kinds is None and not hit
                    if not (hit or maybe):
                        continue
                    for s1 in list(cur):
                        s2 = s1.copy()
                        exc, s2.exc = s2.exc, None
                        if h.name:
                            s2.put(fr.ref, h.name, exc[0] if isinstance(exc[0], (Ref, Num)) else unknown('exception', str(exc[0])))
                        s2.put(fr.ref, '!caught', exc)
                        s2.ev.append(('caught', exc, h.lineno, fr.fn))
                        for s3, sig3 in self.block(h.body, s2, fr):
                            after.append((s3, sig3))
                    if hit:
                        cur = []
                        break
                after.extend((s1, None) for s1 in cur)
        if not b.finalbody:
            return after
        out = []
        for s, sig in after:
            if s.cut:
                out.append((s, sig))
                continue
            exc, s.exc = s.exc, None
            for s2, sig2 in self.block(b.finalbody, s, fr):
                if s2.exc is None and sig2 is None:
                    s2.exc = exc
                    out.append((s2, sig))
                else:
                    out.append((s2, sig2))
        return out

    def handler_names(self, t, st, fr):
        es = t.elts if isinstance(t, ast.Tuple) else [t]
        out = set()
        for e in es:
            for s, v in self.ev(e, st.copy_clean(), fr):
                if isinstance(v, Cls):
                    out.add(v.mod + ':' + v.name)
                elif isinstance(v, Ext):
                    out.add(v.path)
        return out

    def do_With(self, b, st, fr):
        res = [(st, [])]
        for it in b.items:
            nxt = []
            for s, ctx in res:
                for s1, v in self.ev(it.context_expr, s, fr):
                    if s1.exc is not None or s1.cut:
                        nxt.append((s1, None))
                        continue
                    if isinstance(v, Ref) and s1.rec(v)[0] == 'obj' and s1.rec(v)[2].find('__enter__'):
                        for s2, w in self.apply(s1, s1.rec(v)[2].find('__enter__'), (v,), {}, b.lineno, fr):
                            s2.ev.append(('enter', s2.rec(v)[2].name, b.lineno, fr.fn))
                            if it.optional_vars is not None and s2.exc is None:
                                for s3 in self.assign(it.optional_vars, w, s2, fr):
                                    nxt.append((s3, ctx + [v]))
                            else:
                                nxt.append((s2, ctx + [v]))
                    else:
                        s1.ev.append(('enter', self.freeze(s1, v), b.lineno, fr.fn))
                        if it.optional_vars is not None:
                            for s3 in self.assign(it.optional_vars, v, s1, fr):
                                nxt.append((s3, ctx + [v]))
                        else:
                            nxt.append((s1, ctx + [v]))
            res = nxt
        out = []
        for s, ctx in res:
            if s.exc is not None or s.cut or ctx is None:
                out.append((s, None))
                continue
            for s1, sig in self.block(b.body, s, fr):
                if s1.cut:
                    out.append((s1, sig))
                    continue
                exc, s1.exc = s1.exc, None
                cur = [s1]
                for v in reversed(ctx):
                    nx = []
                    for s2 in cur:
                        if isinstance(v, Ref) and s2.rec(v)[0] == 'obj' and s2.rec(v)[2].find('__exit__'):
                            for s3, w in self.apply(s2, s2.rec(v)[2].find('__exit__'), (v, None, None, None), {}, b.lineno, fr):
                                s3.ev.append(('leave', s3.rec(v)[2].name, b.lineno, fr.fn))
                                nx.append(s3)
                        else:
                            s2.ev.append(('leave', self.freeze(s2, v), b.lineno, fr.fn))
                            nx.append(s2)
                    cur = nx
                for s2 in cur:
                    if s2.exc is None:
                        s2.exc = exc
                    out.append((s2, sig))
        return out


def copy_clean(self):
    s = self.copy()
    s.exc = None
    return s


St.copy_clean = copy_clean


def roots(c):
    out = []
    for b in c.bases:
        if isinstance(b, Cls):
            out.extend(roots(b))
        else:
            out.append(b)
    return out


def class_names(c):
    out = {c.mod + ':' + c.name}
    for b in c.bases:
        if isinstance(b, Cls):
            out |= class_names(b)
        elif isinstance(b, Ext):
            out |= {b.path, 'BaseException'}
            if b.path not in ('KeyboardInterrupt', 'SystemExit', 'BaseException'):
                out |= {'Exception'}
    return out


def implied(op, val, sign, want):
    """is (d op' 0) decided by (sign*d op 0) == val"""
    # the signs of e = sign*d that remain
    poss = {'<': {-1}, '<=': {-1, 0}, '==': {0}}[op]
    if not val:
        poss = {-1, 0, 1} - poss
    poss = {x * sign for x in poss}
    ok = {'<': {-1}, '<=': {-1, 0}, '==': {0}}[want]
    if poss <= ok:
        return True
    if not poss & ok:
        return False
    return None


def weight(t, limit):
    n, todo = 0, [t]
    while todo and n <= limit:
        x = todo.pop()
        n += 1
        if isinstance(x, Num):
            for m in x.d:
                todo.extend(a for a, e in m)
                n += 1
        elif isinstance(x, tuple):
            todo.extend(x)
    return n


# ---- what the language itself gives

def p_range(I, st, args, kw, line, fr):
    if all(isinstance(a, int) for a in args) and args:
        r = range(*args)
        if len(r) <= I.UNROLL:
            return [(st, st.new(('list', tuple(r))))]
    return I.outside(st, 'range', args, kw, line, fr)


def p_len(I, st, args, kw, line, fr):
    v = args[0]
    if isinstance(v, (str, tuple)):
        return [(st, len(v))]
    if isinstance(v, Ref) and st.rec(v)[0] in ('list', 'set', 'dict', 'arr') and not (st.rec(v)[0] == 'dict' and st.rec(v)[2] is not None):
        return [(st, len(st.rec(v)[1]))]
    t = ('len', I.freeze(st, v))
    I.ints.add(t)
    return [(st, Num.atom(t))]


def p_list(I, st, args, kw, line, fr):
    if not args:
        return [(st, st.new(('list', ())))]
    v = args[0]
    if isinstance(v, (tuple, str)):
        return [(st, st.new(('list', tuple(v))))]
    if isinstance(v, Ref) and st.rec(v)[0] in ('list', 'set', 'dict', 'arr'):
        return [(st, st.new(('list', tuple(st.rec(v)[1]))))]
    return [(st, v)]


def p_tuple(I, st, args, kw, line, fr):
    if not args:
        return [(st, ())]
    v = args[0]
    if isinstance(v, Ref) and st.rec(v)[0] in ('list', 'set', 'dict', 'arr'):
        return [(st, tuple(st.rec(v)[1]))]
    return [(st, v)]


def p_dict(I, st, args, kw, line, fr):
    d, base = {}, None
    if args and isinstance(args[0], Ref) and st.rec(args[0])[0] == 'dict':
        d, base = dict(st.rec(args[0])[1]), st.rec(args[0])[2]
    elif args and isinstance(args[0], Ref) and st.rec(args[0])[0] == 'list':
        for kv in st.rec(args[0])[1]:
            if isinstance(kv, tuple) and len(kv) == 2:
                d[kv[0]] = kv[1]
    elif args:
        base = args[0]
    d.update(kw)
    return [(st, st.new(('dict', d, base)))]


def p_set(I, st, args, kw, line, fr):
    v = args[0] if args else ()
    items = v if isinstance(v, tuple) else st.rec(v)[1] if isinstance(v, Ref) else (v,)
    return [(st, st.new(('set', tuple(dict.fromkeys(items)))))]


def p_id(I, st, args, kw, line, fr):
    v = args[0]
    if isinstance(v, str):
        try:
            v = float(v)
        except ValueError:
            return I.fail(st, 'ValueError', v, line)
    if isinstance(v, int):
        v = float(v)
    return [(st, v)]


def p_int(I, st, args, kw, line, fr):
    v = args[0]
    if isinstance(v, (int, float)):
        return [(st, int(v))]
    if I.isint(v):
        return [(st, v)]
    t = ('int', I.freeze(st, v))
    I.ints.add(t)
    return [(st, Num.atom(t))]


def p_str(I, st, args, kw, line, fr):
    v = args[0] if args else ''
    return [(st, str(v) if isinstance(v, NATIVE) else I.cat('', v) if isinstance(v, Num) else unknown('str', I.freeze(st, v)))]


def p_abs(I, st, args, kw, line, fr):
    v = args[0]
    if isinstance(v, (int, float)):
        return [(st, abs(v))]
    n = num(I.opaque(st, v))
    return [(st, v if I.nonneg(n) else Num.atom(('abs', n)))]


def p_hasattr(I, st, args, kw, line, fr):
    o, name = args
    if isinstance(o, Ref) and st.rec(o)[0] == 'obj':
        name = name
        return [(st, name in st.rec(o)[1] or st.rec(o)[2].find(name) is not None)]
    return [(st, unknown('hasattr', I.freeze(st, o), name))]


def p_getattr(I, st, args, kw, line, fr):
    if isinstance(args[1], str):
        out = []
        for s, v in I.attr(st, args[0], args[1], line):
            if s.exc is not None and len(args) > 2:
                s.exc = None
                v = args[2]
            out.append((s, v))
        return out
    return I.outside(st, 'getattr', args, kw, line, fr)


def p_setattr(I, st, args, kw, line, fr):
    if isinstance(args[0], Ref) and isinstance(args[1], str):
        st.put(args[0], args[1], args[2])
    return [(st, None)]


def p_type(I, st, args, kw, line, fr):
    v = args[0]
    if isinstance(v, NATIVE) and v is not None:
        return [(st, Ext(type(v).__name__))]
    if isinstance(v, tuple):
        return [(st, Ext('tuple'))]
    if isinstance(v, Ref):
        c = st.rec(v)
        return [(st, c[2] if c[0] == 'obj' else Ext(c[0]))]
    return I.outside(st, 'type', args, kw, line, fr)


def p_isinstance(I, st, args, kw, line, fr):
    v, t = args
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(v, NATIVE) and v is not None and all(isinstance(x, Ext) for x in ts):
        return [(st, type(v).__name__ in [x.path for x in ts])]
    if isinstance(v, Ref):
        c = st.rec(v)
        if c[0] == 'obj':
            return [(st, any(isinstance(x, Cls) and c[2].below(x) for x in ts))]
        return [(st, any(isinstance(x, Ext) and x.path == c[0] for x in ts))]
    return I.outside(st, 'isinstance', args, kw, line, fr)


def p_sum(I, st, args, kw, line, fr):
    v = args[0]
    items = v if isinstance(v, tuple) else st.rec(v)[1] if isinstance(v, Ref) and st.rec(v)[0] == 'list' else None
    if items is not None and all(num(x) is not None for x in items):
        r = num(args[1]) if len(args) > 1 else Num({})
        for x in items:
            r = r + num(x)
        return [(st, back(r))]
    return I.outside(st, 'sum', args, kw, line, fr)


def p_same_items(I, st, args, kw, line, fr):
    v = args[0]
    if isinstance(v, tuple):
        v = st.new(('list', v))
    if isinstance(v, Ref):
        items = st.rec(v)[1]
        if all(isinstance(x, (int, float)) for x in items) or all(isinstance(x, str) for x in items):
            return [(st, st.new(('list', tuple(sorted(items)))))]
        return [(st, v)]
    return I.outside(st, 'sorted', args, kw, line, fr)


def p_enumerate(I, st, args, kw, line, fr):
    v = args[0]
    items = v if isinstance(v, tuple) else st.rec(v)[1] if isinstance(v, Ref) and st.rec(v)[0] in ('list', 'dict') else None
    if items is not None:
        k = args[1] if len(args) > 1 and isinstance(args[1], int) else 0
        return [(st, st.new(('list', tuple((i + k, x) for i, x in enumerate(items)))))]
    return I.outside(st, 'enumerate', args, kw, line, fr)


def p_zip(I, st, args, kw, line, fr):
    cols = []
    for v in args:
        items = v if isinstance(v, (tuple, str)) else st.rec(v)[1] if isinstance(v, Ref) and st.rec(v)[0] in ('list',) else None
        if items is None:
            return I.outside(st, 'zip', args, kw, line, fr)
        cols.append(items)
    return [(st, st.new(('list', tuple(zip(*cols)))))]


def p_reversed(I, st, args, kw, line, fr):
    v = args[0]
    items = v if isinstance(v, tuple) else st.rec(v)[1] if isinstance(v, Ref) and st.rec(v)[0] == 'list' else None
    if items is None:
        return I.outside(st, 'reversed', args, kw, line, fr)
    return [(st, st.new(('list', tuple(items)[::-1])))]


def p_divmod(I, st, args, kw, line, fr):
    q, r = [I.binop(op, args[0], args[1], st, line) for op in (ast.FloorDiv(), ast.Mod())]
    return I.outside(st, 'divmod', args, kw, line, fr) if q is None or r is None else [(st, (q, r))]


def p_map(I, st, args, kw, line, fr):
    out = []
    for s, items in I.elements(st, args[1], line):
        res = [(s, ())]
        for x in items:
            res = I.each(res, lambda s1, acc, x=x: [(s2, acc + (v,)) for s2, v in I.call(s1, args[0], (x,), {}, line, fr)])
        out.extend(I.each(res, lambda s1, acc: [(s1, s1.new(('list', acc)))]))
    return out


def p_minmax(which):
    def f(I, st, args, kw, line, fr):
        v = args if len(args) > 1 else args[0]
        items = v if isinstance(v, tuple) else st.rec(v)[1] if isinstance(v, Ref) and st.rec(v)[0] == 'list' else None
        if items and all(isinstance(x, (int, float)) for x in items):
            return [(st, (min if which == 'min' else max)(items))]
        if items and len(items) == 2 and all(num(x) is not None for x in items):
            d = num(items[0]) - num(items[1])
            if I.nonneg(d):
                return [(st, items[1] if which == 'min' else items[0])]
            if I.nonneg(-d):
                return [(st, items[0] if which == 'min' else items[1])]
        return I.outside(st, which, args, kw, line, fr)
    return f


def p_nothing(I, st, args, kw, line, fr):
    return [(st, None)]


def p_array(I, st, args, kw, line, fr):
    v = args[0]
    if isinstance(v, Num) or isinstance(v, NATIVE):
        return [(st, v)]

    def conv(x):
        items = x if isinstance(x, tuple) else st.rec(x)[1] if isinstance(x, Ref) and st.rec(x)[0] in ('list', 'arr') else None
        return x if items is None else st.new(('arr', tuple(conv(y) for y in items)))
    if isinstance(v, tuple) or isinstance(v, Ref) and st.rec(v)[0] in ('list', 'arr'):
        return [(st, conv(v))]
    return I.outside(st, 'numpy.array', args, {}, line, fr)


def p_zeros(I, st, args, kw, line, fr):
    st.ev.append(('call', 'numpy.zeros', args, tuple(I.freeze(st, a) for a in args), line, fr.fn))
    return [(st, 0)]


def p_floor(I, st, args, kw, line, fr):
    n = num(I.opaque(st, args[0]))
    if n.const() is not None:
        return [(st, n.const().numerator // n.const().denominator)]
    t = ('floor', n)
    I.ints.add(t)
    return [(st, Num.atom(t))]


def p_exit(I, st, args, kw, line, fr):
    return I.fail(st, 'SystemExit', args[0] if args else 0, line)


def p_copy(I, st, args, kw, line, fr):
    def dup(v, memo, depth=0):
        if isinstance(v, tuple):
            return tuple(dup(x, memo) for x in v)
        if isinstance(v, Ref):
            if v.n in memo:
                return memo[v.n]
            c = st.rec(v)
            if c[0] in ('frame',):
                return v
            r = memo[v.n] = st.new(c)
            if c[0] in ('dict', 'obj'):
                st.heap[r.n] = (c[0], {k: dup(x, memo) for k, x in c[1].items()}) + c[2:]
            else:
                st.heap[r.n] = (c[0], tuple(dup(x, memo) for x in c[1])) + c[2:]
            return r
        return v
    return [(st, dup(args[0], {}))]


def p_shallow(I, st, args, kw, line, fr):
    v = args[0]
    return [(st, st.new(st.rec(v)) if isinstance(v, Ref) else v)]


def p_join(I, st, args, kw, line, fr):
    r = args[0]
    for a in args[1:]:
        r = I.cat(I.cat(r, '/'), a)
    return [(st, r)]


def p_is_none_of(I, st, args, kw, line, fr):
    return I.outside(st, 'isinstance', args, kw, line, fr)


PRIMS = {
    'range': p_range, 'xrange': p_range, 'len': p_len, 'list': p_list, 'tuple': p_tuple, 'dict': p_dict, 'set': p_set, 'frozenset': p_set, 'float': p_id,
    'complex': p_id, 'int': p_int, 'long': p_int, 'str': p_str, 'unicode': p_str, 'repr': p_str, 'abs': p_abs, 'hasattr': p_hasattr, 'getattr': p_getattr,
    'setattr': p_setattr, 'type': p_type, 'isinstance': p_isinstance, 'sum': p_sum, 'sorted': p_same_items, 'enumerate': p_enumerate, 'zip': p_zip, 'map': p_map, 'reversed': p_reversed, 'divmod': p_divmod,
    'iter': p_list, 'min': p_minmax('min'), 'max': p_minmax('max'), '_print_': p_nothing, 'numpy.array': p_array, 'numpy.asarray': p_array,
    'numpy.zeros': p_zeros, 'math.floor': p_floor, 'numpy.floor': p_floor, 'sys.exit': p_exit, 'exit': p_exit, 'copy.deepcopy': p_copy,
    'copy.copy': p_shallow, 'os.path.join': p_join, 'numpy.abs': p_abs,
}
