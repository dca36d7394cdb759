"""Abstract interpreter over the exported syntax trees.

Abstract state: a store of locations (root term + access path) holding values of the Herbrand/Laurent-polynomial domain
(terms.py), an equality/disequality store on reference terms closed under the declared inverse-link rules, and bounds on
normalised linear forms.  Branches partition the trace set on the condition; conditions decided by the domain take one
side.  Nothing is executed and no condition is handed to a solver: every decision is a normal-form comparison."""
from fractions import Fraction
from terms import Num, N0, N1, show, size, tkey
from frontend import AnalysisBroken
from astutil import walk

NULL = ('null',)


class Infeasible(Exception):
    pass


class Frame(object):
    __slots__ = ('id', 'this', 'fn', 'depth', 'file', 'unit')

    def __init__(self, i, this, fn, depth):
        self.id, self.this, self.fn, self.depth = i, this, fn, depth
        self.file = fn['file'] if fn else None
        self.unit = fn['unit'] if fn else None


class State(object):
    def __init__(self):
        self.loc = {}      # local base -> {path: value}
        self.sym = {}      # local base -> [(path, value)] writes at symbolic indices and everything after them
        self.ref = {}      # (frame,id) -> location
        self.log = []      # heap writes: (base, path, value, where)
        self.sub = {}      # rewriting: term/atom -> term/Num
        self.neq = set()   # frozenset({t1,t2})
        self.bnd = {}      # linear form -> (lo, lostrict, hi, histrict, excluded)
        self.bools = {}    # opaque boolean -> bool
        self.ev = []       # events
        self.memo = {}
        self.ctr = 0
        self.hints = None  # when set: the draws and picks that are tried
        self.choice = ()
        self.halt = False  # set when the way back has been followed far enough

    def copy(self):
        s = State()
        s.loc = {k: dict(v) for k, v in self.loc.items()}
        s.ref = dict(self.ref)
        s.sym = {k: list(v) for k, v in self.sym.items()} if self.sym else {}
        s.log = list(self.log)
        s.sub = dict(self.sub)
        s.neq = set(self.neq)
        s.bnd = dict(self.bnd)
        s.bools = dict(self.bools)
        s.ev = list(self.ev)
        s.ctr = self.ctr
        s.hints, s.choice, s.halt = self.hints, self.choice, self.halt
        return s

    def fresh(self):
        self.ctr += 1
        return self.ctr

    # ---------------------------------------------------------------- normal forms
    def n(self, t):
        if isinstance(t, bool) or isinstance(t, (int, str)) or t is None:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        for _ in range(50):
            r = self._n1(t)
            if r == t:
                break
            t2 = self.memo.get(r)
            if t2 is not None:
                r = t2
                break
            t, t0 = r, t
        self.memo[t] = r
        return r

    def _n1(self, t):
        if isinstance(t, Num):
            if not t.d:
                return t
            ch = False
            m = {}
            for a in t.atoms():
                na = self.n(a)
                if not isinstance(na, Num):
                    if isinstance(na, bool):
                        na = Num.c(1 if na else 0)
                    else:
                        if na != a:
                            ch = True
                        na = Num.atom(na)
                else:
                    ch = True
                m[a] = na
            if not ch:
                return t
            out = N0
            for mono, c in t.d.items():
                p = Num.c(c)
                for a, e in mono:
                    x = m[a]
                    if e < 0:
                        x = x.inv()
                    for _ in range(abs(e)):
                        p = p * x
                out = out + p
            return out
        if not isinstance(t, tuple):
            return t
        r = self.sub.get(t)
        if r is not None:
            return r
        nt = tuple(self.n(x) for x in t)
        r = self.sub.get(nt)
        if r is not None:
            return r
        if not nt or not isinstance(nt[0], str):
            return nt
        h = nt[0]
        if h == 'truth' and len(nt) == 2:
            if isinstance(nt[1], bool):
                return nt[1]
            b = self.bools.get(nt)
            if b is None:
                b = self.dom.quick_bool(self, nt[1])
            if b is not None:
                return b
            return nt
        if h == 'not':
            if isinstance(nt[1], bool):
                return not nt[1]
            if isinstance(nt[1], tuple) and nt[1][0] == 'not':
                return nt[1][1]
            return nt
        if h == 'abs':
            x = nt[1]
            if isinstance(x, Num):
                if len(x.d) > 1 and x.normal()[0] == 1:
                    return nt
                return absnum(x)
            return nt
        if h == 'poly':
            x = nt[1]
            if isinstance(x, Num) and len(x.d) <= 1:
                return x
            return nt
        return self.dom.rule(self, nt)

    # ---------------------------------------------------------------- rewriting
    def reset(self):
        self.memo = {}

    def set_sub(self, k, v):
        """assert k == v (terms or atom==Num); raises Infeasible"""
        work = [(k, v)]
        while True:
            if not work:
                self._recheck()
                work = self.dom.closure(self)
                if not work:
                    return
            k, v = work.pop()
            self.reset()
            k, v = self.n(k), self.n(v)
            if k == v:
                continue
            if isinstance(k, Num) or isinstance(v, Num):
                kn = k if isinstance(k, Num) else Num.atom(k)
                vn = v if isinstance(v, Num) else Num.atom(v)
                d = kn - vn
                if d.const() is not None:
                    if d.const() != 0:
                        raise Infeasible()
                    continue
                # solve for one atom that occurs linearly and alone in its monomials
                best = None
                for m, c in d.d.items():
                    if len(m) == 1:
                        (a, e), = m
                        if e == 1 and sum(1 for mm in d.d for aa, ee in mm if aa == a) == 1 and a[0] != 'poly':
                            key = (-size(a), tkey(a))
                            if best is None or key < best[0]:
                                best = (key, a, c)
                if best is None:
                    self.bools[('eq0', d.normal()[1])] = True
                    continue
                a, c = best[1], best[2]
                rhs = (Num.atom(a).scale(c) - d).scale(1 / c)
                if a in rhs.atoms():
                    continue
                fin = self.dom.finite(self, a)
                if fin is not None and rhs.const() is not None and rhs.const() not in fin:
                    raise Infeasible()
                self._check_bound(a, rhs)
                self.sub[a] = rhs
            else:
                r = self.decide_eq(k, v)
                if r is False:
                    raise Infeasible()
                if isinstance(r, tuple) and r[0] == 'pair':
                    if (r[1], r[2]) != (k, v) and (r[2], r[1]) != (k, v):
                        k, v = r[1], r[2]
                if (size(k), tkey(k)) < (size(v), tkey(v)):
                    k, v = v, k
                pre = self.dom.induced(self, k, v)
                self.sub[k] = v
                work.extend(pre)
            # re-normalise the rule set
            self.reset()
            for kk in list(self.sub):
                vv = self.sub.pop(kk)
                self.reset()
                nk, nv = self.n(kk), self.n(vv)
                if nk == kk:
                    self.sub[kk] = nv
                elif nk != nv:
                    work.append((nk, nv))
                self.reset()

    def close(self):
        """after a new disequality or fact: consequences under the link rules"""
        for a, b in self.dom.closure(self):
            self.set_sub(a, b)

    def _check_bound(self, a, rhs):
        c = rhs.const()
        if c is None:
            return
        b = self.bnd.get(Num.atom(a))
        if b:
            check_in(b, c)

    def _recheck(self):
        self.reset()
        new = set()
        old, self.neq = self.neq, new
        for p in old:
            a, b = tuple(p)
            r = self.decide_eq(self.n(a), self.n(b), True)
            if r is True:
                raise Infeasible()
            if r is False:
                continue
            new.add(frozenset((r[1], r[2])))
        self.neq = new
        old = self.bnd
        self.bnd = {}
        for f, (lo, ls, hi, hs, ex) in old.items():
            nf = self.n(f)
            if nf == f:
                if f in self.bnd:
                    self.add_bounds(f, lo, ls, hi, hs, ex)
                else:
                    self.bnd[f] = (lo, ls, hi, hs, ex)
            else:
                self.add_bounds(nf, lo, ls, hi, hs, ex)
        for k in list(self.bools):
            v = self.bools.pop(k)
            self.reset()
            nk = self.n(k)
            if isinstance(nk, bool):
                if nk != v:
                    raise Infeasible()
                if k[0] != 'truth':
                    continue
                nk = k       # decided by other facts: keep, they may be weakened by a join
            if nk in self.bools and self.bools[nk] != v:
                raise Infeasible()
            self.bools[nk] = v
        self.reset()

    def add_bounds(self, p, lo, ls, hi, hs, ex):
        """lo <= p <= hi for a polynomial p that may not be in normal form"""
        c, f, k = split_form(p)   # p = k*f + c
        if f is None:
            for v, s, lower in ((lo, ls, True), (hi, hs, False)):
                if v is None:
                    continue
                d = (c - v) if lower else (v - c)
                if d < 0 or (d == 0 and s):
                    raise Infeasible()
            if c in ex:
                raise Infeasible()
            return
        lo2 = None if lo is None else (lo - c) / k
        hi2 = None if hi is None else (hi - c) / k
        ex2 = frozenset((x - c) / k for x in ex)
        if k < 0:
            lo2, ls, hi2, hs = hi2, hs, lo2, ls
        b = self.bnd.get(f) or self.dom.base_bounds(self, f)
        isint = self.dom.is_int(f)
        lo1, ls1, hi1, hs1, ex1 = b
        if lo2 is not None and (lo1 is None or lo2 > lo1 or (lo2 == lo1 and ls)):
            lo1, ls1 = lo2, ls
        if hi2 is not None and (hi1 is None or hi2 < hi1 or (hi2 == hi1 and hs)):
            hi1, hs1 = hi2, hs
        ex1 = ex1 | ex2
        if isint:
            import math
            if lo1 is not None:
                v = math.floor(lo1) + 1 if (ls1 and lo1 == math.floor(lo1)) else math.ceil(lo1)
                while Fraction(v) in ex1:
                    v += 1
                lo1, ls1 = Fraction(v), False
            if hi1 is not None:
                v = math.ceil(hi1) - 1 if (hs1 and hi1 == math.ceil(hi1)) else math.floor(hi1)
                while Fraction(v) in ex1:
                    v -= 1
                hi1, hs1 = Fraction(v), False
        else:
            if lo1 in ex1:
                ls1 = True
            if hi1 in ex1:
                hs1 = True
        if lo1 is not None and hi1 is not None:
            if lo1 > hi1 or (lo1 == hi1 and (ls1 or hs1)):
                raise Infeasible()
        self.bnd[f] = (lo1, ls1, hi1, hs1, ex1)
        if lo1 is not None and lo1 == hi1:
            a = f.single()
            if a is not None and a not in self.sub:
                self.set_sub(a, Num.c(lo1))
            elif a is None and isint:
                self.set_sub(f, Num.c(lo1))

    def range(self, p):
        c, f, k = split_form(p)
        if f is None:
            return c, False, c, False
        b = self.bnd.get(f)
        if b is None:
            b = self.dom.base_bounds(self, f)
        lo, ls, hi, hs, ex = b
        if lo is None or hi is None:
            b2 = self.lin_range(f)
            if lo is None and b2[0] is not None:
                lo, ls = b2[0], b2[1]
            if hi is None and b2[2] is not None:
                hi, hs = b2[2], b2[3]
        if lo is not None:
            lo = lo * k + c
        if hi is not None:
            hi = hi * k + c
        if k < 0:
            lo, ls, hi, hs = hi, hs, lo, ls
        return lo, ls, hi, hs

    def lin_range(self, f):
        lo, ls, hi, hs = Fraction(0), False, Fraction(0), False
        for m, c in f.d.items():
            if not m:
                lo = lo + c if lo is not None else None
                hi = hi + c if hi is not None else None
                continue
            one = Num({m: Fraction(1)})
            b = self.bnd.get(one) or self.dom.base_bounds(self, one)
            l, a, h, b2 = b[0], b[1], b[2], b[3]
            if c < 0:
                l, a, h, b2 = h, b2, l, a
            if lo is not None:
                lo = None if l is None else lo + c * l
                ls = ls or a
            if hi is not None:
                hi = None if h is None else hi + c * h
                hs = hs or b2
        return lo, ls, hi, hs

    # ---------------------------------------------------------------- decisions
    def decide_lt0(self, p):
        lo, ls, hi, hs = self.range(p)
        if hi is not None and (hi < 0 or (hi == 0 and hs)):
            return True
        if lo is not None and (lo > 0 or (lo == 0)):
            return False
        return self.bools.get(('lt0', p))

    def decide_eq0(self, p):
        c = p.const()
        if c is not None:
            return c == 0
        pr = self.dom.as_eq(self, p)
        if pr is not None:
            r = self.decide_eq(*pr)
            return r if isinstance(r, bool) else None
        lo, ls, hi, hs = self.range(p)
        if lo is not None and (lo > 0 or (lo == 0 and ls)):
            return False
        if hi is not None and (hi < 0 or (hi == 0 and hs)):
            return False
        if lo is not None and lo == hi == 0:
            return True
        cc, f, k = split_form(p)
        b = self.bnd.get(f) or self.dom.base_bounds(self, f)
        if b and (-cc / k) in b[4]:
            return False
        return None

    def decide_eq(self, a, b, pair=False):
        """True/False, ('pair',x,y) when undecided and reduced to x==y, or ('need',atom) when atom must be partitioned"""
        for _ in range(30):
            if a == b:
                return True
            r = self.dom.distinct(self, a, b)
            if r:
                return False
            r = self.dom.reduce_eq(self, a, b)
            if r is None:
                break
            if isinstance(r, bool):
                return r
            if r[0] == 'need':
                return r if not pair else ('pair', a, b)
            a, b = self.n(r[0]), self.n(r[1])
        if frozenset((a, b)) in self.neq:
            return False
        return ('pair', a, b)


def check_in(b, c):
    lo, ls, hi, hs, ex = b
    if lo is not None and (c < lo or (c == lo and ls)):
        raise Infeasible()
    if hi is not None and (c > hi or (c == hi and hs)):
        raise Infeasible()
    if c in ex:
        raise Infeasible()


def split_form(p):
    """p = k*f + c with f normalised and without constant term"""
    c = p.d.get(frozenset(), Fraction(0))
    q = p - Num.c(c)
    if not q.d:
        return c, None, None
    k, f = q.normal()
    return c, f, k


def absnum(x):
    """modulus of a product of terms"""
    m = x.monomial()
    if not x.d:
        return N0
    if m is None:
        lead, nn = x.normal()
        return Num.atom(('abs', nn)).scale(abs(lead))
    c, d = m
    out = Num.c(abs(c))
    for a, e in d.items():
        if a == ('I',):
            continue
        if a[0] == 'poly':
            b = absnum(a[1])
        elif a[0] in ('abs', 'pos', 'irn', 'urn') or a[0] == 'fld' and len(a) > 4:
            b = Num.atom(a)
        else:
            b = Num.atom(('abs', a))
        if e < 0:
            b = b.inv()
        for _ in range(abs(e)):
            out = out * b
    return out


def libroot(a):
    while a[0] == 'fld':
        a = a[1]
    return a[0] == 'call'


class BaseDomain(object):
    """no links: plain uninterpreted terms"""

    def on_test(self, st, p, v):
        pass

    def closure(self, st):
        return []

    def rule(self, st, t):
        return t

    def quick_bool(self, st, t):
        return None

    def finite(self, st, a):
        if a[0] == 'irn' and isinstance(a[2], int) and a[3] - a[2] <= 3:
            return list(range(a[2], a[3] + 1))
        return None

    def is_int(self, f):
        return all(self.int_atom(a) for a in f.atoms()) and all(c.denominator == 1 for c in f.d.values()) and \
            all(e > 0 for m in f.d for a, e in m)

    INT = ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'size_t', 'Momentum', 'spin', 'uint', 'short', 'char')

    WHOLE = ('SignFermiLoop',)      # a sign, kept as a real number

    def whole(self, v):
        """real numbers that convert to integers unchanged"""
        def sign(a):
            return a[0] == 'fld' and bool(a[2]) and a[2][-1] in self.WHOLE
        at = v.atoms()
        return any(a[0] in ('floor', 'trunc') or sign(a) for a in at) and all(self.int_atom(a) or sign(a) for a in at) and \
            all(c.denominator == 1 for c in v.d.values()) and all(e > 0 for m in v.d for a, e in m)

    def int_atom(self, a):
        if a[0] == 'fld':
            return a[3] in self.INT
        if a[0] == 'abs':
            return isinstance(a[1], tuple) and self.int_atom(a[1]) or (isinstance(a[1], Num) and self.is_int(a[1]))
        return a[0] in ('irn', 'int', 'sp', 'trunc', 'floor')

    def narrow(self, st, v, t):
        """conversion between integer types: the values of the program fit (checked where stated)"""
        return v

    def base_bounds(self, st, f):
        a = f.single()
        if a is not None:
            if a[0] == 'urn':
                return (Fraction(0), False, Fraction(1), True, frozenset())
            if a[0] == 'irn' and isinstance(a[2], int):
                return (Fraction(a[2]), False, Fraction(a[3]), False, frozenset())
            if a[0] == 'abs':
                return (Fraction(0), False, None, False, frozenset())
            fin = self.finite(st, a)
            if fin is not None:
                return (Fraction(min(fin)), False, Fraction(max(fin)), False, frozenset())
            if a[0] == 'fld' and 'unsigned' in a[3]:
                return (Fraction(0), False, None, False, frozenset())
            if a[0] == 'mod' and isinstance(a[2], Num):
                pass
        return (None, False, None, False, frozenset())

    def distinct(self, st, a, b):
        if a[0] in ('p', 'glob') and b[0] in ('p', 'glob'):
            return a != b
        if 'glob' in (a[0], b[0]) and ({a[0], b[0]} & {'new', 'slot', 'pick', 'fld', 'nG', 'nW', 'gV', 'wV'}):
            return True   # named objects with static storage are only reached by name in the analysed code
        if is_local(a) and is_local(b) and a[1] != b[1]:
            return True
        if is_local(a) != is_local(b) and not ({a[0], b[0]} & {'call', 'undef'}):
            return True   # nothing that existed before can point at an object of this activation
        if (a[0] == 'p' and libroot(b)) or (b[0] == 'p' and libroot(a)):
            return True   # storage owned by a library container is not one of the analysed objects
        if a[0] == 'new' or b[0] == 'new':
            return True
        if a[0] == 'ptr' and b[0] == 'ptr':
            return a[2] != b[2] and not any(isinstance(x, Num) for x in a[2] + b[2])
        if a[0] == 'slot' and b[0] == 'slot' and a[1] == b[1]:
            return isinstance(a[2], int) and isinstance(b[2], int) and a[2] != b[2]
        if NULL in (a, b):
            o = b if a == NULL else a
            return o[0] in ('p', 'ptr', 'new', 'slot', 'pick')
        return False

    def as_eq(self, st, p):
        """the pair of objects whose identity is the vanishing of p; None: no such pair"""
        return None

    def reduce_eq(self, st, a, b):
        if a[0] == 'ptr' and b[0] == 'ptr' and a[2] == b[2]:
            return a[1], b[1]
        return None

    def induced(self, st, a, b):
        return []

    def kind(self, t):
        return None

    def init(self, I, st, base, path, typ):
        """[(state, value)] content of a location never written in this function"""
        return [(st, self.default(base, path, typ))]

    def default(self, base, path, typ):
        if base[0] == 'new':
            a = ('undef', base, path)
        else:
            a = ('fld', base, path, strip(typ))
        return self.wrap(a, typ)

    def wrap(self, a, typ):
        t = strip(typ)
        if t == 'bool':
            return ('truth', a)
        if t in NUMTYPES or t in self.NUMCLS:
            return Num.atom(a)
        return a

    NUMCLS = ('Complex', 'Momentum')

    def expand(self, I, st, a):
        """partition on an opaque boolean; None: free"""
        return None


def is_local(a):
    return a[0] == 'ptr' and a[1][0] in ('L', 'T')


NUMTYPES = ('int', 'double', 'float', 'real', 'unsigned int', 'uint', 'long', 'unsigned long', 'long long', 'spin', 'char',
            'unsigned long long', 'size_t', 'short', 'unsigned char', 'signed char', 'name')


def strip(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('enum '):
            t = t[5:]
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.endswith('&'):
            t = t[:-1].strip()
        else:
            return t


def joined(o, s):
    """truth values both partitions agree on: recorded in one, recorded in or implied by the other"""
    r = {}
    for a, b in ((o, s), (s, o)):
        for k, x in a.bools.items():
            if k not in r and (b.bools[k] if k in b.bools else implied(b, k)) == x:
                r[k] = x
    return r


def implied(st, k):
    if k[0] == 'lt0':
        return st.decide_lt0(k[1])
    if k[0] == 'eq0':
        return st.decide_eq0(k[1])
    v = st.n(k)
    return v if isinstance(v, bool) else None


class Interp(object):
    MAXDEPTH = 25
    UNROLL = 64
    CATCH = False      # follow the handlers of exceptions of the statements of try blocks
    RESTART = False      # summarise a loop that is too long from its first round
    PARTITION = 0      # when set: undecided loop conditions are partitioned for this many rounds, longer paths are dropped
    cut = 0
    MERGE = True

    def __init__(self, prog, dom, prims=None, on_call=None):
        self.p = prog
        self.dom = dom
        self.prims = prims or {}
        self.on_call = on_call
        self.opaque = {}
        self.called = set()
        self.steps = 0
        self.maxstates = 20000
        self.stuck = []         # (where, function, state): a test that always leads to the error exit here
        self.enums = set(prog.enums)

    def new_state(self):
        st = State()
        st.dom = self.dom
        return st

    def split(self, st):
        s = st.copy()
        s.dom = self.dom
        return s

    # ------------------------------------------------------------ partitioning
    def branch(self, st, c):
        """[(state,bool)]"""
        c = st.n(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return [(st, c)]
        if isinstance(c, Num):
            return [(s, not b) for s, b in self.branch(st, ('eq0', c))]
        h = c[0]
        if h == 'not':
            return [(s, not b) for s, b in self.branch(st, c[1])]
        if h in ('lt0', 'eq0'):
            out = []
            for s, p in self.concretise(st, c[1]):
                if isinstance(p, int):
                    p = Num.c(p)
                if h == 'eq0':
                    pr = self.dom.as_eq(s, p)
                    if pr is not None:
                        out += self.branch(s, ('eq',) + pr)
                        continue
                r = s.decide_lt0(p) if h == 'lt0' else s.decide_eq0(p)
                if r is not None:
                    out.append((s, r))
                    if h == 'lt0':
                        self.dom.on_test(s, p, r)
                    continue
                for v in (True, False):
                    s2 = self.split(s)
                    try:
                        if h == 'lt0':
                            self.dom.on_test(s2, p, v)
                            s2.add_bounds(p, None if v else Fraction(0), False, Fraction(0) if v else None, v, frozenset())
                            s2.bools[('lt0', p)] = v
                        elif v:
                            s2.add_bounds(p, Fraction(0), False, Fraction(0), False, frozenset())
                            s2.set_sub(p, N0)
                        else:
                            s2.add_bounds(p, None, False, None, False, frozenset([Fraction(0)]))
                        s2.reset()
                        out.append((s2, v))
                    except Infeasible:
                        pass
            return out
        if h == 'eq':
            a, b = c[1], c[2]
            if isinstance(a, Num) and isinstance(b, Num):
                return self.branch(st, ('eq0', a - b))
            if isinstance(a, tuple) and a[0] == 'S' and isinstance(b, tuple) and b[0] == 'S':
                if a == b:
                    return [(st, True)]
            r = st.decide_eq(a, b)
            if isinstance(r, bool):
                return [(st, r)]
            if r[0] == 'need':
                out = []
                for s, v in self.concretise(st, Num.atom(r[1])):
                    out += self.branch(s, ('eq', s.n(a), s.n(b)))
                return out
            out = []
            for v in (True, False):
                s2 = self.split(st)
                try:
                    if v:
                        s2.set_sub(r[1], r[2])
                    else:
                        s2.neq.add(frozenset((r[1], r[2])))
                        s2.close()
                    s2.reset()
                    out.append((s2, v))
                except Infeasible:
                    pass
            return out
        if h == 'truth':
            r = self.dom.expand(self, st, c[1])
            if r is not None:
                out = []
                for s, b in r:
                    k = s.n(c)
                    if isinstance(k, bool):
                        if k == b:
                            s.bools.setdefault(('truth', s.n(c[1])), b)
                            s.reset()
                            out.append((s, b))
                        continue
                    s.bools[k] = b
                    s.reset()
                    out.append((s, b))
                return out
            out = []
            for v in (True, False):
                s2 = self.split(st)
                s2.bools[c] = v
                s2.reset()
                try:
                    s2._recheck()
                    out.append((s2, v))
                except Infeasible:
                    pass
            return out
        # any other opaque condition
        out = []
        known = st.bools.get(c)
        if known is not None:
            return [(st, known)]
        for v in (True, False):
            s2 = self.split(st)
            s2.bools[c] = v
            s2.reset()
            out.append((s2, v))
        return out

    def concretise(self, st, num):
        """partition on the finite atoms of num; [(state, int or Num)]"""
        if isinstance(num, bool):
            return [(st, 1 if num else 0)]
        if not isinstance(num, Num):
            if isinstance(num, tuple) and num and num[0] in ('truth', 'eq', 'lt0', 'eq0', 'not'):
                return [(s, 1 if b else 0) for s, b in self.branch(st, num)]
            return [(st, num)]
        num = st.n(num)
        c = num.const()
        if c is not None:
            return [(st, int(c) if c.denominator == 1 else num)]
        for a in sorted(num.atoms(), key=tkey):
            fin = self.dom.finite(st, a)
            if fin is None:
                continue
            out = []
            for v in fin:
                s2 = self.split(st)
                try:
                    s2.set_sub(a, Num.c(v))
                except Infeasible:
                    continue
                s2.reset()
                out += self.concretise(s2, num)
            return out
        return [(st, num)]

    # ------------------------------------------------------------ memory
    def is_local(self, base):
        return base[0] in ('L', 'T')

    def write(self, st, loc, val, where):
        base, path = loc
        if self.is_local(base):
            path = self.npath(st, path)
            if base in st.sym or any(isinstance(x, Num) for x in path):
                st.sym.setdefault(base, []).append((path, val))
                return
            d = st.loc.setdefault(base, {})
            for k in [k for k in d if len(k) > len(path) and k[:len(path)] == path]:
                del d[k]
            d[path] = val
        else:
            st.log.append((st.n(base), path, val, where))
            if st.hints is not None and path[:1] == st.hints.get('halt'):
                st.halt = True

    def same_path(self, st, p, q):
        """True/False/Num (undecided index difference) for equal-length comparison of path prefixes"""
        und = None
        for x, y in zip(p, q):
            if x == y:
                continue
            if isinstance(x, str) or isinstance(y, str):
                return False
            dx = (x if isinstance(x, Num) else Num.c(x)) - (y if isinstance(y, Num) else Num.c(y))
            dx = st.n(dx)
            r = st.decide_eq0(dx)
            if r is True:
                continue
            if r is False:
                return False
            und = dx
        return True if und is None else und

    def npath(self, st, path):
        out = []
        for x in path:
            if isinstance(x, Num):
                x = st.n(x)
                c = x.const()
                if c is not None and c.denominator == 1:
                    x = int(c)
            out.append(x)
        return tuple(out)

    def read(self, st, loc, typ):
        """[(state,value)]"""
        base, path = loc
        if self.is_local(base):
            d = st.loc.get(base, {})
            path = self.npath(st, path)
            for p2, v2 in reversed(st.sym.get(base, ())):
                m = min(len(path), len(p2))
                sp = self.same_path(st, path[:m], p2[:m])
                if sp is False:
                    continue
                if sp is not True:
                    out = []
                    for s, _ in self.branch(st, ('eq0', sp)):
                        out += self.read(s, loc, typ)
                    return out
                if len(p2) > len(path):
                    return [(st, self.dom.wrap(('elem', base, path), typ))]
                return [(st, st.n(v2 if len(p2) == len(path) else self.project(v2, path[len(p2):], typ)))]
            if path in d:
                v = d[path]
                subs = [(k[len(path):], d[k]) for k in d if len(k) > len(path) and k[:len(path)] == path]
                if subs:
                    v = ('S', strip(typ), (('', v),) + tuple(sorted(subs, key=repr)))
            else:
                subs = [(k[len(path):], d[k]) for k in d if len(k) > len(path) and k[:len(path)] == path]
                pre = None
                for i in range(len(path) - 1, -1, -1):
                    if path[:i] in d:
                        pre = (path[:i], d[path[:i]])
                        break
                if pre is not None and len(pre[0]) < len(path) and isinstance(path[len(pre[0])], Num):
                    v0 = pre[1]
                    if isinstance(v0, tuple) and v0 and v0[0] == 'ilist' and all(x == v0[2] for x in v0[1]):
                        path = path[:len(pre[0])] + (0,) + path[len(pre[0]) + 1:]
                if pre is None and any(isinstance(x, Num) for x in path):
                    return [(st, self.dom.wrap(('elem', base, path), typ))]
                if pre is not None:
                    v = self.project(pre[1], path[len(pre[0]):], typ)
                    if subs:
                        v = ('S', strip(typ), (('', v),) + tuple(sorted(subs, key=repr)))
                elif subs:
                    v = ('S', strip(typ), tuple(sorted(subs, key=repr)))
                else:
                    v = self.dom.wrap(('undef', base, path), typ)
            return [(st, st.n(v))]
        base = st.n(base)
        path = self.npath(st, path)
        subs = []
        for i in range(len(st.log) - 1, -1, -1):
            b2, p2, v2, w2 = st.log[i]
            b2 = st.n(b2)
            m = min(len(path), len(p2))
            sp = self.same_path(st, path[:m], p2[:m])
            if sp is False:
                continue
            k1, k2 = self.dom.kind(base), self.dom.kind(b2)
            if k1 != k2 and (k1 or k2):
                continue
            if b2 != base:
                r = st.decide_eq(base, b2)
                if r is False:
                    continue
                if r is not True:
                    out = []
                    for s, _ in self.branch(st, ('eq', base, b2)):
                        out += self.read(s, loc, typ)
                    return out
            if sp is not True:
                out = []
                for s, _ in self.branch(st, ('eq0', sp)):
                    out += self.read(s, loc, typ)
                return out
            if len(p2) <= len(path):
                v = v2 if len(p2) == len(path) else self.project(v2, path[len(p2):], typ)
                if subs:
                    v = ('S', strip(typ), (('', v),) + tuple(subs))
                return [(st, st.n(v))]
            key = p2[len(path):]
            if not any(k == key for k, _ in subs):
                subs.append((key, v2))
        if subs:
            iv = self.dom.default(base, path, typ)
            return [(st, ('S', strip(typ), (('', st.n(iv)),) + tuple((k, st.n(v)) for k, v in subs)))]
        if base[0] == 'glob' and not path and not subs:
            g = self.p.globals.get(base[1])
            if g is not None and g['dt'].startswith('const ') and (g.get('init') or {}).get('k') in ('int', 'flt'):
                return [(s, v) for s, v in self.ev(g['init'], st, None)]
            if g is not None and g['dt'].startswith('const ') and 'string' in g['v'].get('t', ''):
                texts = [x['v'] for x in walk(g.get('init')) if x.get('k') == 'str']
                if len(texts) == 1:
                    return [(st, ('str', texts[0]))]
        if base[0] == 'glob' and path and isinstance(path[0], int):
            g = self.p.globals.get(base[1])
            ini = (g.get('init') or {}) if g is not None and g['dt'].startswith('const ') else {}
            if ini.get('k') == 'ilist' and path[0] < len(ini['a']) and len(path) == 1:
                return [(s, v) for s, v in self.ev(ini['a'][path[0]], st, None)]
        return [(s, s.n(v)) for s, v in self.dom.init(self, st, base, path, typ)]

    def project(self, v, path, typ):
        if isinstance(v, tuple) and v and v[0] == 'S':
            items = dict(v[2])
            if path in items:
                return items[path]
            for i in range(len(path) - 1, 0, -1):
                if path[:i] in items:
                    return self.project(items[path[:i]], path[i:], typ)
            sub = [(k[len(path):], x) for k, x in v[2] if k != '' and len(k) > len(path) and k[:len(path)] == path]
            if sub:
                return ('S', strip(typ), tuple(sub))
            if '' in items:
                return self.project(items[''], path, typ)
            return self.dom.wrap(('undef', v, path), typ)
        if isinstance(v, tuple) and v and v[0] == 'ilist':
            if len(path) >= 1 and isinstance(path[0], int):
                if path[0] < len(v[1]):
                    x = v[1][path[0]]
                else:
                    x = v[2]
                if len(path) == 1:
                    return x
                return self.project(x, path[1:], typ)
        if isinstance(v, tuple) and v and v[0] == 'zero':
            return self.dom.wrap(('undef', 0, 0), typ) if strip(typ) not in NUMTYPES + ('bool',) else \
                (False if strip(typ) == 'bool' else N0)
        if isinstance(v, Num) and path in (('K',),):
            return v
        if isinstance(v, Num) and path == ('Re',):
            return Num.atom(('re', v))
        if isinstance(v, Num) and path == ('Im',):
            return Num.atom(('im', v))
        return self.dom.wrap(('fld', v, path, strip(typ)), typ)

    # ------------------------------------------------------------ expressions
    def deref(self, v):
        if isinstance(v, tuple) and v and v[0] == 'ptr':
            return (v[1], v[2])
        return (v, ())

    def where(self, fr, e):
        return (fr.fn['fn'] if fr.fn else '?', fr.fn['file'] if fr.fn else '?', e.get('l', 0))

    def temp_loc(self, st, v):
        b = ('T', st.fresh())
        st.loc[b] = {(): v}
        return (b, ())

    LV = ('var', 'mem', 'idx', 'fref')

    def is_lv(self, e):
        k = e['k']
        if k in self.LV:
            return True
        if k == 'un':
            return e['op'] == '*' or (e['op'] in ('++', '--') and not e.get('post'))
        if k == 'call':
            return bool(e.get('lv'))
        if k == 'bin':
            return e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>=')
        if k == 'cond':
            return self.is_lv(e['a']) and self.is_lv(e['b'])
        if k == 'cast':
            return e['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast') and self.is_lv(e['e'])
        return False

    def lval(self, e, st, fr):
        """[(state, location)]"""
        k = e['k']
        if k == 'fref':
            return [(st, (('fn', e['f']['fn']), ()))]
        if k == 'var':
            v = e['v']
            if v['sc'] in ('local', 'param'):
                key = (fr.id, v['id'])
                if key in st.ref:
                    return [(st, st.ref[key])]
                return [(st, (('L', fr.id, v['id']), ()))]
            if v['sc'] == 'static' and 'qn' not in v:
                return [(st, (('glob', v['name'], v['id']), ()))]
            return [(st, (('glob', v.get('qn', v['name'])), ()))]
        if k == 'mem':
            if e['arrow']:
                return [(s, self.ext(self.deref(s.n(b)), e['f'])) for s, b in self.ev(e['b'], st, fr)]
            return [(s, self.ext(b, e['f'])) for s, b in self.lval(e['b'], st, fr)]
        if k == 'idx':
            out = []
            b = e['b']
            if b['k'] == 'cast' and b['ck'] == 'ArrayToPointerDecay' and self.is_lv(b['e']):
                bases = self.lval(b['e'], st, fr)
                arr = True
            else:
                bases = self.ev(b, st, fr)
                arr = False
            for s, base in bases:
                for s2, i in self.ev(e['i'], s, fr):
                    for s3, iv in self.concretise(s2, i):
                        if arr:
                            out.append((s3, (base[0], base[1] + (iv,))))
                        else:
                            out.append((s3, self.deref(self.ptr_add(s3.n(base), iv))))
            return out
        if k == 'un' and e['op'] == '*':
            return [(s, self.deref(s.n(v))) for s, v in self.ev(e['e'], st, fr)]
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            out = []
            for s, l in self.lval(e['e'], st, fr):
                for s2, v in self.read(s, l, e.get('t', 'int')):
                    self.write(s2, l, self.incr(v, 1 if e['op'] == '++' else -1), self.where(fr, e))
                    out.append((s2, l))
            return out
        if k == 'bin' and self.is_lv(e):
            return self.assign(e, st, fr)
        if k == 'call' and e.get('lv'):
            return self.call(e, st, fr, True)
        if k == 'cond' and self.is_lv(e):
            out = []
            for s, b in self.cond(e['c'], st, fr):
                out += self.lval(e['a'] if b else e['b'], s, fr)
            return out
        if k == 'cast' and self.is_lv(e):
            return self.lval(e['e'], st, fr)
        if k == 'temp':
            return self.lval(e['e'], st, fr) if self.is_lv(e['e']) else self.mat(e['e'], st, fr)
        return self.mat(e, st, fr)

    def mat(self, e, st, fr):
        return [(s, self.temp_loc(s, v)) for s, v in self.ev(e, st, fr)]

    def ext(self, loc, f):
        return (loc[0], loc[1] + (f,))

    def incr(self, v, d):
        if isinstance(v, Num):
            return v + Num.c(d)
        if isinstance(v, tuple) and v and v[0] == 'ptr':
            return self.ptr_add(v, d)
        return ('call', 'incr', v, d)

    def ptr_add(self, p, i):
        if isinstance(p, tuple) and p and p[0] == 'ptr' and p[2] and not isinstance(p[2][-1], str):
            x = p[2][-1]
            xn = x if isinstance(x, Num) else Num.c(x)
            iN = i if isinstance(i, Num) else Num.c(i)
            r = xn + iN
            c = r.const()
            return ('ptr', p[1], p[2][:-1] + ((int(c) if c is not None and c.denominator == 1 else r),))
        if i == 0:
            return p
        return ('ptr', p, (i,))

    def assign(self, e, st, fr):
        op = e['op']
        out = []
        if op == '=':
            for s, v in self.ev(e['b'], st, fr):
                for s2, l in self.lval(e['a'], s, fr):
                    self.write(s2, l, v, self.where(fr, e))
                    out.append((s2, l))
            return out
        for s, v in self.ev(e['b'], st, fr):
            for s2, l in self.lval(e['a'], s, fr):
                for s3, old in self.read(s2, l, e.get('t', 'int')):
                    for s4, r in self.arith(op[:-1], old, s3.n(v), e, s3):
                        self.write(s4, l, r, self.where(fr, e))
                        out.append((s4, l))
        return out

    def cond(self, e, st, fr):
        out = []
        for s, v in self.ev(e, st, fr):
            out += self.branch(s, v)
        return out

    def typ(self, e):
        if 't' in e:
            return e['t']
        if e['k'] == 'var':
            return e['v']['t']
        return 'int'

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > 4000000:
            raise AnalysisBroken('analysis budget exhausted in ' + (fr.fn['fn'] if fr.fn else '?'))
        k = e['k']
        if k == 'load':
            out = []
            for s, l in self.lval(e['e'], st, fr):
                out += self.read(s, l, e.get('t', 'int'))
            return out
        if k == 'int':
            if e.get('t') == 'bool':
                return [(st, bool(int(e['v'])))]
            return [(st, Num.c(int(e['v'])))]
        if k == 'flt':
            x = Fraction(float(e['v']))      # a short binary fraction is exact; otherwise the decimal of the source is meant
            return [(st, Num.c(x if x.denominator <= 1 << 40 else Fraction(str(e['v']))))]
        if k == 'str':
            return [(st, ('str', str(e.get('v'))))]
        if k == 'null':
            return [(st, NULL)]
        if k == 'this':
            return [(st, fr.this)]
        if k == 'temp':
            return self.ev(e['e'], st, fr)
        if k == 'zero':
            t = strip(e.get('t', ''))
            return [(st, N0 if t in NUMTYPES else False if t == 'bool' else NULL if t.endswith('*') else ('zero',))]
        if k == 'cast':
            return self.cast(e, st, fr)
        if k == 'un':
            return self.unary(e, st, fr)
        if k == 'bin':
            return self.binary(e, st, fr)
        if k == 'cond':
            out = []
            for s, b in self.cond(e['c'], st, fr):
                out += self.ev(e['a'] if b else e['b'], s, fr)
            return out
        if k == 'call':
            if e.get('lv'):
                out = []
                for s, l in self.call(e, st, fr, True):
                    out += self.read(s, l, e.get('t', 'int'))
                return out
            return self.call(e, st, fr, False)
        if k == 'ctor':
            return self.ctor(e, st, fr)
        if k in self.LV:
            if k == 'fref':
                return [(st, ('fn', e['f']['fn']))]
            out = []
            for s, l in self.lval(e, st, fr):
                out += self.read(s, l, self.typ(e))
            return out
        if k == 'ilist':
            out = [(st, [])]
            for a in e['a']:
                out = [(s2, xs + [v]) for s, xs in out for s2, v in self.ev(a, s, fr)]
            res = []
            t = strip(e.get('t') or '')
            rec = self.p.recs.get(t)
            if t.startswith('std::array<') and len(e['a']) == 1:
                return [(s, xs[0]) for s, xs in out]
            if rec is not None and not rec.get('bases') and len(rec['fields']) == len(e['a']) and t not in ('Complex', 'Momentum'):
                return [(s, ('S', t, tuple(((f['name'],), x) for f, x in zip(rec['fields'], xs)))) for s, xs in out]
            for s, xs in out:
                if e.get('fill'):
                    for s2, fv in self.ev(e['fill'], s, fr):
                        res.append((s2, ('ilist', tuple(xs), fv)))
                else:
                    res.append((s, ('ilist', tuple(xs), ('undef', 0, 0))))
            return res
        if k == 'lambda':
            return self.closure(e, st, fr)
        if k == 'new':
            b = ('new', strip(e.get('t', '?')), st.fresh())
            out = []
            for s, n in (self.ev(e['n'], st, fr) if e.get('n') else [(st, None)]):
                s.ev.append(('new', b, self.where(fr, e), n))
                ini = e.get('init')
                if ini and ini.get('k') == 'ctor' and not e.get('arr') and not ini.get('copy'):
                    h = self.prims['match'](ini['f'], ini)
                    if getattr(h, 'construct', None) is not None:
                        out += [(s2, b) for s2 in h.construct(self, ini, s, fr, b)]
                        continue
                fn = self.p.find(ini['f'], fr.unit, fr.file) if ini and ini.get('k') == 'ctor' and not e.get('arr') and not ini.get('copy') else None
                if fn is None or fn.get('body') is None or self.prims['match'](ini['f'], ini) is not None:
                    out.append((s, b))
                    continue
                for s2, av in self.args(ini, s, fr, fn['params']):
                    out += [(s3, b) for s3, _ in self.inline(fn, s2, b, av, fr, False)]
            return out
        if k == 'del':
            return [(s, NULL) for s, v in self.ev(e['e'], st, fr)]
        if k == 'throw':
            return []
        return [(st, self.dom.wrap(('opaque', k, st.fresh()), e.get('t', '')))]

    def cast(self, e, st, fr):
        ck = e['ck']
        if ck == 'ArrayToPointerDecay':
            if e['e']['k'] == 'str':
                return self.ev(e['e'], st, fr)
            return [(s, ('ptr', l[0], l[1] + (0,))) for s, l in self.lval(e['e'], st, fr)]
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck == 'FunctionToPointerDecay':
            return self.ev(e['e'], st, fr)
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                v = s.n(v)
                if isinstance(v, bool):
                    out.append((s, v))
                elif isinstance(v, Num):
                    c = v.const()
                    out.append((s, c != 0 if c is not None else ('not', ('eq0', v))))
                else:
                    out.append((s, v))
            elif ck == 'PointerToBoolean':
                v = s.n(v)
                r = s.decide_eq(v, NULL) if isinstance(v, tuple) else None
                out.append((s, (not r) if isinstance(r, bool) else ('not', ('eq', v, NULL))))
            elif ck in ('IntegralCast', 'IntegralToFloating') and not isinstance(v, Num):
                for s2, i in self.concretise(s, v):
                    out.append((s2, Num.c(i) if isinstance(i, int) else i))
            elif ck == 'FloatingToIntegral':
                c = v.const() if isinstance(v, Num) else None
                if c is not None:
                    out.append((s, Num.c(int(c))))
                elif isinstance(v, Num) and self.dom.whole(v):
                    out.append((s, v))
                else:
                    out.append((s, Num.atom(('trunc', v))))
            elif ck == 'IntegralCast' and isinstance(v, Num):
                out.append((s, self.dom.narrow(s, v, strip(self.typ(e)))))
            else:
                out.append((s, v))
        return out

    def unary(self, e, st, fr):
        op = e['op']
        if op == '&':
            return [(s, ('ptr', l[0], l[1]) if l[1] or self.is_local(l[0]) or l[0][0] == 'glob' else l[0]) for s, l in self.lval(e['e'], st, fr)]
        if op == '*' or (op in ('++', '--') and not e.get('post')):
            out = []
            for s, l in self.lval(e, st, fr):
                out += self.read(s, l, self.typ(e))
            return out
        if op in ('++', '--'):
            out = []
            for s, l in self.lval(e['e'], st, fr):
                for s2, v in self.read(s, l, e.get('t', 'int')):
                    self.write(s2, l, self.incr(v, 1 if op == '++' else -1), self.where(fr, e))
                    out.append((s2, v))
            return out
        out = []
        for s, v in self.ev(e['e'], st, fr):
            v = s.n(v)
            if op == '!':
                if isinstance(v, Num):
                    c = v.const()
                    v = (c == 0) if c is not None else ('eq0', v)
                else:
                    v = (not v) if isinstance(v, bool) else ('not', v)
            elif op == '-':
                v = -v if isinstance(v, Num) else ('call', 'neg', v)
            elif op == '~':
                v = Num.atom(('call', '~', v))
            out.append((s, v))
        return out

    def binary(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], st, fr):
                if b == (op == '||'):
                    out.append((s, b))
                else:
                    for s2, b2 in self.cond(e['b'], s, fr):
                        out.append((s2, b2))
            return out
        if op == ',':
            return [x for s, _ in self.ev(e['a'], st, fr) for x in self.ev(e['b'], s, fr)]
        if self.is_lv(e):
            out = []
            for s, l in self.assign(e, st, fr):
                out += self.read(s, l, self.typ(e))
            return out
        out = []
        for s, a in self.ev(e['a'], st, fr):
            for s2, b in self.ev(e['b'], s, fr):
                out += self.arith(op, s2.n(a), s2.n(b), e, s2)
        return out

    def arith(self, op, a, b, e, st):
        if self.ptr_arith and isinstance(a, tuple) and a and a[0] in ('ptr', 'new', 'fld'):
            if op in ('+', '-') and isinstance(b, Num) and strip(e.get('t') or '').endswith('*'):
                return [(st, self.ptr_add(a, b if op == '+' else -b))]
            if op in ('==', '!=', '<', '>', '<=', '>=', '-') and isinstance(b, tuple) and b and b[0] in ('ptr', 'new', 'fld'):
                x, y = element_of(a), element_of(b)
                if x[0] == y[0] and (a[0] == 'ptr' or b[0] == 'ptr'):
                    return self.arith(op, x[1], y[1], {'ct': 'long', 't': 'long'}, st)
        if op in ('==', '!='):
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(a, Num) and isinstance(b, Num):
                d = a - b
                c = d.const()
                r = (c == 0) if c is not None else ('eq0', d)
            elif isinstance(a, bool) or isinstance(b, bool) or self.isbool(a) or self.isbool(b):
                return [(s3, (x == y) == (op == '==')) for s, x in self.branch(st, a) for s3, y in self.branch(s, b)]
            else:
                r = True if a == b else ('eq', a, b)
            if op == '!=':
                r = (not r) if isinstance(r, bool) else ('not', r)
            return [(st, r)]
        if op in ('<', '>', '<=', '>='):
            if isinstance(a, bool) or self.isbool(a):
                return [x for s, i in self.concretise(st, a) for x in self.arith(op, Num.c(i), b, e, s)]
            if isinstance(b, bool) or self.isbool(b):
                return [x for s, i in self.concretise(st, b) for x in self.arith(op, a, Num.c(i), e, s)]
            if isinstance(a, Num) and isinstance(b, Num):
                if op in ('>', '<='):
                    d = b - a
                else:
                    d = a - b
                c = d.const()
                r = (c < 0) if c is not None else ('lt0', d)
                if op in ('<=', '>='):
                    r = (not r) if isinstance(r, bool) else ('not', r)
                return [(st, r)]
            return [(st, ('call', 'cmp' + op, a, b))]
        if op in ('&', '|', '^') and (isinstance(a, bool) or self.isbool(a)) and (isinstance(b, bool) or self.isbool(b)):
            f = {'&': lambda x, y: x and y, '|': lambda x, y: x or y, '^': lambda x, y: x != y}[op]
            return [(s3, f(x, y)) for s, x in self.branch(st, a) for s3, y in self.branch(s, b)]
        if isinstance(a, bool) or self.isbool(a):
            return [x for s, i in self.concretise(st, a) for x in self.arith(op, Num.c(i), b, e, s)]
        if isinstance(b, bool) or self.isbool(b):
            return [x for s, i in self.concretise(st, b) for x in self.arith(op, a, Num.c(i), e, s)]
        if isinstance(a, tuple) and a and a[0] == 'ptr' and isinstance(b, Num) and op in ('+', '-'):
            return [(s, self.ptr_add(a, i if op == '+' else (-i))) for s, i in self.concretise(st, b)]
        if isinstance(a, Num) and isinstance(b, Num):
            t = strip(e.get('ct') or e.get('t') or 'int')
            isint = t in ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long')
            if op == '+':
                return [(st, a + b)]
            if op == '-':
                return [(st, a - b)]
            if op == '*':
                return [(st, a * b)]
            if op == '/':
                if isint:
                    return [(st, self.intdiv(st, a, b))]
                return [(st, a / b)]
            if op == '%':
                return [(st, self.intmod(st, a, b))]
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and ca.denominator == 1 and cb.denominator == 1:
                x, y = int(ca), int(cb)
                f = {'&': x & y, '|': x | y, '^': x ^ y}
                if op in f:
                    return [(st, Num.c(f[op]))]
                if op == '<<':
                    return [(st, Num.c(x << y))]
                if op == '>>':
                    return [(st, Num.c(x >> y))]
            return [(st, Num.atom(('call', op, a, b)))]
        return [(st, self.dom.wrap(('call', op, a, b), e.get('t', '')))]

    def intdiv(self, st, a, b):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None and cb != 0:
            q = abs(int(ca)) // abs(int(cb))
            return Num.c(q if (ca >= 0) == (cb > 0) else -q)
        return Num.atom(('idiv', a, b))

    def intmod(self, st, a, b):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None and cb != 0:
            q = abs(int(ca)) % abs(int(cb))
            return Num.c(q if ca >= 0 else -q)
        return Num.atom(('mod', a, b))

    def isbool(self, v):
        return isinstance(v, tuple) and bool(v) and v[0] in ('truth', 'eq', 'lt0', 'eq0', 'not')

    # ------------------------------------------------------------ calls
    def args(self, e, st, fr, params=None, first=0):
        """evaluate actuals: by reference -> ('ref', loc), by value -> value"""
        out = [(st, [])]
        for i, a in enumerate(e.get('a', [])[first:]):
            ref = params[i]['ref'] if params is not None and i < len(params) else (params is None and self.is_lv(a))
            nxt = []
            for s, xs in out:
                if ref:
                    for s2, l in self.lval(a, s, fr):
                        nxt.append((s2, xs + [('ref', l)]))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nxt.append((s2, xs + [v]))
            out = nxt
        return out

    def vals(self, e, st, fr, first=0):
        """evaluate all actuals to values"""
        out = [(st, [])]
        for a in e.get('a', [])[first:]:
            out = [(s2, xs + [v]) for s, xs in out for s2, v in self.ev(a, s, fr)]
        return out

    def call(self, e, st, fr, lv):
        f = e.get('f')
        if f is None:
            return self.indirect(e, st, fr, lv)
        if f.get('name') == 'operator()' and e.get('obj') is not None and (f.get('lam') or (f.get('cls') or '').startswith('std::function<')):
            return self.call_closure(e, st, fr, lv)
        h = self.prims.get(f['qn']) or (self.prims.get('class:' + f['cls']) if f.get('cls') else None)
        if h is None and 'match' in self.prims:
            h = self.prims['match'](f, e)
        if h is None and (f.get('qn') or '').startswith(('std::', 'swap', '__gnu_cxx::')):
            import stdlib
            h = stdlib.std_match(f, e)
        if h is not None:
            r = h(self, e, st, fr, lv)
            if r is not NotImplemented:
                return r
        fn = self.p.find(f, fr.unit, fr.file)
        if fn is None or fn.get('body') is None or fr.depth >= self.MAXDEPTH:
            return self.opaque_call(f['qn'], e, st, fr, lv)
        if fn.get('implicit') and fn['name'] == 'operator=' and e.get('obj') is not None and e.get('a'):
            return self.assign_whole(fn, e, st, fr, lv)
        # object
        out = []
        first = 0
        if e.get('obj') is not None:
            if e.get('arrow'):
                objs = [(s, self.deref(s.n(v))) for s, v in self.ev(e['obj'], st, fr)]
            else:
                objs = self.lval(e['obj'], st, fr)
        else:
            objs = [(st, None)]
        for s, ob in objs:
            this = None
            if ob is not None:
                this = ('ptr', ob[0], ob[1]) if ob[1] or self.is_local(ob[0]) or ob[0][0] == 'glob' else ob[0]
            for s2, av in self.args(e, s, fr, fn['params'], first):
                if len(av) < len(fn['params']):
                    return self.opaque_call(f['qn'], e, st, fr, lv)
                out += self.inline(fn, s2, this, av, fr, lv)
        return out

    def indirect(self, e, st, fr, lv):
        """call through a pointer to a function or member function"""
        p = e.get('fp')
        while isinstance(p, dict) and (p['k'] == 'un' and p['op'] == '*' or p['k'] == 'cast' and p['ck'] in ('FunctionToPointerDecay', 'NoOp')):
            p = p['e']
        if p is None:
            return self.opaque_call('indirect', e, st, fr, lv)
        out = []
        for s, v in self.ev(p, st, fr):
            v = s.n(v)
            fn = self.p.find(v[1], fr.unit, fr.file) if isinstance(v, tuple) and v and v[0] == 'fn' else None
            if fn is not None:
                out += self.call(dict(e, f=callee_of(fn)), s, fr, lv)
            elif isinstance(v, tuple) and v and v[0] == 'clo':
                out += self.run_closure(v, e, s, fr, lv)
            else:
                out += self.opaque_call('indirect', e, s, fr, lv)
        return out

    def closure(self, e, st, fr):
        """a lambda expression: references to the variables it captures, copies where it captures by value"""
        sts = [(st, [], None)]
        cid = st.fresh()
        for c in e.get('caps', []):
            nxt = []
            for s, caps, th in sts:
                if c.get('this'):
                    nxt.append((s, caps, fr.this))
                    continue
                if c.get('init') is not None:
                    for s2, v in self.ev(c['init'], s, fr):
                        s2.loc[('L', cid, c['id'])] = {(): v}
                        nxt.append((s2, caps + [(c['id'], (('L', cid, c['id']), ()))], th))
                    continue
                for s2, l in self.lval({'k': 'var', 'v': c['v'], 'l': e.get('l')}, s, fr):
                    if c.get('ref'):
                        nxt.append((s2, caps + [(c['id'], l)], th))
                    else:
                        for s3, v in self.read(s2, l, c['v'].get('t', '')):
                            s3.loc[('L', cid, c['id'])] = {(): v}
                            nxt.append((s3, caps + [(c['id'], (('L', cid, c['id']), ()))], th))
            sts = nxt
        return [(s, ('clo', e['f'], th, tuple(caps))) for s, caps, th in sts]

    def call_closure(self, e, st, fr, lv):
        o = e['obj']
        out = []
        for s, v in (self.ev(o, st, fr) if not e.get('arrow') else [(s, x) for s0, p in self.ev(o, st, fr) for s, x in self.read(s0, self.deref(s0.n(p)), '')]):
            v = s.n(v)
            if isinstance(v, tuple) and v and v[0] == 'fn':
                fn = self.p.find(v[1], fr.unit, fr.file)
                out += self.call({k: x for k, x in dict(e, f=callee_of(fn)).items() if k != 'obj'}, s, fr, lv) if fn is not None else self.opaque_call('indirect', e, s, fr, lv)
            else:
                out += self.run_closure(v, e, s, fr, lv)
        return out

    def run_closure(self, v, e, st, fr, lv):
        f = e.get('f') or {}
        clo = isinstance(v, tuple) and v and v[0] == 'clo'
        fn = self.p.find(f, fr.unit, fr.file) if f.get('lam') else None
        if fn is None and clo:
            fn = self.p.find(v[1], fr.unit, fr.file)
        if fn is None or fn.get('body') is None or fr.depth >= self.MAXDEPTH:
            return self.opaque_call(f.get('qn', 'indirect'), e, st, fr, lv)
        out = []
        for s, av in self.args(e, st, fr, fn['params'], 0):
            if len(av) < len(fn['params']):
                return self.opaque_call(f.get('qn', 'indirect'), e, st, fr, lv)
            out += self.inline(fn, s, v[2] if clo else None, av, fr, lv, v[3] if clo else ())
        return out

    def assign_whole(self, fn, e, st, fr, lv):
        """defaulted copy assignment: the whole value is copied"""
        out = []
        for s, v in self.ev(e['a'][0], st, fr):
            if e.get('arrow'):
                objs = [(s2, self.deref(s2.n(o))) for s2, o in self.ev(e['obj'], s, fr)]
            else:
                objs = self.lval(e['obj'], s, fr)
            for s2, l in objs:
                self.write(s2, l, s2.n(v), self.where(fr, e))
                s2.reset()
                out.append((s2, l if lv else v))
        return out

    def opaque_call(self, qn, e, st, fr, lv):
        self.opaque[qn] = self.opaque.get(qn, 0) + 1
        out = []
        for s, av in self.vals(e, st, fr):
            o = ()
            if e.get('obj') is not None:
                r = self.ev(e['obj'], s, fr)
                if len(r) == 1:
                    s, ov = r[0]
                    o = (ov,)
            a = ('call', qn) + o + tuple(av)
            try:
                hash(a)
            except TypeError:
                a = ('call', qn, s.fresh())
            s.ev.append(('opaque', qn, self.where(fr, e)))
            self.havoc(e, s, fr)
            if lv:
                out.append((s, self.temp_loc(s, self.dom.wrap(a, e.get('t', '')))))
            else:
                out.append((s, self.dom.wrap(a, e.get('t', ''))))
        return out

    def havoc(self, e, st, fr):
        """a function that is not followed may set the local scalars it is given by reference or address"""
        pts = (e.get('f') or {}).get('pt') or []
        for i, a in enumerate(e.get('a', [])):
            x = a
            if i < len(pts) and pts[i].endswith('&') and not pts[i].startswith('const ') and not pts[i].endswith('&&'):
                while isinstance(x, dict) and x.get('k') == 'cast':
                    x = x['e']
            elif isinstance(x, dict) and x.get('k') == 'un' and x.get('op') == '&':
                x = x['e']
            else:
                continue
            if not isinstance(x, dict) or x.get('k') != 'var' or x['v'].get('sc') not in ('local', 'param'):
                continue
            t = (x['v'].get('t') or '').replace('const ', '').rstrip(' &')
            if t not in NUMTYPES and t != 'bool' and not t.endswith('*'):
                continue
            ls = self.lval(x, st, fr)
            if len(ls) == 1 and self.is_local(ls[0][1][0]):
                self.write(st, ls[0][1], self.dom.wrap(("set", st.fresh()), t), self.where(fr, e))

    def inline(self, fn, st, this, av, fr, lv, caps=()):
        self.called.add(fn['key'])
        fid = st.fresh()
        for i, l in caps:
            st.ref[(fid, i)] = l
        nf = Frame(fid, this, fn, (fr.depth if fr else 0) + 1)
        for p, a in zip(fn['params'], av):
            if p['ref']:
                if isinstance(a, tuple) and a and a[0] == 'ref':
                    st.ref[(fid, p['id'])] = a[1]
                else:
                    st.ref[(fid, p['id'])] = self.temp_loc(st, a)
            else:
                if isinstance(a, tuple) and a and a[0] == 'ref':
                    r = self.read(st, a[1], p['t'])
                    st, a = r[0]
                st.loc[('L', fid, p['id'])] = {(): a}
        states = [st]
        if fn.get('isctor'):
            for ini in fn.get('inits', []):
                nxt = []
                for s in states:
                    nxt += self.ctor_init(ini, s, nf)
                states = nxt
        out = []
        for s in states:
            for s2, c in self.block(fn['body'], s, nf):
                if c == 'throw':
                    continue
                if c is None:
                    rv = self.dom.wrap(('undef', 0, 'ret'), fn['ret']) if fn['ret'] != 'void' else NULL
                    if lv:
                        rv = self.temp_loc(s2, rv)
                elif isinstance(c, tuple) and c[0] == 'ret':
                    rv = c[1]
                else:
                    raise AnalysisBroken('stray %s in %s' % (c, fn['fn']))
                if not lv and isinstance(rv, tuple) and rv and rv[0] == 'LOC':
                    for s3, v in self.read(s2, rv[1], fn['ret']):
                        out.append((self.drop(s3, fid), v))
                elif lv:
                    if isinstance(rv, tuple) and rv and rv[0] == 'LOC':
                        rv = rv[1]
                    out.append((self.drop(s2, fid), rv))
                else:
                    out.append((self.drop(s2, fid), rv))
        return self.merge(out)

    def drop(self, st, fid):
        for k in [k for k in st.loc if k[0] == 'L' and k[1] == fid]:
            del st.loc[k]
        for k in [k for k in st.sym if k[0] == 'L' and k[1] == fid]:
            del st.sym[k]
        for k in [k for k in st.ref if k[0] == fid]:
            del st.ref[k]
        return st

    def merge(self, pairs):
        """join partitions that agree on everything but facts"""
        if len(pairs) < 2 or not self.MERGE:
            return pairs
        seen = {}
        out = []
        for s, v in pairs:
            try:
                key = (frozenset((k, frozenset(d.items())) for k, d in s.loc.items()), tuple((k, tuple(v2)) for k, v2 in sorted(s.sym.items())), frozenset(s.ref.items()), tuple(s.log),
                       frozenset(s.sub.items()), tuple(s.ev), v if not isinstance(v, bool) else ('B', v))
                hash(key)
            except TypeError:
                out.append((s, v))
                continue
            o = seen.get(key)
            if o is None:
                seen[key] = s
                out.append((s, v))
            else:
                o.neq &= s.neq
                o.bools = joined(o, s)
                nb = {}
                for f, b in o.bnd.items():
                    c = s.bnd.get(f)
                    if c == b:
                        nb[f] = b
                    elif c is not None:
                        nb[f] = hull(b, c)
                o.bnd = nb
                o.ctr = max(o.ctr, s.ctr)
                o.reset()
        return out

    def ctor_init(self, ini, st, fr):
        if 'f' in ini and ini.get('e') is not None:
            loc = self.deref(fr.this)
            loc = (loc[0], loc[1] + (ini['f'],))
            out = []
            for s, v in self.ev(ini['e'], st, fr):
                self.write(s, loc, v, (fr.fn['fn'], fr.fn['file'], ini.get('l', 0)))
                out.append(s)
            return out
        e = ini.get('e')
        if ('base' in ini or 'deleg' in ini) and e is not None and e.get('k') == 'ctor' and not e.get('copy'):
            # the constructor of a base class builds the same object
            fn = self.p.find(e['f'], fr.unit, fr.file)
            if fn is not None and fn.get('body') is not None:
                out = []
                for s, av in self.args(e, st, fr, fn['params']):
                    out += [s2 for s2, _ in self.inline(fn, s, fr.this, av, fr, False)]
                return out
        return [st]

    def ctor(self, e, st, fr):
        if e.get('copy'):
            a = e['a'][0]
            while a['k'] == 'temp':
                a = a['e']
            if self.is_lv(a):
                out = []
                for s, l in self.lval(a, st, fr):
                    out += self.read(s, l, e['t'])
                return out
            return self.ev(a, st, fr)
        f = e['f']
        h = self.prims.get('ctor:' + (f.get('cls') or '')) or (self.prims['match'](f, e) if 'match' in self.prims else None)
        if h is None and (f.get('cls') or '').startswith(('std::', '__gnu_cxx::')):
            import stdlib
            h = stdlib.std_match(f, e)
        if h is not None:
            r = h(self, e, st, fr, False)
            if r is not NotImplemented:
                return r
        if (f.get('cls') or '').startswith('std::function<') and len(e.get('a', [])) == 1:
            return self.ev(e['a'][0], st, fr)
        fn = self.p.find(f, fr.unit, fr.file)
        if fn is None or fn.get('body') is None:
            if not e.get('a'):
                return [(st, ('S', strip(e['t']), ()))]
            return self.opaque_call(f['qn'], e, st, fr, False)
        out = []
        for s, av in self.args(e, st, fr, fn['params']):
            b = ('T', s.fresh())
            s.loc[b] = {}
            for s2, _ in self.inline(fn, s, ('ptr', b, ()), av, fr, False):
                for s3, v in self.read(s2, (b, ()), e['t']):
                    out.append((s3, v))
        return out

    # ------------------------------------------------------------ statements: [(state, ctl)]
    def aborts(self, s):
        """every way through the statement ends in a throw (error reporting: its effects are not part of any update)"""
        if '_ab' in s:
            return s['_ab']
        k = s['k']
        r = False
        if k == 'throw':
            r = True
        elif k == 'expr':
            e = s['e']
            r = e['k'] == 'throw' or (e['k'] == 'call' and bool((e.get('f') or {}).get('noret')))
        elif k == 'block':
            for x in s['a']:
                if self.aborts(x):
                    r = True
                    break
                if x['k'] not in ('expr', 'decls', 'null_stmt', 'block'):
                    if any(y['k'] in ('ret', 'break', 'continue', 'goto') for y in self._walk(x)):
                        break
        elif k == 'do':
            r = self.aborts(s['a']) and not any(y['k'] in ('ret', 'break', 'continue', 'goto') for y in self._walk(s['a']))
        elif k == 'if':
            r = bool(s.get('b')) and self.aborts(s['a']) and self.aborts(s['b'])
        s['_ab'] = r
        return r

    def _walk(self, x):
        from astutil import walk
        return walk([x])

    def block(self, b, st, fr):
        if b is None:
            return [(st, None)]
        if b['k'] != 'block':
            return self.stmt(b, st, fr)
        return self.seq(b['a'], st, fr)

    def seq(self, stmts, st, fr):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for y, c in self.stmt(s, x, fr):
                    if c is None:
                        nxt.append(y)
                    else:
                        done.append((y, c))
            if len(nxt) + len(done) > self.maxstates:
                raise AnalysisBroken('too many partitions in ' + fr.fn['fn'])
            cur = [a for a, _ in self.merge([(y, None) for y in nxt])]
            if not cur:
                break
        return [(x, None) for x in cur] + done

    def stmt(self, s, st, fr):
        k = s['k']
        if st.halt:
            return [(st, ('ret', self.dom.wrap(('undef', 0, 'ret'), fr.fn['ret']) if fr.fn['ret'] != 'void' else NULL))]
        if self.aborts(s):
            return [(st, 'throw')]
        if k == 'expr':
            e = s['e']
            if e['k'] == 'throw':
                return [(st, 'throw')]
            if self.is_lv(e):
                return [(x, None) for x, _ in self.lval(e, st, fr)]
            return [(x, None) for x, _ in self.ev(e, st, fr)]
        if k == 'throw':
            return [(st, 'throw')]
        if k == 'block':
            return self.seq(s['a'], st, fr)
        if k == 'null_stmt':
            return [(st, None)]
        if k == 'decls':
            cur = [st]
            for d in s['a']:
                if d['k'] != 'decl':
                    continue
                nxt = []
                for x in cur:
                    nxt += self.decl(d, x, fr)
                cur = nxt
            return [(x, None) for x in cur]
        if k == 'if':
            out = []
            cur = [st]
            if s.get('init'):
                cur = [y for x in cur for y, c in self.stmt(s['init'], x, fr)]
            if s.get('cv'):
                cur = [y for x in cur for y in self.decl(s['cv'], x, fr)]
            for x in cur:
                cs = self.cond(s['c'], x, fr)
                for y, b in cs:
                    br = s['a'] if b else s.get('b')
                    if len(cs) == 1 and br is not None and self.aborts(br):
                        self.stuck.append((self.where(fr, s), fr.fn['key'], y))
                    if br is None:
                        out.append((y, None))
                    else:
                        out += self.block(br, y, fr)
            return out
        if k == 'ret':
            e = s.get('e')
            if e is None:
                return [(st, ('ret', NULL))]
            if fr.fn.get('retref'):
                return [(x, ('ret', ('LOC', l))) for x, l in self.lval(e, st, fr)]
            return [(x, ('ret', v)) for x, v in self.ev(e, st, fr)]
        if k in ('while', 'for', 'do', 'rfor'):
            return self.loop(s, st, fr)
        if k == 'break':
            return [(st, 'break')]
        if k == 'continue':
            return [(st, 'continue')]
        if k == 'switch':
            return self.switch(s, st, fr)
        if k == 'try':
            if not self.CATCH:
                return self.block(s['a'], st, fr)
            # an exception of a statement of the block: the statements before it have happened
            out, cur, body = [], [st], s['a']['a'] if s['a']['k'] == 'block' else [s['a']]
            for x in body:
                if any(y.get('k') == 'call' for y in walk(x)):
                    for y in cur:
                        for h in s.get('h', []):
                            c = self.split(y)
                            c.ev.append(('caught', self.where(fr, x), x))
                            out += self.stmt(h['a'], c, fr)
                nxt = []
                for y in cur:
                    for y2, c in self.stmt(x, y, fr):
                        if c is None:
                            nxt.append(y2)
                        else:
                            out.append((y2, c))
                cur = nxt
            return out + [(y, None) for y in cur]
        if k in ('case', 'default', 'label'):
            return self.block(s['a'], st, fr) if s.get('a') else [(st, None)]
        raise AnalysisBroken('unsupported statement %s in %s:%s' % (k, fr.fn['fn'], s.get('l')))

    def decl(self, d, st, fr):
        v = d['v']
        base = ('L', fr.id, v['id'])
        if d.get('init') is None:
            st.loc[base] = {}
            return [st]
        if d.get('ref'):
            out = []
            for s, l in self.lval(d['init'], st, fr):
                s.ref[(fr.id, v['id'])] = l
                out.append(s)
            return out
        out = []
        for s, x in self.ev(d['init'], st, fr):
            s.loc[base] = {(): x}
            out.append(s)
        return out

    def switch(self, s, st, fr):
        body = s['a']['a'] if s['a']['k'] == 'block' else [s['a']]
        flat = []

        def flatten(x):
            if x['k'] in ('case', 'default'):
                flat.append((x['k'], x))
                if x.get('a'):
                    flatten(x['a'])
            else:
                flat.append(('s', x))
        for x in body:
            flatten(x)
        out = []
        for s1, v in self.ev(s['c'], st, fr):
            pend = [(s1, v)]
            starts = []
            default = None
            for i, (kk, x) in enumerate(flat):
                if kk == 'default':
                    default = i
                if kk != 'case':
                    continue
                nxt = []
                for s2, vv in pend:
                    for s3, c in self.ev(x['c'], s2, fr):
                        for s4, cond in self.arith('==', s3.n(vv), c, {}, s3):
                            for s5, b in self.branch(s4, cond):
                                (starts if b else nxt).append((s5, i) if b else (s5, vv))
                pend = nxt
            for s2, vv in pend:
                if default is not None:
                    starts.append((s2, default))
                else:
                    out.append((s2, None))
            for s2, i in starts:
                for s3, c in self.seq([x for kk, x in flat[i:] if kk == 's'], s2, fr):
                    out.append((s3, None if c == 'break' else c))
        return out

    def loop(self, s, st, fr):
        k = s['k']
        out = []
        cur = [st]
        if k == 'rfor':
            return self.range_loop(s, st, fr)
        if k == 'for' and s.get('init'):
            cur = [y for y, c in self.stmt(s['init'], st, fr)]
        first = (k == 'do')
        begin = [self.split(x) for x in cur] if self.RESTART and not first else None
        for it in range(self.UNROLL + 1):
            nxt = []
            for x in cur:
                if first:
                    tests = [(x, True)]
                elif s.get('c') is None:
                    tests = [(x, True)]
                else:
                    tests = []
                    x0 = self.split(x) if it else None
                    rs = self.ev(s['c'], x, fr)
                    counted = None
                    if len(rs) > 1 and it and not self.PARTITION:
                        counted = self.counted(s['c'], x0, fr)
                        if not counted:
                            out += self.generic_loop(s, x0, fr)
                            continue
                    for y, v in rs:
                        v = y.n(v)
                        if isinstance(v, Num):
                            c = v.const()
                            v = (c != 0) if c is not None else ('not', ('eq0', v))
                        if isinstance(v, bool):
                            tests.append((y, v))
                        else:
                            d = self.quick(y, v)
                            if d is None and (self.PARTITION or counted or counted is None and self.counted(s['c'], y, fr)):
                                tests += self.branch(y, v)
                            elif d is None:
                                out += self.generic_loop(s, y, fr)
                            else:
                                tests.append((y, d))
                if self.PARTITION and it >= self.PARTITION and len(tests) > 1:
                    self.cut += len([1 for y, b in tests if b])
                    tests = [(y, b) for y, b in tests if not b]
                for y, b in tests:
                    if not b:
                        out.append((y, None))
                        continue
                    for z, c in self.block(s['a'], y, fr):
                        if c in (None, 'continue'):
                            if s.get('inc') is not None:
                                for w, _ in (self.lval(s['inc'], z, fr) if self.is_lv(s['inc']) else self.ev(s['inc'], z, fr)):
                                    nxt.append(w)
                            else:
                                nxt.append(z)
                        elif c == 'break':
                            out.append((z, None))
                        else:
                            out.append((z, c))
            first = False
            cur = nxt
            if not cur:
                return out
        if begin is not None and not out:
            cur = begin
        for x in cur:
            out += self.generic_loop(s, x, fr)
        return out

    def counted(self, c, st, fr):
        """one of the conditions to go on compares a counter with a bound and both are known: the rounds can be followed one by one"""
        from astutil import walk
        work = [c]
        while work:
            e = work.pop()
            while e['k'] in ('temp', 'cast') and e.get('e') is not None:
                e = e['e']
            if e['k'] == 'bin' and e['op'] == '&&':
                work += [e['a'], e['b']]
                continue
            if e['k'] != 'bin' or e['op'] not in ('<', '<=', '>', '>=', '!='):
                continue
            if any(x['k'] in ('call', 'ctor', 'new') or x['k'] == 'un' and x['op'] in ('++', '--') or x['k'] == 'bin' and x['op'].endswith('=')
                   and x['op'] not in ('==', '!=', '<=', '>=') for x in walk([e])):
                continue
            sides = []
            for q in (e['a'], e['b']):
                r = self.ev(q, self.split(st), fr)
                v = r[0][0].n(r[0][1]) if len(r) == 1 else None
                sides.append(v.const() if isinstance(v, Num) else None)
            if None not in sides:
                return True
        return False

    def range_loop(self, s, st, fr):
        """a range-based for over a known number of elements runs element by element"""
        import stdlib
        v = s.get('v')
        rs = stdlib.range_elements(self, s['r'], self.split(st), fr) if v and s.get('r') is not None else None
        if rs is None or any(len(ls) > self.UNROLL for _, ls in rs):
            return self.generic_loop(s, st, fr)
        dv = v['v']
        out = []
        for s0, ls in rs:
            cur = [s0]
            for l in ls:
                nxt = []
                for x in cur:
                    if v.get('ref'):
                        x.ref[(fr.id, dv['id'])] = l
                        bs = [x]
                    else:
                        bs = []
                        for y, val in self.read(x, l, dv['t']):
                            y.ref.pop((fr.id, dv['id']), None)
                            y.loc[('L', fr.id, dv['id'])] = {(): val}
                            bs.append(y)
                    for y in bs:
                        for z, c in self.block(s['a'], y, fr):
                            if c in (None, 'continue'):
                                nxt.append(z)
                            else:
                                out.append((z, None if c == 'break' else c))
                cur = nxt
            out += [(x, None) for x in cur]
        return out

    def quick(self, st, v):
        """decide a loop condition without partitioning"""
        if isinstance(v, tuple) and v[0] == 'not':
            r = self.quick(st, v[1])
            return None if r is None else not r
        if isinstance(v, tuple) and v[0] == 'lt0':
            return st.decide_lt0(st.n(v[1]))
        if isinstance(v, tuple) and v[0] == 'eq0':
            return st.decide_eq0(st.n(v[1]))
        if isinstance(v, tuple) and v[0] == 'eq':
            r = st.decide_eq(v[1], v[2])
            return r if isinstance(r, bool) else None
        return None

    ptr_arith = False

    def loop_cond(self, s, st, fr):
        """condition to go on, as a term of the state at the head of the loop"""
        if s['k'] not in ('for', 'while') or s.get('c') is None:
            return None
        r = self.ev(s['c'], self.split(st), fr)
        return r[0][0].n(r[0][1]) if len(r) == 1 else None

    def loop_shape(self, s, st, fr, ind, cond, ends):
        """(induction variable, first value, condition to go on, step) of a counting loop; None: another kind of loop"""
        if cond is None or not ends:
            return None
        found = []
        for base, old, new, k in ind:
            step = set()
            for w in ends:
                d = w.loc.get(base, {}).get(())
                if k is not None:
                    step.add(ptr_diff(self.deref(d), self.deref(new)) if isinstance(d, tuple) else None)
                else:
                    step.add((d - new).const() if isinstance(d, Num) and isinstance(new, Num) else None)
            if len(step) == 1:
                d = step.pop()
                if d not in (None, 0):
                    if k is not None:
                        found.append((k, Num.c(0), cond, d))
                    elif isinstance(old, Num):
                        found.append((new, old, cond, d))
        used = [f for f in found if f[0].single() in atoms_in(cond)]
        if len(used) != 1:
            return None
        self.lockstep = {f[0].single(): f[1] + (used[0][0] - used[0][1]) * Num.c(Fraction(f[3]) / used[0][3]) for f in found if f is not used[0]}
        return used[0]

    def range_element(self, s, st, fr):
        """(shape of the loop, location of the generic element) of a loop over a container"""
        r = s.get('r')
        t = self.typ(r) if r is not None else ''
        if not (strip(t or '').startswith('std::vector<') and self.is_lv(r)):
            return None
        ls = self.lval(r, self.split(st), fr)
        if len(ls) != 1:
            return None
        loc = ls[0][1]
        i = Num.atom(('loop', 'element', st.fresh()))
        n = Num.atom(('fld', loc[0], loc[1] + ('size()',), 'unsigned long'))
        return (i, Num.c(0), ('lt0', i - n), 1), (loc[0], loc[1] + (i,))

    def generic_loop(self, s, st, fr):
        """summary: the locals the loop writes become unknown; one generic iteration shows the exits and the heap writes"""
        from astutil import walk
        assigned = set()
        for e in walk([s.get('a'), s.get('inc'), s.get('c')]):
            t = None
            if e['k'] == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                t = e['a']
            elif e['k'] == 'un' and e['op'] in ('++', '--'):
                t = e['e']
            elif e['k'] == 'un' and e['op'] == '&':
                t = e['e']
            elif e['k'] == 'call' and e.get('obj') is not None and not (e.get('f') or {}).get('const'):
                t = e['obj']
            if e['k'] == 'call':
                for a in e.get('a', []):
                    r = root_var(a)
                    if r is not None and self.is_lv(a):
                        assigned.add((r['id'], r['t']))
            r = root_var(t) if t is not None else None
            if r is not None:
                assigned.add((r['id'], r['t']))
        ind = []
        for i, t in sorted(assigned):
            base = ('L', fr.id, i)
            if (fr.id, i) in st.ref:
                continue
            if base in st.loc:
                old = st.loc[base].get(())
                if isinstance(old, tuple) and strip(t).endswith('*') and old[0] in ('ptr', 'new', 'fld') and self.ptr_arith:
                    # a pointer that walks over an array: the same pointer, advanced by an unknown number of elements
                    k = Num.atom(('loop', i, st.fresh()))
                    st.loc[base] = {(): self.ptr_add(old, k)}
                    ind.append((base, old, st.loc[base][()], k))
                    continue
                st.loc[base] = {(): self.dom.wrap(('loop', i, st.fresh()), t)}
                ind.append((base, old, st.loc[base][()], None))
        st.reset()
        cond0 = self.loop_cond(s, st, fr)
        shape = None
        out = []
        st.ev.append(('loop-begin', self.where(fr, s)))
        base_log = len(st.log)
        exit_state = self.split(st)
        if s['k'] == 'rfor':
            v = s.get('v')
            body_states = [st]
            el = self.range_element(s, st, fr) if v else None
            if el is not None:
                shape, loc = el
                dv = v['v'] if 'v' in v else v
                if v.get('ref'):
                    st.ref[(fr.id, dv['id'])] = loc
                else:
                    r = self.read(st, loc, dv['t'])
                    body_states = []
                    for y, val in r:
                        y.loc[('L', fr.id, dv['id'])] = {(): val}
                        body_states.append(y)
            elif v:
                dv = v['v'] if 'v' in v else v
                val = self.dom.wrap(('loop', dv['id'], st.fresh()), dv['t'])
                if v.get('ref'):
                    st.ref[(fr.id, dv['id'])] = self.temp_loc(st, val)
                else:
                    st.loc[('L', fr.id, dv['id'])] = {(): val}
            exits = [exit_state]
        else:
            exits, body_states = [], []
            if s.get('c') is None:
                body_states = [st]
            else:
                for y, b in self.cond(s['c'], st, fr):
                    (body_states if b else exits).append(y)
        wrote, ends = [], []
        for x in body_states:
            for z, c in self.block(s['a'], x, fr):
                w = z.log[base_log:]
                wrote += w
                if c in (None, 'continue'):
                    if cond0 is None:
                        continue
                    if s.get('inc') is not None:
                        q = self.split(z)
                        ends += [y for y, _ in (self.lval(s['inc'], q, fr) if self.is_lv(s['inc']) else self.ev(s['inc'], q, fr))]
                    else:
                        ends.append(z)
                    continue
                out.append((z, None if c == 'break' else c))
        if shape is None and not [1 for z, c in out]:
            self.lockstep = {}
            shape = self.loop_shape(s, st, fr, ind, cond0, ends)
            if shape is not None and self.lockstep:
                # what else advances by a fixed step every round is a function of the counter
                wrote = [substituted(w, self.lockstep) for w in wrote]
        res = []
        for x in exits:
            for w in wrote:
                x.ev.append(('loop-write', w, shape))
            x.ev.append(('loop-end', self.where(fr, s)))
            res.append((x, None))
        return res + out


def substituted(t, m):
    """the term with atoms replaced by numbers"""
    if isinstance(t, Num):
        r = N0
        for mono, c in t.d.items():
            x = Num.c(c)
            for a, e in mono:
                b = m.get(a)
                if b is None:
                    x = x * Num.atom(substituted(a, m), e)
                    continue
                for _ in range(abs(int(e))):
                    x = x * b if e > 0 else x / b
            r = r + x
        return r
    if isinstance(t, tuple):
        return tuple(substituted(x, m) if isinstance(x, (tuple, Num)) else x for x in t)
    return t


def hull(b, c):
    lo = None if b[0] is None or c[0] is None else min((b[0], not b[1]), (c[0], not c[1]))
    hi = None if b[2] is None or c[2] is None else max((b[2], not b[3]), (c[2], not c[3]))
    return (lo[0] if lo else None, (not lo[1]) if lo else False, hi[0] if hi else None, (not hi[1]) if hi else False, b[4] & c[4])


def element_of(x):
    """(array, element) of a pointer into an array"""
    b, p = (x[1], x[2]) if x[0] == 'ptr' else (x, ())
    last = p[-1] if p else None
    if isinstance(last, (Num, int)) and not isinstance(last, bool):
        rest, i = p[:-1], (last if isinstance(last, Num) else Num.c(last))
    else:
        rest, i = p, Num.c(0)
    while b[0] == 'ptr':
        rest = tuple(b[2]) + rest
        b = b[1]
    return (b, rest), i


def ptr_diff(a, b):
    """constant distance of two elements of the same array"""
    if a[0] != b[0] or not a[1] and not b[1]:
        return None
    pa, pb = a[1] or (0,), b[1] or (0,)
    if pa[:-1] != pb[:-1]:
        return None
    x, y = [v if isinstance(v, Num) else Num.c(v) if isinstance(v, int) else None for v in (pa[-1], pb[-1])]
    return (x - y).const() if x is not None and y is not None else None


def atoms_in(t):
    out = set()
    if isinstance(t, Num):
        for a in t.atoms():
            out.add(a)
            out |= atoms_in(a)
    elif isinstance(t, tuple):
        for x in t:
            if isinstance(x, (tuple, Num)):
                if isinstance(x, tuple):
                    out.add(x)
                out |= atoms_in(x)
    return out


def callee_of(fn):
    """the callee record of a function definition"""
    return {'fn': fn['fn'], 'name': fn['name'], 'qn': fn['qn'], 'cls': fn.get('cls'), 'sys': False, 'noret': fn.get('noret'), 'ret': fn.get('ret', ''),
            'const': fn.get('const'), 'static': fn.get('static'), 'pt': [p['t'] for p in fn['params']]}


def root_var(e):
    while e is not None:
        if e['k'] == 'var':
            return e['v'] if e['v']['sc'] in ('local', 'param') else None
        if e['k'] == 'mem':
            if e.get('arrow'):
                return None
            e = e['b']
        elif e['k'] == 'idx':
            e = e['b']
            x = e
            while x is not None and x['k'] in ('cast', 'temp', 'load'):
                x = x['e']
            if x is not None and x['k'] in ('var', 'mem') and strip((x['v'] if x['k'] == 'var' else x).get('t') or '').endswith('*'):
                return None                          # what the pointer points to: the pointer itself stays
        elif e['k'] in ('cast', 'temp', 'load'):
            e = e['e']
        else:
            return None
    return None
