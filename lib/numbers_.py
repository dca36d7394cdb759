"""Laws of the number types: complex numbers, momenta (a finite cyclic range of integers), random numbers."""
from fractions import Fraction
from terms import Num, N0, N1, show
from absint import NULL, strip, absnum
from frontend import AnalysisBroken
from plain import *
from plain import base_match, fun
from oblig import facts

C = Num.c


class RawDomain(SrcDomain):
    """the members of the number classes are seen"""
    NUMCLS = ()

    def rule(self, st, t):
        if t[0] == 'undef' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'fld' and t[2]:
            return self.rule(st, ('fld', t[1][1], t[1][2] + tuple(t[2]), 'int' if t[2] == ('K',) else 'double'))
        return SrcDomain.rule(self, st, t)


    def int_atom(self, a):
        return a[0] in ('word', 'word32') or SrcDomain.int_atom(self, a)

    def narrow(self, st, v, t):
        a = v.single()
        if a is not None and a[0] == 'word' and t == 'int':
            return Num.atom(('word32',) + a[1:])
        return v

    def base_bounds(self, st, f):
        a = f.single()
        if a is not None and a[0] == 'word':
            return (Fraction(0), False, Fraction(2 ** 32 - 1), False, frozenset())
        if a is not None and a[0] == 'word32':
            return (Fraction(-2 ** 31), False, Fraction(2 ** 31 - 1), False, frozenset())
        return SrcDomain.base_bounds(self, st, f)


NATIVE = ('sqrt', 'exp', 'log', 'cos', 'sin', 'atan2')


def p_engine(I, e, st, fr, lv):
    return [(st, Num.atom(('word', st.fresh())))]


def raw(prog):
    I = interp(prog, dom=RawDomain())
    I.MERGE = False

    def m(f, e):
        cls, nm = f.get('cls') or '', f['name']
        if cls.startswith('std::mersenne_twister_engine'):
            return p_engine if nm == 'operator()' else None
        if f['qn'] in NATIVE or f['qn'].replace('std::', '', 1) in NATIVE:
            pts = f.get('pt', [])
            if not any('Complex' in x for x in pts):
                return fun(nm)
        if cls in ('Complex', 'Momentum', 'RandomFactory'):
            return None
        if not cls and any('Complex' in x or 'Momentum' in x for x in f.get('pt', [])) and nm != 'operator<<':
            return None
        if cls.startswith('std::uniform_') or cls.startswith('std::random'):
            return None
        return base_match(f, e)
    I.prims['match'] = m
    return I


def part(I, s, v, names):
    """the members of a class value"""
    return tuple(s.n(as_member(I, s, v, n)) for n in names)


def as_member(I, s, v, n):
    if isinstance(v, tuple) and v and v[0] == 'S':
        x = I.project(v, (n,), 'double' if n != 'K' else 'int')
    elif isinstance(v, tuple) and v and v[0] == 'fld':
        x = ('fld', v[1], v[2] + (n,), 'double' if n != 'K' else 'int')
    else:
        raise AnalysisBroken('not a class value: %s' % (v,))
    x = s.n(x)
    return x if isinstance(x, Num) else Num.atom(x)


def re_im(p):
    return (Num.atom(('fld', p, ('Re',), 'double')), Num.atom(('fld', p, ('Im',), 'double')))


def inv(x):
    a = x.single()
    return Num.atom(a, -1) if a is not None else None


def same(a, b, m):
    """equality of fractions over the powers of one denominator m (an opaque reciprocal)"""
    return (a - b) == N0


def numparam(p):
    return strip(p['t']) in ('double', 'float', 'int', 'real', 'long', 'unsigned int')


def divide(s, x, m):
    """x / m as the interpreter writes it"""
    return s.n(x / m)


def operands(fn, I, alias=False):
    """symbolic arguments; with alias both objects are the same"""
    this = ('p', 'this')
    args, vals = [], []
    if fn.get('cls') and not fn.get('static'):
        vals.append(this)
    for i, p in enumerate(fn['params']):
        b = this if alias else ('p', 'x%d' % i)
        if p['ref']:
            args.append(('ref', (b, ())))
            vals.append(b if not numparam(p) else Num.atom(('fld', b, (), strip(p['t']))))
        else:
            v = I.dom.wrap(('fld', b, (), strip(p['t'])), p['t'])
            args.append(v)
            vals.append(v if isinstance(v, Num) else b)
    return this if fn.get('cls') else None, args, vals


def cval(v):
    """operand as a pair"""
    return (v, N0) if isinstance(v, Num) else re_im(v)


def complex_laws(P, res):
    todo = []
    for f in P.funcs.values():
        if f.get('body') is None or f.get('implicit'):
            continue
        mem = f.get('cls') == 'Complex' and not f.get('isctor')
        free = not f.get('cls') and any(strip(p['t']) == 'Complex' for p in f['params'])
        if (mem or free) and f['name'] not in ('operator<<', 'operator>>'):
            todo.append(f)
    seen = set()
    for f in sorted(todo, key=lambda f: f['fn']):
        if f['fn'] in seen:
            continue
        seen.add(f['fn'])
        spec = SPEC.get(f['name'])
        if spec is None:
            res.skipped.append('%s: no law is stated for it' % f['fn'])
            continue
        if f['name'] in RESERVED and f['ret'].strip() != 'Complex':
            continue
        aliases = [False, True] if f.get('cls') and len(f['params']) == 1 and not numparam(f['params'][0]) else [False]
        for al in aliases:
            one(P, res, f, spec, al)
    ctors(P, res)


def ctors(P, res):
    for f in sorted((f for f in P.funcs.values() if f.get('cls') == 'Complex' and f.get('isctor') and not f.get('implicit') and f.get('body') is not None), key=lambda f: f['fn']):
        I = raw(P)
        st = I.new_state()
        this, args, vals = operands(f, I)
        for s, _ in I.inline(f, st, ('p', 'this'), args, None, False):
            got = tuple(numof(read1(I, s, (('p', 'this'), (m,)))) for m in ('Re', 'Im'))
            a = vals[1:]
            if len(a) == 2:
                want = tuple(a)
            elif len(a) == 1:
                want = cval(a[0])
            else:
                want = (N0, N0)
            expect(res, s, f, got, want, 'construction')


def numof(x):
    return x if isinstance(x, Num) else Num.atom(x)


def expect(res, s, f, got, want, what):
    for g, w, nm in zip(got, want, ('real', 'imaginary')):
        if equal(s, g, w):
            res.ok('complex')
        else:
            res.fail('complex', where(f), '%s: the %s part is %s, expected %s' % (what, nm, show(g), show(w)), facts(s))


def straight(s, t):
    """atan2(0, a) with a >= 0 is 0, exp(0) = cos(0) = 1, sin(0) = 0"""
    for _ in range(4):
        r = N0
        for m, c in t.d.items():
            z = C(c)
            for at, e in m:
                if isinstance(at, tuple) and len(at) > 1 and isinstance(at[1], Num):
                    q = straight(s, s.n(at[1]))
                    if at[0] == 'atan2' and s.decide_eq0(q) is True and s.decide_lt0(s.n(at[2])) is False:
                        z = z * N0
                        continue
                    if at[0] in ('exp', 'cos') and q == N0:
                        continue
                    if at[0] == 'sin' and q == N0:
                        z = z * N0
                        continue
                    at = (at[0], q) + at[2:]
                z = z * Num.atom(at, e)
            r = r + z
        r = s.n(r)
        if r == t:
            break
        t = r
    return t


def equal(s, g, w):
    g, w = straight(s, s.n(g)), straight(s, s.n(w))
    if g == w:
        return True
    d = s.n(g - w)
    if d == N0:
        return True
    # clear the opaque denominators
    for _ in range(6):
        den = None
        for m, c in d.d.items():
            for a, e in m:
                if e < 0:
                    den = a
                    break
        if den is None:
            break
        d = s.n(d * Num.atom(den))
        d = s.n(expand_inv(d))
        if d == N0:
            return True
    return False


def expand_inv(d):
    """an atom that stands for a sum, to a positive power, is that sum"""
    r = N0
    for m, c in d.d.items():
        x = C(c)
        for a, e in m:
            if isinstance(a, tuple) and a and a[0] == 'sum' and e > 0:
                for _ in range(int(e)):
                    x = x * a[1]
            else:
                x = x * Num.atom(a, e)
        r = r + x
    return r


def one(P, res, f, spec, alias):
    I = raw(P)
    st = I.new_state()
    this, args, vals = operands(f, I, alias)
    cs = [cval(v) for v in vals]
    rs = I.inline(f, st, this, args, None, False)
    if not rs:
        raise AnalysisBroken('%s has no result' % f['fn'])
    for s, v in rs:
        want = spec(s, f, cs)
        if want is None:
            continue
        label = f['name'] + (' of an object with itself' if alias else '')
        if f['name'].endswith('=') and f['name'] not in ('operator==', 'operator!='):
            got = tuple(numof(read1(I, s, (this, (m,)))) for m in ('Re', 'Im'))
            expect(res, s, f, got, want, label)
            if not alias and len(vals) > 1 and not isinstance(vals[1], Num):
                oth = tuple(numof(read1(I, s, (vals[1], (m,)))) for m in ('Re', 'Im'))
                expect(res, s, f, oth, cs[1], label + ', the other operand')
            t = v if isinstance(v, tuple) else None
            if t is not None and t[0] == 'ref':
                t = t[1][0]
            if t is not None and t[0] in ('p', 'ptr') and (t if t[0] == 'p' else t[1]) != this:
                res.fail('complex', where(f), '%s returns another object' % label, facts(s))
        elif isinstance(want, tuple):
            if v is None or isinstance(v, Num):
                res.fail('complex', where(f), '%s yields no complex number' % label, facts(s))
                continue
            expect(res, s, f, part(I, s, v, ('Re', 'Im')), want, label)
        else:
            v = numof(v) if not isinstance(v, (bool, tuple)) else v
            if isinstance(v, Num) and isinstance(want, Num) and equal(s, v, want):
                res.ok('complex')
            else:
                res.fail('complex', where(f), '%s is %s, expected %s' % (label, show(v), show(want)), facts(s))


def add(s, f, c):
    if len(c) == 1:
        return c[0]
    return (c[0][0] + c[1][0], c[0][1] + c[1][1])


def sub(s, f, c):
    if len(c) == 1:
        return (N0 - c[0][0], N0 - c[0][1])
    return (c[0][0] - c[1][0], c[0][1] - c[1][1])


def mul(s, f, c):
    (a, b), (x, y) = c
    return (a * x - b * y, a * y + b * x)


def div(s, f, c):
    (a, b), (x, y) = c
    if c[0] == c[1]:
        return (N1, N0)
    if y == N0:
        return (divide(s, a, x), divide(s, b, x))
    m = x * x + y * y
    return (divide(s, a * x + b * y, m), divide(s, b * x - a * y, m))


def asg(s, f, c):
    return c[1]


def m2(c):
    return c[0] * c[0] + c[1] * c[1]


def root(s, x):
    return s.n(Num.atom(('sqrt', s.n(x))))


def phase(s, f, c):
    a, b = c[0]
    if s.decide_eq0(a) is True and s.decide_eq0(b) is True:
        return (N0, N0)
    m = root(s, m2(c[0]))
    return (divide(s, a, m), divide(s, b, m))


def power(s, f, c):
    (a, b), (u, v) = c
    if s.decide_eq0(s.n(a)) is True and s.decide_eq0(s.n(b)) is True:
        z = [s.decide_eq0(s.n(u)), s.decide_eq0(s.n(v))]
        return (N1, N0) if z == [True, True] else (N0, N0)
    at = angle(s, f, c[:1])
    lg = Num.atom(('log', s.n(m2(c[0])))) * C(Fraction(1, 2))
    r = Num.atom(('exp', s.n(lg * u - at * v)))
    t = s.n(at * u + lg * v)
    return (r * Num.atom(('cos', t)), r * Num.atom(('sin', t)))


def angle(s, f, c):
    a, b = c[0]
    if s.decide_eq0(b) is True and s.decide_lt0(a) is False:
        return N0
    return Num.atom(('atan2', b, a))


def expo(s, f, c):
    r = Num.atom(('exp', c[0][0]))
    return (r * Num.atom(('cos', c[0][1])), r * Num.atom(('sin', c[0][1])))


def square_root(s, f, c):
    return None                 # judged by its square, see roots()


def pol(s, f, c):
    r, t = c[0][0], c[1][0]
    return (r * Num.atom(('cos', t)), r * Num.atom(('sin', t)))


def tests(P, res):
    """comparison within a tolerance and the test for zero, decided on every path"""
    for name in ('Equal', 'IsZero'):
        for f in sorted((f for f in P.funcs.values() if f['qn'] == name and f.get('body') is not None and any(strip(p['t']) == 'Complex' for p in f['params'])), key=lambda f: f['fn']):
            I = raw(P)
            st = I.new_state()
            this, args, vals = operands(f, I)
            cs = [cval(v) for v in vals]
            if name == 'IsZero':
                conds = [('eq0', cs[0][0]), ('eq0', cs[0][1])]
            else:
                b = cs[1] if len(vals) == 3 else (cs[1][0], cs[2][0])
                eps = cs[-1][0]
                conds = [('lt0', s_abs(st, cs[0][0] - b[0]) - eps), ('lt0', s_abs(st, cs[0][1] - b[1]) - eps)]
            for s, v in I.inline(f, st, None, args, None, False):
                for s1, x in I.branch(s, conds[0]):
                    for s2, y in I.branch(s1, conds[1]):
                        for s3, got in I.branch(s2, v):
                            if got == (x and y):
                                res.ok('complex')
                            else:
                                res.fail('complex', where(f), '%s yields %s where the conditions on the two parts are %s' % (name, got, (x, y)), facts(s3))


def s_abs(st, x):
    return absnum(st.n(x))


def roots(P, res):
    f = find(P, 'sqrt', lambda f: any(strip(p['t']) == 'Complex' for p in f['params']))
    I = raw(P)
    st = I.new_state()
    this, args, vals = operands(f, I)
    a, b = cval(vals[0])
    m2_ = st.n(m2((a, b)))
    for s, v in I.inline(f, st, None, args, None, False):
        x, y = part(I, s, v, ('Re', 'Im'))
        if s.decide_eq0(root(s, m2_)) is True:
            if x == N0 and y == N0:
                res.ok('complex')
                continue
        # mag^2 = a^2 + b^2, (sqrt t)^2 = t
        ok = square_is(s, x, y, a, b)
        if ok:
            res.ok('complex')
        else:
            res.fail('complex', where(f), 'the square of (%s, %s) is not the argument' % (show(x), show(y)), facts(s))


def square_is(s, x, y, a, b):
    def red(t):
        for _ in range(8):
            r = N0
            for m, c in t.d.items():
                z = C(c)
                for at, e in m:
                    if isinstance(at, tuple) and at and at[0] == 'sqrt' and e >= 2:
                        z = z * at[1] * (Num.atom(at, e - 2) if e > 2 else N1)
                    else:
                        z = z * Num.atom(at, e)
                r = r + z
            if r == t:
                return r
            t = s.n(r)
        return t
    for d in (x * x - y * y - a, C(2) * x * y - b):
        d = s.n(d)
        for _ in range(4):
            den = [(at, -e) for m, c in d.d.items() for at, e in m if e < 0]
            if not den:
                break
            d = s.n(d * Num.atom(den[0][0], den[0][1]))
        if red(d) != N0 and not zero_on_path(s, red(d)):
            return False
    return True


def zero_on_path(s, d):
    return s.decide_eq0(d) is True


SPEC = {
    'exp': expo, 'polar': pol, 'arg': angle, 'Equal': square_root, 'IsZero': square_root, 'sqrt': square_root,
    'operator+': add, 'operator-': sub, 'operator*': mul, 'operator/': div,
    'operator+=': add, 'operator-=': sub, 'operator*=': mul, 'operator/=': div, 'operator=': asg,
    'conjugate': lambda s, f, c: (c[0][0], N0 - c[0][1]),
    'mod2': lambda s, f, c: m2(c[0]),
    'mod': lambda s, f, c: root(s, m2(c[0])),
    'phase': phase, 'pow': power,
}
RESERVED = ('operator+', 'operator-', 'operator*', 'operator/')


# ---------------------------------------------------------------- momenta
def limit(P):
    g = P.globals.get('MAX_K')
    if g is None or (g.get('init') or {}).get('k') != 'int':
        raise AnalysisBroken('the momentum limit has vanished')
    return g['init']['v']


MOM = {'operator+': lambda c: sum_(c), 'operator-': lambda c: dif(c), 'operator+=': lambda c: sum_(c), 'operator-=': lambda c: dif(c),
       'operator=': lambda c: c[1]}


def sum_(c):
    return c[0] + c[1] if len(c) == 2 else c[0]


def dif(c):
    return c[0] - c[1] if len(c) == 2 else N0 - c[0]


def kval(v):
    return v if isinstance(v, Num) else Num.atom(('fld', v, ('K',), 'int'))


def within(I, st, x, M):
    """[states] in which -M <= x <= M is assumed"""
    out = [st]
    for c in (('lt0', x + C(M)), ('lt0', C(M) - x)):
        out = [s2 for s in out for s2, b in I.branch(s, c) if b is False]
    return out


def momentum(P, res):
    M = limit(P)
    N = 2 * M + 1
    todo = {}
    for f in P.funcs.values():
        if f.get('body') is None or f.get('implicit'):
            continue
        if f.get('cls') == 'Momentum' or (not f.get('cls') and f['name'].startswith('operator') and any(strip(p['t']) == 'Momentum' for p in f['params'])):
            todo[f['fn']] = f
    for k in sorted(todo):
        f = todo[k]
        nm = f['name']
        if nm in ('operator<<', 'operator>>'):
            continue
        aliases = [False, True] if f.get('cls') and len(f['params']) == 1 and not numparam(f['params'][0]) else [False]
        for al in aliases:
            I = raw(P)
            this, args, vals = operands(f, I, al)
            if f.get('isctor'):
                this = ('p', 'this')
                vals = vals[1:]
            ks = [kval(v) for v in vals]
            sts = [I.new_state()]
            if nm == 'operator*':
                # only a sign change is meant: the factor is -1, 0 or 1
                i = [j for j, v in enumerate(vals) if isinstance(v, Num)]
                if len(i) != 1:
                    res.skipped.append('%s: product of momenta' % k)
                    continue
                cases = []
                for c in (-1, 0, 1):
                    a2 = list(args)
                    a2[i[0]] = C(c)
                    cases.append((a2, C(c) * ks[1 - i[0]], [ks[1 - i[0]]]))
            elif f.get('isctor'):
                cases = [(args, ks[0] if ks else N0, ks)]
            elif nm in MOM:
                cases = [(args, MOM[nm](ks), ks)]
            elif nm in ('operator==', 'operator!='):
                cases = [(args, ('eq0', ks[0] - ks[1]), ks)]
            elif nm == 'index':
                cases = [(args, ks[0] + C(M), ks)]
            elif nm == 'abs':
                cases = [(args, absnum(ks[0]), ks)]
            else:
                res.skipped.append('%s: no law is stated for it' % k)
                continue
            for a, want, inr in cases:
                for st in lim(I, I.new_state(), inr, M):
                    for s, v in I.inline(f, st, this, list(a), None, False):
                        mom_one(I, res, f, s, v, want, this, M, N, vals, al)


def lim(I, st, ks, M):
    out = [st]
    for k in ks:
        out = [x for s in out for x in within(I, s, k, M)]
    return out


def mom_one(I, res, f, s, v, want, this, M, N, vals, al):
    nm = f['name']
    if isinstance(want, tuple):
        for s1, x in I.branch(s, want):
            for s2, y in I.branch(s1, v):
                if y == (x if nm == 'operator==' else not x):
                    res.ok('momentum')
                else:
                    res.fail('momentum', where(f), '%s yields %s' % (nm, y), facts(s2))
        return
    if nm in ('index', 'abs'):
        if s.n(v) == s.n(want):
            res.ok('momentum')
        else:
            res.fail('momentum', where(f), '%s is %s, expected %s' % (nm, show(v), show(want)), facts(s))
        return
    if f.get('isctor') or nm in ('operator+=', 'operator-=', 'operator='):
        got = numof(read1(I, s, (this, ('K',)), 'int'))
        if not al and not f.get('isctor') and not isinstance(vals[1], Num):
            oth = numof(read1(I, s, (vals[1], ('K',)), 'int'))
            if s.n(oth) != s.n(kval(vals[1])):
                res.fail('momentum', where(f), '%s changes its operand' % nm, facts(s))
    else:
        got = part(I, s, v, ('K',))[0]
    got, want = s.n(got), s.n(want)
    d = s.n(got - want).const()
    if d is None or d % N != 0:
        res.fail('momentum', where(f), '%s yields %s, which is not %s modulo %d' % (nm, show(got), show(want), N), facts(s))
        return
    lo, hi = s.decide_lt0(s.n(got + C(M))), s.decide_lt0(s.n(C(M) - got))
    if lo is False and hi is False:
        res.ok('momentum')
    else:
        res.fail('momentum', where(f), '%s yields %s, which may lie outside [-%d, %d]' % (nm, show(got), M, M), facts(s))


# ---------------------------------------------------------------- random numbers
def random_(P, res):
    f = find(P, 'RandomFactory::urn')
    I = raw(P)
    for s, v in I.inline(f, I.new_state(), ('p', 'this'), [], None, False):
        v = s.n(v)
        lo, ls, hi, hs = s.range(v) if isinstance(v, Num) else (None, 0, None, 0)
        if lo is not None and lo >= 0 and hi is not None and (hi < 1 or (hi == 1 and hs)):
            res.ok('range of a random number')
        else:
            res.fail('range of a random number', where(f), 'the number is %s, in the range %s to %s' % (show(v), lo, hi), facts(s))
        words = [a for a in v.atoms() if a[0] in ('word', 'word32')] if isinstance(v, Num) else []
        if words:
            res.ok('random numbers come from the engine')
        else:
            res.fail('random numbers come from the engine', where(f), 'the number is %s' % show(v), facts(s))
    f = find(P, 'RandomFactory::irn')
    I = raw(P)
    _, args, vals = operands(f, I)
    a, b = vals[-2:]
    st = I.new_state()
    for st in [s for s, x in I.branch(st, ('lt0', b - a)) if x is False]:
        for s, v in I.inline(f, st, ('p', 'this'), args, None, False):
            v = s.n(v)
            m = [x for x in v.atoms() if x[0] == 'mod'] if isinstance(v, Num) else []
            if len(m) != 1 or not any(y[0] == 'word' for y in as_num(m[0][1]).atoms()):
                res.fail('range of a random integer', where(f), 'the integer is %s' % show(v), facts(s))
                continue
            rest, n = s.n(v - Num.atom(m[0])), s.n(as_num(m[0][2]))
            if s.n(rest - a) == N0 and s.n(rest + n - N1 - b) == N0 and as_num(m[0][1]).single() is not None:
                res.ok('range of a random integer')
            else:
                res.fail('range of a random integer', where(f), 'the integer is %s, which does not range over all of [%s, %s]' % (show(v), show(a), show(b)), facts(s))


def as_num(x):
    return x if isinstance(x, Num) else Num.c(x) if isinstance(x, int) else Num.atom(x)


# ---------------------------------------------------------------- draws of the chain
def draws_of(v):
    return [a for a in v.atoms() if a[0] in ('irn', 'urn')] if isinstance(v, Num) else []


def distribution(I, outs):
    """{value: probability} of a function that draws coins"""
    tot = {}
    for s, v in outs:
        v = s.n(v)
        pr = Fraction(1)
        coins = [e[1] for e in s.ev if e[0] == 'draw' and isinstance(e[1], tuple)]
        subs = [(Fraction(1), v)]
        seen = set()
        for a in [c for c in coins] + draws_of(v):
            if a in seen:
                continue
            seen.add(a)
            if a[0] == 'urn':
                lo, ls, hi, hs = s.range(Num.atom(a))
                pr *= (hi - lo)
                continue
            lo, hi = int(a[2]) if isinstance(a[2], int) else None, int(a[3]) if isinstance(a[3], int) else None
            if lo is None:
                return None
            x = s.n(Num.atom(a))
            if x.const() is not None:
                pr *= Fraction(1, hi - lo + 1)
                continue
            l2, _, h2, _ = s.range(x)
            l2, h2 = max(lo, l2), min(hi, h2)
            vals = [k for k in range(int(l2), int(h2) + 1) if s.decide_eq0(s.n(x - C(k))) is not False]
            pr *= Fraction(len(vals), hi - lo + 1)
            subs = [(p / len(vals), subst(w, a, k)) for p, w in subs for k in vals]
        for p, w in subs:
            if isinstance(w, bool):
                w = C(int(w))
            c = w.const() if isinstance(w, Num) else None
            if c is None:
                return None
            tot[c] = tot.get(c, 0) + p * pr
    return tot


def subst(v, a, k):
    if not isinstance(v, Num):
        return v
    r = N0
    for m, c in v.d.items():
        x = C(c)
        for at, e in m:
            x = x * (C(Fraction(k) ** e) if at == a else Num.atom(at, e))
        r = r + x
    return r


def draws(P, res):
    K = 'mc::Markov::'
    M = limit(P)

    def outs(name, args=()):
        f = find(P, K + name)
        I = interp(P)
        I.MERGE = False
        r = I.inline(f, I.new_state(), THIS, list(args), None, False)
        if not r:
            raise AnalysisBroken('%s yields nothing' % f['fn'])
        res.analysed.append({'function': f['fn']})
        return f, I, r
    for name, want in (('RandomPickDeltaSpin', {-1: Fraction(1, 2), 1: Fraction(1, 2)}), ('RandomPickSpin', {0: Fraction(1, 2), 1: Fraction(1, 2)}),
                       ('RandomPickDir', {0: Fraction(1, 2), 1: Fraction(1, 2)})):
        f, I, r = outs(name)
        d = distribution(I, r)
        if d == want:
            res.ok('distribution of a draw')
        else:
            res.fail('distribution of a draw', where(f), 'the outcomes have probabilities %s, expected %s' % (d and {str(k): str(v) for k, v in d.items()}, {k: str(v) for k, v in want.items()}), facts(r[0][0]))
    f, I, r = outs('RandomPickK')
    for s, v in r:
        v = s.n(v)
        a = draws_of(v)
        if len(a) == 1 and a[0][0] == 'irn' and (a[0][2], a[0][3]) == (-M, M) and v in (Num.atom(a[0]), N0 - Num.atom(a[0])):
            res.ok('distribution of a draw')
        else:
            res.fail('distribution of a draw', where(f), 'the momentum is %s, expected one of all %d values' % (show(v), 2 * M + 1), facts(s))
    f, I, r = outs('RandomPickTau')
    g, J, q = outs('ProbTau', [Num.atom(('fld', ('p', 'tau'), (), 'double'))])
    pr = {s.n(v) for s, v in q}
    for s, v in r:
        v = s.n(v)
        a = draws_of(v)
        ok = False
        if len(a) == 1 and a[0][0] == 'urn' and len(pr) == 1:
            beta = inv_num(next(iter(pr)))
            u = Num.atom(a[0])
            ok = beta is not None and v in (u * beta, beta - u * beta) and 'Beta' in show(beta)
        if ok:
            res.ok('distribution of a draw')
        else:
            res.fail('distribution of a draw', where(f), 'the time is %s with density %s' % (show(v), [show(x) for x in pr]), facts(s))
    f, I, r = outs('RandomPickSite')
    for s, v in r:
        bad = None
        comps = [(('Coordinate', '_Array', i), ('Lat', ('Size', '_Array', i))) for i in range(2)] + [(('Sublattice',), ('Lat', ('SublatVol',)))]
        used = []
        for path, lim_ in comps:
            x = s.n(I.project(v, path, 'int'))
            a = draws_of(x)
            if len(a) != 1 or a[0][0] != 'irn' or x != Num.atom(a[0]) or a[0] in used:
                bad = '%s is %s' % ('.'.join(str(y) for y in path), show(x))
                break
            used.append(a[0])
            lo, hi = as_num(a[0][2]), as_num(a[0][3])
            h = s.n(hi + N1).single()
            if s.n(lo) != N0 or h is None or h[0] != 'fld' or tuple(h[2]) != lim_[1]:
                bad = '%s ranges from %s to %s' % ('.'.join(str(y) for y in path), show(lo), show(hi))
                break
        if bad:
            res.fail('distribution of a draw', where(f), 'a random site: ' + bad, facts(s))
        else:
            res.ok('distribution of a draw')


def inv_num(x):
    a = x.monomial() if isinstance(x, Num) else None
    if not a:
        return None
    c, d = a
    r = C(1 / Fraction(c))
    for at, e in d.items():
        r = r * Num.atom(at, -e)
    return r


FORBIDDEN = ('rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'erand48', 'rand_r', 'getpid', 'clock')


def source(P, res):
    """every random decision of the chain is drawn from the generator of the parameters"""
    work = [f for f in P.funcs.values() if f['qn'] in ('mc::Markov::Hop', 'mc::Markov::BuildNew', 'mc::Markov::Reset', 'mc::MarkovMonitor::Measure')
            or f['qn'].startswith('diag::Diagram::BuildNew') or f['qn'].startswith('mc::Markov::')]
    seen = set()
    while work:
        f = work.pop()
        if f['fn'] + f['file'] in seen or f.get('body') is None or f.get('cls') == 'RandomFactory':
            continue
        seen.add(f['fn'] + f['file'])
        res.analysed.append(f['qn'])
        for e in calls(f):
            c = e.get('f') or {}
            g = P.find(c, f['unit'], f['file']) if c.get('fn') else None
            if g is not None:
                work.append(g)
            if c.get('cls') == 'RandomFactory' and c['name'] in ('urn', 'irn'):
                own(P, f, e.get('obj'), e, 'draws from', res)
            elif not c.get('cls') and c.get('name') in FORBIDDEN or (c.get('qn') or '').startswith('std::random_device') or (c.get('cls') or '').startswith('std::random_device') or \
                    (c.get('cls') == 'RandomFactory' and c['name'] == 'Reset'):
                res.fail('one generator', (f['fn'], f['file'], e.get('l', f['l'])), 'calls %s: the decisions no longer follow from the seed' % c.get('qn'), '')
        for e in handed(f):
            own(P, f, e, e, 'hands over', res)


def own(P, f, e, at, what, res):
    o = origin(P, f, e)
    if all(x[0] == 'mem' and x[1] == 'RNG' and x[2] in ('mc::Markov', 'para::ParaMC') or x[0] == 'param' for x in o):
        res.ok('one generator')
    else:
        res.fail('one generator', (f['fn'], f['file'], at.get('l', f['l'])), '%s %s' % (what, o), '')


def calls(f):
    from astutil import walk
    return [x for x in walk([f['body']] + [i.get('e') for i in f.get('inits') or [] if i.get('e')]) if isinstance(x, dict) and x.get('k') == 'call']


def handed(f):
    """generators passed on by reference"""
    out = []
    for e in calls(f):
        pts = (e.get('f') or {}).get('pt', [])
        for a, t in zip(e.get('a') or [], pts):
            if strip(t) == 'RandomFactory' and t.strip().endswith('&') and not t.strip().startswith('const'):
                out.append(a)
    return out


def origin(P, f, e, d=0):
    """where a generator comes from: members and parameters, through local references and functions that return references"""
    from astutil import walk
    while isinstance(e, dict) and e.get('k') in ('load', 'temp', 'cast', 'un'):
        e = e['e']
    if not isinstance(e, dict) or d > 6:
        return [('?',)]
    if e['k'] == 'mem':
        return [('mem', e['f'], e.get('cls') or '')]
    if e['k'] == 'cond':
        return origin(P, f, e['a'], d + 1) + origin(P, f, e['b'], d + 1)
    if e['k'] == 'var':
        v = e['v']
        if v['sc'] == 'local':
            for x in walk(f['body']):
                if isinstance(x, dict) and isinstance(x.get('v'), dict) and 'init' in x and x['v'].get('id') == v.get('id') and (x.get('ref') or x['v'].get('t', '').rstrip().endswith('*') or x.get('dt', '').rstrip().endswith(('*', '&'))):
                    return origin(P, f, x['init'], d + 1)
        return [(v['sc'], v['name'])]
    if e['k'] == 'call':
        g = P.find(e['f'], f['unit'], f['file']) if (e.get('f') or {}).get('fn') else None
        if g is not None and g.get('body') is not None:
            out = []
            for x in walk(g['body']):
                if isinstance(x, dict) and x.get('k') == 'ret' and x.get('e'):
                    out += origin(P, g, x['e'], d + 1)
            return out or [('?',)]
    return [(e['k'],)]
