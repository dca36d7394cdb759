"""The Fourier transforms of the solver's tables: forward and back cancel, and what has been accumulated follows the table.

A table is a word of operations on an initial value: phases along the time axis, transforms along the time axis, transforms along
the axes of space. Phases next to each other add up, a transform next to its inverse cancels, operations in time and in space commute."""
import ast
from fractions import Fraction

import pyabs
from pyabs import Interp, Bound, Num, Ref
from frontend import AnalysisBroken
from terms import show
from pyside import WEIGHT, A, at, klass, loaded, need, say, top

PI, IM = ('pi',), ('i',)


class Tables(Interp):
    """tables are single values: re-shaping and copying them is tracked, not unknown"""

    start_shape = None

    def attr(self, st, v, name, line):
        if isinstance(v, Num) and istable(v) and name in ('reshape', 'copy', '__copy__'):
            return [(st, Bound(name, v))]
        if isinstance(v, Num) and istable(v) and name in ('shape', 'ndim'):
            d = shape_of(v, self.start_shape)
            if d is not None:
                return [(st, d if name == 'shape' else len(d))]
        return Interp.attr(self, st, v, name, line)

    def item(self, st, v, k, line):
        if isinstance(v, Ref) and st.rec(v)[0] == 'arr' and isinstance(k, tuple) and k and k[0] != 'slice' and \
                any(x is None or isinstance(x, pyabs.Ext) and x.path == 'numpy.newaxis' for x in k):
            # new axes before the axis of time
            if k[-1] == ('slice', None, None, None) or isinstance(k[-1], Num) and k[-1] == pyabs.unknown('...'):
                return [(st, v)]
        return Interp.item(self, st, v, k, line)

    def arr_reshape(self, st, this, c, args, kw, line, fr):
        d = dims(self, st, args)
        if d and all(x == 1 for x in d[:-1]) and d[-1] in (-1, len(c[1])):
            return [(st, this)]
        return [(st, pyabs.unknown('call', ('attr', self.freeze(st, this), 'reshape'), tuple(self.freeze(st, x) for x in args)))]

    def arr_copy(self, st, this, c, args, kw, line, fr):
        return [(st, this)]

    def binop(self, op, a, b, st, line):
        if isinstance(op, ast.Pow) and isinstance(a, Num) and isinstance(b, int) and not isinstance(b, bool):
            t = a.single()
            if t is not None and t[0] == 'cexp':
                return Num.atom(('cexp', t[1].scale(b)))
        if isinstance(op, ast.Pow) and isinstance(b, int):
            r = self.arr(st, a)
            if r is not None:
                r = [self.binop(op, x, b, st, line) for x in r]
                return None if any(x is None for x in r) else st.new(('arr', tuple(r)))
        return Interp.binop(self, op, a, b, st, line)

    def method(self, st, this, name, args, kw, line, fr):
        if isinstance(this, Num) and istable(this):
            if name == 'reshape':
                return [(st, Num.atom(('reshape', dims(self, st, args), this)))]
            if name in ('copy', '__copy__'):
                return [(st, this)]
        return Interp.method(self, st, this, name, args, kw, line, fr)


def istable(n):
    return any(a[0] in ('reshape', 'fft') or a[0] == 'v' and a[1] in ('data', 'sums') for a in n.atoms())


def shape_of(n, start):
    """the shape of a table that started with this one"""
    base = [a for a in n.atoms() if a[0] in ('reshape', 'fft') or a[0] == 'v' and a[1] in ('data', 'sums')]
    if len(base) != 1:
        return None
    b = base[0]
    return start if b[0] == 'v' else b[1] if b[0] == 'reshape' else shape_of(b[3], start)


def listed(st, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Ref) and st.rec(v)[0] in ('list', 'arr'):
        return list(st.rec(v)[1])
    return None


def dims(I, st, args):
    v = listed(st, args[0]) if len(args) == 1 else None
    v = list(args) if v is None else v
    return tuple(v) if all(isinstance(x, int) for x in v) else None


def p_exp(I, st, args, kw, line, fr):
    def e(x):
        items = listed(st, x)
        if items is not None:
            return st.new(('arr', tuple(e(y) for y in items)))
        n = pyabs.num(x)
        return Num.atom(('cexp', n)) if n is not None else pyabs.unknown('exp', I.freeze(st, x))
    return [(st, e(args[0]))]


def p_trig(sine):
    def f(I, st, args, kw, line, fr):
        def e(x):
            items = listed(st, x)
            if items is not None:
                return st.new(('arr', tuple(e(y) for y in items)))
            n = pyabs.num(x)
            if n is None:
                return pyabs.unknown('trig', I.freeze(st, x))
            n = n * Num.atom(IM)
            p, m = Num.atom(('cexp', n)), Num.atom(('cexp', n.scale(-1)))
            return (p - m) * Num.atom(IM).scale(Fraction(-1, 2)) if sine else (p + m).scale(Fraction(1, 2))
        return [(st, e(args[0]))]
    return f


def p_arith(op):
    def f(I, st, args, kw, line, fr):
        r = I.binop(op, args[0], args[1], st, line) if len(args) == 2 and not kw else None
        return [(st, r)] if r is not None else I.outside(st, 'numpy.' + type(op).__name__, args, kw, line, fr)
    return f


def p_reshape(I, st, args, kw, line, fr):
    if isinstance(args[0], Num) and istable(args[0]) or isinstance(args[0], Ref):
        return I.method(st, args[0], 'reshape', args[1:], kw, line, fr)
    return I.outside(st, 'numpy.reshape', args, kw, line, fr)


def interp():
    I = Tables()
    I.prims.update({'numpy.exp': p_exp, 'cmath.exp': p_exp, 'numpy.arange': p_arange, 'numpy.reshape': p_reshape, 'numpy.cos': p_trig(False), 'numpy.sin': p_trig(True),
                    'math.cos': p_trig(False), 'math.sin': p_trig(True), 'numpy.multiply': p_arith(ast.Mult()), 'numpy.divide': p_arith(ast.Div())})
    for m in ('numpy.fft', 'scipy.fftpack', 'scipy.fft'):
        I.prims.update({m + '.fft': transform(1, False), m + '.ifft': transform(-1, False), m + '.fftn': transform(1, True), m + '.ifftn': transform(-1, True)})
    return I


def p_arange(I, st, args, kw, line, fr):
    if args and all(isinstance(a, int) for a in args):
        return [(st, st.new(('arr', tuple(range(*args)))))]
    return I.outside(st, 'numpy.arange', args, kw, line, fr)


def transform(sign, many):
    def f(I, st, args, kw, line, fr):
        v = args[0]
        ax = args[2 if len(args) > 2 else 9:][:1] or [kw.get('axes' if many else 'axis', None if many else -1)]
        ax = ax[0]
        if not isinstance(v, Num) or kw.get('n') is not None or kw.get('s') is not None or kw.get('norm') is not None or \
                len(args) > 1 and args[1] is not None:
            return I.outside(st, 'numpy.fft', args, kw, line, fr)
        axes = listed(st, ax) if many else [ax]
        return [(st, Num.atom(('fft', sign, tuple(axes) if axes is not None and all(isinstance(x, int) for x in axes) else None, v)))]
    return f


class Odd(Exception):
    pass


class Word(object):
    def __init__(self, name, shape):
        self.name, self.shape = name, shape
        self.scale = Fraction(1)
        self.time = []           # ('F', +-1) and ('phase', exponents of i*pi)
        self.space = {}

    def push(self, op):
        t = self.time
        if op[0] == 'phase':
            if t and t[-1][0] == 'phase':
                op = ('phase', tuple((a + b) % 2 for a, b in zip(t.pop()[1], op[1])))
            if any(op[1]):
                t.append(op)
        elif t and t[-1][0] == 'F' and t[-1][1] == -op[1]:
            t.pop()
        else:
            t.append(op)
        # a cancelled transform can bring two phases together
        while len(t) > 1 and t[-1][0] == 'phase' == t[-2][0]:
            b, a = t.pop(), t.pop()
            s = tuple((x + y) % 2 for x, y in zip(a[1], b[1]))
            if any(s):
                t.append(('phase', s))

    def key(self):
        return (self.name, self.scale, tuple(self.time), tuple(sorted((k, v) for k, v in self.space.items() if v)))

    def say(self):
        r = ['%s' % ('%s*' % self.scale if self.scale != 1 else '')]
        for o in self.time:
            r.append('transform(%+d) in time' % o[1] if o[0] == 'F' else 'phases pi*i*(%s)' % ', '.join(str(x) for x in o[1]))
        for k, v in sorted(self.space.items()):
            if v:
                r.append('transform(%+d) along axis %d of space' % (v, k))
        return ', '.join(x for x in r if x) or 'unchanged'


class Geometry(object):
    def __init__(self, shape, L, N):
        self.flat, self.L, self.N = tuple(shape), list(L), N
        self.split = tuple(shape[:4]) + tuple(L) + tuple(shape[5:])

    def axis(self, shape, a):
        """-> 'time' or the number of an axis of space"""
        if a is None:
            raise Odd('the axis is not determined')
        k = a + len(shape) if a < 0 else a
        if self.N is not None and k == len(shape) - 1:
            return 'time'
        if shape == self.split and 4 <= k < 4 + len(self.L):
            return k - 4
        raise Odd('a transform along axis %d of shape %s' % (a, list(shape)))


def exponent(n):
    """n is pi*i times a fraction"""
    r = Fraction(0)
    for mono, c in n.d.items():
        if dict(mono) != {PI: 1, IM: 1}:
            raise Odd('a phase exp(%s)' % show(n)[:80])
        r += c
    return r % 2


def logarithm(v):
    """(factor, exponent) of an entry of a vector of phases"""
    n = v if isinstance(v, Num) else pyabs.num(v)
    if n is None:
        raise Odd('a factor %s' % str(v)[:80])
    terms = {}
    for mono, c in n.d.items():
        e = Fraction(0)
        for a, k in mono:
            if a == IM:
                e += Fraction(k, 2)
            elif a[0] == 'cexp':
                e += exponent(a[1]) * k
            else:
                raise Odd('a factor %s' % show(n)[:80])
        e %= 2
        if e >= 1:
            e, c = e - 1, -c
        terms[e] = terms.get(e, 0) + Fraction(c)
    terms = [(e, c) for e, c in terms.items() if c]
    if len(terms) != 1:
        raise Odd('a factor %s' % show(n)[:80])
    (e, c), = terms
    return (c, e) if c > 0 else (-c, (e + 1) % 2)


def word(v, G):
    n = pyabs.num(v)
    if n is None or len(n.d) != 1:
        raise Odd('the table is %s' % (show(n)[:120] if n is not None else v))
    (mono, c), = n.d.items()
    base = [a for a, k in mono if a[0] in ('reshape', 'fft') or a[0] == 'v' and a[1] in ('data', 'sums')]
    if len(base) != 1 or dict(mono)[base[0]] != 1:
        raise Odd('the table is %s' % show(n)[:120])
    b = base[0]
    if b[0] == 'v':
        w = Word(b[1], G.flat)
    elif b[0] == 'reshape':
        w = word(b[2], G)
        if b[1] not in (G.flat, G.split):
            raise Odd('the table is re-shaped to %s' % (list(b[1]) if b[1] is not None else 'an unknown shape'))
        w.shape = b[1]
    else:
        w = word(b[3], G)
        axes = b[2] if b[2] is not None else tuple(range(len(w.shape)))
        for a in axes:
            k = G.axis(w.shape, a)
            if k == 'time':
                w.push(('F', b[1]))
            else:
                w.space[k] = w.space.get(k, 0) + b[1]
    w.scale *= Fraction(c)
    for a, k in mono:
        if a == b:
            continue
        x = a
        while isinstance(x, tuple) and x and x[0] == 'value':
            x = x[1]
        if isinstance(x, tuple) and x and x[0] == 'arr':
            items = x[1] if len(x) == 2 and isinstance(x[1], tuple) else x[1:]
            if G.N is None or len(items) != G.N:
                raise Odd('a factor of %d entries' % len(items))
            e = [logarithm(y) for y in items]
            if any(f != e[0][0] for f, _ in e):
                raise Odd('a factor that depends on the bin')
            w.scale *= e[0][0] ** k
            w.push(('phase', tuple((p * k) % 2 for _, p in e)))
        elif a[0] == 'cexp':
            w.push(('phase', tuple([(exponent(a[1]) * k) % 2] * (G.N or 1))))
        else:
            raise Odd('the table is multiplied by %s' % show(Num.atom(a))[:120])
    return w


def expected(name, G, fermi, space, time, shape):
    """the value at frequency m and momentum k: the sum over the centres of the bins and over the cells"""
    w = Word(name, shape)
    if time and G.N is not None:
        n = G.N
        if fermi:
            w.push(('phase', tuple((-(i + Fraction(1, 2)) / n) % 2 for i in range(n))))
        w.push(('F', 1))
        w.push(('phase', tuple(Fraction(-m, n) % 2 for m in range(n))))
    if space:
        w.space = {i: 1 for i in range(len(G.L))}
    return w


STEPS = [('K',), ('R',), ('W',), ('T',), ('K', 'W'), ('R', 'T'), ('K', 'T'), ('R', 'W'), ('W', 'K'), ('T', 'R')]


def transforms(P, res):
    for L, N in (((2, 3), 3), ((3,), 2), ((2, 2, 3), 4)):
        for name, sym in (('SmoothT', 'AntiSymmetric'), ('SmoothT', 'Symmetric'), ('DeltaT', 'Symmetric')):
            for sums in (False, True):
                walk(res, L, N, name, sym, sums)


def walk(res, L, N, name, sym, sums):
    I = interp()
    st = loaded(I, WEIGHT)
    IM_ = klass(st, WEIGHT, 'IndexMap')
    W = klass(st, WEIGHT, 'Weight')
    need(W, 'FFT')
    fr = top(WEIGHT, st)
    lst = st.new(('list', tuple(L)))
    r = I.call(st, IM_, (), dict(Beta=A(I, 'Beta', False), L=lst, NSublat=2, MaxTauBin=N, MaxTauBinTiny=N, BasisNum=N, Symmetry=None), 0, fr)
    r = [(s, m) for s, m in r if s.exc is None and not s.cut]
    made = []
    for s, m in r:
        made += [(s2, w) for s2, w in I.call(s, W, (name, m, 'TwoSpins', sym, 'R', 'T'), {}, 0, fr) if s2.exc is None and not s2.cut]
    if not made:
        raise AnalysisBroken('no table can be made')
    fermi = sym == 'AntiSymmetric'
    vol = 1
    for x in L:
        vol *= x
    G = Geometry([2, 2, 2, 2, vol] + ([N] if name == 'SmoothT' else []), L, N if name == 'SmoothT' else None)
    I.start_shape = G.flat
    for s, w in made:
        s.put(w, 'Data', Num.atom(('v', 'data')))
        if sums:
            s.put(w, 'AccuData', Num.atom(('v', 'sums')))
        # every pair of requests, from every domain
        for first in STEPS:
            for second in STEPS:
                cur = [s.copy()]
                dom = ['R', 'T']
                for k, step in enumerate((first, second, ('R', 'T'))):
                    nxt = []
                    for d in step:
                        dom[0 if d in 'RK' else 1] = d
                    for x in cur:
                        for y, _ in I.call(x, Bound(W.find('FFT'), w), step, {}, 0, fr):
                            if y.cut:
                                raise AnalysisBroken('FFT: %s' % y.cut)
                            nxt.append(y)
                    cur = [y for y in nxt if judge(res, W, I, y, w, G, fermi, sums, dom, (first, second, ('R', 'T'))[:k + 1])]
    res.analysed.append({'file': WEIGHT, 'class': 'Weight', 'method': 'FFT', 'table': name, 'symmetry': sym, 'lattice': list(L), 'bins': N,
                         'accumulated part': sums, 'sequences': len(STEPS) ** 2})


def judge(res, W, I, y, w, G, fermi, sums, dom, steps):
    what = 'after the requests %s' % ' '.join('/'.join(x) for x in steps)
    if y.exc is not None:
        res.fail('transforms', at(W, 'FFT'), '%s: stops with %s' % (what, y.exc[0]))
        return False
    good = True
    for f, nm in (('Data', 'data'),) + ((('AccuData', 'sums'),) if sums else ()):
        want = expected(nm, G, fermi, dom[0] == 'K', dom[1] == 'W', G.flat)
        try:
            got = word(y.get(w, f), G)
            if got.key() != want.key() or got.shape != want.shape:
                res.fail('transforms' if f == 'Data' else 'accumulated part', at(W, 'FFT'),
                         '%s the %s is: %s; expected: %s' % (what, 'table' if f == 'Data' else 'accumulated part', got.say(), want.say()))
                good = False
                continue
        except Odd as e:
            res.fail('transforms' if f == 'Data' else 'accumulated part', at(W, 'FFT'), '%s: %s' % (what, e))
            good = False
            continue
        res.ok('transforms' if f == 'Data' else 'accumulated part')
    if not sums and y.get(w, 'AccuData') is not None:
        res.fail('accumulated part', at(W, 'FFT'), '%s an accumulated part appears' % what)
        good = False
    have = (y.get(w, 'SpaceDomain'), y.get(w, 'TimeDomain'))
    if have != tuple(dom):
        res.fail('domains', at(W, 'FFT'), '%s the recorded domain is %s, expected %s' % (what, '/'.join(str(x) for x in have), '/'.join(dom)))
        good = False
    else:
        res.ok('domains')
    return good


# ------------------------------------------------------------------------------------------- vertex functions
GAMMA = 'dyson/gamma3_calc.py'
L2, NT, NB = (2, 3), 5, 7
VERTEX = {'FFTGammaW': ([(0, 1), (2, 3), 4, 5], (2, 3, 2, 3, NT, NT), (0, 1, 2, 3, 4, 5)),
          'FFTWshift': ([0, 1, (2, 3), 4], (4, 4, 2, 3, NT), (2, 3, 4)),
          'FFTGammaW_Space': ([(0, 1), (2, 3), 4, 5], (2, 3, 2, 3, NB, NB), (0, 1, 2, 3)),
          'FFTWshift_Space': ([(0, 1), 2, 3], (2, 3, NT, NT), (0, 1))}


def groups(shape, fine):
    """the fine axes each axis of this shape is made of"""
    out, i = [], 0
    for d in shape:
        k, g = 1, []
        while i < len(fine) and (k < d or not g):
            k *= fine[i]
            g.append(i)
            i += 1
        if k != d:
            raise Odd('the table is re-shaped to %s' % list(shape))
        out.append(tuple(g))
    if i != len(fine):
        raise Odd('the table is re-shaped to %s' % list(shape))
    return out


def counts(v, fine, start):
    """-> (shape, number of transforms along every fine axis, factor)"""
    n = pyabs.num(v)
    if n is None or len(n.d) != 1:
        raise Odd('the result is %s' % (show(n)[:120] if n is not None else v))
    (mono, c), = n.d.items()
    mono = list(mono)
    if len(mono) != 1 or mono[0][1] != 1:
        raise Odd('the result is %s' % show(n)[:120])
    b = mono[0][0]
    if b == ('v', 'data'):
        return start, {}, Fraction(c)
    if b[0] == 'reshape':
        sh, k, f = counts(b[2], fine, start)
        if b[1] is None:
            raise Odd('the table is re-shaped to an unknown shape')
        groups(b[1], fine)
        return b[1], k, f * c
    if b[0] == 'fft':
        sh, k, f = counts(b[3], fine, start)
        k = dict(k)
        g = groups(sh, fine)
        for a in (b[2] if b[2] is not None else range(len(sh))):
            if not -len(g) <= a < len(g):
                raise Odd('a transform along axis %d of shape %s' % (a, list(sh)))
            if len(g[a]) != 1:
                raise Odd('a transform along the numbers of the cells instead of the axes of space')
            k[g[a][0]] = k.get(g[a][0], 0) + b[1]
        return sh, {x: y for x, y in k.items() if y}, f * c
    raise Odd('the result is %s' % show(n)[:120])


def vertex(P, res):
    """forward along every axis once, back along the same ones, in the shape it came in"""
    I = interp()
    st = loaded(I, GAMMA)
    fr = top(GAMMA, st)
    s0 = loaded(I, WEIGHT) if WEIGHT not in st.mods else st
    IM_ = klass(s0, WEIGHT, 'IndexMap')
    lst = st.new(('list', L2))
    r = I.call(st, IM_, (), dict(Beta=A(I, 'Beta', False), L=lst, NSublat=1, MaxTauBin=NB, MaxTauBinTiny=NT, BasisNum=NB, Symmetry=None), 0, fr)
    made = [(s, m) for s, m in r if s.exc is None and not s.cut]
    if not made:
        raise AnalysisBroken('the index map of the solver cannot be made')
    for name, (shape, fine, along) in sorted(VERTEX.items()):
        f = st.get(st.mods[GAMMA], name)
        if not isinstance(f, pyabs.Fn):
            if not name.endswith('_Space'):
                res.skipped.append('no function %s in %s' % (name, GAMMA))
            continue
        where = (name, GAMMA, f.node.lineno)
        start = []
        for g in shape:
            k = 1
            for i in (g if isinstance(g, tuple) else (g,)):
                k *= fine[i]
            start.append(k)
        start = tuple(start)
        I.start_shape = start
        for s, m in made:
            for s1, v1 in I.call(s.copy(), f, (Num.atom(('v', 'data')), m, 1), {}, 0, fr):
                one(res, where, s1, v1, fine, start, {a: 1 for a in along}, 'forward')
                if s1.exc is None and not s1.cut:
                    for s2, v2 in I.call(s1.copy(), f, (v1, m, -1), {}, 0, fr):
                        one(res, where, s2, v2, fine, start, {}, 'forward and back')
            for s1, v1 in I.call(s.copy(), f, (Num.atom(('v', 'data')), m, -1), {}, 0, fr):
                one(res, where, s1, v1, fine, start, {a: -1 for a in along}, 'back')
        res.analysed.append({'file': GAMMA, 'function': name, 'axes': list(along)})


def one(res, where, s, v, fine, start, want, what):
    if s.cut:
        raise AnalysisBroken('%s: %s' % (where[0], s.cut))
    if s.exc is not None:
        return res.fail('vertex transforms', where, '%s: stops with %s' % (what, s.exc[0]))
    try:
        sh, k, c = counts(v, fine, start)
    except Odd as e:
        return res.fail('vertex transforms', where, '%s: %s' % (what, e))
    if tuple(sh) != start or k != want or c != 1:
        return res.fail('vertex transforms', where, '%s: transforms %s along the axes of %s, factor %s, left in shape %s; expected %s' % (what, k, list(fine), c, list(sh), want))
    res.ok('vertex transforms')
