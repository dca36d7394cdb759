"""The self-consistency loop (Python): tables are laid out as in the simulation, results are merged as weighted means that can be undone."""
import ast
import warnings
from fractions import Fraction

import iface
import pyabs
from pyabs import Interp, St, Frame, Bound, Ref, Num
from frontend import AnalysisBroken
from terms import show

warnings.simplefilter('ignore', SyntaxWarning)
WEIGHT = 'dyson/weight.py'
N1 = Num.c(1)


def A(I, n, integer=True, positive=True):
    a = ('v', n)
    if integer:
        I.ints.add(a)
    if positive:
        I.positive.add(a)
    return Num.atom(a)


def at(cls, name):
    f = cls.find(name)
    return (name, cls.mod, f.node.lineno if isinstance(f, pyabs.Fn) else 0)


def top(rel, st):
    return Frame(rel, st.mods[rel], None, None, '<check>')


def need(cls, *names):
    for n in names:
        if not isinstance(cls.find(n), pyabs.Fn):
            raise AnalysisBroken('no method %s of %s in %s' % (n, cls.name, cls.mod))


def loaded(I, rel):
    st = [s for s in I.module(St(), rel, rel) if s.exc is None and not s.cut]
    if not st:
        raise AnalysisBroken('%s cannot be loaded' % rel)
    return st[0]


def klass(st, rel, name):
    c = st.get(st.mods[rel], name)
    if not isinstance(c, pyabs.Cls):
        raise AnalysisBroken('no class %s in %s' % (name, rel))
    return c


def grid(I, dim):
    """[(state, map object)] with symbolic sizes"""
    st = loaded(I, WEIGHT)
    IM = klass(st, WEIGHT, 'IndexMap')
    L = st.new(('list', tuple(A(I, 'L%d' % i) for i in range(dim))))
    r = I.call(st, IM, (), dict(Beta=A(I, 'Beta', False), L=L, NSublat=A(I, 'NSublat'), MaxTauBin=A(I, 'N'), MaxTauBinTiny=A(I, 'Nt'),
                                BasisNum=A(I, 'B'), Symmetry=None), 0, top(WEIGHT, st))
    r = [(s, m) for s, m in r if s.exc is None and not s.cut]
    if not r:
        raise AnalysisBroken('the solver\'s index map cannot be made')
    return IM, r


def rowmajor(digits, sizes):
    r = Num.c(0)
    for d, k in zip(digits, sizes):
        r = r * k + d
    return r


def eq(a, b):
    a = pyabs.num(a)
    return a is not None and a == b


def say(I, s, v):
    return show(v)[:200] if isinstance(v, Num) else str(I.freeze(s, v))[:200]


def returns(I, st, cls, this, name, args):
    out = []
    for s, v in I.call(st.copy(), Bound(cls.find(name), this), tuple(args), {}, 0, top(WEIGHT, st)):
        if s.cut:
            raise AnalysisBroken('%s: %s' % (name, s.cut))
        out.append((s, v))
    return out


def items(s, v):
    if isinstance(v, Ref) and s.rec(v)[0] in ('list', 'arr'):
        return tuple(s.rec(v)[1])
    return v if isinstance(v, tuple) else None


def grids(P, res):
    """site numbers, time bins, spin pairs and tables of the solver: the forms the simulation uses"""
    beta, N = ('v', 'Beta'), ('v', 'N')
    for dim in (1, 2, 3):
        I = Interp()
        IM, made = grid(I, dim)
        need(IM, 'CoordiIndex', 'IndexToCoordi', 'LatIndex', 'TauIndex', 'IndexToTau', 'Spin2Index', 'GetConservedSpinTuple', 'IsConserved')
        size = [Num.atom(('v', 'L%d' % i)) for i in range(dim)]
        x = []
        for i in range(dim):
            a = ('v', 'x%d' % i)
            I.ints.add(a)
            I.below[a] = size[i]
            x.append(Num.atom(a))
        for st, m in made:
            want = rowmajor(x, size)
            vol = N1
            for k in size:
                vol = vol * k
            if not eq(st.get(m, 'Vol'), vol):
                res.fail('solver sites', at(IM, '__init__'), 'the number of cells is %s' % say(I, st, st.get(m, 'Vol')))
            else:
                res.ok('solver sites')
            for s, v in returns(I, st, IM, m, 'CoordiIndex', [tuple(x)]):
                if s.exc is not None or not eq(v, want):
                    res.fail('solver sites', at(IM, 'CoordiIndex'), 'in %d dimensions the number of a cell is %s; the simulation counts %s' % (dim, say(I, s, v), show(want)))
                    continue
                res.ok('solver sites')
                for s2, w in returns(I, s, IM, m, 'IndexToCoordi', [v]):
                    w = s2.exc is None and items(s2, w)
                    if not w or len(w) != dim or not all(eq(p, q) for p, q in zip(w, x)):
                        res.fail('solver sites', at(IM, 'IndexToCoordi'), 'in %d dimensions the cell of the number of x is %s, not x' % (dim, [say(I, s2, p) for p in w or ()]))
                    else:
                        res.ok('solver sites')
                sub = A(I, 'sub', True, False)
                for s2, w in returns(I, s, IM, m, 'LatIndex', [tuple(x), sub]):
                    if s2.exc is not None or not eq(w, want * Num.atom(('v', 'NSublat')) + sub):
                        res.fail('solver sites', at(IM, 'LatIndex'), 'the number of a site is %s' % say(I, s2, w))
                    else:
                        res.ok('solver sites')
            if dim != 2:
                continue
            bins(I, st, IM, m, res)
            spins(I, st, IM, m, res)
            tables(I, st, m, res, vol)
        res.analysed.append({'file': WEIGHT, 'class': 'IndexMap', 'dimension': dim})


def bins(I, st, IM, m, res):
    beta, N = Num.atom(('v', 'Beta')), Num.atom(('v', 'N'))
    tin, tout = A(I, 'tin', False, False), A(I, 'tout', False, False)
    d = tout - tin
    seen = set()
    for s, v in returns(I, st, IM, m, 'TauIndex', [tin, tout]):
        c = I.compare(s, ast.Lt(), d, 0)
        for _, sign in [(s, c)] if isinstance(c, bool) else I.truth(s.copy(), c):
            e = Num.atom(('floor', d * N / beta))
            if sign:
                e = e + N
            seen.add(sign)
            if s.exc is not None or not eq(v, e):
                res.fail('solver time bins', at(IM, 'TauIndex'), 'a time difference %s zero falls into bin %s; the simulation uses %s' % ('below' if sign else 'of at least', say(I, s, v), show(e)))
            else:
                res.ok('solver time bins')
    if seen != {True, False}:
        res.fail('solver time bins', at(IM, 'TauIndex'), 'times before and after are not told apart')
    i = A(I, 'i', True, False)
    for s, v in returns(I, st, IM, m, 'IndexToTau', [i]):
        if s.exc is not None or not eq(v, (i + Num.c(1) / Num.c(2)) * beta / N):
            res.fail('solver time bins', at(IM, 'IndexToTau'), 'bin i stands for the time %s' % say(I, s, v))
        else:
            res.ok('solver time bins')


def spins(I, st, IM, m, res):
    a, b = A(I, 'a', True, False), A(I, 'b', True, False)
    for s, v in returns(I, st, IM, m, 'Spin2Index', [a, b]):
        if s.exc is not None or not eq(v, a * Num.c(2) + b):
            res.fail('solver spins', at(IM, 'Spin2Index'), 'a pair of spins has the index %s' % say(I, s, v))
        else:
            res.ok('solver spins')
    two = [(p, p) for p in (0, 1)]
    four = [((p, q), (r, t)) for p in (0, 1) for q in (0, 1) for r in (0, 1) for t in (0, 1) if p + r == q + t]

    def plain(s, v):
        v = items(s, v) if isinstance(v, (tuple, Ref)) else v
        if isinstance(v, tuple):
            return tuple(plain(s, x) for x in v)
        c = pyabs.num(v).const() if pyabs.num(v) is not None else None
        return int(c) if c is not None else None
    for name, want in (('TwoSpins', two), ('FourSpins', four)):
        for s, v in returns(I, st, IM, m, 'GetConservedSpinTuple', [name]):
            got = s.exc is None and items(s, v)
            got = [plain(s, x) for x in got] if got is not None and got is not False else None
            if got is None:
                raise AnalysisBroken('the spin tuples for %s are not a list' % name)
            if sorted(got) != sorted(want):
                res.fail('solver spins', at(IM, 'GetConservedSpinTuple'), 'for %s the components %s are listed; spin conservation allows %s once each' % (name, sorted(got), sorted(want)))
            else:
                res.ok('solver spins')
    every = [(p, q) for p in (0, 1) for q in (0, 1)]
    cases = [(2, t, t[0] == t[1]) for t in every] + [(4, (p, q), p[0] + q[0] == p[1] + q[1]) for p in every for q in every]
    for n, t, want in cases:
        for s, v in returns(I, st, IM, m, 'IsConserved', [n, t]):
            if s.exc is not None or bool(v) != want or v not in (True, False):
                res.fail('solver spins', at(IM, 'IsConserved'), 'the component %s counts as %s' % (t, 'conserved' if v is True else 'not conserved'))
            else:
                res.ok('solver spins')


def tables(I, st, m, res, vol):
    W = klass(st, WEIGHT, 'Weight')
    sub, N = Num.atom(('v', 'NSublat')), Num.atom(('v', 'N'))
    for spin, n in (('TwoSpins', 2), ('FourSpins', 4)):
        for name in ('SmoothT', 'DeltaT'):
            want = [Num.c(n), sub, Num.c(n), sub, vol] + ([N] if name == 'SmoothT' else [])
            k = 0
            for s, w in I.call(st.copy(), W, (name, m, spin, 'Symmetric', 'R', 'T'), {}, 0, top(WEIGHT, st)):
                if s.exc is not None or s.cut:
                    continue
                k += 1
                sh = items(s, s.get(w, 'Shape'))
                if sh is None or len(sh) != len(want) or not all(eq(a, b) for a, b in zip(sh, want)):
                    res.fail('solver tables', at(W, '__init__'), 'a %s table of %s has the shape %s, the simulation uses %s' % (name, spin, [say(I, s, x) for x in sh or ()], [show(x) for x in want]))
                else:
                    res.ok('solver tables')
            if not k:
                res.fail('solver tables', at(W, '__init__'), 'no %s table of %s can be made' % (name, spin))
    res.analysed.append({'file': WEIGHT, 'class': 'Weight'})


# ------------------------------------------------------------------------------------------- results merged over the rounds
def merging(P, res):
    """the accumulated function is the weighted mean of what was merged; taking the last one back leaves the mean of the others"""
    merged(res, ('R', 'T'))
    merged(res, ('K', 'W'))


def transform(I, st, args, kw, line, fr):
    """the Fourier transforms: another table in another domain"""
    w, to = args[0], args[1:]
    new = [st.get(w, 'SpaceDomain'), st.get(w, 'TimeDomain')]
    for i, names in enumerate((('R', 'K'), ('T', 'W'))):
        for d in to:
            if d in names:
                new[i] = d
    old = (st.get(w, 'SpaceDomain'), st.get(w, 'TimeDomain'))
    if tuple(new) != old:
        for f in ('Data', 'AccuData'):
            v = pyabs.num(st.get(w, f)) if st.get(w, f) is not None else None
            if v is None:
                continue
            # linear in the tables
            r = Num.c(0)
            for mono, c in v.d.items():
                k = Num.c(1).scale(c)
                for a, e in mono:
                    k = k * (domain(a, old, new) if e == 1 and table_atom(a) else Num.atom(a, e))
                r = r + k
            st.put(w, f, r)
        st.put(w, 'SpaceDomain', new[0])
        st.put(w, 'TimeDomain', new[1])
    return [(st, None)]


def table_atom(a):
    return a[0] in ('v', 'in') and len(a) > 1 and isinstance(a[1], str) and (a[1].startswith('new') or a[1] == 'old')


def domain(a, old, new):
    if a[0] == 'v':
        return Num.atom(('in', a[1], tuple(new), tuple(old)))
    return Num.atom(('v', a[1])) if a[3] == tuple(new) else Num.atom(('in', a[1], tuple(new), a[3]))


def merged(res, of):
    I = Interp()
    IM, made = grid(I, 2)
    st, m = made[0]
    W = klass(st, WEIGHT, 'Weight')
    need(W, 'Merge', 'RollBack', 'FFT')
    I.prims[(WEIGHT, 'FFT')] = transform
    fr = top(WEIGHT, st)

    def table(s, name):
        dom = ('R', 'T') if name == 'old' else of
        for s, w in I.call(s, W, ('SmoothT', m, 'TwoSpins', 'Symmetric') + dom, {}, 0, fr):
            if s.exc is None and not s.cut:
                s.put(w, 'Data', A(I, name, False, False))
                return s, w
        raise AnalysisBroken('no table can be made')
    st = st.copy()
    st, acc = table(st, 'old')
    new = []
    for i in range(3):
        st, w = table(st, 'new%d' % i)
        new.append(w)
    r = [A(I, 'r%d' % i, False) for i in range(3)]
    x = [Num.atom(('v', 'new%d' % i) if of == ('R', 'T') else ('in', 'new%d' % i, ('R', 'T'), of)) for i in range(3)]
    everywhere = [(a, b) for a in 'RK' for b in 'TW']
    for a in [('v', 'old')] + [('v', 'new%d' % i) for i in range(3)]:
        I.scalars.add(a)
        I.scalars.update(('in', a[1], d, e) for d in everywhere for e in everywhere)

    def do(states, name, *args):
        out = []
        for s in states:
            for s2, _ in I.call(s.copy(), Bound(W.find(name), acc), tuple(args), {}, 0, fr):
                if s2.cut:
                    raise AnalysisBroken('%s: %s' % (name, s2.cut))
                out.append(s2)
        return out

    def mean(ws):
        return [sum((r[i] * x[i] for i in ws), Num.c(0)), sum((r[i] for i in ws), Num.c(0))]

    def check(rule, fn, states, ws, last, what):
        """the table is the mean of these (or the newest one while there is nothing to divide by)"""
        k = 0
        for s in states:
            k += 1
            if s.exc is not None:
                res.fail(rule, at(W, fn), '%s: stops with %s' % (what, s.exc[0]))
                continue
            v = s.get(acc, 'Data')
            v = pyabs.num(v)
            top_, bot = mean(ws)
            single = last is not None and v == x[last]
            if v is not None and ws and (v == top_ / bot or v * bot == top_):
                res.ok(rule)
            elif single and (not ws or small(I, s, bot)):
                res.ok(rule)
            else:
                res.fail(rule, at(W, fn), '%s: the table is %s, expected the mean %s over %s' % (what, say(I, s, v) if v is not None else v, show(top_), show(bot)))
        if not k:
            raise AnalysisBroken('no path through %s' % fn)

    s1 = do([st], 'Merge', r[0], new[0])
    check('merged mean', 'Merge', s1, [0], 0, 'after one result')
    s2 = do(s1, 'Merge', r[1], new[1])
    check('merged mean', 'Merge', s2, [0, 1], 1, 'after two results')
    s3 = do(s2, 'Merge', r[2], new[2])
    check('merged mean', 'Merge', s3, [0, 1, 2], 2, 'after three results')
    check('taken back', 'RollBack', do(s2, 'RollBack'), [0], 1, 'two results, the second taken back')
    check('taken back', 'RollBack', do(s3, 'RollBack'), [0, 1], 2, 'three results, the last taken back')
    check('taken back', 'Merge', do(do(s2, 'RollBack'), 'Merge', r[2], new[2]), [0, 2], 2, 'a result after one was taken back')
    # the function has been transformed since
    for d in everywhere:
        there = do(s2, 'FFT', *d)
        check('taken back', 'RollBack', do(do(there, 'RollBack'), 'FFT', 'R', 'T'), [0], 1, 'two results, the second taken back in %s/%s' % d)
        check('merged mean', 'Merge', do(do(there, 'Merge', r[2], new[2]), 'FFT', 'R', 'T'), [0, 1, 2], 2, 'three results, the third merged in %s/%s' % d)
    for s in do([st], 'RollBack'):
        if s.exc is not None or pyabs.num(s.get(acc, 'Data')) != Num.atom(('v', 'old')):
            res.fail('taken back', at(W, 'RollBack'), 'taking back before any result was merged leaves %s' % say(I, s, s.get(acc, 'Data')))
        else:
            res.ok('taken back')
    # a result that is not to be accumulated leaves the accumulation alone
    s4 = do(s1, 'Merge', None, new[1])
    check('not accumulated', 'Merge', s4, [0], 1, 'a result that is not accumulated')
    check('not accumulated', 'RollBack', do(s4, 'RollBack'), [0], 1, 'taking back a result that was not accumulated')
    check('not accumulated', 'Merge', do(s4, 'Merge', r[2], new[2]), [0, 2], 2, 'a result after one that was not accumulated')
    res.analysed.append({'file': WEIGHT, 'class': 'Weight', 'methods': ['Merge', 'RollBack']})


def small(I, s, norm):
    """this path is the one for too small a sum of weights"""
    for f, b in s.facts.items():
        a = f.single() if isinstance(f, Num) else None
        if a is None or a[0] != 'cmp':
            continue
        for k in (1, -1):
            c = (a[2].scale(k) - norm).const()
            if c is None:
                for j in a[2].d.values():
                    c = (a[2].scale(Fraction(k) / abs(j)) - norm).const()
                    if c is not None:
                        break
            if c is None or abs(c) > Fraction(1, 20):
                continue
            # k*d = norm + c ; d < 0 holds or not
            below = b if k == 1 else not b
            if below:
                return True
    return False


# ------------------------------------------------------------------------------------------- statistics files collected
COLLECT = 'dyson/collect.py'
NORM, OTHER = 2, 7
FAULTS = ('unreadable', 'Sigma', 'Polar', ('Sigma', 'NormAccu'), ('Sigma', 'Norm'), ('Polar', 'WeightAccu'), ('Polar', 'NormAccu'), 'norm')
GFAULTS = ('GammaGStatis', 'GammaWStatis', ('GammaGStatis', 'NormAccu'), ('GammaWStatis', 'Norm'), 'norm')
LABELS = {'Sigma': 'sigma', 'Polar': 'polar', 'GammaGStatis': 'gammaG', 'GammaWStatis': 'gammaW'}


def statistics(I, st, i, gamma, fault):
    """the contents of statistics file number i"""
    def table(key):
        d = {'WeightAccu': Num.atom(('v', 'w', LABELS[key], i)), 'NormAccu': Num.atom(('v', 'n', LABELS[key], i)), 'Norm': OTHER if fault == 'norm' else NORM}
        I.scalars.add(('v', 'n', LABELS[key], i))
        I.positive.add(('v', 'n', LABELS[key], i))
        if isinstance(fault, tuple) and fault[0] == key:
            del d[fault[1]]
        return st.new(('dict', d, None))
    d = {}
    for key in ('Sigma', 'Polar'):
        if fault != key:
            d[key] = st.new(('dict', {'Histogram': st.new(('dict', {'SmoothT': table(key)}, None))}, None))
    if gamma:
        for key in ('GammaGStatis', 'GammaWStatis'):
            if fault != key:
                d[key] = table(key)
    return st.new(('dict', d, None))


def collecting(P, res):
    for gamma in (False, True):
        cases = [(None, None)] + [(p, f) for f in FAULTS + (GFAULTS if gamma else ()) for p in (0, 2, 3)]
        for where_, fault in cases:
            collected(res, gamma, 4, {where_: fault} if where_ is not None else {})
        collected(res, gamma, 1, {})
        collected(res, gamma, 0, {})
        collected(res, gamma, 4, {1: 'unreadable', 2: 'norm'})
        collected(res, gamma, 5, {3: 'norm'})
        collected(res, gamma, 5, {1: 'unreadable', 4: 'norm'})


def collected(res, gamma, total, faults):
    I = Interp()
    IM = None
    iface.files(I, lambda k, n: None)
    st = loaded(I, COLLECT)
    for s in I.module(st, WEIGHT, WEIGHT):
        st = s
    IM = klass(st, WEIGHT, 'IndexMap')
    L = st.new(('list', (A(I, 'L0'), A(I, 'L1'))))
    r = [(s, m) for s, m in I.call(st, IM, (), dict(Beta=A(I, 'Beta', False), L=L, NSublat=A(I, 'NSublat'), MaxTauBin=A(I, 'N'), MaxTauBinTiny=A(I, 'Nt'),
                                                    BasisNum=A(I, 'B'), Symmetry=None), 0, top(COLLECT, st)) if s.exc is None]
    st, m = r[0]
    st = st.copy()
    names = st.new(('list', tuple('file%d' % i for i in range(total))))
    if not isinstance(st.get(st.mods[COLLECT], 'GetFileList'), pyabs.Fn) or not isinstance(st.get(st.mods[COLLECT], 'CollectStatis'), pyabs.Fn):
        raise AnalysisBroken('collect.py has changed')
    I.prims[(COLLECT, 'GetFileList')] = lambda I, s, a, k, l, f: [(s, names)]

    def load(I, s, args, kw, line, fr):
        i = args[0] if args else kw.get('filename')
        if not isinstance(i, str) or not i.startswith('file'):
            raise AnalysisBroken('a file of another name is read: %s' % (i,))
        i = int(i[4:])
        if faults.get(i) == 'unreadable':
            return I.fail(s, 'IOError', 'cannot read', line)
        return [(s, statistics(I, s, i, gamma, faults.get(i)))]
    I.prims[('IO.py', 'LoadBigDict')] = load
    fn = st.get(st.mods[COLLECT], 'CollectStatis')
    spot = ('CollectStatis', COLLECT, fn.node.lineno)
    case = '%d files%s%s' % (total, ', vertex functions too' if gamma else '', ''.join(', file %d %s' % (i, 'cannot be read' if f == 'unreadable' else 'of another normalisation' if f == 'norm'
                             else 'lacks ' + '/'.join(f if isinstance(f, tuple) else (f,))) for i, f in sorted(faults.items())))
    good = [i for i in range(total) if i not in faults]
    k = 0
    for s, v in I.call(st, fn, (m, gamma), {}, 0, top(COLLECT, st)):
        if s.cut:
            raise AnalysisBroken('CollectStatis: %s' % (s.cut,))
        k += 1
        if s.exc is not None:
            if any(x.split(':')[-1] == 'CollectStatisFailure' for x in I.exc_kinds(s, s.exc)):
                # too few files are left
                first = faults.get(0) == 'norm'
                if total and not first and 4 * len(good) >= 3 * total:
                    res.fail('collected', spot, '%s: the collection fails although enough files are good' % case)
                else:
                    res.ok('too few')
            else:
                res.fail('collected', spot, '%s: stops with %s' % (case, s.exc[:2]))
            continue
        if not total or 4 * len(good) < 3 * total:
            res.fail('too few', spot, '%s: the round goes on with %d of %d files' % (case, len(good), total))
            continue
        v = items(s, v)
        if v is None or len(v) != 4:
            raise AnalysisBroken('what CollectStatis returns has changed')
        for label, e in (('sigma', v[0]), ('polar', v[1])):
            w, n, norm = [pyabs.num(s.get(e, x)) if s.get(e, x) is not None else None for x in ('WeightAccu', 'NormAccu', 'Norm')]
            pair(res, spot, case, label, w, n, norm, good, faults, total)
        if gamma:
            for label, x in (('gammaG', v[2]), ('gammaW', v[3])):
                mean_of(res, I, s, spot, case, label, x, good, faults, total)
        elif v[2] is not None or v[3] is not None:
            res.fail('collected', spot, '%s: vertex functions are returned that were not asked for' % case)
    if not k:
        raise AnalysisBroken('no path through CollectStatis')
    res.analysed.append({'case': case})


def members(p, kind, label, total):
    """which files the sum holds, or None when it is not a plain sum of them"""
    if p is None:
        return None
    S = set()
    for i in range(total):
        a = Num.atom(('v', kind, label, i))
        if any(('v', kind, label, i) in dict(m) for m in p.d):
            S.add(i)
            p = p - a
    return S if p == Num.c(0) else None


def admissible(S, good, faults):
    norms = {OTHER if faults.get(i) == 'norm' else NORM for i in S}
    return S is not None and set(good) <= S and len(norms) == 1 and not any(faults.get(i) == 'unreadable' for i in S)


def pair(res, spot, case, label, w, n, norm, good, faults, total):
    a, b = members(w, 'w', label, total), members(n, 'n', label, total)
    if a is None or b is None or a != b:
        res.fail('collected', spot, '%s: the values of %s are summed over files %s and the normalisations over %s' % (case, label, a and sorted(a), b and sorted(b)))
    elif not admissible(a, good, faults):
        res.fail('collected', spot, '%s: %s is collected from files %s' % (case, label, sorted(a)))
    elif norm is None or norm.const() != (OTHER if any(faults.get(i) == 'norm' for i in a) else NORM):
        res.fail('collected', spot, '%s: the normalisation of %s is %s' % (case, label, norm))
    else:
        res.ok('collected')


def mean_of(res, I, s, spot, case, label, x, good, faults, total):
    x = pyabs.num(x)
    bad = [i for i in faults]
    for S in [set(good)] + [set(good) | {i} for i in bad]:
        if not admissible(S, good, faults):
            continue
        w = sum((Num.atom(('v', 'w', label, i)) for i in sorted(S)), Num.c(0))
        n = sum((Num.atom(('v', 'n', label, i)) for i in sorted(S)), Num.c(0))
        if x is not None and (x * n == w * Num.c(NORM) or x == w * (Num.c(NORM) / n) or x == w * Num.c(NORM) * (N1 / n)):
            res.ok('collected')
            return
    res.fail('collected', spot, '%s: %s is %s, expected the sum of the values of the files over the sum of their normalisations, times %d' % (case, label, show(x)[:200] if x is not None else x, NORM))
