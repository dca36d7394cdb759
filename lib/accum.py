"""Accumulators: where a measured value is added, how the tables are sized, how history is discarded."""
from terms import Num, N0, N1, show
from absint import NULL, strip
from frontend import AnalysisBroken
from plain import *
from weightfns import LOOK, IDX, W, uninterpreted, coord
from oblig import facts


def absloc(b, p):
    """a location as a path from its root object"""
    p = tuple(p)
    while b[0] in ('fld', 'ptr'):
        p = tuple(b[2]) + p
        b = b[1]
    return b, p


def names(loc):
    b, p = loc
    return ('' if b == THIS else show(b) + ':') + '.'.join(x for x in p if isinstance(x, str))


def changed(s, frm=0):
    """last value of every written location that is not a function-local static: {(base, path): (value, where)}"""
    out = {}
    for b, p, v, w in s.log[frm:]:
        if b[0] == 'glob':
            continue
        out[(b, tuple(s.n(x) if isinstance(x, (Num, tuple)) else x for x in p))] = (s.n(v), w)
    return by_parts(out, s)


def by_parts(out, s):
    """a complex number whose real and imaginary part are written one after the other counts as one location"""
    for b, p in [k for k in out if k[1] and k[1][-1] == 'Re' and (k[0], k[1][:-1] + ('Im',)) in out]:
        im = (b, p[:-1] + ('Im',))
        dr, di = old(out[(b, p)][0], (b, p), s), old(out[im][0], im, s)
        d = None if dr is None or di is None else whole(dr, di)
        if d is not None:
            out[(b, p[:-1])] = (Num.atom(('fld', b, p[:-1], 'Complex')) + d, out[(b, p)][1])
            del out[(b, p)], out[im]
    return out


def whole(dr, di):
    """the number with parts dr, di when both are the same real multiple of the parts of one number (or of its conjugate)"""
    if not dr.d and not di.d:
        return N0
    part = lambda n, k: [a for a in n.atoms() if a[0] == k]
    if len(part(dr, 're')) == 1 and len(part(di, 'im')) == 1 and part(dr, 're')[0][1] == part(di, 'im')[0][1]:
        x = part(dr, 're')[0][1]
        f, g = dr / Num.atom(('re', x)), di / Num.atom(('im', x))
        ok = not any(a[0] in ('re', 'im') for n in (f, g) for a in n.atoms())
        return None if not ok else f * x if f == g else f * conj(x) if f == -g else None
    xs = {absloc(a[1], a[2]): a for n in (dr, di) for a in n.atoms() if a[0] == 'fld' and a[2] and a[2][-1] in ('Re', 'Im')}
    if {k[1][-1] for k in xs} != {'Re', 'Im'} or len({(k[0], k[1][:-1]) for k in xs}) != 1:
        return None
    re, im = [next(a for k, a in xs.items() if k[1][-1] == c) for c in ('Re', 'Im')]
    f, g = dr / Num.atom(re), di / Num.atom(im)
    if any(x in n.atoms() for x in (re, im) for n in (f, g)):
        return None
    x = Num.atom(('fld', re[1], tuple(re[2][:-1]), 'Complex'))
    return f * x if f == g else f * conj(x) if f == -g else None


def idx_of(loc):
    ix = [x for x in loc[1] if isinstance(x, Num)]
    return ix[0] if len(ix) == 1 else None


def old(v, loc, s):
    """v - (value of loc before)"""
    for a in v.atoms():
        if a[0] in ('fld', 'undef') and absloc(a[1], a[2]) == absloc(*loc):
            return v - Num.atom(a)
    return None


def one_write(res, rule, fn, s, want_idx, want_val, extra=''):
    ch = changed(s)
    if len(ch) != 1:
        res.fail(rule, where(fn), 'one measurement changes %d locations: %s' % (len(ch), [names(k) for k in ch]), facts(s))
        return
    (loc, (v, w)), = ch.items()
    ix = idx_of(loc)
    d = old(v, loc, s)
    if ix is None or d is None:
        res.fail(rule, w, 'a measurement assigns %s' % show(v)[:200], facts(s))
        return
    if s.n(ix) != s.n(want_idx):
        res.fail(rule, w, 'a measurement is added to bin %s, expected %s' % (show(s.n(ix))[:200], show(s.n(want_idx))[:200]), facts(s))
    elif s.n(d) != s.n(want_val):
        res.fail(rule, w, 'a measurement adds %s, expected %s' % (show(s.n(d))[:200], show(s.n(want_val))[:200]), facts(s))
    else:
        res.ok(rule)


def fldv(n, path=(), t='double'):
    return Num.atom(('fld', ('p', n), tuple(path), t))


def aborted_path(s, order):
    return s.decide_lt0(s.n(order - N1)) is True


def measure(P, res):
    """self-energy and polarization: bin = one block per order, then the table index; the sign of the time order goes with the
    self-energy as it goes with the propagator"""
    nm = ['r1', 'r2', 't1', 't2', 's1', 's2', 'order', 'w']
    for cls, k in (('SigmaClass', 'G'), ('PolarClass', 'W')):
        fn = find(P, W + cls + '::Measure')
        I = interp(P, LOOK)
        lk = interp(P, LOOK)
        st = I.new_state()
        order = fldv('order', (), 'int')
        for s, _ in I.inline(fn, I.split(st), THIS, symargs(I, fn, nm), None, False):
            ch = changed(s)
            size = [a for a in sizes(s, ch)]
            if aborted_path(s, order):
                continue
            # the index a propagator (interaction) with the same ends would have
            spins = tuple([fldv('s1', (), 'spin'), fldv('s2', (), 'spin')]) if k == 'G' else \
                tuple((fldv(n, (), 'spin'), fldv(n, (1,), 'spin')) for n in ('s1', 's2'))
            want = None
            for a in atoms_of(s, ch):
                if a[0] == 'index':
                    want = a
            if want is None or len(size) != 1:
                res.fail('bin of a measurement', where(fn), 'the bin does not depend on the table index and the order: %s' % [show(idx_of(l)) for l in ch if idx_of(l) is not None], facts(s))
                continue
            exp = ('index',) + tuple(spins) + want[3:5] + (fldv('t1'), fldv('t2'))
            if len(want) != 7 or tuple(want[1:3]) != spins or tuple(want[5:]) != (fldv('t1'), fldv('t2')) or not sites(want[3:5], ('r1', 'r2')):
                res.fail('bin of a measurement', where(fn), 'the table index is taken at %s' % show(Num.atom(want))[:200], facts(s))
                continue
            val = fldv('w', (), 'Complex')
            if k == 'G':
                val = val * Num.atom(('tsf', fldv('t1'), fldv('t2')))
            one_write(res, 'bin of a measurement', fn, s, (order - N1) * size[0] + Num.atom(want), val)
        res.analysed.append({'function': fn['fn']})
    for cls in ('WeightEstimator', 'GammaGClass', 'GammaWClass'):
        fn = find(P, W + cls + '::MeasureNorm')
        I = interp(P)
        for s, _ in I.inline(fn, I.new_state(), THIS, symargs(I, fn, ['w']), None, False):
            ch = changed(s)
            good = [l for l in ch if names(l).endswith('_NormAccu')]
            if len(ch) != 1 or not good or old(ch[good[0]][0], good[0], s) != fldv('w'):
                res.fail('norm of a measurement', where(fn), 'the norm becomes %s' % [(names(l), show(v[0])) for l, v in ch.items()], facts(s))
            else:
                res.ok('norm of a measurement')
        res.analysed.append({'function': fn['fn']})


def sites(xs, want):
    got = []
    for x in xs:
        while isinstance(x, tuple) and x and x[0] in ('fld', 'ptr'):
            x = x[1]
        got.append(x[1] if isinstance(x, tuple) and len(x) > 1 else None)
    return tuple(got) == tuple(want)


def atoms_of(s, ch):
    out = []
    for loc in ch:
        i = idx_of(loc)
        if i is not None:
            out += list(i.atoms())
    return out


def sizes(s, ch):
    out = []
    for a in atoms_of(s, ch):
        if a[0] == 'fld' and strip(a[3]) in ('unsigned int', 'int', 'unsigned long') and absloc(a[1], a[2])[0] == THIS:
            if Num.atom(a) not in out:
                out.append(Num.atom(a))
    return out


# ------------------------------------------------------------------------------------------- vertex functions
def gamma(P, res):
    """what is measured in a bin is looked up from the same bin: same index, same sign"""
    I = interp(P, IDX)
    nm = ['gin', 'gout', 'u', 'tin', 'tout', 'tu', 'sin', 'sout', 'su', 'w']
    cls = W + 'GammaGClass'
    ctor = find(P, cls + '::GammaGClass')
    st0 = built(I, P, ctor, ['lat', 'beta', 'bins', 'norm'])
    fw, fm = find(P, cls + '::Weight'), find(P, cls + '::Measure')
    n = 0
    M, V = fldv('bins', (), 'unsigned int'), fldv('lat', ('Vol',), 'int')
    beta = fldv('beta')
    for s, v in I.inline(fw, I.split(st0), THIS, symargs(I, fw, nm[:9]), None, False):
        if bad_times(s, beta, [fldv('tin'), fldv('tout')], fldv('tu')):
            continue
        v = s.n(v)
        tab = [a for a in v.atoms() if a[0] in ('fld', 'undef') and any(isinstance(x, Num) for x in a[2])]
        if len(tab) != 1 or len(v.d) != 1:
            res.fail('vertex function of a propagator', where(fw), 'the weight is %s' % show(v)[:200], facts(s))
            continue
        ix = [x for x in tab[0][2] if isinstance(x, Num)][0]
        sign = v.monomial()[0]
        b1, s1 = wrapbin(s, fldv('tout') - fldv('tu'), beta, M)
        b2, s2 = wrapbin(s, fldv('tin') - fldv('tu'), beta, M)
        co = [a for a in ix.atoms() if a[0] == 'coord']
        if len(co) != 1 or not sites(co[0][-2:], ('gin', 'u')):
            res.fail('vertex function of a propagator', where(fw), 'the displacement of the index is %s' % [show(x) for x in co], facts(s))
            continue
        want = ((fldv('sin', (), 'spin') * V + Num.atom(co[0])) * M + b1) * M + b2
        if cut(s, ix) != cut(s, want):
            res.fail('vertex function of a propagator', where(fw), 'the index is %s, a one-to-one index is %s' % (show(cut(s, ix))[:300], show(cut(s, want))[:300]), facts(s))
        elif sign != s1 * s2:
            res.fail('vertex function of a propagator', where(fw), 'the sign is %s' % sign, facts(s))
        else:
            res.ok('vertex function of a propagator')
        n0 = len(s.log)
        for q, _ in I.inline(fm, s, THIS, symargs(I, fm, nm), None, False):
            if bad_times(q, beta, [fldv('tin'), fldv('tout')], fldv('tu')):
                continue
            ch = changed(q, n0)
            if len(ch) != 1:
                res.fail('measured where it is looked up', where(fm), 'one measurement changes %s' % [names(l) for l in ch], facts(q))
                continue
            (loc, (val, w)), = ch.items()
            d = old(val, loc, q)
            if cut(q, idx_of(loc)) != cut(q, ix):
                res.fail('measured where it is looked up', w, 'measured in bin %s, looked up from %s' % (show(idx_of(loc))[:200], show(ix)[:200]), facts(q))
            elif d != fldv('w', (), 'Complex') * Num.c(sign):
                res.fail('measured where it is looked up', w, 'a measurement adds %s' % (show(d) if d is not None else show(val)), facts(q))
            else:
                res.ok('measured where it is looked up')
            n += 1
    res.analysed += [{'function': fw['fn']}, {'function': fm['fn'], 'pairs of paths': n}]


def bad_times(s, beta, ts, u):
    """times lie in [0, beta)"""
    for t in ts:
        d = t - u
        if s.decide_lt0(s.n(d + beta)) is True or s.decide_lt0(s.n(beta - d)) is True:
            return True
    return False


def wrapbin(s, d, beta, M):
    neg = s.decide_lt0(s.n(d))
    if neg is None:
        raise AnalysisBroken('the sign of a time difference is not decided')
    if neg:
        d = d + beta
    return Num.atom(('floor', s.n(d * M / beta))), (-1 if neg else 1)


def cut(s, v):
    """floor(x + n) = floor(x) + n, integer conversions of integers dropped"""
    r = N0
    for m, c in s.n(v).d.items():
        t = Num.c(c)
        for a, e in m:
            f = fl(a) if e == 1 else None
            t = t * (f if f is not None else Num.atom(a, e))
        r = r + t
    return s.n(r)


def fl(a):
    if a[0] == 'trunc' and isinstance(a[1], Num):
        x = a[1].single()
        return fl(x) or a[1] if x is not None else a[1]
    if a[0] == 'floor' and isinstance(a[1], Num):
        ints = Num({m: c for m, c in a[1].d.items() if intmono(m) and c.denominator == 1})
        return Num.atom(('floor', a[1] - ints)) + ints
    return None


def intmono(m):
    return all(e > 0 and (a[0] == 'fld' and strip(a[3]) in ('int', 'unsigned int', 'unsigned long', 'spin')) for a, e in m)


def built(I, P, ctor, nm):
    st = I.new_state()
    out = I.inline(ctor, I.split(st), THIS, symargs(I, ctor, nm[:len(ctor['params'])]), None, False)
    # allocation paths differ in whether a table existed before: the constructor starts from none
    return out[0][0]


# spins (out at one end, in at the other): left pair, right pair
SIX = {(1, 1, 1, 1): 0, (0, 0, 0, 0): 1, (1, 1, 0, 0): 2, (0, 0, 1, 1): 3, (1, 0, 0, 1): 4, (0, 1, 1, 0): 5}


def gammaw(P, res):
    """the vertex function of an interaction: compressed table, one bin for lookup and measurement"""
    I = interp(P, IDX)
    nm = ['win', 'wout', 'u', 'tin', 'tout', 'tu', 'sin', 'sout', 'su', 'w']
    cls = W + 'GammaWClass'
    fw, fm = find(P, cls + '::Weight'), find(P, cls + '::Measure')
    ctor = find(P, cls + '::GammaWClass')
    beta, M, V = fldv('beta'), fldv('bins', (), 'unsigned int'), fldv('lat', ('Vol',), 'int')
    looked = {}
    for key, kind in SIX.items():
        st = prepared(I, P, ctor)
        sp = {}
        for n, (a, b) in (('sout', key[:2]), ('sin', key[2:])):
            o = ('new', 'spins', n)
            st.log.append((o, ('a', 0), Num.c(a), ('', '', 0)))
            st.log.append((o, ('a', 1), Num.c(b), ('', '', 0)))
            sp[n] = ('ptr', o, ('a', 0))
        wa, ma = symargs(I, fw, nm[:9]), symargs(I, fm, nm)
        for args in (wa, ma):
            args[6], args[7] = sp['sin'], sp['sout']
        n0 = len(st.log)
        for s, v in I.inline(fw, st, THIS, wa, None, False):
            if bad_times(s, beta, [fldv('tin'), fldv('tout')], fldv('tu')):
                continue
            v = s.n(v)
            tab = [a for a in walk_atoms(v) if a[0] in ('fld', 'undef') and strip(a[-1] if a[0] == 'fld' else 'Complex') == 'Complex']
            tab = list(dict.fromkeys(tab))
            if len(tab) != 1:
                res.fail('vertex function of an interaction', where(fw), 'the weight is %s' % show(v)[:200], facts(s))
                continue
            T = Num.atom(tab[0])
            ix = s.n([x for x in tab[0][2] if isinstance(x, Num)][0])
            b1, _ = wrapbin(s, fldv('tout') - fldv('tu'), beta, M)
            b2, _ = wrapbin(s, fldv('tin') - fldv('tu'), beta, M)
            problem, flag = bin_of(s, ix, b1, b2, M, V, kind)
            if problem:
                res.fail('vertex function of an interaction', where(fw), problem, facts(s))
                continue
            N = -conjc(T) if flag else T
            want = [N] if kind in (0, 1) else [-N] if kind in (2, 3) else [-conjc(N), N]
            if v not in want:
                res.fail('vertex function of an interaction', where(fw), 'for spins %s the weight is %s' % (key, show(v)[:200]), facts(s))
                continue
            res.ok('vertex function of an interaction')
            if kind > 3:
                looked.setdefault(kind, set()).add(v == N)
            n0 = len(s.log)
            for q, _ in I.inline(fm, s, THIS, ma, None, False):
                if bad_times(q, beta, [fldv('tin'), fldv('tout')], fldv('tu')):
                    continue
                ch = changed(q, n0)
                if len(ch) != 1:
                    res.fail('measured where it is looked up', where(fm), 'one measurement changes %s' % [names(l) for l in ch], facts(q))
                    continue
                (loc, (val, w)), = ch.items()
                d = old(val, loc, q)
                if cut(q, idx_of(loc)) != cut(q, ix):
                    res.fail('measured where it is looked up', w, 'measured in bin %s, looked up from %s' % (show(idx_of(loc))[:200], show(ix)[:200]), facts(q))
                    continue
                sym = [a for a in (d.atoms() if d is not None else ()) if a[0] == 'fld' and strip(a[3]) == 'int']
                x = fldv('w', (), 'Complex')
                good = False
                if d is not None and len(sym) == 2:
                    x = x / Num.atom(sym[0]) / Num.atom(sym[1])
                    x = -conjc(x) if flag else x
                    x = x if kind in (0, 1) else -x if kind in (2, 3) else x / Num.c(2) if kind == 4 else -conjc(x) / Num.c(2)
                    good = d == q.n(x) and symidx(q, sym, ix, M, V, b1, b2)
                if not good:
                    res.fail('measured where it is looked up', w, 'for spins %s a measurement adds %s' % (key, show(d)[:300] if d is not None else show(val)[:300]), facts(q))
                else:
                    res.ok('measured where it is looked up')
    if looked.get(4) and looked.get(5) and (len(looked[4]) != 1 or len(looked[5]) != 1 or looked[4] == looked[5]):
        res.fail('vertex function of an interaction', where(fw), 'the two spin-exchange parts are not minus the conjugate of each other')
    elif looked:
        res.ok('vertex function of an interaction')
    res.analysed += [{'function': fw['fn']}, {'function': fm['fn']}]


def conjc(x):
    return conj(x)


def walk_atoms(v):
    out = []
    if isinstance(v, Num):
        for a in v.atoms():
            out += walk_atoms(a)
    elif isinstance(v, tuple) and v:
        if v[0] == 'conj':
            return walk_atoms(v[1])
        if isinstance(v[0], str):
            out.append(v)
    return out


def vecname(a):
    b, p = absloc(a[1], a[2])
    return [x for x in p if isinstance(x, str)][-1] if b == THIS else None


def bin_of(s, ix, b1, b2, M, V, kind):
    """block of the spins + site entry * number of time entries + time entry; returns (problem, sign flag of the time entry)"""
    ix = s.n(ix)
    el = [a for a in ix.atoms() if a[0] == 'fld' and any(isinstance(x, Num) for x in a[2])]
    sz = [a for a in ix.atoms() if a[0] == 'fld' and not any(isinstance(x, Num) for x in a[2]) and absloc(a[1], a[2])[0] == THIS]
    by = {}
    for a in el:
        by[vecname(a)] = a
    if len(el) != 2 or len(by) != 2:
        return 'the index is %s' % show(ix)[:300], None
    tw = [a for a in el if Num({frozenset([(a, 1)]): 1}).atoms() and coeff(ix, a) == N1]
    rw = [a for a in el if a not in tw]
    if len(tw) != 1 or len(rw) != 1:
        return 'the index is %s' % show(ix)[:300], None
    tau, r = tw[0], rw[0]
    tsize = coeff(ix, r)
    if tsize.single() not in sz:
        return 'the index is %s' % show(ix)[:300], None
    rest = ix - Num.atom(tau) - Num.atom(r) * tsize
    if kind < 4:
        if rest != N0:
            return 'the index of a spin-conserving vertex function is %s' % show(ix)[:300], None
    else:
        o = [a for a in sz if a != tsize.single()]
        if len(o) != 1 or rest != Num.atom(o[0]) * tsize:
            return 'the index of a spin-exchanging vertex function is %s' % show(ix)[:300], None
    ti = [x for x in tau[2] if isinstance(x, Num)][0]
    ri = [x for x in r[2] if isinstance(x, Num)][0]
    if cut(s, ti) != cut(s, b1 * M + b2):
        return 'the entry of the times is %s, expected %s' % (show(ti)[:200], show(b1 * M + b2)[:200]), None
    co = [a for a in ri.atoms() if a[0] == 'coord']
    if len(co) != 2 or not (sites(co[0][-2:], ('wout', 'u')) and sites(co[1][-2:], ('win', 'u')) or sites(co[1][-2:], ('wout', 'u')) and sites(co[0][-2:], ('win', 'u'))):
        return 'the entry of the sites is %s' % show(ri)[:200], None
    c1 = [a for a in co if sites(a[-2:], ('wout', 'u'))][0]
    c2 = [a for a in co if a != c1][0]
    if s.n(ri) != s.n(Num.atom(c1) * V + Num.atom(c2)):
        return 'the entry of the sites is %s' % show(ri)[:200], None
    # the sign flag of the same time entry was asked on the way
    flag = None
    for a in flags(s):
        if cut(s, [x for x in a[2] if isinstance(x, Num)][0]) == cut(s, ti):
            z = s.decide_eq0(s.n(Num.atom(a)))
            if z is not None:
                flag = not z
    if flag is None:
        return 'the sign flag of the times is not looked at', None
    return None, flag


def coeff(p, a):
    """coefficient of the atom in a polynomial of degree one in it"""
    r = N0
    for m, c in p.d.items():
        k = dict(m)
        if a in k:
            if k[a] != 1:
                return N0
            t = Num.c(c)
            for b, e in m:
                if b != a:
                    t = t * Num.atom(b, e)
            r = r + t
    return r


def flags(s):
    seen = []

    def w(t):
        if isinstance(t, Num):
            for a in t.atoms():
                w(a)
        elif isinstance(t, tuple):
            if t and t[0] == 'fld' and any(isinstance(x, Num) for x in t[2]) and strip(t[3]) == 'int':
                if t not in seen:
                    seen.append(t)
            for x in t:
                if isinstance(x, (tuple, Num)):
                    w(x)
    for k in list(s.sub) + list(s.bools) + list(s.bnd):
        w(k)
    return [a for a in seen]


def symidx(q, sym, ix, M, V, b1, b2):
    """one factor of the site pair and one of the time pair"""
    el = [a for a in ix.atoms() if a[0] == 'fld' and any(isinstance(x, Num) for x in a[2])]
    tau = [a for a in el if coeff(ix, a) == N1][0]
    r = [a for a in el if a != tau][0]
    idx = lambda a: cut(q, [x for x in a[2] if isinstance(x, Num)][0])
    have = sorted([repr(idx(a)) for a in sym])
    nmz = set(vecname(a) for a in sym) & set(vecname(a) for a in el)
    return not nmz and have == sorted([repr(idx(tau)), repr(idx(r))]) and len(set(vecname(a) for a in sym)) == 2


def prepared(I, P, ctor):
    s = built(I, P, ctor, ['lat', 'beta', 'bins', 'basis', 'norm'])
    # the containers are filled later, from a file
    s.log[:] = [x for x in s.log if not (isinstance(x[2], tuple) and x[2] and x[2][0] == 'S' and 'std::' in x[2][1])]
    return s


# ------------------------------------------------------------------------------------------- sizes and first contents
def members(P, cls, pred):
    """members of a class and its bases"""
    out = []
    for b in P.recs[cls].get('bases', []):
        b = b if isinstance(b, str) else b.get('t', b.get('name', ''))
        if strip(b) in P.recs:
            out += members(P, strip(b), pred)
    r = P.recs[cls]
    out += [(f['name'], f['dt'] if f.get('dt') else f['t']) for f in r['fields'] if pred(f)]
    return out


def isarray(f):
    return 'WeightArray<' in (f.get('dt') or f['t'])


def dim(t):
    return int(t[t.index('WeightArray<') + 12:].split('>')[0])


def news(s):
    return {e[1]: e[3] for e in s.ev if e[0] == 'new'}


def loops(s, obj):
    """[(induction variable, first, condition, step, value, index)] of the loops that write the elements of an array"""
    out = []
    for e in s.ev:
        if e[0] == 'loop-write':
            out.append(e)
    return out


def table_ok(I, s, path, want, res, rule, fn, what, exact=True):
    """the array at this.path has room for `want` elements"""
    data = s.n(read1(I, s, (THIS, path + ('_Data',)), 'Complex *'))
    n = news(s)
    if data not in n or n[data] is None:
        res.fail(rule, where(fn), '%s is not allocated' % what, facts(s))
        return None
    cnt = s.n(n[data])
    sh = read1(I, s, (THIS, path + ('_Size',)), 'unsigned int')
    if cnt != s.n(sh):
        res.fail(rule, where(fn), '%s: %s elements are allocated, its size says %s' % (what, show(cnt)[:120], show(s.n(sh))[:120]), facts(s))
    elif cnt != s.n(want):
        res.fail(rule, where(fn), '%s has %s elements, its index runs up to %s' % (what, show(cnt)[:160], show(s.n(want))[:160]), facts(s))
    else:
        res.ok(rule)
    return data


def filled(s, data, val, size, res, rule, fn, what):
    """every element is assigned `val`, by the last loop over the table"""
    ok = False
    got = None
    for e in s.ev:
        if e[0] != 'loop-write':
            continue
        b, p = absloc(e[1][0], e[1][1])
        if b != data:
            continue
        got = e[1]
        ok = wholeloop(s, e, size) and s.n(e[1][2]) == val
    if not ok:
        res.fail(rule, where(fn), '%s is not set to %s everywhere%s' % (what, show(val), ': %s' % show(s.n(got[2]))[:100] if got else ''), facts(s))
    else:
        res.ok(rule)


def wholeloop(s, e, size):
    """the loop visits the elements 0 .. size-1 once each, in either direction"""
    sh = e[2]
    if not sh:
        return False
    i, first, cond, step = sh
    idx = [x for x in e[1][1] if isinstance(x, Num)]
    if len(idx) != 1 or (idx[0] - i).const() is None or not isinstance(first, Num):
        return False
    k = (idx[0] - i).const()
    lo, hi = i + Num.c(k), s.n(i + Num.c(k) - size)
    cond = norm_cond(s, cond)
    first = s.n(first + Num.c(k))
    if step == 1:
        return first == N0 and cond in (('lt0', hi), ('not', ('eq0', hi)), ('not', ('eq0', -hi)), ('not', ('lt0', -hi - N1)))
    if step == -1:
        return first == s.n(size - N1) and cond in (('not', ('lt0', lo)), ('lt0', -lo - N1), ('not', ('eq0', lo + N1)), ('not', ('eq0', -lo - N1)))
    return False


def norm_cond(s, c):
    if isinstance(c, Num):
        return ('not', ('eq0', s.n(c)))
    if isinstance(c, tuple) and c[0] == 'not':
        d = norm_cond(s, c[1])
        return d[1] if d[0] == 'not' else ('not', d)
    if isinstance(c, tuple) and c[0] == 'eq' and isinstance(c[1], Num):
        return ('eq0', s.n(c[1] - c[2]))
    if isinstance(c, tuple) and c[0] in ('lt0', 'eq0'):
        return (c[0], s.n(c[1]))
    return c


def lastfill(s, data, val, size, res, rule, fn, what):
    w = [e for e in s.ev if e[0] == 'loop-write' and absloc(e[1][0], e[1][1])[0] == data]
    if w and wholeloop(s, w[-1], size) and s.n(w[-1][1][2]) == val:
        res.ok(rule)
    else:
        res.fail(rule, where(fn), '%s is not set to %s everywhere%s' % (what, show(val), ': the last loop assigns %s' % show(s.n(w[-1][1][2]))[:100] if w else ''), facts(s))


def sz(*names):
    return [fldv('lat', (n,), 'int') for n in names]


def alloc(P, res):
    """tables have room for every index, start from zero; a measuring line counts with weight one"""
    sub, vol = sz('SublatVol', 'Vol')
    bins = fldv('bins', (), 'unsigned int')
    full = {'G': Num.c(4) * sub * sub * vol * bins, 'W': Num.c(16) * sub * sub * vol * bins}
    # the maps build shapes that mention the lattice volume through their own members
    for cls, k in (('GClass', 'G'), ('WClass', 'W')):
        fn = find(P, W + cls + '::' + cls)
        I = interp(P)
        st = I.new_state()
        for s, _ in I.inline(fn, st, THIS, symargs(I, fn, ['lat', 'beta', 'bins', 'sym'][:len(fn['params'])]), None, False):
            for nm, t in members(P, W + cls, isarray):
                d = dim(t)
                want = full[k] if d == 6 else full[k] / bins
                data = table_ok(I, s, (nm,), want, res, 'table size', fn, '%s::%s' % (cls, nm))
                if data is not None:
                    one = nm == MEAS.get(cls)
                    lastfill(s, data, N1 if one else N0, s.n(want), res, 'first contents', fn, '%s::%s' % (cls, nm))
        res.analysed.append({'function': fn['fn']})
    # accumulators: one block per order
    I = interp(P)
    fn = find(P, W + 'WeightEstimator::Allocate')
    for kind, ctor in (('G', W + 'IndexMapSPIN2::IndexMapSPIN2'), ('W', W + 'IndexMapSPIN4::IndexMapSPIN4')):
        c = [f for f in find(P, ctor, many=True) if len(f['params']) >= 3][0]
        st = I.new_state()
        m = ('new', 'map', 0)
        s0 = I.inline(c, st, m, symargs(I, c, ['beta', 'bins', 'lat', 'sym']), None, False)
        if len(s0) != 1:
            raise AnalysisBroken('%s is not straight-line' % c['fn'])
        order = fldv('order', (), 'int')
        for s, _ in I.inline(fn, s0[0][0], THIS, [('ref', (m, ())), order, fldv('norm')], None, False):
            # the shape array of the estimator, whatever it is called
            for nm, t in members(P, W + 'WeightEstimator', isarray):
                data = table_ok(I, s, (nm,), full[kind] * order, res, 'table size', fn, 'WeightEstimator::%s' % nm)
                if data is not None:
                    lastfill(s, data, N0, s.n(full[kind] * order), res, 'first contents', fn, 'WeightEstimator::%s' % nm)
            sizes_ = [p for b, p in [absloc(b, p) for b, p, v, w in s.log] if b == THIS and p and s.n(read1(I, s, (THIS, p), 'unsigned int')) == s.n(full[kind])]
            if not sizes_:
                res.fail('table size', where(fn), 'no member holds the number of bins of one order', facts(s))
            else:
                res.ok('table size')
            norm_zero(I, P, W + 'WeightEstimator', s, fn, res)
    res.analysed.append({'function': fn['fn']})
    ctor = find(P, W + 'GammaGClass::GammaGClass')
    I = interp(P, IDX)
    for s, _ in I.inline(ctor, I.new_state(), THIS, symargs(I, ctor, ['lat', 'beta', 'bins', 'norm']), None, False):
        want = Num.c(2) * vol * bins * bins
        for nm, t in members(P, W + 'GammaGClass', isarray):
            data = table_ok(I, s, (nm,), want, res, 'table size', ctor, 'GammaGClass::%s' % nm)
        norm_zero(I, P, W + 'GammaGClass', s, ctor, res)
    res.analysed.append({'function': ctor['fn']})


MEAS = {'GClass': '_MeasureWeight', 'WClass': '_MeasureWeight'}


def norm_zero(I, P, cls, s, fn, res):
    v = s.n(read1(I, s, (THIS, ('_NormAccu',)), 'double'))
    if v != N0:
        res.fail('first contents', where(fn), 'the norm starts from %s' % show(v)[:100], facts(s))
    else:
        res.ok('first contents')


def squeeze(P, res):
    """history is discarded by one factor for the values and the norm, in every accumulator"""
    f = fldv('f')
    for cls in ('weight::WeightEstimator', 'weight::GammaGClass', 'weight::GammaWClass', 'Estimator<Complex>', 'Estimator<double>'):
        fn = find(P, cls + '::SqueezeStatistics')
        I = interp(P)
        paths = I.inline(fn, I.new_state(), THIS, [f], None, False)
        for s, _ in paths:
            if s.decide_lt0(s.n(-f)) is False:
                continue        # refused
            rec = cls
            want = [nm for nm, t in members(P, rec, lambda x: x['name'] in ('_NormAccu', '_norm', '_accumulator'))]
            ch = changed(s)
            seen = set()
            for loc, (v, w) in ch.items():
                o = Num.atom(('fld', loc[0], loc[1], 'Complex' if '_accumulator' in names(loc) and 'Complex' in cls else 'double'))
                if v != s.n(o / f):
                    res.fail('discarding history', w, '%s becomes %s' % (names(loc), show(v)[:120]), facts(s))
                else:
                    res.ok('discarding history')
                seen.add(names(loc))
            for nm in want:
                if nm not in seen:
                    res.fail('discarding history', where(fn), '%s is not rescaled' % nm, facts(s))
            arrays = [nm for nm, t in members(P, rec, isarray) if nm == '_WeightAccu']
            ws = [e for e in s.ev if e[0] == 'loop-write']
            for nm in arrays:
                l = [e for e in ws if absloc(e[1][0], e[1][1])[1][:1] == (nm,)]
                good = len(l) == 1 and wholeloop(s, l[0], s.n(Num.atom(('fld', THIS, (nm, '_Size'), 'unsigned int'))))
                if good:
                    b, p, v, w = l[0][1]
                    d = s.n(v)
                    at = [a for a in d.atoms() if a[0] == 'fld' and absloc(a[1], a[2]) == absloc(b, p)]
                    good = len(at) == 1 and d == s.n(Num.atom(at[0]) / f)
                if not good:
                    res.fail('discarding history', where(fn), '%s: not every bin is rescaled once by the factor' % nm, facts(s))
                else:
                    res.ok('discarding history')
        res.analysed.append({'function': fn['fn'], 'paths': len(paths)})


def estimator(P, res):
    """one visit adds its value to the sum and one to the norm; value, norm and mean read them"""
    for T in ('Complex', 'double'):
        cls = 'Estimator<%s>' % T
        I = interp(P)
        fn = find(P, cls + '::Measure')
        x = fldv('x', (), T)
        for s, _ in I.inline(fn, I.new_state(), THIS, symargs(I, fn, ['x']), None, False):
            ch = {names(l): s.n(v[0] - Num.atom(('fld', l[0], l[1], T if names(l) == '_accumulator' else 'double'))) for l, v in changed(s).items()}
            if ch != {'_accumulator': x, '_norm': N1}:
                res.fail('visits are counted', where(fn), 'one visit changes %s' % {k: show(v)[:80] for k, v in ch.items()}, facts(s))
            else:
                res.ok('visits are counted')
        res.analysed.append({'function': fn['fn']})
        for m, nm, t in (('Value', '_accumulator', T), ('Norm', '_norm', 'double')):
            fn = find(P, cls + '::' + m)
            for s, v in I.inline(fn, I.new_state(), THIS, [], None, False):
                if s.n(v) != Num.atom(('fld', THIS, (nm,), t)) or changed(s):
                    res.fail('visits are counted', where(fn), '%s returns %s' % (m, show(s.n(v))[:100]), facts(s))
                else:
                    res.ok('visits are counted')
            res.analysed.append({'function': fn['fn']})


def objloc_path(l):
    b, p = l
    return absloc(b, p)


def discard(P, res):
    """discarding history reaches every accumulator once, with the same factor"""
    import measure
    cls = 'mc::MarkovMonitor'
    fn = find(P, cls + '::SqueezeStatistics')

    def sink(I, e, st, fr, lv):
        out = []
        for s, vs in I.vals(e, st, fr):
            for s2, l in objloc(I, e, s, fr):
                s2.ev.append(('squeeze', measure.target(l)[0], s2.n(vs[0]), I.where(fr, e)))
                out.append((s2, NULL))
        return out
    accs = ('weight::WeightEstimator', 'weight::GammaGClass', 'weight::GammaWClass', 'Estimator<Complex>', 'Estimator<double>',
            'EstimatorBundle<Complex>', 'EstimatorBundle<double>')
    I = interp(P, {a + '::SqueezeStatistics': sink for a in accs})
    f = fldv('f')
    own = [nm for nm, t in members(P, cls, lambda x: 'Estimator<' in (x.get('dt') or x['t']) or 'EstimatorBundle<' in (x.get('dt') or x['t']))]
    if len(own) < 4:
        raise AnalysisBroken('the estimators of the monitor have vanished')
    ext = ['Weight.Sigma.Estimator', 'Weight.Polar.Estimator']
    g3 = ['Weight.GammaG', 'Weight.GammaW']
    n = 0
    for s, _ in I.inline(fn, I.new_state(), THIS, [f], None, False):
        run3 = None
        for k, b in s.bools.items():
            if 'runGamma3' in show(k):
                run3 = b
        got = {}
        for e in s.ev:
            if e[0] == 'squeeze':
                got.setdefault(e[1], []).append(e)
        want = [x for x in own if run3 is not False or not x.startswith('Gamma')] + ext + (g3 if run3 is not False else [])
        for w in want:
            l = got.pop(w, [])
            if len(l) != 1:
                res.fail('every accumulator', l[1][3] if l else where(fn), '%s is rescaled %d times when history is discarded' % (w, len(l)), facts(s))
            elif l[0][2] != f:
                res.fail('every accumulator', l[0][3], '%s is rescaled by %s' % (w, show(l[0][2])), facts(s))
            else:
                res.ok('every accumulator')
        for w, l in got.items():
            if run3 is False and (w in g3 or w in own):
                if w in g3:
                    res.fail('every accumulator', l[0][3], '%s does not exist without vertex functions' % w, facts(s))
                continue
            res.fail('every accumulator', l[0][3], '%s is rescaled' % w, facts(s))
        if changed(s):
            res.fail('every accumulator', where(fn), 'discarding history changes %s' % [names(l) for l in changed(s)], facts(s))
        n += 1
    res.analysed.append({'function': fn['fn'], 'paths': n})
    for T in ('Complex', 'double'):
        cl = 'EstimatorBundle<%s>' % T
        for m, wantv in (('SqueezeStatistics', lambda o: o / f), ('ClearStatistics', None)):
            fn = find(P, cl + '::' + m)
            I = interp(P)
            vec = [nm for nm, t in members(P, cl, lambda x: 'vector<' in (x.get('dt') or x['t']))]
            if len(vec) != 1:
                raise AnalysisBroken('the estimators of a bundle')
            n = Num.atom(('fld', THIS, (vec[0], 'size()'), 'unsigned long'))
            for s, _ in I.inline(fn, I.new_state(), THIS, [f][:len(fn['params'])], None, False):
                if s.decide_eq0(s.n(n)) is True:
                    continue
                ws = [e for e in s.ev if e[0] == 'loop-write' and absloc(e[1][0], e[1][1])[0] == THIS]
                done = {}
                for e in ws:
                    b, p = absloc(e[1][0], e[1][1])
                    if wholeloop(s, ('loop-write', (b, p, e[1][2]), e[2]), s.n(n)):
                        done.setdefault(p[-1], []).append((b, p, s.n(e[1][2])))
                for k, v0 in (('_accumulator', N0), ('_norm', N1)):
                    l = done.get(k, [])
                    good = len(l) == 1
                    if good and wantv:
                        b, p, v = l[0]
                        at = [a for a in v.atoms() if a[0] == 'fld' and absloc(a[1], a[2])[1][-1:] == (k,)]
                        good = len(at) == 1 and v == s.n(wantv(Num.atom(at[0])))
                    elif good:
                        good = l[0][2] == v0
                    if good:
                        res.ok('every order')
                    else:
                        res.fail('every order', where(fn), 'not every estimator of the bundle has its %s %s' % (k, 'rescaled once' if wantv else 'reset'), facts(s))
            res.analysed.append({'function': fn['fn']})
