"""Weight lookups, index functions and accumulators."""
from terms import Num, N0, N1, show
from absint import NULL, strip
from frontend import AnalysisBroken
from plain import *
from oblig import facts

W = 'weight::'


def uninterpreted(name, spins=()):
    """a named function of its arguments; pointers to a pair of spins are read"""
    def h(I, e, st, fr, lv):
        out = []
        pts = e['f'].get('pt', [])
        for s, vs in I.vals(e, st, fr):
            sts = [(s, ())]
            for v, t in zip(vs, pts):
                nxt = []
                for q, xs in sts:
                    if t.replace(' ', '').endswith('*') and 'spin' in t:
                        for q2, a, b in diagdom.read_spins(I, q, v):
                            nxt.append((q2, xs + ((q2.n(a), q2.n(b)),)))
                    else:
                        nxt.append((q, xs + (q.n(v),)))
                sts = nxt
            out += [(q, q.n(Num.atom((name,) + xs))) for q, xs in sts]
        return out
    return h


LOOK = {W + 'IndexMapSPIN2::GetIndex': uninterpreted('index'), W + 'IndexMapSPIN4::GetIndex': uninterpreted('index'),
        W + 'IndexMap::GetTauSymmetryFactor': uninterpreted('tsf'), W + 'GammaGClass::Weight': uninterpreted('GammaG'),
        W + 'GammaWClass::Weight': uninterpreted('GammaW')}


def by_name(I, fn, vals):
    """arguments in the order of the parameters; vals are given in the order of the declaration"""
    return [v for p, v in zip(fn['params'], vals)]


def flagval(n):
    return ('truth', ('fld', ('p', n), (), 'bool'))


def ends(I, kind):
    r = [('ref', (('p', 'r1'), ())), ('ref', (('p', 'r2'), ()))]
    t = [Num.atom(('fld', ('p', 't1'), (), 'double')), Num.atom(('fld', ('p', 't2'), (), 'double'))]
    if kind == 'G':
        s = [Num.atom(('fld', ('p', 's1'), (), 'spin')), Num.atom(('fld', ('p', 's2'), (), 'spin'))]
    else:
        s = [('p', 's1'), ('p', 's2')]
    return r, t, s


def results(I, fn, st, args):
    return [(s, s.n(v)) for s, v in I.inline(fn, I.split(st), THIS, args, None, False)]


def orientation(P, res):
    """naming the other end first, with the direction swapped, looks up the same number"""
    for cls, kind in (('GClass', 'G'), ('WClass', 'W')):
        I = interp(P, LOOK)
        fs = find(P, W + cls + '::Weight', many=True)
        d = [f for f in fs if strip(f['params'][0]['t']) == 'int']
        u = [f for f in fs if strip(f['params'][0]['t']) != 'int']
        if len(d) != 1 or len(u) != 1:
            raise AnalysisBroken('the two forms of %s::Weight have changed' % cls)
        d, u = d[0], u[0]
        r, t, sp = ends(I, kind)
        tail = [flagval(p['name'] or 'f%d' % i) for i, p in enumerate(u['params'][6:]) if strip(p['t']) == 'bool']
        names = [p['name'] for p in u['params'][6:] if strip(p['t']) == 'bool']
        if [p['name'] for p in d['params'][7:] if strip(p['t']) == 'bool'] != names:
            pass        # same types in the same places: the values are passed by place
        ext = [('p', 'ext')]
        n = 0
        for dirn in (0, 1):
            a, b = (0, 1) if dirn == 0 else (1, 0)
            st = I.new_state()
            out = results(I, d, st, [Num.c(dirn), r[0], r[1], t[0], t[1], sp[0], sp[1]] + tail + ext)
            for s, v in out:
                for s2, w in results(I, u, s, [r[a], r[b], t[a], t[b], sp[a], sp[b]] + tail + ext):
                    if kind == 'W' and both(s2, tail):
                        continue        # an instantaneous line is never the measuring line
                    v2 = s2.n(v)
                    n += 1
                    if v2 == w:
                        res.ok('orientation')
                    else:
                        res.fail('orientation', where(d), 'direction %d: %s looks up %s, the undirected form %s'
                                 % (dirn, d['fn'].split('(')[0], show(v2)[:200], show(w)[:200]), facts(s2))
        res.analysed.append({'function': d['fn'], 'compared with': u['fn'], 'paths': n})
        if kind == 'W':
            # a line that touches the worm has the weight of a line with all spins up, whatever its spins are
            st = I.new_state()
            obj = ('new', 'spins', 0)
            up = ('ptr', obj, ('a', 0))
            st.log.append((obj, ('a', 0), N1, ('', '', 0)))
            st.log.append((obj, ('a', 1), N1, ('', '', 0)))
            for fn, pre in ((u, []), (d, [N0]), (d, [N1])):
                for s, v in results(I, fn, st, pre + [r[0], r[1], t[0], t[1], sp[0], sp[1], True] + tail[1:] + ext):
                    for s2, w in results(I, fn, s, pre + [r[0], r[1], t[0], t[1], up, up, False] + tail[1:] + ext):
                        v2 = s2.n(v)
                        if v2 == w:
                            res.ok('worm line')
                        else:
                            res.fail('worm line', where(fn), 'a line touching the worm looks up %s, not the weight for spins up %s' % (show(v2)[:200], show(w)[:200]), facts(s2))
        # which table is used
        table(I, u, kind, r, t, sp, tail, ext, res)


def both(s, tail):
    return s.n(tail[1]) is True and s.n(tail[2]) is True


def table(I, u, kind, r, t, sp, tail, ext, res):
    """the measuring line, the instantaneous part, the vertex function and the rest come from their own tables; the sign of a
    propagator that runs backwards in time goes with the smooth part only"""
    st = I.new_state()
    spins = sp if kind == 'G' else None
    for s, v in results(I, u, st, [r[0], r[1], t[0], t[1], sp[0], sp[1]] + tail + ext):
        f = [s.n(x) for x in tail]
        if kind == 'G':
            ms, gg = f
            w = False
            de = False
        else:
            w, ms, de, gg = f
        at = sorted(a for a in v.atoms() if a[0] == 'fld' and any(isinstance(x, Num) for x in a[2])) + [a for a in v.atoms() if a[0] in ('GammaG', 'GammaW')]
        tsf = [a for a in v.atoms() if a[0] == 'tsf']
        if ms is True and de is True:
            continue
        if len(at) != 1 or len(v.d) != 1:
            res.fail('table', where(u), 'the weight is %s' % show(v)[:200], facts(s))
            continue
        a = at[0]
        nm = tablename(a) if a[0] == 'fld' else a[0]
        want = '_DeltaTWeight' if de is True else '_MeasureWeight' if ms is True else ('Gamma' + kind) if gg is True else '_SmoothTWeight'
        key = TABLES.setdefault(kind, {})
        sign = kind == 'G' and want == '_SmoothTWeight'
        if a[0] == 'fld' and want[0] == '_':
            # the tables keep their names in the class; what matters is that different kinds use different tables
            o = key.setdefault(want, nm)
            good = o == nm and len(set(key.values())) == len(key)
        else:
            good = nm == want
        idx = [x for x in a[2] if isinstance(x, Num)] if a[0] == 'fld' else []
        if not good:
            res.fail('table', where(u), 'the weight comes from %s, expected %s' % (nm, want), facts(s))
        elif bool(tsf) != sign or any(x[1:] != (s.n(t[0]), s.n(t[1])) for x in tsf):
            res.fail('table', where(u), 'the sign of the time order is %s' % (show(tsf[0]) if tsf else 'missing'), facts(s))
        elif v.monomial()[0] != 1:
            res.fail('table', where(u), 'the weight is multiplied by %s' % v.monomial()[0], facts(s))
        elif idx:
            i = idx[0].single()
            ok = i is not None and i[0] == 'index'
            if ok:
                n = 4 if de is True else 6
                ok = len(i) == n + 1
            if not ok:
                res.fail('table', where(u), 'the table is read at %s' % show(idx[0])[:200], facts(s))
            else:
                res.ok('table')
        else:
            res.ok('table')


def tablename(a):
    while a[1][0] == 'fld':
        a = a[1]
    return [x for x in a[2] if isinstance(x, str)][0]


TABLES = {}


# ------------------------------------------------------------------------------------------- index functions
def coord(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        out.append((s, Num.atom(('coord',) + tuple(s.n(v) for v in vs))))
    return out


def tauidx(I, e, st, fr, lv):
    out = []
    if len(e['f'].get('pt', [])) != 1:
        return NotImplemented
    for s, vs in I.vals(e, st, fr):
        out.append((s, Num.atom(('bin', s.n(vs[0])))))
    return out


IDX = {'Lattice::CoordiIndex': coord, W + 'IndexMap::TauIndex': tauidx}


def build(I, P, qn, names):
    """the state after constructing an object at `this` from symbolic arguments"""
    fs = [f for f in find(P, qn, many=True)]
    fs = [f for f in fs if len(f['params']) >= 3]
    if len(fs) != 1:
        raise AnalysisBroken('the constructor of %s has changed' % qn)
    f = fs[0]
    st = I.new_state()
    out = I.inline(f, st, THIS, symargs(I, f), None, False)
    if len(out) != 1:
        raise AnalysisBroken('%s is not straight-line' % f['fn'])
    s = out[0][0]
    return f, s


def shape(I, s, loc, n):
    return [s.n(read1(I, s, (loc[0], loc[1] + (i,)), 'unsigned int')) for i in range(n)]


def rowmajor(digits, sh):
    r = N0
    for d, k in zip(digits, sh):
        r = r * k + d
    return r


def indices(P, res):
    for cls, nsp in (('IndexMapSPIN2', 2), ('IndexMapSPIN4', 4)):
        I = interp(P, IDX)
        ctor, st = build(I, P, W + cls + '::' + cls, None)
        sh = shape(I, st, (THIS, ('_Shape',)), 6)
        lat = lambda f: Num.atom(('fld', ('p', 'a2'), (f,), 'int'))
        want = [Num.c(nsp), st.n(lat('SublatVol')), Num.c(nsp), st.n(lat('SublatVol')), st.n(lat('Vol')), Num.atom(('fld', ('p', 'a1'), (), 'unsigned int'))]
        for i, (a, b) in enumerate(zip(sh, want)):
            if a != b:
                res.fail('shape', where(ctor), 'dimension %d of the tables has size %s, expected %s' % (i, show(a), show(b)))
            else:
                res.ok('shape')
        for f in find(P, W + cls + '::GetIndex', many=True):
            smooth = len(f['params']) == 6
            names = ['s1', 's2', 'r1', 'r2', 't1', 't2']
            for s, v in I.inline(f, I.split(st), THIS, symargs(I, f, names), None, False):
                v = s.n(v)
                if nsp == 2:
                    d1, d2 = [Num.atom(('fld', ('p', n), (), 'spin')) for n in ('s1', 's2')]
                else:
                    d1, d2 = [Num.c(2) * Num.atom(('fld', ('p', n), (), 'spin')) + Num.atom(('fld', ('p', n), (1,), 'spin')) for n in ('s1', 's2')]
                b1, b2 = [Num.atom(('fld', ('p', n), ('Sublattice',), 'int')) for n in ('r1', 'r2')]
                c = [a for a in v.atoms() if a[0] == 'coord']
                good = len(c) == 1 and args_are(c[0], ('r1', 'r2'))
                dig = [d1, b1, d2, b2, Num.atom(c[0]) if c else N0]
                if smooth:
                    tt = [Num.atom(('fld', ('p', n), (), 'double')) for n in ('t1', 't2')]
                    dig.append(s.n(Num.atom(('bin', tt[1] - tt[0]))))
                e = s.n(rowmajor(dig, sh))
                if not good:
                    res.fail('index', where(f), 'the lattice displacement of the index is %s' % [show(x)[:80] for x in c], facts(s))
                elif v != e:
                    res.fail('index', where(f), 'the index is %s, a one-to-one index of the table is %s' % (show(v)[:300], show(e)[:300]), facts(s))
                else:
                    res.ok('index')
            res.analysed.append({'function': f['fn'], 'class': cls})
    timebin(P, res)


def args_are(c, names):
    got = []
    for x in c[1:]:
        while isinstance(x, tuple) and x and x[0] == 'fld':
            x = x[1]
        got.append(x[1] if isinstance(x, tuple) and len(x) > 1 else None)
    return got == list(names) or len(got) == 3 and got[1:] == list(names)


def timebin(P, res):
    I = interp(P)
    ctor, st = build(I, P, W + 'IndexMapSPIN2::IndexMapSPIN2', None)
    beta = Num.atom(('fld', ('p', 'a0'), (), 'double'))
    M = Num.atom(('fld', ('p', 'a1'), (), 'unsigned int'))
    tau = Num.atom(('fld', ('p', 'tau'), (), 'double'))
    f = [g for g in find(P, W + 'IndexMap::TauIndex', many=True) if len(g['params']) == 1][0]
    for s, v in I.inline(f, I.split(st), THIS, [tau], None, False):
        # times in [-beta, beta)
        lo = s.decide_lt0(s.n(tau + beta))
        hi = s.decide_lt0(s.n(beta - tau))
        if lo is True or hi is True or s.decide_eq0(s.n(tau - beta)) is True:
            continue
        neg = s.decide_lt0(s.n(tau))
        v = untrunc(s.n(v))
        e = s.n(Num.atom(('floor', tau * M / beta)))
        if neg is True:
            e = e + M
        if neg is None:
            for s2, b in I.branch(s, ('lt0', tau)):
                pass
            raise AnalysisBroken('the sign of the time difference is not decided')
        if v != e:
            res.fail('time bin', where(f), 'a time difference %s zero falls into bin %s, expected %s' % ('below' if neg else 'of at least', show(v)[:160], show(e)[:160]), facts(s))
        else:
            res.ok('time bin')
    res.analysed.append({'function': f['fn']})
    f = [g for g in find(P, W + 'IndexMap::TauIndex', many=True) if len(g['params']) == 2][0]
    I2 = interp(P, IDX)
    t = [Num.atom(('fld', ('p', n), (), 'double')) for n in ('t1', 't2')]
    for s, v in I2.inline(f, I2.split(st), THIS, t, None, False):
        if s.n(v) != Num.atom(('bin', t[1] - t[0])):
            res.fail('time bin', where(f), 'the bin of a pair of times is %s' % show(s.n(v))[:160], facts(s))
        else:
            res.ok('time bin')
    res.analysed.append({'function': f['fn']})
    f = find(P, W + 'IndexMap::GetTauSymmetryFactor')
    sym = Num.atom(('fld', ('p', 'a3'), (), 'weight::TauSymmetry'))
    for s, v in I.inline(f, I.split(st), THIS, t, None, False):
        fw = s.decide_lt0(s.n(t[0] - t[1]))
        v = s.n(v)
        if fw is True:
            good = v == N1
        elif fw is False:
            good = v == s.n(sym) or isinstance(v, tuple) and v == ('fld', ('p', 'a3'), (), 'weight::TauSymmetry')
        else:
            raise AnalysisBroken('the time order is not decided')
        if not good:
            res.fail('time order sign', where(f), 'a line running %s in time has the sign %s' % ('forwards' if fw else 'backwards', show(v)), facts(s))
        else:
            res.ok('time order sign')
    res.analysed.append({'function': f['fn']})


def untrunc(v):
    a = v.single() if isinstance(v, Num) else None
    if a is not None and a[0] == 'trunc' and isinstance(a[1], Num):
        return a[1]
    return v
