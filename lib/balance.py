"""Detailed balance of the pairs of updates.

For an accepted exit of an update f from x to y with partner b the acceptance ratio must be
    R = |w(y)/w(x)| * rho(y)/rho(x) * Pc_b * q_b(y->x) / (Pc_f * q_f(x->y))
rho collects the configured re-weighting factors and the label measure (one factor 1/#momenta per free momentum and 1/2 per
direction of an interaction); q are the densities of the random draws, derived from the draws themselves."""
from fractions import Fraction
from terms import Num, N0, N1, show
from absint import absnum, Infeasible
from diagdom import *
from frontend import AnalysisBroken
from oblig import Post, worm_weight, facts, post_order

PAIRS = [('CREATE_WORM', 'DELETE_WORM'), ('MOVE_WORM_G',), ('MOVE_WORM_W',), ('RECONNECT',), ('ADD_INTERACTION', 'DEL_INTERACTION'),
         ('ADD_DELTA_INTERACTION', 'DEL_DELTA_INTERACTION'), ('CHANGE_TAU_VERTEX',), ('CHANGE_R_VERTEX',), ('CHANGE_R_LOOP',),
         ('CHANGE_MEASURE_G2W', 'CHANGE_MEASURE_W2G'), ('CHANGE_DELTA2CONTINUS', 'CHANGE_CONTINUS2DELTA'), ('CHANGE_SPIN_VERTEX',),
         ('JUMP_TO_ORDER0', 'JUMP_BACK_TO_ORDER1'), ('JUMP_TO_GGGAMMAG', 'JUMP_FROM_GGGAMMAG_TO_G'),
         ('JUMP_TO_WWGAMMAW', 'JUMP_FROM_WWGAMMAW_TO_W')]
PARTNER = {}
for p in PAIRS:
    PARTNER[p[0]] = p[-1]
    PARTNER[p[-1]] = p[0]


def para(*path):
    return lambda t: Num.atom(fld(PARA, path, t))


BETA = Num.atom(fld(PARA, ('Beta',), 'double'))
VOL = fld(PARA, ('Lat', 'Vol'), 'int')


def mentions(t, a):
    if t == a:
        return True
    if isinstance(t, Num):
        return any(mentions(x, a) for x in t.atoms())
    if isinstance(t, tuple):
        return any(mentions(x, a) for x in t)
    return False


def momenta(U):
    """number of momentum labels of a propagator: the length of its occupancy table"""
    r = U.p.recs.get('diag::Diagram')
    for f in (r or {}).get('fields', []):
        if f['name'] == 'GHash' and f['t'].endswith(']'):
            return int(f['t'][f['t'].rindex('[') + 1:-1])
    raise AnalysisBroken('the occupancy table of the propagators has vanished')


def density(x):
    """product of the densities of all draws of an exit but the acceptance draw"""
    st = x.st
    q = N1
    n = {'W': 0, 'G': 0, 'V': 0}
    for ev in st.ev:
        if ev[0] in ('add', 'remove'):
            n[ev[1]] += 1 if ev[0] == 'add' else -1
        elif ev[0] == 'pick':
            k = ev[1]
            q = q / (st.n(Num.atom(ORDER).scale(1 if k == 'W' else 2)) + Num.c(n[k]))
        elif ev[0] == 'draw':
            a = ev[1]
            if a == x.urn:
                continue
            if a[0] == 'irn':
                lo, hi = [v if isinstance(v, Num) else Num.c(v) for v in a[2:4]]
                size = st.n(hi - lo) + N1
                v = st.n(Num.atom(a))
                if v.const() is None and size.const() is not None:
                    if not any(mentions(st.n(w[2]), a) for w in x.log):
                        l, ls, h, hs = st.range(v)
                        q = q.scale(Fraction(int(h) - int(l) + 1) / size.const())
                        continue
                q = q / size
            else:
                s = None
                for b, p, v, w in x.log:
                    if p and p[-1] == 'Tau' and isinstance(v, Num) and not (b == THIS):
                        v = st.n(v)
                        c = N0
                        for m, k in v.d.items():
                            if (a, 1) in m:
                                c = c + Num({m - {(a, 1)}: k})
                        if not c.d:
                            continue
                        c = absnum(c)
                        if s is not None and s != c:
                            return None, 'a random number enters two times with different scales: %s, %s' % (show(s), show(c))
                        s = c
                if s is None:
                    l, ls, h, hs = st.range(Num.atom(a))
                    q = q.scale((h if h is not None else 1) - (l if l is not None else 0))
                else:
                    q = q / unabs(s)
    return q, None


def unabs(s):
    c, m = s.monomial()
    out = Num.c(c)
    for a, e in m.items():
        b = Num.atom(a[1]) if a[0] == 'abs' and isinstance(a[1], tuple) else Num.atom(a)
        for _ in range(abs(e)):
            out = out * (b if e > 0 else b.inv())
    return out


def canon(st, t):
    """re-weighting table entries and the lattice volume in one form"""
    m = st.n(t).monomial()
    if m is None:
        return None
    c, d = m
    out = Num.c(c)
    for a, e in d.items():
        b = a
        if a[0] == 'abs' and isinstance(a[1], tuple):
            b = a[1]
        i = table_index(b)
        if i is not None:
            b = ('ORW', st.n(i))
        elif a[0] == 'fld' and a[1] == PARA and a[2][:2] == ('Lat', 'Size') and a[2][-1] in (0, '0'):
            v = Num.atom(VOL) / Num.atom(fld(PARA, a[2][:-1] + (1,), a[3]))
            for _ in range(abs(e)):
                out = out * (v if e > 0 else v.inv())
            continue
        elif not (a[0] == 'abs' and isinstance(a[1], tuple) and a[1][0] in ('fld', 'WormWt')):
            b = a
        out = out * Num.atom(b, e)
    return st.n(out)


def table_index(a):
    """n when the term is the re-weighting factor of order n"""
    if a[0] == 'fld' and len(a[2]) >= 2 and a[2][-2] == 'OrderReWeight':
        i = a[2][-1]
        return i if isinstance(i, Num) else Num.c(int(i))
    if a[0] == 'fld' and a[2] and not isinstance(a[2][-1], str) and mentions(a[1], ('OrderReWeight',)):
        i = a[2][-1]
        return i if isinstance(i, Num) else Num.c(i)
    if a[0] == 'fld' and a[2] == () and a[3] == 'double' and mentions(a[1], ('OrderReWeight',)) and 'operator[]' not in repr(a[1]):
        return N0
    if a[0] == 'fld' and a[2] == () and a[1][0] == 'call' and 'operator[]' in a[1][1] and mentions(a[1], ('OrderReWeight',)):
        i = a[1][-1]
        return i if isinstance(i, Num) else Num.c(i)
    if a[0] == 'call' and 'operator[]' in a[1] and mentions(a, ('OrderReWeight',)):
        i = a[-1]
        return i if isinstance(i, Num) else Num.c(i)
    return None


def orw(o):
    return Num.atom(('ORW', o))


def rho(P):
    """[(state, rho(y)/rho(x), initial order, final order)]"""
    x, U, I = P.x, P.U, P.I
    NK = Num.c(momenta(U))
    out = []
    pv = lambda n: Num.atom(fld(PARA, (n,), 'double'))
    for s, o1 in post_order(P, P.cp()):
        for s, e1 in [(s3, e) for s2, v in P.glob(s, ('Worm', 'Exist'), 'bool') for s3, e in I.branch(s2, v)]:
            for s, e0 in I.branch(s, EXIST):
                for s, m1 in [(s3, e) for s2, v in P.glob(s, ('MeasureGLine',), 'bool') for s3, e in I.branch(s2, v)]:
                    for s, m0 in I.branch(s, MEASG):
                        for s, h1 in [z for s2, v in P.glob(s, ('HasGammaGW',), 'int') for z in I.concretise(s2, v)]:
                            for s, h0 in I.concretise(s, Num.atom(HASGW)):
                                wf = [(s, N1)]
                                if e1:
                                    wf = worm_weight(P, s)
                                for s2, w1 in wf:
                                    s2 = I.split(s2)
                                    w0s = [(s2, N1)]
                                    if e0:
                                        t = I.split(s2)
                                        t.log = t.log[:x.n0]
                                        w0s = []
                                        for t1, v0 in P.rd(t, DIAG, ('Worm', 'Weight'), 'double'):
                                            t1.log = list(s2.log)
                                            w0s.append((t1, v0))
                                    for s3, w0 in w0s:
                                        a, b = s3.n(Num.atom(ORDER)), s3.n(o1)
                                        r = N1
                                        g = lambda o: Num.c(0) if o.const() == 0 else o - N1
                                        if a != b:
                                            r = r * orw(b) / orw(a)
                                        k = (g(b) - g(a)).const()
                                        if k is None:
                                            raise AnalysisBroken('the order changes by an unknown amount')
                                        for _ in range(abs(int(k))):
                                            f = NK.scale(2)
                                            r = r / f if k > 0 else r * f
                                        if e1:
                                            r = r * pv('WormSpaceReweight') * w1 / NK
                                        if e0:
                                            r = r / (pv('WormSpaceReweight') * w0 / NK)
                                        if not m1:
                                            r = r * pv('PolarReweight')
                                        if not m0:
                                            r = r / pv('PolarReweight')
                                        if h1:
                                            r = r * pv('GammaGReweight' if m1 else 'GammaWReweight')
                                        if h0:
                                            r = r / pv('GammaGReweight' if m0 else 'GammaWReweight')
                                        out.append((s3, r, a, b))
    return out


def exit_ratios(P):
    """[(state, R / |w(y)/w(x)|)]"""
    x, I = P.x, P.I
    out = []
    for s, w in P.glob(P.cp(), ('Weight',), 'Complex'):
        r = s.n(w / Num.atom(DW))
        try:
            out.append((s, s.n(x.P / absnum(r))))
        except Exception:
            out.append((s, None))
    return out


def summarise(U, u):
    """everything the balance of this update needs, in picklable form"""
    q, rows, bad = [], [], []
    for x in u.exits:
        if x.kind != 'accepted':
            continue
        d, why = density(x)
        where = x.where()
        for ev in x.st.ev:
            if ev[0] == 'draw' and ev[1] == x.urn:
                where = ev[2]
        if d is None:
            bad.append((where, why, facts(x.st)))
            continue
        P = Post(U, x)
        for s, r, a, b in rho(P):
            t = s.n(d)
            ct = canon(s, t)
            if ct is None:
                bad.append((where, 'the density of the draws is not a product: %s' % show(t)[:300], facts(s)))
                continue
            if ct not in q:
                q.append(ct)
            if x.P is None:
                bad.append((where, 'a change of state is accepted without an acceptance ratio', facts(s)))
                continue
            for s2, w in P.glob(I_split(P, s), ('Weight',), 'Complex'):
                ratio = s2.n(w / Num.atom(DW))
                F = s2.n(x.P)
                try:
                    F = F / s2.n(absnum(ratio))
                except Exception:
                    F = None
                cf = canon(s2, F) if F is not None else None
                cr = canon(s2, r)
                if cf is None or cr is None:
                    bad.append((where, 'the acceptance ratio is not proportional to the ratio of the weights: %s' % show(s2.n(x.P))[:500], facts(s2)))
                    continue
                rows.append((where, cf / cr * ct, a, b, facts(s2), cf))
    return {'op': u.opname, 'q': q, 'rows': rows, 'bad': bad, 'name': u.fn['fn']}


def I_split(P, s):
    return P.I.split(s)


def shift(t, d):
    """replace the order by order + d"""
    out = N0
    at = ORDER
    for m, c in t.d.items():
        p = Num.c(c)
        for a, e in m:
            v = Num.atom(a)
            if a == at:
                v = Num.atom(at) + d
            elif a[0] == 'poly' and isinstance(a[1], Num):
                v = shift(a[1], d)
            elif a[0] == 'ORW':
                v = Num.atom(('ORW', shift(a[1], d)))
            if e < 0:
                v = v.inv()
            for _ in range(abs(e)):
                p = p * v
        out = out + p
    return out


def check(sums, R, ops):
    """match the summaries of the updates with their partners"""
    rule = 'detailed balance'
    by = {s['op']: s for s in sums}
    for s in sums:
        for where, why, fa in s['bad']:
            R.fail(rule, where, why, fa)
        if s['op'] not in PARTNER:
            continue
        t = by.get(PARTNER[s['op']])
        if t is None:
            continue
        pf = Num.atom(fld(THIS, ('ProbofCall', ops[s['op']]), 'double'))
        pb = Num.atom(fld(THIS, ('ProbofCall', ops[t['op']]), 'double'))
        for where, K, a, b, fa, cf in s['rows']:
            R.ok(rule)
            d = b - a
            good = False
            want = None
            for qb in t['q']:
                if a.const() is not None and b.const() is not None:
                    q1 = subst(qb, b)
                else:
                    q1 = shift(qb, d)
                want = q1 * pb / pf
                if (K - want).d == {} or (K / want).const() == 1:
                    good = True
            if not good:
                R.fail(rule, where, 'the acceptance ratio of %s carries the factor %s; with its own draws and those of %s it must be %s' %
                       (s['name'], show(cf)[:300], t['name'], show(cf / K * want)[:300] if want is not None else '(no accepted exit)'), fa)


def subst(t, v):
    out = N0
    for m, c in t.d.items():
        p = Num.c(c)
        for a, e in m:
            x = v if a == ORDER else Num.atom(a)
            if e < 0:
                x = x.inv()
            for _ in range(abs(e)):
                p = p * x
        out = out + p
    return out
