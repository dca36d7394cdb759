"""The self-check of the diagram. It is interpreted on small diagrams whose numbers are symbolic: on those that obey every rule it has to
answer yes, and after any single field is given a different value it must not answer yes (it may answer no or stop the program)."""
from fractions import Fraction
from terms import Num, N0, N1, show
from absint import NULL, strip
from frontend import AnalysisBroken
from plain import find, where, SrcDomain, as_num
from oblig import facts
import dicts
import saved
from saved import A, C, el, parse, SHAPES
from diagdom import p_gweight, p_wweight, p_wormweight, read_ext, fld
from plain import base_match
from stdlib import objloc

ZERO = ('zero',)
LINE = {'G': 'diag::GLine *', 'W': 'diag::WLine *'}


def momenta(G, W, worm):
    """the momenta of all lines in terms of independent ones, so that every vertex conserves momentum"""
    names = [('G', i) for i in range(len(G))] + [('W', i) for i in range(len(W))] + ([('worm', 0)] if worm else [])
    rows = []
    for v in range(2 * len(W)):
        r = {}
        for i, (a, b) in enumerate(G):
            if b == v:
                r[('G', i)] = r.get(('G', i), 0) + 1
            if a == v:
                r[('G', i)] = r.get(('G', i), 0) - 1
        for i, (a, b) in enumerate(W):
            if a == v:
                r[('W', i)] = r.get(('W', i), 0) - 1
            if b == v:
                r[('W', i)] = r.get(('W', i), 0) + 1
        if worm and v == worm[0]:
            r[('worm', 0)] = r.get(('worm', 0), 0) - 1
        if worm and v == worm[1]:
            r[('worm', 0)] = r.get(('worm', 0), 0) + 1
        rows.append({k: Fraction(x) for k, x in r.items() if x})
    piv = {}
    for r in rows:
        for k, e in piv.items():
            if k in r:
                f = r[k]
                r = {x: r.get(x, 0) - f * e.get(x, 0) for x in set(r) | set(e)}
                r = {x: c for x, c in r.items() if c}
        if not r:
            continue
        k = sorted(r)[0]
        r = {x: c / r[k] for x, c in r.items()}
        for q in piv:
            if k in piv[q]:
                f = piv[q][k]
                piv[q] = {x: c for x, c in {x: piv[q].get(x, 0) - f * r.get(x, 0) for x in set(piv[q]) | set(r)}.items() if c}
        piv[k] = r
    out = {}
    for n in names:
        if n in piv:
            out[n] = sum([Num.atom(('k',) + x).scale(-c) for x, c in piv[n].items() if x != n], N0)
        else:
            out[n] = Num.atom(('k',) + n)
    return out


class Valid(saved.SaveDomain):
    """a diagram that obeys every rule"""

    def __init__(self, G, W, meas, worm, delta, star):
        saved.SaveDomain.__init__(self, G, W, meas, worm)
        self.delta, self.star = delta, star
        self.K = momenta(G, W, worm)
        self.weight = {}

    def known(self, base, path):
        G, W, worm = self.G, self.W, self.worm
        x = parse(base)
        if x is not None and x[0] == 'A':
            d, k, i = x
            live = i < {'G': len(G), 'W': len(W), 'Ver': 2 * len(W)}[k]
            if not live and path[:1] == ('nVer',):
                return el(A, 'Ver', 2 * len(W))     # an element that is not in the diagram: not one of its vertices
            if live and k == 'Ver':
                for j, (a, b) in enumerate(G):
                    if path == ('nG', 1) and a == i or path == ('nG', 0) and b == i:
                        return el(A, 'G', j)
                    if path == ('_spin', 1) and a == i or path == ('_spin', 0) and b == i:
                        return Num.atom(fld(el(A, 'G', j), ('spin',), 'spin'))
                for j, (a, b) in enumerate(W):
                    if i in (a, b):
                        if path == ('nW',):
                            return el(A, 'W', j)
                        if path == ('Dir',):
                            return C(0 if a == i else 1)
                        if path == ('Tau',) and j in self.delta:
                            return Num.atom(fld(el(A, 'W', j), ('Tau',), 'double'))
            if live and path == ('K',):
                return self.K[(k, i)]
            if k == 'W' and live:
                if path == ('IsDelta',):
                    return i in self.delta
                if path == ('IsWorm',):
                    return worm is not None and bool(set(W[i]) & set(worm))
                if path == ('IsWWGammaW',):
                    return self.star == (k, i)
            if k == 'G' and live and path == ('IsGGGammaG',):
                return self.star == (k, i)
            if live and k in 'GW' and path == ('Weight',) and (k, i) in self.weight:
                return self.weight[(k, i)]
        if base == A:
            if path == ('HasGammaGW',):
                return C({None: 0, 'G': 1, 'W': 2}[self.star and self.star[0]])
            if path == ('Worm', 'K') and worm:
                return self.K[('worm', 0)]
            if path == ('Order',):
                return C(len(W))
            if path == ('MeasureGLine',):
                return self.meas[0] == 'G'
            if path == (self.meas[0] + 'Measure',):
                return el(A, *self.meas)
            if path == ('Weight',) and self.weight:
                return self.weight['all']
        return saved.SaveDomain.known(self, base, path)

    def prepare(self, I):
        self.weight = self.lookups(I, I.new_state())

    def lookups(self, I, s):
        """the weights that the tables give for the diagram as it is"""
        r = lambda b, p, t: s.n(I.read(s, (b, p), t)[0][1])
        V = lambda i: el(A, 'Ver', i)
        X = lambda i: (r(V(i), ('R',), 'Site'), r(V(i), ('Tau',), 'double'))
        SP = lambda i, d: r(V(i), ('_spin', d), 'spin')
        M = lambda k, i, m: r(el(A, k, i), (m,), 'bool')
        q, ext = read_ext(I, s, ('ptr', A, ('UExt',)))[0]
        w = {}
        tot = r(A, ('SignFermiLoop',), 'double') * C((-1) ** len(self.W))
        for i, (a, b) in enumerate(self.G):
            (ra, ta), (rb, tb) = X(a), X(b)
            w[('G', i)] = s.n(Num.atom(('GW', ra, rb, ta, tb, SP(a, 1), SP(b, 0), M('G', i, 'IsMeasure'), M('G', i, 'IsGGGammaG'), ext)))
        for i, (a, b) in enumerate(self.W):
            (ra, ta), (rb, tb) = X(a), X(b)
            w[('W', i)] = s.n(Num.atom(('WW', ra, rb, ta, tb, SP(a, 0), SP(a, 1), SP(b, 0), SP(b, 1), M('W', i, 'IsWorm'), M('W', i, 'IsMeasure'),
                                        M('W', i, 'IsDelta'), M('W', i, 'IsWWGammaW'), ext)))
        for x in w.values():
            tot = tot * x
        w['all'] = tot
        return w

    def renew(self, I, s):
        w = self.lookups(I, s)
        for k, x in w.items():
            I.write(s, (A, ('Weight',)) if k == 'all' else (el(A, *k), ('Weight',)), x, ('', '', 0))


def p_bundle(I, e, st, fr, lv):
    if e['f']['name'] != 'Exist':
        return saved.p_bundle(I, e, st, fr, lv)
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            x = parse(s2.n(vs[0]))
            if x is None:
                raise AnalysisBroken('the element looked for is not known: %s' % show(vs[0]))
            out.append((s2, x[0] == l[0][1] and x[1] == l[1][0] and x[2] < saved.count(I, s2, l)))
    return out


def wrong(t):
    return isinstance(t, Num) and any(isinstance(a, tuple) and a[0] == 'wrong' for a in t.atoms())


def p_equal(I, e, st, fr, lv):
    """equality up to a tolerance: weights that differ are taken to differ by more"""
    out = []
    for s, vs in I.vals(e, st, fr):
        d = s.n(as_num(vs[0]) - as_num(vs[1]))
        if d == N0:
            out.append((s, True))
        elif any(isinstance(a, tuple) and a[0] in ('wrong', 'GW', 'WW') for a in d.atoms()):
            out.append((s, False))      # a wrong weight; different lookups; a weight of a sampled diagram is not zero
        else:
            out += I.branch(s, ('eq0', d))
    return out


def match(f, e):
    cls = f.get('cls') or ''
    if cls.startswith('diag::Bundle<') and e.get('k') == 'call':
        return p_bundle
    if f['qn'] == 'Equal':
        return p_equal
    return {'weight::GClass::Weight': p_gweight, 'weight::WClass::Weight': p_wweight, 'weight::Worm::Weight': p_wormweight}.get(f['qn']) or \
        dicts.match(f, e) or base_match(f, e)


def interp_(P, dom):
    from absint import Interp
    I = Interp(P, dom, {'match': match})
    I.ptr_arith = True
    I.MERGE = False
    dom.prepare(I)
    return I


def cases():
    for G, W, meas, worm in saved.cases():
        free = [i for i in range(len(W)) if meas != ('W', i)]
        yield G, W, meas, worm, set(), None
        if free:
            yield G, W, meas, worm, {free[-1]}, None
        if worm is None:
            g = [i for i in range(len(G)) if meas != ('G', i)][-1]
            yield G, W, meas, worm, set(), ('G', g)
            if free:
                yield G, W, meas, worm, set(), ('W', free[0])


def faults(dom, I):
    """[(rule, what, location, wrong value)] one field each"""
    G, W, worm, meas = dom.G, dom.W, dom.worm, dom.meas
    V = lambda i: el(A, 'Ver', i)
    nV = 2 * len(W)
    X = lambda *n: Num.atom(('wrong',) + n)
    out = []
    for k, n in (('G', len(G)), ('W', len(W)), ('Ver', nV)):
        for d in (1, -1):
            out.append(('number of elements', 'the number of %s is %d' % (k, n + d), (A, (k, '#')), C(n + d)))
    for d in (1, -1):
        if len(W) + d:
            out.append(('number of elements', 'the order is %d' % (len(W) + d), (A, ('Order',)), C(len(W) + d)))
    for k, L in (('G', G), ('W', W)):
        for i, ends in enumerate(L):
            for d in (0, 1):
                out.append(('links', 'end %d of %s %d is not in the diagram' % (d, k, i), (el(A, k, i), ('nVer', d)), V(nV)))
                for j in range(nV):
                    if j != ends[d]:
                        out.append(('links', 'end %d of %s %d is vertex %d' % (d, k, i, j), (el(A, k, i), ('nVer', d)), V(j)))
    for v in range(nV):
        for d in (0, 1):
            for j in range(len(G)):
                if G[j][1 - d] != v:
                    out.append(('links', 'propagator %d of vertex %d is number %d' % (d, v, j), (V(v), ('nG', d)), el(A, 'G', j)))
        for j in range(len(W)):
            if v not in W[j]:
                out.append(('links', 'interaction of vertex %d is number %d' % (v, j), (V(v), ('nW',)), el(A, 'W', j)))
        out.append(('links', 'direction of vertex %d' % v, (V(v), ('Dir',)), C(1 - dom.known(V(v), ('Dir',)).const())))
        for d in (0, 1):
            out.append(('spins', 'spin %d of vertex %d' % (d, v), (V(v), ('_spin', d)), X('spin')))
    for k, L in (('G', G), ('W', W)):
        for i in range(len(L)):
            out.append(('marks', 'measuring mark of %s %d' % (k, i), (el(A, k, i), ('IsMeasure',)), meas != (k, i)))
            out.append(('momenta', 'momentum of %s %d' % (k, i), (el(A, k, i), ('K',)), X('k')))
            out.append(('weights', 'weight of %s %d' % (k, i), (el(A, k, i), ('Weight',)), X('weight')))
            out.append(('weights', 'weight of %s %d is zero' % (k, i), (el(A, k, i), ('Weight',)), N0))
            out.append(('weights', 'weight of %s %d is zero in the table' % (k, i), (el(A, k, i), ('Weight',)), ZERO))
            out.append(('weights', 'weight of %s %d, and the total weight with it,' % (k, i), (el(A, k, i), ('Weight',)), X('weight')))
            out.append(('weights', 'weight of %s %d is zero, and the total weight with it,' % (k, i), (el(A, k, i), ('Weight',)), N0))
    out.append(('marks', 'kind of the measuring line', (A, ('MeasureGLine',)), meas[0] != 'G'))
    if meas[0] == 'G':
        out.append(('marks', 'the recorded measuring line', (A, ('GMeasure',)), el(A, 'G', (meas[1] + 1) % len(G))))
    for i, (a, b) in enumerate(W):
        out.append(('marks', 'worm mark of interaction %d' % i, (el(A, 'W', i), ('IsWorm',)), not dom.known(el(A, 'W', i), ('IsWorm',))))
        if i in dom.delta:
            for v in (a, b):
                out.append(('times', 'time of vertex %d of an instantaneous interaction' % v, (V(v), ('Tau',)), X('time')))
        else:
            out.append(('times', 'interaction %d is marked instantaneous' % i, (el(A, 'W', i), ('IsDelta',)), True))
    if worm:
        out.append(('momenta', 'momentum of the worm', (A, ('Worm', 'K')), X('k')))
    out.append(('weights', 'the total weight', (A, ('Weight',)), X('weight')))
    return out


def run(P, res):
    fn = find(P, 'diag::Diagram::CheckDiagram')
    for G, W, meas, worm, delta, star in cases():
        what = 'order %d, measuring line %s %d, %s%s%s' % (len(W), meas[0], meas[1], 'worm at %d and %d' % worm if worm else 'no worm',
                                                       ', instantaneous %s' % sorted(delta) if delta else '', ', vertex function on %s %d' % star if star else '')
        dom = Valid(G, W, meas, worm, delta, star)
        I = interp_(P, dom)
        st = I.new_state()
        rs = I.inline(fn, I.split(st), A, [], None, False)
        if len(rs) == 1 and rs[0][1] is True and facts(rs[0][0]) == facts(st):
            res.ok('a good diagram is accepted')
        else:
            res.fail('a good diagram is accepted', where(fn), '%s: the check answers %s' % (what, sorted({show(r) for _, r in rs}) or 'nothing but stops') +
                     (' only if ' + facts(rs[0][0])[:200] if rs and rs[0][1] is True else ''), facts(rs[0][0]) if rs else '')
            continue
        n = 0
        for rule, name, loc, val in faults(dom, I):
            s = I.split(st)
            old = s.n(I.read(s, loc, 'double')[0][1]) if isinstance(val, Num) else None
            sts = [s]
            if isinstance(val, Num) and wrong(val) and rule != 'weights':
                sts = [x for x, b in I.branch(s, ('eq0', s.n(val - as_num(old)))) if not b]
            if rule == 'times' and val is True:     # two equal times make a good instantaneous interaction
                a, b = [s.n(I.read(s, (el(A, 'Ver', v), ('Tau',)), 'double')[0][1]) for v in W[parse(loc[0])[2]]]
                sts = [x for x, y in I.branch(s, ('eq0', s.n(a - b))) if not y]
            bad = None
            if val is ZERO:                         # the table itself gives nothing
                look = dom.lookups(I, s)[parse(loc[0])[1:]]
                sts = [x for x, b in I.branch(s, ('eq0', look)) if b]
            for s in sts:
                if val is ZERO:
                    dom.renew(I, s)
                else:
                    I.write(s, loc, val, ('', '', 0))
                if 'with it' in name:
                    tot = s.n(I.read(s, (A, ('Weight',)), 'Complex')[0][1])
                    I.write(s, (A, ('Weight',)), s.n(tot * val / old), ('', '', 0))
                if rule in ('spins', 'marks', 'times'):
                    dom.renew(I, s)                 # nothing but this is wrong
                for s2, r in I.inline(fn, s, A, [], None, False):
                    n += 1
                    if s2.n(r) is not False:
                        bad = s2
            if bad is None:
                res.ok(rule)
            else:
                res.fail(rule, where(fn), '%s: the diagram is accepted although one thing is wrong: %s' % (what, name), facts(bad))
        res.analysed.append({'case': what, 'ends reached': n})
    empty(P, res, fn)


def empty(P, res, fn):
    """order zero: only the weight of the norm is checked"""
    G, W = SHAPES[0]
    for good in (True, False):
        dom = Valid(G, W, ('G', 0), None, set(), None)
        I = interp_(P, dom)
        s = I.new_state()
        I.write(s, (A, ('Order',)), N0, ('', '', 0))
        norm = [f for f in P.funcs.values() if f['qn'] == 'weight::Norm::Weight' and f.get('body') is not None]
        w = I.inline(norm[0], s, ('p', 'norm'), [], None, False)[0][1]
        I.write(s, (A, ('Weight',)), s.n(as_num(w)) if good else Num.atom(('wrong', 'weight')), ('', '', 0))
        rs = I.inline(fn, s, A, [], None, False)
        if good and rs and all(s2.n(r) is True for s2, r in rs):
            res.ok('a good diagram is accepted')
        elif not good and all(s2.n(r) is False for s2, r in rs):
            res.ok('weights')
        else:
            res.fail('weights', where(fn), 'order 0 with %s weight: the check answers %s' % ('the right' if good else 'a wrong', sorted({show(r) for _, r in rs})), [])
