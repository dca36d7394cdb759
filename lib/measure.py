"""The measuring step: what one call adds to which accumulator, on every path from a symbolic diagram."""
from terms import Num, N0, N1, show
from absint import Interp, NULL
from diagdom import *
from frontend import AnalysisBroken
from oblig import facts

MON = 'mc::MarkovMonitor'
SINKS = {'weight::SigmaClass': ('Measure',), 'weight::PolarClass': ('Measure',), 'weight::WeightEstimator': ('Measure', 'MeasureNorm'),
         'weight::GammaGClass': ('Measure', 'MeasureNorm'), 'weight::GammaWClass': ('Measure', 'MeasureNorm')}


def objloc(I, e, st, fr):
    if e.get('arrow'):
        return [(x, I.deref(x.n(v))) for x, v in I.ev(e['obj'], st, fr)]
    return I.lval(e['obj'], st, fr)


def target(loc):
    """name of the accumulator behind a location: members from the monitor or from the weights down"""
    b, p = loc
    names = [x for x in p if isinstance(x, str)]
    while b[0] in ('fld', 'ptr'):
        names = [x for x in b[2] if isinstance(x, str)] + names
        b = b[1]
    return '.'.join(names), [x for x in p if not isinstance(x, str)]


def sink(I, e, st, fr, lv):
    f = e['f']
    out = []
    pts = f.get('pt', [])
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            sts = [(s2, [])]
            for v, t in zip(vs, pts):
                nxt = []
                for q, xs in sts:
                    if t.replace(' ', '').endswith('*'):
                        nxt += [(q2, xs + [(a, b)]) for q2, a, b in read_spins(I, q, v)]
                    else:
                        nxt.append((q, xs + [v]))
                sts = nxt
            for q, xs in sts:
                q.ev.append(('sink', target(l), f['name'], tuple(xs), I.where(fr, e)))
                out.append((q, NULL))
    return out


def bundle(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            r = (l[0], l[1] + (vs[0],))
            out.append((s2, r if lv else ('ptr',) + r))
    return out


def match(f, e):
    cls = f.get('cls') or ''
    if f['name'] in SINKS.get(cls, ()) or cls.startswith('Estimator<') and f['name'] == 'Measure':
        return sink
    if (cls.startswith('EstimatorBundle<') or cls.startswith('std::vector<')) and f['name'] == 'operator[]':
        return bundle
    return prim_match(f, e)


def method(U, nm):
    c = [f for f in U.p.funcs.values() if f['qn'] == MON + '::' + nm]
    if len(c) != 1:
        raise AnalysisBroken('%s::%s has vanished' % (MON, nm))
    return c[0]


def run(U, res):
    I = Interp(U.p, DiagDomain(), {'match': match})
    st = I.new_state()
    st = I.inline(method(U, 'Reset'), st, THIS, [('ref', (PARA, ())), ('ref', (DIAG, ())), ('ref', (WGT, ()))], None, False)[0][0]
    n0 = len(st.log)
    fn = method(U, 'Measure')
    outs = I.inline(fn, st, THIS, [], None, False)
    where = (fn['fn'], fn['file'], fn['l'])
    RUN3 = ('truth', fld(PARA, ('runGamma3',), 'bool'))
    for s0, _ in outs:
        # every question that decides what has to be measured
        for s in cases(I, s0, RUN3):
            one(I, s, n0, where, RUN3, res)
    res.analysed.append({'function': fn['fn'], 'paths': len(outs)})


def cases(I, s, RUN3):
    out = [s]
    for q in (EXIST, MEASG, RUN3, ('eq0', Num.atom(ORDER)), ('eq0', Num.atom(HASGW))):
        out = [t for x in out for t, b in I.branch(x, q)]
    return out


def decided(s, q):
    if q[0] == 'eq0':
        r = s.decide_eq0(s.n(q[1]))
    else:
        r = s.n(q)
    if not isinstance(r, bool):
        raise AnalysisBroken('%s is not decided' % show(q))
    return r


def orw(I, s):
    o = s.n(Num.atom(ORDER))
    r = I.read(s, (PARA, ('OrderReWeight', o)), 'double')
    return r[0][1]


def rd(I, s, path, typ='double', base=PARA):
    return I.read(s, (base, path), typ)[0][1]


def one(I, s, n0, where, RUN3, res):
    worm, gl, g3 = decided(s, EXIST), decided(s, MEASG), decided(s, RUN3)
    zero, plain = decided(s, ('eq0', Num.atom(ORDER))), decided(s, ('eq0', Num.atom(HASGW)))
    if not plain and (not g3 or zero):
        return          # a vertex function in the diagram needs that mode and an order of at least one
    # what happened
    got = {}
    for ev in s.ev:
        if ev[0] == 'sink':
            nm, idx = ev[1]
            got.setdefault((nm, ev[2]), []).append((tuple(s.n(x) if not isinstance(x, tuple) or x and isinstance(x[0], str) else tuple(s.n(y) for y in x) for x in ev[3]), idx, ev[4]))
        elif ev[0] in ('loop-begin', 'opaque'):
            raise AnalysisBroken('the measuring step contains %s' % (ev,))
    for b, p, v, w in s.log[n0:]:
        res.fail('diagram untouched', w, 'the measuring step writes %s' % show(('fld', b, p, '')), facts(s))
    if len(s.log) == n0:
        res.ok('diagram untouched')
    o = s.n(Num.atom(ORDER))

    def expect(rule, key, args, idx=(), why=''):
        l = got.pop(key, [])
        if len(l) != 1:
            res.fail(rule, l[1][2] if l else where, '%s.%s happens %d times, expected once%s' % (key[0], key[1], len(l), why), facts(s))
            return
        a, i, w = l[0]
        i = [s.n(x) if isinstance(x, Num) else Num.c(x) if isinstance(x, int) else x for x in i]
        if list(i) != list(idx):
            res.fail(rule, w, '%s.%s counts under order %s' % (key[0], key[1], [show(x) for x in i]), facts(s))
            return
        for x, y in zip(a, args):
            y = tuple(s.n(z) for z in y) if isinstance(y, tuple) and y and not isinstance(y[0], str) else s.n(y)
            if x != y:
                res.fail(rule, w, '%s.%s is given %s, expected %s' % (key[0], key[1], show(x), show(y)), facts(s))
                return
        if len(a) != len(args):
            raise AnalysisBroken('%s takes %d arguments' % (key, len(a)))
        res.ok(rule)
    # how long each sector is visited
    expect('visits', ('WormEstimator' if worm else 'PhyEstimator', 'Measure'), [N1], [o])
    sec = None
    if worm:
        if plain:
            sec = 'SigmaEstimator' if gl else 'PolarEstimator'
    elif not zero:
        sec = ('SigmaEstimator' if gl else 'PolarEstimator') if plain else ('GammaGEstimator' if gl else 'GammaWEstimator')
    if sec:
        expect('visits', (sec, 'Measure'), [N1])
    # the physical functions
    if not worm:
        w0 = N1 / orw(I, s)
        ph = s.n(Num.atom(PHASE))
        ext = [rd(I, s, ('UExt', k), t, DIAG) for k, t in (('R', 'Site'), ('Tau', 'double'), ('Spin', 'spin'))]
        g = s.n(GMEAS)
        w = s.n(WMEAS)
        if zero:
            expect('normalisation', ('Sigma.Estimator' if gl else 'Polar.Estimator', 'MeasureNorm'), [w0])
            if g3:
                expect('normalisation', ('GammaG' if gl else 'GammaW', 'MeasureNorm'), [w0])
        elif gl:
            a, b = ('gV', g, 1), ('gV', g, 0)
            spn = rd(I, s, ('_spin', 0), 'spin', s.n(b))
            spn = Num.atom(('sp', g))
            if plain:
                expect('measured function', ('Sigma', 'Measure'), [site(a), site(b), tau(a), tau(b), spn, spn, o, ph * w0])
            else:
                expect('measured function', ('GammaG', 'Measure'), [site(a), site(b), ext[0], tau(a), tau(b), ext[1], spn, spn, ext[2],
                                                                    ph * w0 / rd(I, s, ('GammaGReweight',))])
        else:
            a, b = s.n(('wV', w, 1)), s.n(('wV', w, 0))
            sa, sb = (sp(a, 0), sp(a, 1)), (sp(b, 0), sp(b, 1))
            if plain:
                expect('measured function', ('Polar', 'Measure'), [site(a), site(b), tau(a), tau(b), sa, sb, o, -(ph * w0)])
            else:
                expect('measured function', ('GammaW', 'Measure'), [site(b), site(a), ext[0], tau(b), tau(a), ext[1], sb, sa, ext[2],
                                                                    ph * w0 / rd(I, s, ('GammaWReweight',))])
    for k, l in got.items():
        res.fail('nothing else is measured', l[0][2], '%s.%s is called for a diagram that does not belong to it' % k, facts(s))
    if not got:
        res.ok('nothing else is measured')
