"""Adjusting the re-weighting factors from the numbers of visits; observing a run without changing it."""
from terms import Num, N0, N1, show
from absint import strip
from frontend import AnalysisBroken
from plain import find, where, read1
from plain import as_num
from oblig import facts
from saved import rd
from restart import one, Domain, fields
import saved
import environ
from environ import Layout, member, norm, target

A = ('p', 'A')
M = ('p', 'MON')
LEAST = 1000


def interp_(P):
    return saved.interp_(P, Domain())


def vector(P, t):
    v = [g['name'] for g in P.recs[strip(t)]['fields'] if strip(g['t']).startswith('std::vector<')]
    if len(v) != 1:
        raise AnalysisBroken('the elements of %s' % t)
    return v[0]


def bundle(P, name, i):
    t = [f['t'] for f in P.recs['mc::MarkovMonitor']['fields'] if f['name'] == name]
    if not t:
        raise AnalysisBroken('the accumulators %s are gone' % name)
    return (name, vector(P, t[0]), i)


def setup(P, I, order, gamma):
    st = I.new_state()
    w = ('', '', 0)
    for f in P.recs['mc::MarkovMonitor']['fields']:
        t = strip(f['t'])
        if t in ('para::ParaMC *', 'diag::Diagram *', 'weight::Weight *'):
            I.write(st, (M, (f['name'],)), {'p': ('p', 'para'), 'd': ('p', 'diag'), 'w': ('p', 'weight')}[t[0]], w)
    I.write(st, (('p', 'para'), ('Order',)), Num.c(order), w)
    I.write(st, (('p', 'para'), ('runGamma3',)), gamma, w)
    return st


def value(I, s, path, what):
    return as_num(rd(I, s, M, path + (what,), 'double'))


def run(P, res):
    adj = one(P, 'mc::MarkovMonitor::AdjustOrderReWeight')
    PARA = ('p', 'para')
    for order in (1, 2, 3):
        for gamma in (False, True):
            what = 'order %d%s' % (order, ', with vertex functions' if gamma else '')
            I = interp_(P)
            st = setup(P, I, order, gamma)
            first = len(st.log)
            yes = no = 0
            cnt = lambda nm, i: bundle(P, nm, i)
            for s, r in I.inline(adj, I.split(st), M, [], None, False):
                def need(rule, cond, msg):
                    if cond:
                        res.ok(rule)
                    else:
                        res.fail(rule, where(adj), '%s: %s' % (what, msg), facts(s))
                writes = s.log[first:]
                out = [l for l in writes if norm((l[0], l[1]))[0] != PARA]
                need('nothing else', not [l for l in out if not str(l[0]).startswith("('new'")], 'something other than a factor is changed: %s' % show(out[:1])[:150])
                names = {norm((l[0], l[1]))[1][0] for l in writes if norm((l[0], l[1]))[0] == PARA}
                need('nothing else', names <= {'OrderReWeight', 'WormSpaceReweight', 'PolarReweight', 'GammaGReweight', 'GammaWReweight'}, 'a parameter other than a factor is changed: %s' % sorted(names))
                if names:
                    need_enough(P, I, s, need, order, gamma)
                if s.n(r) is False:
                    no += 1
                    worm = sum([value(I, s, cnt('WormEstimator', i), '_accumulator') for i in range(1, order + 1)], N0)
                    # once there are enough visits only an empty worm sector is refused
                    need('enough', not names or zero(s, worm), 'factors are changed although the answer is no')
                    if not names:
                        need('enough', too_few(P, I, s, order, gamma), 'nothing is adjusted although there are enough visits')
                    if names:
                        factors(P, I, st, s, need, order, gamma, False)
                    continue
                yes += 1
                need('enough', s.n(r) is True, 'the answer is neither yes nor no')
                factors(P, I, st, s, need, order, gamma, True)
            if not yes or not no:
                res.fail('enough', where(adj), what + ': the factors are always or never adjusted', [])
            res.analysed.append({'case': what, 'adjusted': yes, 'refused': no})


def zero(s, x):
    x = s.n(x)
    return isinstance(x, Num) and (x == N0 or s.decide_eq0(x) is True)


def quotient(s, x, a, b):
    return saved.same(s, x, a / b) or saved.same(s, x * b, a) or saved.same(s, x, s.n(a) / s.n(b))


def conditions(P, I, s, order, gamma):
    """[(quantity, least number of visits or None for: not zero)]"""
    out = [(value(I, s, bundle(P, 'PhyEstimator', i), '_norm'), LEAST) for i in range(order + 1)]
    secs = ['PolarEstimator'] + (['GammaGEstimator', 'GammaWEstimator'] if gamma else [])
    out += [(value(I, s, (n,), '_norm'), LEAST) for n in secs]
    secs += ['SigmaEstimator']
    out += [(value(I, s, (n,), '_accumulator'), None) for n in secs]
    return out


def need_enough(P, I, s, need, order, gamma):
    for x, k in conditions(P, I, s, order, gamma):
        if k is not None:
            need('enough', s.decide_lt0(s.n(x - Num.c(k))) is False, 'factors are adjusted after fewer than %d visits: %s' % (k, show(x)))
        else:
            need('enough', s.decide_eq0(s.n(x)) is False, 'factors are adjusted although %s may be zero' % show(x))


def too_few(P, I, s, order, gamma):
    return any(s.decide_lt0(s.n(x - Num.c(k))) is True if k is not None else s.decide_eq0(s.n(x)) is True for x, k in conditions(P, I, s, order, gamma))


def factors(P, I, before, s, need, order, gamma, complete):
    PARA = ('p', 'para')
    old = lambda p, t='double': as_num(rd(I, before, PARA, p, t))
    new = lambda p, t='double': as_num(rd(I, s, PARA, p, t))
    acc = lambda *p: value(I, s, p, '_accumulator')
    worm = [acc(*bundle(P, 'WormEstimator', i)) for i in range(order + 1)]
    phy = [acc(*bundle(P, 'PhyEstimator', i)) for i in range(order + 1)]
    need('factors', saved.same(s, new(('OrderReWeight', 0)), N1), 'the factor of order 0 becomes %s' % show(new(('OrderReWeight', 0))))
    for i in range(1, order + 1):
        w = worm[i] + phy[i]
        want, w = (old(('OrderReWeight', i)), N1) if zero(s, w) else (old(('OrderReWeight', i)) * old(('OrderTimeRatio', i)) * (worm[0] + phy[0]), w)
        need('factors', quotient(s, new(('OrderReWeight', i)), want, w), 'the factor of order %d becomes %s' % (i, show(new(('OrderReWeight', i)))[:200]))
    if not complete:
        return
    W, F = sum(worm[1:], N0), sum(phy[1:], N0)
    pairs = [('WormSpaceReweight', F, W), ('PolarReweight', acc('SigmaEstimator'), acc('PolarEstimator'))]
    if gamma:
        pairs += [('GammaGReweight', acc('SigmaEstimator'), acc('GammaGEstimator')), ('GammaWReweight', acc('PolarEstimator'), acc('GammaWEstimator'))]
    else:
        for n in ('GammaGReweight', 'GammaWReweight'):
            need('factors', saved.same(s, new((n,)), old((n,))), '%s changes in a run without vertex functions' % n)
    for n, a, b in pairs:
        need('factors', quotient(s, new((n,)), old((n,)) * a, b), '%s becomes %s' % (n, show(new((n,)))[:200]))
