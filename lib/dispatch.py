"""The dispatcher of the Markov chain against the table of call probabilities."""
from fractions import Fraction
from terms import Num, N0, N1, show
from absint import Interp, NULL
from diagdom import *
from frontend import AnalysisBroken

# kinds without a move of their own: the loop update and the worm moves take their place
NOOP = ('CHANGE_R_VERTEX', 'CHANGE_SPIN_VERTEX')


def read1(I, st, path, typ):
    r = I.read(I.split(st), (THIS, path), typ)
    return r[0][1] if len(r) == 1 else None


def urn_range(st, a):
    """[lo,hi) of the dispatching draw on this path"""
    lo, ls, hi, hs = st.range(Num.atom(a))
    return lo, hi


def run(U, opof, res):
    """opof: key of an update -> kind it counts"""
    moves = set(opof)

    def rec(I, e, st, fr, lv):
        fn = I.p.find(e['f'], fr.unit, fr.file)
        st.ev.append(('move', fn['key'], I.where(fr, e)))
        return [(st, NULL)]

    def match(f, e):
        if f.get('cls') == 'mc::Markov':
            for k in moves:
                if U.p.funcs[k]['fn'] == f['fn']:
                    return rec
        return prim_match(f, e)
    I = Interp(U.p, DiagDomain(), {'match': match})
    I.UNROLL = 400
    st = I.new_state()
    build = U.method('BuildNew')
    out = I.inline(build, st, THIS, [('ref', (PARA, ())), ('ref', (DIAG, ())), ('ref', (WGT, ()))], None, False)
    if not out:
        raise AnalysisBroken('mc::Markov::BuildNew never returns')
    nops = U.ops.get('END', len(U.opname))
    dims = None
    for f in U.p.recs['mc::Markov']['fields']:
        if f['name'] == 'Accepted':
            dims = [int(x) for x in f['t'].replace(']', '').split('[')[1:]]
    where = (build['fn'], build['file'], build['l'])
    modes = {}
    for s, v in out:
        mode = read1(I, s, ('runGamma3',), 'bool')
        mode = s.n(mode)
        if not isinstance(mode, bool):
            mode = s.n(('truth', fld(PARA, ('runGamma3',), 'bool')))
        if isinstance(mode, bool) and any(ev[0] == 'loop-begin' for ev in s.ev):
            raise AnalysisBroken('the table of call probabilities is filled by a loop of unknown length: %s' % ([ev for ev in s.ev if ev[0] == 'loop-begin'][:2],))
        modes.setdefault(mode, []).append(s)
    if not (True in modes and False in modes):
        if list(modes) and not all(isinstance(m, bool) for m in modes):
            modes = {None: [s for ss in modes.values() for s in ss]}
    for mode, ss in modes.items():
        for s in ss:
            one(U, I, s, mode, opof, nops, res, where)
            # the statistics start at zero
            seen = {}
            for b, p, val, w in s.log:
                if b == THIS and p and p[0] in ('Accepted', 'Proposed') and dims:
                    idx = [x for x in p[1:] if isinstance(x, int)]
                    k = idx[0] * dims[1] + idx[1] if len(idx) == 2 else None
                    if k is not None:
                        seen[(p[0], k)] = s.n(val)
            for nm in ('Accepted', 'Proposed'):
                miss = [k for k in range(dims[0] * dims[1]) if seen.get((nm, k)) != N0]
                if miss:
                    res.fail('statistics start at zero', where, 'entry %d of %s is not set to zero when the chain is built' % (miss[0], nm))
                else:
                    res.ok('statistics start at zero')
    return modes


def one(U, I, s, mode, opof, nops, res, where):
    prob, cum = [], []
    for i in range(nops):
        for nm, l in (('ProbofCall', prob), ('SumofProbofCall', cum)):
            v = read1(I, s, (nm, i), 'double')
            c = v.const() if isinstance(v, Num) else None
            l.append(c)
    if any(c is None for c in prob):
        raise AnalysisBroken('the call probability of kind %d is not a constant after mc::Markov::BuildNew' % prob.index(None))
    if any(p < 0 for p in prob):
        res.fail('probability table', where, 'a call probability is negative')
    if sum(prob) != 1:
        res.fail('probability table', where, 'the call probabilities add up to %s' % sum(prob))
    else:
        res.ok('probability table')
    # one step of the dispatcher
    hop = U.hop
    got = {}
    total = Fraction(0)
    I.PARTITION, I.MERGE = 64, False
    n0 = len(s.log)
    try:
        outs = I.inline(hop, I.split(s), THIS, [N1], None, False)
    finally:
        I.PARTITION, I.MERGE = 0, True
    hw = (hop['fn'], hop['file'], hop['l'])
    ctr0 = None
    for x, v in outs:
        evs = x.ev[len(s.ev):]
        draws = [ev[1] for ev in evs if ev[0] == 'draw']
        mv = [ev for ev in evs if ev[0] == 'move']
        if any(ev[0] == 'loop-begin' for ev in evs):
            raise AnalysisBroken('the dispatcher contains a loop of unknown length')
        if len(draws) != 1:
            res.fail('one draw per step', hw, 'a step of the chain takes %d random draws to choose its move' % len(draws))
            continue
        res.ok('one draw per step')
        if len(mv) > 1:
            res.fail('one move per step', mv[1][2], 'one step performs %d moves' % len(mv))
            continue
        res.ok('one move per step')
        lo, hi = urn_range(x, draws[0])
        if lo is None or hi is None:
            raise AnalysisBroken('the dispatching draw has no range')
        total += hi - lo
        k = mv[0][1] if mv else None
        got.setdefault(k, []).append((lo, hi, mv[0][2] if mv else hw))
        # the counter of steps
        c = N0
        for b, p, val, w in x.log[n0:]:
            if p[:1] == ('Counter',) and b == PARA:
                c = x.n(val)
        d = c - Num.atom(fld(PARA, ('Counter',), 'long long')) if c != N0 else N0
        if d.const() != 1:
            res.fail('step counter', hw, 'a step changes the step counter by %s' % show(d))
        else:
            res.ok('step counter')
    if total != 1:
        raise AnalysisBroken('the ranges of the dispatching draw add up to %s' % total)
    for k, op in sorted(opof.items(), key=lambda x: x[1] if x[1] is not None else -1):
        fn = U.p.funcs[k]
        w = sum((hi - lo for lo, hi, _ in got.get(k, [])), Fraction(0))
        nm = U.opname.get(op)
        if nm in NOOP:
            # superseded moves: not called
            want = (Fraction(0), prob[op])
        else:
            want = (prob[op],)
        if w not in want:
            at = got[k][0][2] if k in got else hw
            res.fail('dispatch', at, '%s is called with probability %s, the acceptance ratios assume %s (kind %s, vertex-function moves %s)'
                     % (fn['fn'], w, prob[op], nm, {True: 'on', False: 'off', None: 'on or off'}[mode]))
        else:
            res.ok('dispatch')
    # every kind has a move
    have = set(opof.values())
    for op, nm in sorted(U.opname.items()):
        if nm == 'END' or nm in NOOP:
            continue
        if op not in have:
            res.fail('dispatch', hw, 'no move counts under the kind %s' % nm)
        elif prob[op] == 0 and mode is not False:
            res.fail('probability table', where, 'the kind %s is never called' % nm)
        elif prob[op] == 0 and 'GAMMA' not in nm:
            res.fail('probability table', where, 'the kind %s is never called' % nm)
        else:
            res.ok('probability table')
