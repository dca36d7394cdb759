"""Properties of the Monte Carlo updates: obligations on the abstract post-states of every update."""
import multiprocessing, os, sys, time, traceback
from frontend import Program, AnalysisBroken
from registry import Property, Result

CTX = {}


def load():
    if 'U' not in CTX:
        from updates import Updates
        CTX['P'] = Program()
        if CTX['P'].errors:
            raise AnalysisBroken('the front end reports errors: %s' % (CTX['P'].errors[:2],))
        CTX['U'] = Updates(CTX['P'])
    return CTX['U']


def one(args):
    i, rules = args
    from oblig import Report, run_rules, rule_stats, rule_frame
    U = CTX['U']
    fn = CTX['fns'][i]
    R = Report()
    t = time.time()
    try:
        u = U.run(fn)
        for r in rules:
            if r == 'stats':
                rule_stats(U, u, R)
            elif r == 'frame':
                rule_frame(U, u, R)
            else:
                run_rules(U, [u], [r], R)
    except AnalysisBroken as e:
        return i, None, 'analysis: %s' % e, []
    except Exception:
        return i, None, traceback.format_exc()[-1500:], []
    kinds = {}
    for x in u.exits:
        kinds[x.kind] = kinds.get(x.kind, 0) + 1
    info = {'function': fn['fn'], 'kind': u.opname, 'paths': kinds, 'steps': u.steps, 'fully_unfolded': u.unfolded, 'rounds of a loop along the diagram': u.bounded or None,
            'obligations': dict(R.n), 'seconds': round(time.time() - t, 1)}
    return i, info, dict(R.n), R.fails


# the updates whose obligations take longest first
HEAVY = ['DeleteInteraction', 'DeleteDeltaInteraction', 'MoveWormOnG', 'AddInteraction', 'AddDeltaInteraction', 'Reconnect',
         'MoveWormOnW', 'ChangeRLoop']


def run(rules, need_unfolded=True):
    def go(tier):
        U = load()
        CTX['fns'] = U.discover()
        U.ROUNDS = 0 if not need_unfolded else 4 if tier == 'thorough' else 3
        res = Result()
        order = sorted(range(len(CTX['fns'])), key=lambda i: (HEAVY.index(CTX['fns'][i]['name']) if CTX['fns'][i]['name'] in HEAVY else 99))
        full = 0
        with multiprocessing.get_context('fork').Pool(8) as pool:
            for i, info, n, fails in pool.imap_unordered(one, [(i, rules) for i in order]):
                fn = CTX['fns'][i]
                if info is None:
                    res.skipped.append('%s: %s' % (fn['fn'], n))
                    continue
                res.analysed.append(info)
                if need_unfolded and not info['fully_unfolded']:
                    res.skipped.append('%s: a loop of unknown length is summarised, its moved elements are not tracked' % fn['fn'])
                else:
                    full += 1
                res.add(n, fails)
        res.analysed.sort(key=lambda x: x['function'])
        res.ok('updates analysed', full)
        if full < MINUPD:
            raise AnalysisBroken('only %d updates could be analysed: %s' % (full, res.skipped))
        return res
    return go


def bal_one(i):
    """stage one: the summary of one update"""
    from oblig import Report, Post
    import balance, reverse
    U = CTX['U']
    fn = CTX['fns'][i]
    t = time.time()
    try:
        u = U.run(fn)
        R = Report()
        s = balance.summarise(U, u)
        if u.unfolded:
            for x in u.exits:
                if x.kind == 'accepted':
                    reverse.rule_mobile(Post(U, x), R)
        info = {'function': fn['fn'], 'kind': u.opname, 'accepted paths': len([x for x in u.exits if x.kind == 'accepted']),
                'fully_unfolded': u.unfolded, 'ratios': len(s['rows']), 'seconds': round(time.time() - t, 1)}
        return i, s, info, dict(R.n), R.fails
    except AnalysisBroken as e:
        return i, None, 'analysis: %s' % e, {}, []
    except Exception:
        return i, None, traceback.format_exc()[-1500:], {}, []


def rev_one(args):
    """stage two: the way back from every accepted exit of one update"""
    from oblig import Report, facts
    import reverse
    i, b, j, J = args
    U = CTX['U']
    fn = CTX['fns'][i]
    R = Report()
    try:
        u = U.run(fn)
        xs = reverse.accepted_states(u)
        for x in xs[j::J]:
            r = reverse.one_exit(U, x, CTX['fns'][b])
            R.ok('way back')
            if r is not None:
                y, c = r
                R.fail('way back', x.where(), 'after this move, %s returns early without proposing the reverse move' % CTX['fns'][b]['fn'],
                       facts(y.st))
                R.n['way back'] -= 1
    except AnalysisBroken as e:
        return i, 'analysis: %s' % e, {}, []
    except Exception:
        return i, traceback.format_exc()[-1500:], {}, []
    return i, None, dict(R.n), R.fails


def balance_run(tier):
    import balance
    U = load()
    CTX['fns'] = U.discover()
    res = Result()
    ctx = multiprocessing.get_context('fork')
    names = [f['name'] for f in CTX['fns']]
    order = sorted(range(len(names)), key=lambda i: (HEAVY.index(names[i]) if names[i] in HEAVY else 99))
    sums, back = [], {}
    unfolded = {}
    with ctx.Pool(8) as pool:
        for i, s, info, n, fails in pool.imap_unordered(bal_one, order):
            if s is None:
                res.skipped.append('%s: %s' % (CTX['fns'][i]['fn'], info))
                continue
            sums.append(s)
            back[s['op']] = i
            unfolded[s['op']] = info['fully_unfolded']
            res.analysed.append(info)
            res.add(n, fails)
    if len(sums) < MINUPD:
        raise AnalysisBroken('only %d updates could be analysed: %s' % (len(sums), res.skipped))
    sums.sort(key=lambda s: s['name'])
    balance.check(sums, res, U.ops)
    tasks = []
    for s in sums:
        op = s['op']
        b = balance.PARTNER.get(op)
        if b not in back:
            if op in balance.PARTNER:
                res.skipped.append('%s: the partner %s is not analysed' % (s['name'], b))
            continue
        if not (unfolded[op] and unfolded[b]):
            res.skipped.append('%s: a loop of unknown length, the way back is not followed' % s['name'])
            continue
        n = len(s['rows'])
        J = 8 if names[back[op]] in HEAVY and n > 20 else 1
        for j in range(J):
            tasks.append((back[op], back[b], j, J))
    tasks.sort(key=lambda t: -t[3])
    with ctx.Pool(8) as pool:
        for i, err, n, fails in pool.imap_unordered(rev_one, tasks):
            if err:
                res.skipped.append('%s: %s' % (CTX['fns'][i]['fn'], err))
                continue
            res.add(n, fails)
    res.ok('updates analysed', len(sums))
    res.analysed.sort(key=lambda x: x['function'])
    return res


def op_one(i):
    U = CTX['U']
    try:
        return i, U.run(CTX['fns'][i]).op, None
    except AnalysisBroken as e:
        return i, None, str(e)


def dispatch_run(tier):
    import dispatch
    U = load()
    CTX['fns'] = U.discover()
    res = Result()
    opof = {}
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for i, op, err in pool.imap_unordered(op_one, range(len(CTX['fns']))):
            fn = CTX['fns'][i]
            if err is not None:
                raise AnalysisBroken('%s: %s' % (fn['fn'], err))
            if op is not None:
                opof[fn['key']] = op
                res.analysed.append({'function': fn['fn'], 'kind': U.opname.get(op)})
    dispatch.run(U, opof, res)
    res.analysed.append({'function': U.hop['fn']})
    res.ok('updates analysed', len(opof))
    return res


MINUPD = 14      # 20 of the 21 dispatched updates are analysed completely on the reference tree

EXPL = ('Abstract interpretation of every update of the Markov chain, from a symbolic diagram that satisfies the invariants: values '
        'are normal forms over uninterpreted links, exact affine and product forms; paths are partitioned on the finite shape facts; '
        'the obligation is checked on the abstract state of every exit. ')
ASSUME = ['the diagram satisfies the invariants before the update (inductive step; the base case is the initial diagram and the loaded file)',
          'random numbers are treated as arbitrary values of their range', 'real arithmetic is exact',
          'the line-weight lookups are uninterpreted functions of their arguments']


def P(pid, rules, text, minimum, need=True):
    return Property(pid, run(rules, need), EXPL + text, ASSUME, minimum)


PROPS = {p.pid: p for p in [
    Property('P02', balance_run, EXPL + 'Obligation: the acceptance ratio divided by the modulus of the weight ratio is the product of the '
             're-weighting factors and of the proposal densities of the move and of its partner, derived from the draws; from every '
             'accepted exit the partner update, interpreted on the abstract post-state, reaches its acceptance test for some choice of its draws.',
             ASSUME + ['the chance of picking an element of a container is one over its length'],
             {'detailed balance': 400, 'way back': 90, 'worm mobility': 300}),
    P('P01', ['frame'], 'Obligation: on an exit where the move is not accepted every written location holds its initial value, and no element '
      'was added or removed; the acceptance test compares a draw with the ratio.', {'rejected move': 60}, False),
    P('P03', ['links'], 'Obligation: every touched line and vertex, and their neighbours before and after, are linked both ways.', {'links': 2000}),
    P('P04', ['momentum'], 'Obligation: the momentum balance at every touched vertex (including the worm momentum at its ends) reduces to zero '
      'modulo the balances before the update.', {'momentum': 100}),
    P('P05', ['cached', 'total'], 'Obligation: the stored weight of every touched line equals the weight function applied to its current '
      'state, and the stored total changes by exactly the ratio of the products, with the fermion-loop and worm factors.',
      {'cached weight': 400, 'total weight': 60, 'phase': 60}),
    P('P06', ['hash'], 'Obligation: the occupancy tables contain exactly the momenta of the lines after the update.', {'momentum tables': 50}),
    P('P07', ['counts'], 'Obligation: the numbers of elements match the recorded order, which stays within the configured maximum.', {'element counts': 60}),
    P('P08', ['measure', 'star'], 'Obligation: the flags of touched lines agree with the recorded measuring line and vertex-function state.',
      {'measuring line': 500, 'vertex-function state': 500}),
    P('P09', ['worm'], 'Obligation: interactions are marked as touching the worm exactly when an end is a worm end.', {'worm flag': 100}),
    P('P10', ['stats'], 'Obligation: proposals and acceptances are counted once under the right kind and order.', {'counters': 120}, False),
    Property('P11', dispatch_run, EXPL + 'The table of call probabilities that building the chain leaves behind is evaluated as exact '
             'rationals; one step of the dispatcher is interpreted on it. Obligation: the set of draws that leads to a move has exactly the '
             'probability that the acceptance ratios use for its kind, one draw and at most one move per step, the step counter grows by one, '
             'the statistics start at zero.', ASSUME, {'dispatch': 40, 'probability table': 40, 'one move per step': 20, 'step counter': 20}),
    P('P12', ['spin'], 'Obligation: both ends of every touched propagator carry the same spin.', {'propagator spin': 150}),
    P('P14', ['local'], 'Obligation: both ends of every touched propagator lie on the same lattice site.', {'propagator site': 1500}),
    P('P13', ['delta'], 'Obligation: the ends of instantaneous interactions have equal times.', {'instantaneous interaction': 80}),
]}
