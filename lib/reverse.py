"""Every accepted move can be proposed backwards: the partner update, started from the abstract post-state of the move, reaches its
acceptance test for at least one choice of its draws on every refinement of the state."""
from terms import Num, N0, show
from diagdom import *
from oblig import Post, facts, defect
from balance import PARTNER
from absint import Infeasible


DSPIN = fld(DIAG, ('Worm', 'dSpin'), 'int')


def candidates(P):
    """draws and picks that can undo this exit"""
    x, st = P.x, P.st
    c = {'V': [], 'G': [], 'W': [], 'K': [], 'halt': ('Proposed',)}
    for b, p, v, w in x.log:
        b = st.n(b)
        k = P.I.dom.kind(b)
        if k and not P.isgone(st, b) and b not in c[k]:
            c[k].append(b)
    ks = []
    for w in P.removed['W']:
        ks.append(Num.atom(fld(st.n(w), ('K',), 'Momentum')))
    if st.n(EXIST) is True and not ks:
        ks.append(Num.atom(WORMK))
    for k in ks:
        k = st.n(k)
        for v in (k, -k):
            if v not in c['K']:
                c['K'].append(v)
    return c


def balanced(P):
    """refinements of the exit in which the momentum balance of the removed vertices has been solved"""
    cur = [P.cp()]
    for v in P.removed['V']:
        nxt = []
        for s in cur:
            for s2, d in defect(P, s, v, True):
                d = s2.n(d)
                for m, c in sorted(d.d.items(), key=lambda z: (show(next(iter(z[0]))[0]) if z[0] else '')):
                    if len(m) != 1:
                        continue
                    (a, e), = m
                    if a[0] == 'fld' and P.I.dom.kind(a[1]) == 'G' and P.isgone(s2, a[1]):
                        try:
                            s2.set_sub(a, s2.n((Num({m: c}) - d).scale(1 / c)))
                            s2.reset()
                            nxt.append(s2)
                        except Infeasible:
                            pass
                        break
                else:
                    nxt.append(s2)
        cur = nxt
    return cur


def one_exit(U, x, back):
    """None when the way back is open, otherwise (exit of the partner, choice)"""
    P = Post(U, x)
    for s in balanced(P):
        r = one_state(U, P, U.interp.split(s), back)
        if r is None:
            continue
        for s2, e in U.interp.branch(s, EXIST):         # the draws may have to depend on the spin carried by the worm
            if not e:
                return r
            for s3, d in U.interp.concretise(s2, Num.atom(DSPIN)):
                r = one_state(U, P, U.interp.split(s3), back)
                if r is not None:
                    return r
    return None


def one_state(U, P, st, back):
    st.hints = candidates(P)
    st.choice = ()
    u = U.run_after(back, st)
    early = [y for y in u.exits if not y.st.halt and not was_stuck(y.st)]
    full = []
    for y in u.exits:
        if y.st.halt and y.st.choice not in full:
            full.append(y.st.choice)
    for c in full:
        if not any(y.st.choice == c[:len(y.st.choice)] for y in early):
            return None
    # the closest choice: the one with the fewest blocked refinements
    if not full:
        return early[0] if early else u.exits[0], None
    best = min(full, key=lambda c: sum(1 for y in early if y.st.choice == c[:len(y.st.choice)]))
    return [y for y in early if y.st.choice == best[:len(y.st.choice)]][0], best


def accepted_states(u):
    """one exit for every accepted post-state: the two ways to pass the acceptance test lead to the same one"""
    out, seen = [], set()
    for x in u.exits:
        if x.kind != 'accepted':
            continue
        k = (tuple((show(b), p, show(v) if not isinstance(v, tuple) else repr(v)) for b, p, v, w in x.log
                   if not (b == THIS)),
             tuple(sorted((show(a), show(b)) for a, b in x.st.sub.items())),
             tuple(sorted((show(a), v) for a, v in x.st.bools.items() if 'urn' not in show(a) and a[0] != 'lt0')),
             tuple(sorted(tuple(sorted(show(t) for t in e)) for e in x.st.neq)))
        if k in seen:
            continue
        seen.add(k)
        out.append(x)
    return out


def is_stuck(d, sin, sout):
    return (d, sin, sout) in ((1, 0, 1), (-1, 1, 0))


def was_stuck(st):
    """the state before the move had both worm ends immobile on one interaction: never reached (rule 'worm mobility')"""
    if st.n(EXIST) is not True or st.decide_eq(st.n(('nW', IRA)), st.n(('nW', MASHA))) is not True:
        return False
    c = [st.n(Num.atom(a)).const() for a in (DSPIN, ('sp', st.n(('nG', IRA, 0))), ('sp', st.n(('nG', IRA, 1))),
                                              ('sp', st.n(('nG', MASHA, 0))), ('sp', st.n(('nG', MASHA, 1))))]
    if any(z is None for z in c):
        return False
    c = [int(z) for z in c]
    return is_stuck(c[0], c[1], c[2]) and is_stuck(-c[0], c[3], c[4])


def rule_mobile(P, R):
    """when the two worm ends sit on one interaction, at least one of them can move on"""
    rule = 'worm mobility'
    I = P.I
    if not any(p[0] in ('_spin', 'nW', 'nG') or p[:2] in (('Worm', 'Exist'), ('Worm', 'Ira'), ('Worm', 'Masha'), ('Worm', 'dSpin'))
               for b, p, v, w in P.x.log):
        return
    for s, v in P.glob(P.cp(), ('Worm', 'Exist'), 'bool'):
        for s, e in I.branch(s, v):
            if not e:
                continue
            for s, a in P.glob(s, ('Worm', 'Ira'), 'diag::Vertex *'):
                for s, b in P.glob(s, ('Worm', 'Masha'), 'diag::Vertex *'):
                    for s, wa in P.link(s, 'W', s.n(a), ('nW',)):
                        for s, wb in P.link(s, 'W', s.n(b), ('nW',)):
                            for s, same in I.branch(s, ('eq', s.n(wa), s.n(wb))):
                                R.ok(rule)
                                if same:
                                    _mobile(P, R, s, a, b, rule)


def _mobile(P, R, s, a, b, rule):
    I = P.I
    cur = [(s, [])]
    reads = [(DIAG, ('Worm', 'dSpin'), 'int')] + [(v, ('_spin', i), 'spin') for v in (a, b) for i in (0, 1)]
    for base, path, typ in reads:
        nxt = []
        for t, vals in cur:
            for t2, v in P.rd(t, t.n(base), path, typ):
                for t3, c in I.concretise(t2, t2.n(v)):
                    nxt.append((t3, vals + [c]))
        cur = nxt
    for t, c in cur:
        if not all(isinstance(z, int) for z in c):
            R.fail(rule, P.lastwrite(None, ('Worm', '_spin')), 'the spins at the worm ends are not determined', facts(t))
            return
        if is_stuck(c[0], c[1], c[2]) and is_stuck(-c[0], c[3], c[4]) and not pre_stuck(P, t):
            R.fail(rule, P.lastwrite(None, ('Worm', '_spin')), 'both worm ends sit on one interaction and neither can move on', facts(t))
            return


def pre_stuck(P, t):
    """every refinement of the state before the move has the worm stuck already"""
    I = P.I
    for s, e in I.branch(t, EXIST):
        if not e:
            return False
        for s, same in I.branch(s, ('eq', s.n(('nW', IRA)), s.n(('nW', MASHA)))):
            if not same:
                return False
            cur = [s]
            for at in (DSPIN, ('sp', ('nG', IRA, 0)), ('sp', ('nG', IRA, 1)), ('sp', ('nG', MASHA, 0)), ('sp', ('nG', MASHA, 1))):
                cur = [z for y in cur for z, _ in I.concretise(y, y.n(Num.atom(y.n(at))))]
            if not all(was_stuck(z) for z in cur):
                return False
    return True
