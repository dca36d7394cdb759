"""Proof obligations on the exits of the updates: every rule compares normal forms of the abstract post-state."""
from fractions import Fraction
from collections import OrderedDict
from terms import Num, N0, N1, show, tkey
from absint import Infeasible, NULL, strip
from diagdom import *
from updates import *


class Report(object):
    def __init__(self):
        self.n = OrderedDict()
        self.fails = []

    def ok(self, rule, k=1):
        self.n[rule] = self.n.get(rule, 0) + k

    def fail(self, rule, where, msg, facts=''):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.fails.append({'rule': rule, 'function': where[0], 'file': where[1], 'line': where[2], 'what': msg, 'path': facts})


def facts(st):
    out = []
    for k, v in sorted(st.sub.items(), key=lambda x: tkey(x[0])):
        out.append('%s == %s' % (show(k)[:120], show(v)[:120]))
    for k, v in sorted(st.bools.items(), key=lambda x: tkey(x[0])):
        if len(show(k)) < 160:
            out.append('%s is %s' % (show(k), v))
    return '; '.join(out)[:1500]


REMOVED = 'removed'


class Post(object):
    """the state at one exit: reads, touched objects"""

    def __init__(self, U, x):
        self.U, self.I, self.x = U, U.interp, x
        self.st = x.st
        self.added = {'V': [], 'G': [], 'W': []}
        self.removed = {'V': [], 'G': [], 'W': []}
        for ev in x.st.ev:
            if ev[0] == 'add':
                self.added[ev[1]].append(ev[2])
            elif ev[0] == 'remove':
                self.removed[ev[1]].append(ev[2])
        self.sets()

    # ---- reads on a copy (reading may partition)
    def rd(self, st, base, path, typ):
        return self.I.read(st, (base, path), typ)

    def cp(self):
        return self.I.split(self.st)

    def link(self, st, kind, base, path):
        return self.rd(st, base, path, CLS[kind] + ' *')

    def isgone(self, st, t):
        t = st.n(t)
        for s in self.removed.get(self.I.dom.kind(t) or '', []):
            if st.decide_eq(st.n(s), t) is True:
                return True
        return False

    def sets(self):
        """touched objects and their neighbours before and after"""
        st = self.st
        V, G, W = OrderedDict(), OrderedDict(), OrderedDict()
        S = {'V': V, 'G': G, 'W': W}
        dom = self.I.dom

        def put(t, st=st):
            t = st.n(t)
            k = dom.kind(t)
            if k:
                S[k][t] = 1
        flags = set()
        for b, p, v, w in self.x.log:
            b = st.n(b)
            if dom.kind(b):
                put(b)
            if isinstance(v, tuple):
                put(v)
            if b == DIAG:
                flags.add(p[0] if p[0] != 'Worm' else '.'.join(str(y) for y in p[:2]))
        for k in S:
            for t in self.added[k] + self.removed[k]:
                put(t)
        self.flags = flags
        if flags & {'MeasureGLine', 'GMeasure', 'WMeasure'}:
            m = st.n(MEASG)
            if m is not False:
                put(GMEAS)
            if m is not True:
                put(WMEAS)
        if flags & {'HasGammaGW', 'Vin', 'Vout', 'UExt'}:
            h = st.n(Num.atom(HASGW)).const()
            if h != 0 and h != 2:
                put(GSTAR)
            if h != 0 and h != 1:
                put(WSTAR)
        if flags & {'Worm.Exist', 'Worm.Ira', 'Worm.Masha'} and st.n(EXIST) is not False:
            put(('nW', IRA))
            put(('nW', MASHA))
            put(IRA)
            put(MASHA)
        # neighbours
        self.touched = {k: list(S[k]) for k in S}
        todo = [('G', g) for g in list(G)] + [('W', w) for w in list(W)]
        for k, o in todo:
            if o[0] != 'new':
                for d in (0, 1):
                    if k == 'G':
                        put(('gV', o, d))
                    elif o[0] != 'nW':
                        put(('wV', o, d))
                    else:
                        put(o[1])
            for d in (0, 1):
                for s, v in self.link(self.cp(), 'V', o, ('nVer', d)):
                    put(v, s)
        for v in list(V):
            if v[0] != 'new':
                put(('nG', v, 0))
                put(('nG', v, 1))
                put(('nW', v))
            for path, kk in ((('nG', 0), 'G'), (('nG', 1), 'G'), (('nW',), 'W')):
                for s, o in self.link(self.cp(), kk, v, path):
                    put(o, s)
        self.S = {k: [t for t in S[k] if dom.kind(t) == k] for k in S}

    # ---- globals after the update
    def glob(self, st, path, typ):
        return self.rd(st, DIAG, path, typ)

    def star(self, st):
        """[(state, HasGammaGW, object)]"""
        out = []
        for s, h in self.glob(st, ('HasGammaGW',), 'int'):
            for s1, hv in self.I.concretise(s, h):
                if hv == 0:
                    out.append((s1, 0, None))
                    continue
                for s2, p in self.glob(s1, ('Vin',), 'diag::Vertex **'):
                    if isinstance(p, tuple) and p[0] == 'ptr' and len(p[2]) == 2 and p[2][0] == 'nVer':
                        out.append((s2, hv, s2.n(p[1])))
                    else:
                        out.append((s2, hv, ('bad', p)))
        return out

    def lastwrite(self, base_kind, fields):
        for b, p, v, w in reversed(self.x.log):
            if p and p[0] in fields:
                return w
        return self.x.where()


def wwhere(P, obj, *fields):
    """where the object was last written"""
    st = P.st
    for b, p, v, w in reversed(P.x.log):
        if st.n(b) == obj and p and (not fields or p[0] in fields):
            return w
    for b, p, v, w in reversed(P.x.log):
        if p and p[0] in fields:
            return w
    return P.x.where()


# --------------------------------------------------------------------------- rules on one exit
def eqfail(P, st, a, b):
    """states in which the two reference terms differ"""
    a, b = st.n(a), st.n(b)
    return [s for s, e in P.I.branch(st, ('eq', a, b)) if not e] if a != b else []


def rule_links(P, R):
    """links are mutual and complete: vertex<->propagators, vertex<->interaction with matching direction"""
    rule = 'links'
    st0 = P.st

    def bad(st, obj, fields, msg):
        if obj != 'x' and P.isgone(st, obj):
            return      # this partition identified it with a removed element
        R.fail(rule, wwhere(P, obj, *fields), msg, facts(st))
    for kind, arr, back in (('G', 'nVer', None), ('W', 'nVer', None)):
        for o in P.S[kind]:
            if P.isgone(st0, o):
                continue
            for d in (0, 1):
                for s, v in P.link(P.cp(), 'V', o, ('nVer', d)):
                    if P.isgone(s, o):
                        continue
                    if P.I.dom.kind(s.n(v)) != 'V':
                        bad(s, o, ('nVer',), 'end %d of %s is not a vertex: %s' % (d, show(o), show(v)))
                        continue
                    if P.isgone(s, v):
                        bad(s, o, ('nVer',), 'end %d of %s is the removed vertex %s' % (d, show(o), show(v)))
                        continue
                    path = ('nG', 1 - d) if kind == 'G' else ('nW',)
                    for s2, g in P.link(s, kind, v, path):
                        for s3 in eqfail(P, s2, g, o):
                            bad(s3, o, ('nVer', 'nG', 'nW'), 'end %d of %s is %s, whose %s leads to %s' %
                                (d, show(o), show(v), '.'.join(map(str, path)), show(g)))
                    if kind == 'W':
                        for s2, dv in P.rd(P.I.split(s), v, ('Dir',), 'int'):
                            for s3, c in P.I.concretise(s2, dv):
                                if c != d:
                                    bad(s3, o, ('nVer', 'Dir'), 'end %d of %s is %s, which records direction %s' %
                                        (d, show(o), show(v), show(dv)))
                    R.ok(rule)
    for v in P.S['V']:
        if P.isgone(st0, v):
            continue
        for path, kind in ((('nG', 0), 'G'), (('nG', 1), 'G'), (('nW',), 'W')):
            for s, o in P.link(P.cp(), kind, v, path):
                if P.isgone(s, v):
                    continue
                if P.I.dom.kind(s.n(o)) != kind:
                    bad(s, v, path[:1], '%s of vertex %s is not set: %s' % ('.'.join(map(str, path)), show(v), show(o)))
                    continue
                if P.isgone(s, o):
                    bad(s, v, path[:1], '%s of vertex %s is the removed line %s' % ('.'.join(map(str, path)), show(v), show(o)))
                    continue
                if kind == 'G':
                    ds = [(s, 1 - path[1])]
                else:
                    ds = [(s2, c) for s1, dv in P.rd(s, v, ('Dir',), 'int') for s2, c in P.I.concretise(s1, dv)]
                for s2, d in ds:
                    if d not in (0, 1):
                        bad(s2, v, ('Dir',), 'direction of vertex %s is %s' % (show(v), show(d) if not isinstance(d, int) else d))
                        continue
                    for s3, v2 in P.link(s2, 'V', o, ('nVer', d)):
                        for s4 in eqfail(P, s3, v2, v):
                            bad(s4, v, path[:1] + ('nVer',), '%s of vertex %s is %s, whose end %d is %s' %
                                ('.'.join(map(str, path)), show(v), show(o), d, show(v2)))
                R.ok(rule)
    for nm in ('Ira', 'Masha'):
        for s, e in P.glob(P.cp(), ('Worm', 'Exist'), 'bool'):
            if s.n(e) is False:
                continue
            for s2, v in P.glob(s, ('Worm', nm), 'diag::Vertex *'):
                R.ok(rule)
                if P.isgone(s2, v):
                    R.fail(rule, wwhere(P, v), 'the worm end %s is the removed vertex %s' % (nm, show(v)), facts(s2))


def lin(p):
    """{atom: coefficient} of a linear form; None when not linear"""
    out = {}
    for m, c in p.d.items():
        if not m:
            out[None] = c
            continue
        if len(m) != 1:
            return None
        (a, e), = m
        if e != 1:
            return None
        out[a] = c
    return out


def reduce_lin(p, eqs):
    """p modulo the span of eqs (Gaussian elimination on exact rationals)"""
    rows = []
    for e in eqs:
        e = elim(e, rows)
        if e.d:
            rows.append(e)
    return elim(p, rows)


def elim(e, rows):
    for r in rows:
        k = min(r.d, key=lambda m: (len(m) == 0, sorted((tkey(a), x) for a, x in m)))
        c = e.d.get(k)
        if c:
            e = e - r.scale(c / r.d[k])
    return e


def defect(P, st, v, pre):
    """[(state, momentum imbalance at v)] before or after the update"""
    out = []
    if pre:
        I = P.I
        for s, _ in I.concretise(st, Num.atom(dirfld(st.n(v)))) if st.n(v)[0] != 'wV' else [(st, None)]:
            v1 = s.n(v)
            d = I.dom.dirof(s, v1)
            if d is None:
                c = s.n(Num.atom(dirfld(v1))).const()
                d = int(c) if c is not None else None
            k = lambda o: Num.atom(fld(s.n(o), ('K',), 'Momentum'))
            e = k(('nG', v1, 0)) - k(('nG', v1, 1)) + k(('nW', v1)).scale(-1 if d == 0 else 1)
            for s1, ex in I.branch(s, EXIST):
                if not ex:
                    out.append((s1, s1.n(e)))
                    continue
                for s2, a in I.branch(s1, ('eq', s1.n(v1), s1.n(IRA))):
                    if a:
                        out.append((s2, s2.n(e - Num.atom(WORMK))))
                        continue
                    for s3, b in I.branch(s2, ('eq', s2.n(v1), s2.n(MASHA))):
                        out.append((s3, s3.n(e + Num.atom(WORMK)) if b else s3.n(e)))
        return out
    rd = P.rd
    for s, dv in rd(st, v, ('Dir',), 'int'):
        for s1, d in P.I.concretise(s, dv):
            for s2, g0 in P.link(s1, 'G', v, ('nG', 0)):
                for s3, k0 in rd(s2, s2.n(g0), ('K',), 'Momentum'):
                    for s4, g1 in P.link(s3, 'G', v, ('nG', 1)):
                        for s5, k1 in rd(s4, s4.n(g1), ('K',), 'Momentum'):
                            for s6, w in P.link(s5, 'W', v, ('nW',)):
                                for s7, kw in rd(s6, s6.n(w), ('K',), 'Momentum'):
                                    if not all(isinstance(z, Num) for z in (k0, k1, kw)):
                                        out.append((s7, Num.atom(('undef', 'K'))))
                                        continue
                                    e = k0 - k1 + kw.scale(-1 if d == 0 else 1)
                                    out += worm_term(P, s7, v, e)
    return out


def worm_term(P, st, v, e):
    out = []
    for s, x in P.glob(st, ('Worm', 'Exist'), 'bool'):
        for s1, ex in P.I.branch(s, x):
            if not ex:
                out.append((s1, s1.n(e)))
                continue
            for s2, k in P.glob(s1, ('Worm', 'K'), 'Momentum'):
                for s3, ira in P.glob(s2, ('Worm', 'Ira'), 'diag::Vertex *'):
                    for s4, a in P.I.branch(s3, ('eq', s3.n(v), s3.n(ira))):
                        if a:
                            out.append((s4, s4.n(e - k)))
                            continue
                        for s5, ma in P.glob(s4, ('Worm', 'Masha'), 'diag::Vertex *'):
                            for s6, b in P.I.branch(s5, ('eq', s5.n(v), s5.n(ma))):
                                out.append((s6, s6.n(e + k) if b else s6.n(e)))
    return out


def rule_momentum(P, R):
    """momentum is conserved at every vertex, the worm carrying the difference at its two ends"""
    rule = 'momentum'
    kw = any(p[0] in ('K', 'nG', 'nW', 'nVer', 'Dir') or p[:2] in (('Worm', 'K'), ('Worm', 'Ira'), ('Worm', 'Masha'), ('Worm', 'Exist'))
             for b, p, v, w in P.x.log)
    if not kw:
        return
    for v in P.S['V']:
        if P.isgone(P.st, v):
            continue
        for s, e in defect(P, P.cp(), v, False):
            R.ok(rule)
            if not e.d:
                continue
            # initial equations: of the vertex itself, of removed vertices, of the vertices around
            rest = [u for u in P.S['V'] if u[0] != 'new']
            rest.sort(key=lambda u: 0 if s.n(u) == s.n(v) else 1 if P.isgone(s, u) else 2 if u in (IRA, MASHA) else 3)
            cur = [(s, [], e)]
            for u in rest:
                nxt = []
                for s1, eqs, e1 in cur:
                    try:
                        for s2, d in defect(P, P.I.split(s1), u, True):
                            eqs2 = [s2.n(q) for q in eqs] + [d]
                            e2 = s2.n(e)
                            if reduce_lin(e2, eqs2).d:
                                nxt.append((s2, eqs2, e2))
                    except Infeasible:
                        pass
                cur = nxt
                if not cur:
                    break
            for s2, eqs, e2 in cur:
                R.fail(rule, wwhere(P, v, 'K', 'Worm', 'nG'), 'momentum imbalance %s at vertex %s' %
                       (show(reduce_lin(e2, eqs))[:200], show(v)), facts(s2))


def rule_hash(P, R):
    """the tables of used momenta follow the momenta of the lines, and a new momentum was free"""
    rule = 'momentum tables'
    st = P.st
    I = P.I
    for kind, tab in (('G', 'GHash'), ('W', 'WHash')):
        changed = OrderedDict()
        for b, p, v, w in P.x.log:
            if p == ('K',) and I.dom.kind(st.n(b)) == kind:
                changed[st.n(b)] = w
        for o in P.added[kind] + P.removed[kind]:
            changed.setdefault(st.n(o), P.x.where())
        writes = [(p[1], v, w) for b, p, v, w in P.x.log if b == DIAG and p[0] == tab]
        if not changed and not writes:
            continue

        def idx(k):
            return k + Num.atom(('int', 'MAX_K')) if kind == 'G' else kabs(k)
        old, new = [], []
        bad = False
        for o, w in changed.items():
            gone = P.isgone(st, o)
            if o[0] != 'new':
                old.append((idx(st.n(Num.atom(fld(o, ('K',), 'Momentum')))), w, o))
            if not gone:
                r = P.rd(P.cp(), o, ('K',), 'Momentum')
                if len(r) != 1 or not isinstance(r[0][1], Num):
                    R.fail(rule, w, 'the momentum of %s is not determined' % show(o), facts(st))
                    bad = True
                    continue
                new.append((idx(st.n(r[0][1])), w, o, st.n(r[0][1])))
        if bad:
            continue
        final = OrderedDict()
        for i, v, w in writes:
            i = st.n(i if isinstance(i, Num) else Num.c(i))
            final[i] = (v, w)
        want = OrderedDict()
        for i, w, o in old:
            want[st.n(i)] = (False, w, o)
        for i, w, o, k in new:
            want[st.n(i)] = (True, w, o)
        for i, (v, w, o) in want.items():
            R.ok(rule)
            got = final.get(i)
            if got is None:
                if not v or not entry_true(P, i, tab, old):
                    R.fail(rule, w, 'the entry of momentum %s (line %s) is not %s in %s' %
                           (show(i), show(o), 'set' if v else 'cleared', tab), facts(st))
            elif got[0] is not v:
                R.fail(rule, got[1], 'the entry of momentum %s (line %s) is left %s in %s' % (show(i), show(o), got[0], tab), facts(st))
        for i, (v, w) in final.items():
            R.ok(rule)
            if i not in want:
                R.fail(rule, w, 'the entry %s of %s is changed although no line has or had that momentum' % (show(i), tab), facts(st))
        # a new momentum must have been free
        fresh = []
        for i, w, o, k in new:
            if any(st.n(j) == i for j, _, _ in old):
                continue
            R.ok('free momentum')
            a = ('truth', fld(DIAG, (tab, i), 'bool'))
            if st.bools.get(st.n(a)) is not False and st.n(a) is not False and not was_tested(P, tab, i):
                R.fail('free momentum', w, 'line %s gets momentum %s without establishing that it is unused' % (show(o), show(i)), facts(st))
            if kind == 'W' and st.decide_eq0(k) is not False and st.bools.get(('eq0', k.normal()[1] if k.d else k)) is not False:
                R.fail('free momentum', w, 'line %s may get momentum zero' % show(o), facts(st))
            for j, o2 in fresh:
                d = st.n(i - j)
                if st.decide_eq0(d) is not False:
                    R.fail('free momentum', w, 'lines %s and %s may get the same momentum %s' % (show(o), show(o2), show(i)), facts(st))
            fresh.append((i, o))


def was_tested(P, tab, i):
    """the table was read at i before it was written, and read as free"""
    for k, v in P.st.bools.items():
        if isinstance(k, tuple) and k[0] == 'truth' and k[1][0] == 'fld' and k[1][1] == DIAG and k[1][2][:1] == (tab,):
            if P.st.n(k[1][2][1]) == i and v is False:
                return True
    return False


def entry_true(P, i, tab, old):
    return any(P.st.n(j) == i for j, _, _ in old)


def canon_post_g(P, st, g):
    out = []
    rd = P.rd
    for s, a in P.link(st, 'V', g, ('nVer', 0)):
        for s, b in P.link(s, 'V', g, ('nVer', 1)):
            for s, r1 in rd(s, s.n(a), ('R',), 'Site'):
                for s, r2 in rd(s, s.n(b), ('R',), 'Site'):
                    for s, t1 in rd(s, s.n(a), ('Tau',), 'double'):
                        for s, t2 in rd(s, s.n(b), ('Tau',), 'double'):
                            for s, s1 in rd(s, s.n(a), ('_spin', 1), 'spin'):
                                for s, s2 in rd(s, s.n(b), ('_spin', 0), 'spin'):
                                    for s, m in rd(s, g, ('IsMeasure',), 'bool'):
                                        for s, gg in rd(s, g, ('IsGGGammaG',), 'bool'):
                                            for s, ext in read_ext(P.I, s, ('ptr', DIAG, ('UExt',))):
                                                out.append((s, s.n(Num.atom(('GW', r1, r2, t1, t2, s1, s2, m, gg, ext)))))
    return out


def canon_post_w(P, st, w):
    out = []
    rd = P.rd
    for s, a in P.link(st, 'V', w, ('nVer', 0)):
        for s, b in P.link(s, 'V', w, ('nVer', 1)):
            for s, r1 in rd(s, s.n(a), ('R',), 'Site'):
                for s, r2 in rd(s, s.n(b), ('R',), 'Site'):
                    for s, t1 in rd(s, s.n(a), ('Tau',), 'double'):
                        for s, t2 in rd(s, s.n(b), ('Tau',), 'double'):
                            for s, p0 in rd(s, s.n(a), ('_spin', 0), 'spin'):
                                for s, p1 in rd(s, s.n(a), ('_spin', 1), 'spin'):
                                    for s, p2 in rd(s, s.n(b), ('_spin', 0), 'spin'):
                                        for s, p3 in rd(s, s.n(b), ('_spin', 1), 'spin'):
                                            for s, f1 in rd(s, w, ('IsWorm',), 'bool'):
                                                for s, f2 in rd(s, w, ('IsMeasure',), 'bool'):
                                                    for s, f3 in rd(s, w, ('IsDelta',), 'bool'):
                                                        for s, f4 in rd(s, w, ('IsWWGammaW',), 'bool'):
                                                            for s, ext in read_ext(P.I, s, ('ptr', DIAG, ('UExt',))):
                                                                out.append((s, s.n(Num.atom(('WW', r1, r2, t1, t2, p0, p1, p2, p3,
                                                                                             f1, f2, f3, f4, ext)))))
    return out


def post_order(P, st):
    r = []
    for s, o in P.glob(st, ('Order',), 'int'):
        r.append((s, s.n(o)))
    return r


def order0(P):
    return all(isinstance(o, Num) and o.const() == 0 for s, o in post_order(P, P.cp()))


def rule_cached(P, R):
    """the weight cached on a line is the weight function of its ends' coordinates, times, spins and of its flags"""
    rule = 'cached weight'
    if order0(P):
        return
    for kind in ('G', 'W'):
        for o in P.S[kind]:
            if P.isgone(P.st, o):
                continue
            for s, c in (canon_post_g if kind == 'G' else canon_post_w)(P, P.cp(), o):
                for s2, w in P.rd(s, o, ('Weight',), 'Complex'):
                    R.ok(rule)
                    if P.isgone(s2, o):
                        continue
                    a, b = s2.n(w), s2.n(c)
                    if a == b:
                        continue
                    if not refine_equal(P, s2, a, b):
                        R.fail(rule, wwhere(P, o, 'Weight'), 'the cached weight of %s is %s but its state requires %s' %
                               (show(o), show(a)[:500], show(b)[:500]), facts(s2))
    # the worm weight
    for s, x in P.glob(P.cp(), ('Worm', 'Exist'), 'bool'):
        for s1, ex in P.I.branch(s, x):
            if not ex:
                continue
            for s2, w in P.glob(s1, ('Worm', 'Weight'), 'double'):
                for s3, c in worm_weight(P, s2):
                    R.ok('worm weight')
                    if s3.n(w) != s3.n(c):
                        R.fail('worm weight', P.lastwrite(None, ('Worm',)), 'the worm weight is %s but the worm ends require %s' %
                               (show(s3.n(w)), show(s3.n(c))), facts(s3))


def worm_weight(P, st):
    out = []
    for s, a in P.glob(st, ('Worm', 'Ira'), 'diag::Vertex *'):
        for s, b in P.glob(s, ('Worm', 'Masha'), 'diag::Vertex *'):
            for s, r1 in P.rd(s, s.n(a), ('R',), 'Site'):
                for s, r2 in P.rd(s, s.n(b), ('R',), 'Site'):
                    for s, t1 in P.rd(s, s.n(a), ('Tau',), 'double'):
                        for s, t2 in P.rd(s, s.n(b), ('Tau',), 'double'):
                            out.append((s, s.n(Num.atom(('WormWt', r1, r2, t1, t2)))))
    return out


def refine_equal(P, st, a, b, depth=0):
    """two weights equal after partitioning on the flags and spins both mention"""
    if a == b:
        return True
    if depth > 6:
        return False
    diff = None
    for x in sorted(atoms_deep(a) ^ atoms_deep(b), key=tkey):
        diff = x
        break
    if diff is None:
        return False
    if diff[0] == 'truth':
        r = P.I.branch(st, diff)
        if len(r) < 1 or (len(r) == 1 and r[0][0] is st):
            return False
        return all(refine_equal(P, s, s.n(a), s.n(b), depth + 1) for s, _ in r)
    if P.I.dom.finite(st, diff) is not None:
        return all(refine_equal(P, s, s.n(a), s.n(b), depth + 1) for s, _ in P.I.concretise(st, Num.atom(diff)))
    return False


def atoms_deep(t):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Num):
            for a in x.atoms():
                st.append(a)
        elif isinstance(x, tuple) and x:
            if x[0] in ('truth', 'sp') or x[0] == 'fld' and x[2] in (('Dir',),) or x[0] == 'fld' and x[-1] == 'spin':
                out.add(x)
            else:
                st.extend(x[1:])
    return out


def touched_product(P, st):
    """[(state, product of new weights / product of old weights over all lines whose weight, existence or arguments changed)]"""
    lines = []
    for kind in ('G', 'W'):
        cand = [st.n(b) for b, p, v, w in P.x.log if p[:1] == ('Weight',) and P.I.dom.kind(st.n(b)) == kind]
        for o in cand + [st.n(t) for t in P.added[kind] + P.removed[kind]]:
            if (kind, o) not in lines:
                lines.append((kind, o))
    cur = [(st, N1, ())]
    for kind, o in lines:
        nxt = []
        for s, prod, seen in cur:
            t = s.n(o)
            if t in [s.n(y) for y in seen]:
                nxt.append((s, prod, seen))
                continue
            # undecided aliasing with a line already counted
            parts = [(s, False)]
            for y in seen:
                np = []
                for q, hit in parts:
                    if hit:
                        np.append((q, True))
                        continue
                    if P.I.dom.kind(q.n(y)) != kind:
                        np.append((q, False))
                        continue
                    for q2, e in P.I.branch(q, ('eq', q.n(o), q.n(y))):
                        np.append((q2, e))
                parts = np
            for q, hit in parts:
                if hit:
                    nxt.append((q, prod, seen))
                    continue
                t = q.n(o)
                gone = P.isgone(q, t)
                olds = [(q, N1)] if t[0] == 'new' else [(z, z.n(v)) for z, v in P.I.dom.init(P.I, q, t, ('Weight',), 'Complex')]
                for z, ov in olds:
                    news = [(z, N1)] if gone else P.rd(z, z.n(t), ('Weight',), 'Complex')
                    for z2, nv in news:
                        nxt.append((z2, z2.n(prod * nv / ov) if isinstance(nv, Num) else None, seen + (o,)))
        cur = nxt
        cur = [(s, p, sn) for s, p, sn in cur if p is not None]
    return [(s, p) for s, p, sn in cur]


def rule_total(P, R):
    """total weight = (-1)^order * fermi sign * product of the lines' weights, phase = its direction; and the acceptance ratio"""
    rule = 'total weight'
    out = []
    for s, o1 in post_order(P, P.cp()):
        o0 = s.n(Num.atom(ORDER))
        c1, c0 = o1.const(), o0.const()
        for s2, dw in P.glob(s, ('Weight',), 'Complex'):
            for s3, ph in P.glob(s2, ('Phase',), 'Complex'):
                w0 = Num.atom(DW)
                ratio = s3.n(dw / w0) if isinstance(dw, Num) else None
                if ratio is None:
                    R.fail(rule, P.lastwrite(None, ('Weight',)), 'the total weight is not determined', facts(s3))
                    continue
                exps = []
                if c1 == 0 and c0 != 0:
                    exps.append((s3, None, 'norm'))
                elif c0 == 0 and c1 != 0:
                    exps = [(z, p, 'from0') for z, p in from_zero(P, s3, c1)]
                else:
                    d = (o1 - o0).const()
                    if d is None:
                        R.fail(rule, P.lastwrite(None, ('Order',)), 'the order changes by an unknown amount', facts(s3))
                        continue
                    for z, p in touched_product(P, s3):
                        for z2, f in P.glob(z, ('SignFermiLoop',), 'double'):
                            sg = z2.n(f / Num.atom(SFL)) if isinstance(f, Num) else Num.atom(('undef', 'sign'))
                            # the initial content may have been resolved to a constant on this path
                            if f.const() is not None:
                                for z3, f0 in P.I.dom.init(P.I, z2, DIAG, ('SignFermiLoop',), 'double'):
                                    sg = z3.n(f / f0)
                            exps.append((z2, z2.n(p * sg.scale((-1) ** (int(d) % 2))), 'ratio'))
                for z, want, how in exps:
                    R.ok(rule)
                    rr = z.n(ratio)
                    if how == 'norm':
                        nw = z.n(dw)
                        a = nw.single()
                        if not (a is not None and a[0] == 'fld' and 'NormFactor' in repr(a)):
                            R.fail(rule, P.lastwrite(None, ('Weight',)), 'at order zero the total weight is %s instead of the normalisation weight' % show(nw)[:300], facts(z))
                    elif how == 'from0':
                        if z.n(dw) != z.n(want):
                            R.fail(rule, P.lastwrite(None, ('Weight',)), 'the total weight becomes %s but the lines give %s' %
                                   (show(z.n(dw))[:500], show(z.n(want))[:500]), facts(z))
                    elif rr != z.n(want) and not refine_equal(P, z, rr, z.n(want)):
                        R.fail(rule, P.lastwrite(None, ('Weight',)), 'the total weight is multiplied by %s but its lines changed by %s' %
                               (show(rr)[:600], show(z.n(want))[:600]), facts(z))
                # phase
                R.ok('phase')
                wantp = s3.n(Num.atom(PHASE) * (ratio / absnum(ratio)) if ratio.d else N0)
                if not isinstance(ph, Num) or s3.n(ph) != wantp:
                    R.fail('phase', P.lastwrite(None, ('Phase',)), 'the phase becomes %s but the weight ratio requires %s' %
                           (show(ph)[:400], show(wantp)[:400]), facts(s3))


def from_zero(P, st, c1):
    """total weight of an order-one diagram from its lines: one interaction, two propagators"""
    norm_slots(st)
    w = st.n(('slot', 'W', 0))
    v = [('slot', 'V', 0), ('slot', 'V', 1)]
    out = [(st, Num.c((-1) ** int(c1)))]
    for o in (('nG', v[0], 1), ('nG', v[1], 1), ('slot', 'W', 0)):
        nxt = []
        for s, p in out:
            for s2, x in P.rd(s, s.n(o), ('Weight',), 'Complex'):
                nxt.append((s2, p * x))
        out = nxt
    res = []
    for s, p in out:
        for s2, f in P.glob(s, ('SignFermiLoop',), 'double'):
            res.append((s2, s2.n(p * f)))
    return res


def rule_counts(P, R, cap):
    rule = 'element counts'
    x = P.x
    st = P.st
    dW = len(P.added['W']) - len(P.removed['W'])
    dG = len(P.added['G']) - len(P.removed['G'])
    dV = len(P.added['V']) - len(P.removed['V'])
    for s, o1 in post_order(P, P.cp()):
        R.ok(rule)
        o0 = s.n(Num.atom(ORDER))
        d = (o1 - o0).const() if isinstance(o1, Num) else None
        special = {(0, 1), (1, 0)}
        if d != dW or dG != 2 * dW or dV != 2 * dW:
            if not (dW == dG == dV == 0 and (o0.const(), o1.const()) in special):
                R.fail(rule, P.lastwrite(None, ('Order',)), 'order changes by %s while vertices/propagators/interactions change by %d/%d/%d' %
                       (d, dV, dG, dW), facts(s))
        if d is not None and d > 0 and not (o0.const(), o1.const()) in special:
            R.ok('order cap')
            capn = s.n(cap)
            if s.decide_lt0(s.n(o1 - capn - Num.c(1))) is not True and s.decide_lt0(s.n(o0 - capn)) is not True:
                R.fail('order cap', P.lastwrite(None, ('Order',)), 'the order is raised without establishing that it stays within the maximum order', facts(s))
            if s.decide_lt0(s.n(Num.c(1) - o0)) is not True and s.decide_eq0(s.n(o0)) is not False:
                R.fail('order cap', P.lastwrite(None, ('Order',)), 'an interaction is added to the order-zero diagram', facts(s))
        if d is not None and d < 0 and not (o0.const(), o1.const()) in special:
            R.ok('order cap')
            if s.decide_lt0(s.n(o1 - Num.c(1))) is not False:
                R.fail('order cap', P.lastwrite(None, ('Order',)), 'the order is lowered without establishing that at least one interaction remains', facts(s))
    for k in ('V', 'G', 'W'):
        rs = [st.n(t) for t in P.removed[k]]
        for i in range(len(rs)):
            for j in range(i):
                R.ok(rule)
                if st.decide_eq(rs[i], rs[j]) is not False:
                    # equal pairs would be removed twice
                    if any(e for s, e in P.I.branch(P.cp(), ('eq', rs[i], rs[j]))):
                        R.fail(rule, P.x.where(), 'the same element may be removed twice: %s, %s' % (show(rs[i]), show(rs[j])), facts(st))


def init_line_facts(P, st, o, kind):
    """invariants of an initial line: the measuring line is neither a delta interaction nor the extended line"""
    return st


def rule_measure(P, R):
    """exactly one measuring line, recorded on the diagram and on the line"""
    rule = 'measuring line'
    for kind, glob, typ in (('G', 'GMeasure', 'diag::GLine *'), ('W', 'WMeasure', 'diag::WLine *')):
        for o in P.S[kind]:
            t = P.st.n(o)
            if P.isgone(P.st, t):
                R.ok(rule)
                if t[0] == 'new':
                    continue
                for s, b in P.I.branch(P.cp(), flag(t, 'IsMeasure')):
                    if b:
                        for s2, g in P.glob(s, (glob,), typ):
                            if not eqfail(P, s2, g, t) or True:
                                R.fail(rule, P.x.where(), 'the removed line %s may be the measuring line' % show(t), facts(s))
                        break
                continue
            for s, f in P.rd(P.cp(), o, ('IsMeasure',), 'bool'):
                for s1, m in P.glob(s, ('MeasureGLine',), 'bool'):
                    for s2, mg in P.I.branch(s1, m):
                        for s3, fv in P.I.branch(s2, s2.n(f)):
                            for s4, g in P.glob(s3, (glob,), typ):
                                R.ok(rule)
                                g = s4.n(g)
                                if mg == (kind == 'G'):
                                    if g == NULL or P.I.dom.kind(g) != kind:
                                        if fv:
                                            R.fail(rule, wwhere(P, o, 'IsMeasure'), '%s is marked measuring but the diagram records %s' % (show(o), show(g)), facts(s4))
                                        continue
                                    for s5, same in P.I.branch(s4, ('eq', s4.n(o), g)):
                                        if same != fv:
                                            R.fail(rule, wwhere(P, o, 'IsMeasure'), 'line %s is %smarked measuring but %s the recorded one (%s)' %
                                                   (show(o), '' if fv else 'not ', 'is' if same else 'is not', show(g)), facts(s5))
                                elif fv:
                                    R.fail(rule, wwhere(P, o, 'IsMeasure'), 'line %s is marked measuring although the diagram measures the other kind of line' % show(o), facts(s4))
                                if fv:
                                    for s5, h, star in P.star(P.I.split(s4)):
                                        if h == (1 if kind == 'G' else 2) and star[0] != 'bad' and \
                                                any(e for _, e in P.I.branch(s5, ('eq', s5.n(o), star))):
                                            R.fail(rule, wwhere(P, o, 'IsMeasure'), 'the measuring line may be the extended line', facts(s5))
    # the recorded line exists
    if P.flags & {'MeasureGLine', 'GMeasure', 'WMeasure'}:
        for s, m in P.glob(P.cp(), ('MeasureGLine',), 'bool'):
            for s1, mg in P.I.branch(s, m):
                kind, glob = ('G', 'GMeasure') if mg else ('W', 'WMeasure')
                for s2, g in P.glob(s1, (glob,), CLS[kind] + ' *'):
                    R.ok(rule)
                    if P.I.dom.kind(s2.n(g)) != kind:
                        R.fail(rule, P.lastwrite(None, (glob, 'MeasureGLine')), 'no measuring line is recorded: %s is %s' % (glob, show(g)), facts(s2))


def rule_worm(P, R):
    """an interaction line is marked as worm line exactly when a worm end sits on it"""
    rule = 'worm flag'
    for o in P.S['W']:
        if P.isgone(P.st, o):
            if P.st.n(o)[0] != 'new':
                R.ok(rule)
                for s, b in P.I.branch(P.cp(), flag(P.st.n(o), 'IsWorm')):
                    if b:
                        for s1, x in P.glob(s, ('Worm', 'Exist'), 'bool'):
                            if s1.n(x) is not False:
                                R.fail(rule, P.x.where(), 'the removed interaction %s may carry a worm end' % show(o), facts(s))
                                break
            continue
        for s, f in P.rd(P.cp(), o, ('IsWorm',), 'bool'):
            for s1, fv in P.I.branch(s, s.n(f)):
                for s2, want in worm_on(P, s1, o):
                    R.ok(rule)
                    if want != fv:
                        R.fail(rule, wwhere(P, o, 'IsWorm'), 'interaction %s is %smarked as worm line but %s worm end on it' %
                               (show(o), '' if fv else 'not ', 'there is a' if want else 'there is no'), facts(s2))
    # ends distinct
    if P.flags & {'Worm.Exist', 'Worm.Ira', 'Worm.Masha'}:
        for s, x in P.glob(P.cp(), ('Worm', 'Exist'), 'bool'):
            for s1, ex in P.I.branch(s, x):
                if not ex:
                    continue
                for s2, a in P.glob(s1, ('Worm', 'Ira'), 'diag::Vertex *'):
                    for s3, b in P.glob(s2, ('Worm', 'Masha'), 'diag::Vertex *'):
                        R.ok('worm ends')
                        if any(e for _, e in P.I.branch(s3, ('eq', s3.n(a), s3.n(b)))):
                            R.fail('worm ends', P.lastwrite(None, ('Worm',)), 'the two worm ends may coincide: %s, %s' % (show(a), show(b)), facts(s3))


def worm_on(P, st, w):
    out = []
    for s, x in P.glob(st, ('Worm', 'Exist'), 'bool'):
        for s1, ex in P.I.branch(s, x):
            if not ex:
                out.append((s1, False))
                continue
            for s2, a in P.glob(s1, ('Worm', 'Ira'), 'diag::Vertex *'):
                for s3, wa in P.link(s2, 'W', s2.n(a), ('nW',)):
                    for s4, e in P.I.branch(s3, ('eq', s3.n(w), s3.n(wa))):
                        if e:
                            out.append((s4, True))
                            continue
                        for s5, b in P.glob(s4, ('Worm', 'Masha'), 'diag::Vertex *'):
                            for s6, wb in P.link(s5, 'W', s5.n(b), ('nW',)):
                                for s7, e2 in P.I.branch(s6, ('eq', s6.n(w), s6.n(wb))):
                                    out.append((s7, e2))
    return out


def rule_star(P, R):
    """vertex-function state: 0 none, 1 one extended propagator, 2 one extended interaction; the recorded ends are that line's"""
    rule = 'vertex-function state'
    for kind, val, fl in (('G', 1, 'IsGGGammaG'), ('W', 2, 'IsWWGammaW')):
        for o in P.S[kind]:
            if P.isgone(P.st, o):
                if P.st.n(o)[0] != 'new':
                    R.ok(rule)
                    if any(b for s, b in P.I.branch(P.cp(), flag(P.st.n(o), fl))):
                        R.fail(rule, P.x.where(), 'the removed line %s may be the extended line' % show(o), facts(P.st))
                continue
            for s, f in P.rd(P.cp(), o, (fl,), 'bool'):
                for s1, fv in P.I.branch(s, s.n(f)):
                    for s2, h, star in P.star(s1):
                        R.ok(rule)
                        if h != val:
                            if fv:
                                R.fail(rule, wwhere(P, o, fl), 'line %s is marked extended in state %s' % (show(o), h), facts(s2))
                            continue
                        if star[0] == 'bad' or P.I.dom.kind(star) != kind:
                            R.fail(rule, P.lastwrite(None, ('Vin', 'HasGammaGW')), 'the recorded end does not belong to a line of the right kind: %s' % show(star), facts(s2))
                            continue
                        for s3, same in P.I.branch(s2, ('eq', s2.n(o), star)):
                            if same != fv:
                                R.fail(rule, wwhere(P, o, fl), 'line %s is %smarked extended but %s the recorded one' %
                                       (show(o), '' if fv else 'not ', 'is' if same else 'is not'), facts(s3))
    if P.flags & {'HasGammaGW', 'Vin', 'Vout'}:
        for s, h, star in P.star(P.cp()):
            R.ok(rule)
            if h not in (0, 1, 2):
                R.fail(rule, P.lastwrite(None, ('HasGammaGW',)), 'undefined state %s' % h, facts(s))
            if not h:
                continue
            for s2, p in P.glob(s, ('Vin',), 'diag::Vertex **'):
                for s3, q in P.glob(s2, ('Vout',), 'diag::Vertex **'):
                    if not (p == ('ptr', star, ('nVer', 0)) and q == ('ptr', star, ('nVer', 1))):
                        R.fail(rule, P.lastwrite(None, ('Vin', 'Vout')), 'the recorded ends are %s and %s' % (show(p), show(q)), facts(s3))
            # while extended, the measured line and the extended line are different and a delta line is not extended
            fl2 = 'IsMeasure'
            for s2, f in P.rd(P.I.split(s), star, (fl2,), 'bool'):
                if any(b for _, b in P.I.branch(s2, s2.n(f))):
                    R.fail(rule, P.lastwrite(None, ('HasGammaGW',)), 'the measuring line may become the extended line', facts(s2))


def rule_delta(P, R):
    """an instantaneous interaction has equal times at its ends and is not the measuring line"""
    rule = 'instantaneous interaction'
    for o in P.S['W']:
        if P.isgone(P.st, o):
            continue
        for s, f in P.rd(P.cp(), o, ('IsDelta',), 'bool'):
            for s1, fv in P.I.branch(s, s.n(f)):
                if not fv:
                    continue
                for s2, a in P.link(s1, 'V', o, ('nVer', 0)):
                    for s3, b in P.link(s2, 'V', o, ('nVer', 1)):
                        for s4, ta in P.rd(s3, s3.n(a), ('Tau',), 'double'):
                            for s5, tb in P.rd(s4, s4.n(b), ('Tau',), 'double'):
                                R.ok(rule)
                                t = s5.n(o)
                                if s5.n(ta) == s5.n(tb):
                                    continue
                                if t[0] != 'new' and s5.n(flag(t, 'IsDelta')) is True:
                                    try:
                                        a0 = ('wV', t, 0)
                                        b0 = ('wV', t, 1)
                                        if t[0] == 'nW':
                                            d = P.I.dom.dirof(s5, t[1])
                                            if d == 0:
                                                a0 = t[1]
                                            elif d == 1:
                                                b0 = t[1]
                                        s5.set_sub(fld(s5.n(a0), ('Tau',), 'double'), Num.atom(fld(s5.n(b0), ('Tau',), 'double')))
                                        s5.reset()
                                    except Infeasible:
                                        continue
                                if s5.n(ta) != s5.n(tb):
                                    R.fail(rule, wwhere(P, o, 'IsDelta', 'Tau'), 'instantaneous interaction %s has times %s and %s at its ends' %
                                           (show(o), show(s5.n(ta)), show(s5.n(tb))), facts(s5))
                for s2, m in P.rd(P.I.split(s1), o, ('IsWWGammaW',), 'bool'):
                    for s3, mv in P.I.branch(s2, s2.n(m)):
                        if mv and not (s3.n(o)[0] != 'new' and s3.n(flag(s3.n(o), 'IsDelta')) is True and s3.n(flag(s3.n(o), 'IsWWGammaW')) is True):
                            R.fail(rule, wwhere(P, o, 'IsDelta', 'IsWWGammaW'), 'interaction %s may be instantaneous and extended' % show(o), facts(s3))
                for s2, m in P.rd(P.I.split(s1), o, ('IsMeasure',), 'bool'):
                    for s3, mv in P.I.branch(s2, s2.n(m)):
                        if mv:
                            t = s3.n(o)
                            if t[0] != 'new' and s3.n(flag(t, 'IsDelta')) is True and s3.n(flag(t, 'IsMeasure')) is True:
                                continue    # excluded before the update
                            R.fail(rule, wwhere(P, o, 'IsDelta', 'IsMeasure'), 'interaction %s may be instantaneous and the measuring line' % show(o), facts(s3))
    if 'Order' in P.flags:
        for s, n in P.glob(P.cp(), ('Order',), 'int'):
            if s.n(n).const() != 0:
                continue
            for s1, f in P.rd(s, ('slot', 'W', 0), ('IsDelta',), 'bool'):
                R.ok(rule)
                if any(b for _, b in P.I.branch(s1, s1.n(f))):
                    R.fail(rule, P.lastwrite(None, ('Order',)), 'the interaction kept for the diagram of order zero may be instantaneous, '
                           'although the way back to order one draws two independent times', facts(s1))


def rule_spin(P, R):
    """both ends of a propagator carry the same spin"""
    rule = 'propagator spin'
    for o in P.S['G']:
        if P.isgone(P.st, o):
            continue
        for s, a in P.link(P.cp(), 'V', o, ('nVer', 0)):
            for s, b in P.link(s, 'V', o, ('nVer', 1)):
                for s, x in P.rd(s, s.n(a), ('_spin', 1), 'spin'):
                    for s, y in P.rd(s, s.n(b), ('_spin', 0), 'spin'):
                        R.ok(rule)
                        p, q = s.n(x), s.n(y)
                        if p != q:
                            d = p - q if isinstance(p, Num) and isinstance(q, Num) else None
                            if d is not None and all(P.I.dom.finite(s, at) for at in d.atoms()):
                                bad = [z for z, v in P.I.concretise(P.I.split(s), d) if v != 0]
                                if not bad:
                                    continue
                            R.fail(rule, wwhere(P, o, '_spin', 'nVer', 'nG'), 'propagator %s has spin %s at its start and %s at its end' %
                                   (show(o), show(p), show(q)), facts(s))


def rule_local(P, R):
    """both ends of a propagator sit on the same lattice site"""
    rule = 'propagator site'
    for o in P.S['G']:
        if P.isgone(P.st, o):
            continue
        for s, a in P.link(P.cp(), 'V', o, ('nVer', 0)):
            for s, b in P.link(s, 'V', o, ('nVer', 1)):
                for s, x in P.rd(s, s.n(a), ('R',), 'Site'):
                    for s, y in P.rd(s, s.n(b), ('R',), 'Site'):
                        R.ok(rule)
                        if s.n(x) != s.n(y):
                            R.fail(rule, wwhere(P, o, 'R', 'nVer', 'nG'), 'propagator %s starts at site %s and ends at site %s' %
                                   (show(o), show(s.n(x)), show(s.n(y))), facts(s))


def rule_stats(U, u, R):
    """one proposal is counted per reached acceptance test, one acceptance per accepted move, under this update's own kind"""
    rule = 'counters'
    for x in u.exits:
        R.ok(rule)
        p, a = U.counters(x)
        st = x.st

        def one(lst, nm, want):
            if len(lst) != (1 if want else 0):
                where = lst[-1][2] if lst else x.where()
                R.fail(rule, where, '%s is updated %d times on an exit that is %s' % (nm, len(lst), x.kind), facts(st))
                return
            for path, val, w in lst:
                if path[1] != u.op or len(path) != 3:
                    R.fail(rule, w, '%s is counted for kind %s in an update of kind %s' % (nm, U.opname.get(path[1], path[1]), u.opname), facts(st))
                    continue
                idx = path[2] if isinstance(path[2], Num) else Num.c(path[2])
                o0 = st.n(Num.atom(ORDER))
                if st.n(idx) != o0:
                    R.fail(rule, w, '%s is counted at order %s instead of the order before the update' % (nm, show(st.n(idx))), facts(st))
                    continue
                atom = None
                if isinstance(val, Num):
                    d = val - N1
                    atom = d.single()
                if atom is None or atom[0] != 'fld' or atom[2][0] != nm:
                    R.fail(rule, w, '%s becomes %s instead of being incremented by one' % (nm, show(val)), facts(st))
        if x.kind == 'early':
            one(p, 'Proposed', False)
            one(a, 'Accepted', False)
        elif x.kind == 'rejected':
            one(p, 'Proposed', True)
            one(a, 'Accepted', False)
        else:
            one(p, 'Proposed', True)
            one(a, 'Accepted', True)


def field_type(U, kind, base, path):
    rec = CLS.get(kind) or {DIAG: 'diag::Diagram', THIS: 'mc::Markov', PARA: 'para::ParaMC'}.get(base)
    t = rec
    for f in path:
        if t is None:
            return None
        if not isinstance(f, str):
            t = t[:t.rindex('[')].strip() if t.endswith(']') else None
            continue
        r = U.p.recs.get(strip(t))
        if r is None:
            return None
        c = [y['t'] for y in r['fields'] if y['name'] == f]
        t = c[0] if c else None
    return t


def unchanged(U, x, b, p, v):
    """the location holds at the end what it held at the start"""
    I = U.interp
    typ = field_type(U, I.dom.kind(x.st.n(b)), x.st.n(b), p)
    if typ is None:
        return False
    for s, new in I.read(I.split(x.st), (b, p), typ):
        t = I.split(s)
        t.log = t.log[:x.n0]
        for s2, old in I.read(t, (b, p), typ):
            if s2.n(new) != s2.n(old):
                return False
    return True


def rule_frame(U, u, R):
    """a move that is not accepted leaves the diagram alone"""
    rule = 'rejected move'
    for x in u.exits:
        if x.bad:
            R.fail('acceptance test', x.where(), x.bad, facts(x.st))
        if x.kind == 'accepted':
            continue
        R.ok(rule)
        st = x.st
        free = st.n(Num.atom(HASGW)).const() == 0
        for b, p, v, w in x.diagwrites():
            if b == DIAG and p[:1] == ('UExt',) and free:
                continue    # scratch while no extended line exists
            if unchanged(U, x, b, p, v):
                continue
            R.fail(rule, w, '%s.%s is written although the move is not accepted' % (show(st.n(b)), '.'.join(show(y) for y in p)), facts(st))
        for ev in st.ev:
            if ev[0] in ('add', 'remove'):
                R.fail(rule, ev[3], 'an element is %s although the move is not accepted' % ('added' if ev[0] == 'add' else 'removed'), facts(st))
            elif ev[0] == 'loop-write':
                b, p, v, w = ev[1]
                if not (b == DIAG and p[:1] == ('UExt',) and free) and b != THIS:
                    R.fail(rule, w, '%s.%s is written although the move is not accepted' % (show(st.n(b)), '.'.join(show(y) for y in p)), facts(st))


RULES = OrderedDict([('links', rule_links), ('momentum', rule_momentum), ('hash', rule_hash), ('cached', rule_cached),
                     ('total', rule_total), ('measure', rule_measure), ('worm', rule_worm), ('star', rule_star),
                     ('delta', rule_delta), ('spin', rule_spin), ('local', rule_local)])


def mentions_table(U, key, seen):
    f = U.p.funcs.get(key)
    if f is None or f.get('body') is None or key in seen:
        return False
    seen.add(key)
    for e in walk(f['body']):
        if e['k'] == 'mem' and e['f'] in ('GHash', 'WHash'):
            return True
        if e['k'] == 'call' and e.get('f'):
            g = U.p.find(e['f'], f['unit'], f['file'])
            if g is not None and mentions_table(U, g['key'], seen):
                return True
    return False


def rule_table_error(U, u, R):
    """no accepted move runs into the error exit of the tables: marking a momentum that is marked, clearing one that is free"""
    for w, key, y in u.stuck:
        if any(p[:1] == ('Accepted',) for b, p, v, _ in y.log) and mentions_table(U, key, set()):
            R.fail('momentum tables', w, 'an accepted %s always ends in the error exit here' % u.name, facts(y))


def run_rules(U, us, names, R, only=None):
    cap = Num.atom(fld(PARA, ('Order',), 'int'))
    for u in us:
        if 'hash' in names:
            rule_table_error(U, u, R)
        if not u.unfolded:
            continue
        for x in u.exits:
            if x.kind != 'accepted':
                continue
            P = Post(U, x)
            for n in names:
                if n == 'counts':
                    rule_counts(P, R, cap)
                else:
                    RULES[n](P, R)
