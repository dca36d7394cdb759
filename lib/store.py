"""The stores of lines and vertices: adding, removing, picking. The invariant (for every index i below the capacity: the i-th entry
of the table of addresses points at a component whose name is i, and the entries are distinct) is assumed before and shown after
every operation."""
from terms import Num, N0, N1, show
from absint import NULL, strip
from frontend import AnalysisBroken
from plain import *
from plain import as_num
from accum import absloc, wholeloop
from oblig import facts

TAB, BUN, CNT = '_component_name', '_component_bundle', '_available_space'
m = Num.atom(('fld', THIS, (CNT,), 'int'))


def entry(i):
    return ('fld', THIS, (TAB, i), None)


class StoreDomain(SrcDomain):
    """the invariant on entry"""

    def index(self, b):
        if b[0] == 'fld' and b[1] == THIS and len(b[2]) == 2 and b[2][0] == TAB:
            return as_num(b[2][1])
        return None

    def init(self, I, st, base, path, typ):
        i = self.index(base)
        if i is not None and path == ('Name',):
            return [(st, i)]
        return SrcDomain.init(self, I, st, base, path, typ)

    def distinct(self, st, a, b):
        i, j = self.index(a), self.index(b)
        if i is not None and j is not None:
            return st.decide_eq0(st.n(i - j)) is False
        return SrcDomain.distinct(self, st, a, b)

    def reduce_eq(self, st, a, b):
        i, j = self.index(a), self.index(b)
        if i is not None and j is not None:
            r = st.decide_eq0(st.n(i - j))
            return True if r is True else None
        return SrcDomain.reduce_eq(self, st, a, b)

    def as_eq(self, st, p):
        return SrcDomain.as_eq(self, st, p) if hasattr(SrcDomain, 'as_eq') else None

    def int_atom(self, a):
        return SrcDomain.int_atom(self, a)


def assume(I, sts, c, b):
    return [x for s in sts for x, v in I.branch(s, c) if v is b]


def cap(P, cls):
    for f in P.recs[cls]['fields']:
        if f['name'] == TAB:
            return int(f['t'].split('[')[1].rstrip(']'))
    raise AnalysisBroken('the table of %s has vanished' % cls)


def start(I, CAP, lo=0, hi=None):
    st = I.new_state()
    sts = assume(I, [st], ('lt0', m - Num.c(lo)), False)
    return assume(I, sts, ('lt0', Num.c(CAP if hi is None else hi) - m), False)


def idx(s, x):
    """the table index behind an address"""
    x = s.n(x)
    if isinstance(x, tuple) and x and x[0] == 'fld' and x[1] == THIS and len(x[2]) == 2 and x[2][0] == TAB:
        return s.n(as_num(x[2][1]))
    return None


def rd(I, s, loc, typ='int'):
    return read1(I, s, loc, typ)


def post(I, res, rule, fn, s, want, count, what):
    """want: {index: index of the entry that was there before}; the rest of the table, the names and the count follow"""
    bad = None
    names = {}
    for i, j in want:
        g = idx(s, rd(I, s, (THIS, (TAB, i)), 'T *'))
        if g is None or s.decide_eq0(s.n(g - j)) is not True:
            bad = 'entry %s becomes %s, expected the former entry %s' % (show(i), 'former entry ' + show(g) if g is not None else 'another address', show(j))
            break
        nm = as_num(rd(I, s, (entry(j), ('Name',)), 'int'))
        if s.decide_eq0(s.n(nm - i)) is not True:
            bad = 'the component in entry %s is named %s' % (show(i), show(nm))
            break
    if bad is None:
        c = as_num(rd(I, s, (THIS, (CNT,)), 'int'))
        if s.decide_eq0(s.n(c - count)) is not True:
            bad = 'the number of components becomes %s, expected %s' % (show(c), show(count))
    if bad is None:
        for b, p, v, w in s.log:
            if b[0] in ('L', 'T') or b[0] == 'ptr' and b[1][0] in ('L', 'T'):
                continue
            rb, rp = absloc(b, p)
            if rb != THIS:
                bad = 'writes %s' % show(b)
            elif rp == (CNT,):
                continue
            elif len(rp) >= 2 and rp[0] == TAB:
                k = s.n(as_num(rp[1]))
                allowed = [i for i, j in want] if len(rp) == 2 else [j for i, j in want]
                if not any(s.decide_eq0(s.n(k - a)) is True for a in allowed) or (len(rp) == 3 and rp[2] != 'Name') or len(rp) > 3:
                    bad = 'changes %s of entry %s' % ('.'.join(str(x) for x in rp[2:]) or 'the address', show(k))
            else:
                bad = 'writes %s' % '.'.join(str(x) for x in rp)
            if bad:
                break
    if bad:
        res.fail(rule, where(fn), '%s: %s' % (what, bad), facts(s))
    else:
        res.ok(rule)


def run(P, res):
    classes = sorted(q for q in P.recs if q.startswith('diag::Bundle<'))
    if len(classes) < 3:
        raise AnalysisBroken('the stores of lines and vertices have vanished')
    for cls in classes:
        one(P, res, cls)


def interp_(P):
    I = interp(P, dom=StoreDomain())
    I.MERGE = False
    return I


def one(P, res, cls):
    CAP = cap(P, cls)
    C = Num.c
    T = cls[len('diag::Bundle<'):-1]
    # construction
    fn = [f for f in P.funcs.values() if f.get('cls') == cls and f.get('isctor') and not f.get('implicit') and f.get('body')][0]
    I = interp_(P)
    I.UNROLL = max(I.UNROLL, CAP + 2)
    for s, _ in I.inline(fn, I.new_state(), THIS, symargs(I, fn), None, False):
        bad = None
        for i in range(CAP):
            v = s.n(rd(I, s, (THIS, (TAB, i)), T + ' *'))
            loc = absloc(('ptr',) + I.deref(v), ()) if isinstance(v, tuple) else None
            if loc is None or loc[0] != THIS or len(loc[1]) != 2 or loc[1][0] != BUN or as_num(loc[1][1]).const() != i:
                bad = 'entry %d is %s' % (i, show(v))
                break
            n = as_num(rd(I, s, (THIS, (BUN, i, 'Name')), 'int')).const()
            if n != i:
                bad = 'component %d is named %s' % (i, n)
                break
        if bad is None and as_num(rd(I, s, (THIS, (CNT,)), 'int')).const() != 0:
            bad = 'a new store is not empty'
        if bad:
            res.fail('new store', where(fn), bad, facts(s))
        else:
            res.ok('new store')
    res.analysed.append({'function': fn['fn']})
    # adding
    fn = find(P, cls + '::Add', lambda f: not f['params'])
    I = interp_(P)
    n0 = 0
    for st in start(I, CAP):
        for s, v in I.inline(fn, I.split(st), THIS, [], None, False):
            n0 += 1
            if s.decide_lt0(s.n(m - C(CAP))) is not True:
                res.fail('room for a new component', where(fn), 'a component is handed out although %s are in use' % show(s.n(m)) + ': entry %s of a table of %d' % (show(s.n(m)), CAP), facts(s))
                continue
            res.ok('room for a new component')
            g = idx(s, v)
            if g is None or s.decide_eq0(s.n(g - m)) is not True:
                res.fail('added component', where(fn), 'the new component is %s, not the first unused one' % show(v), facts(s))
                continue
            post(I, res, 'added component', fn, s, [(m, m)], m + N1, 'adding')
    if not n0:
        res.fail('added component', where(fn), 'adding never succeeds', '')
    res.analysed.append({'function': fn['fn']})
    # removing, by index and by address
    n = Num.atom(('fld', ('p', 'n'), (), 'int'))
    for fn in find(P, cls + '::Remove', many=True):
        byaddr = fn['params'][0]['t'].strip().endswith('*')
        for last in (True, False):
            I = interp_(P)
            sts = start(I, CAP, 1)
            sts = assume(I, assume(I, sts, ('lt0', n), False), ('lt0', n - m), True)
            sts = assume(I, sts, ('eq0', n - m + N1), last)
            for st in sts:
                arg = st.n(entry(n)) if byaddr else st.n(n)
                if byaddr:
                    arg = ('fld', THIS, (TAB, st.n(n)), T + ' *')
                for s, v in I.inline(fn, I.split(st), THIS, [arg], None, False):
                    k, e = s.n(n), s.n(m - N1)
                    post(I, res, 'removed component', fn, s, [(e, k)] if last else [(e, k), (k, e)], m - N1, 'removing %s' % ('the last component' if last else 'a component'))
        res.analysed.append({'function': fn['fn']})
    # access
    for nm in ('operator()', 'operator[]'):
        fn = find(P, cls + '::' + nm)
        I = interp_(P)
        sts = assume(I, assume(I, start(I, CAP, 1), ('lt0', n), False), ('lt0', n - m), True)
        for st in sts:
            for s, v in I.inline(fn, I.split(st), THIS, [st.n(n)], None, False):
                if isinstance(v, tuple) and v and v[0] == 'ref':
                    v = v[1][0]
                if isinstance(v, tuple) and v and v[0] == 'fld' and v[2] == ():
                    v = v[1]
                g = idx(s, v)
                quiet(res, fn, s)
                if g is not None and s.decide_eq0(s.n(g - n)) is True:
                    res.ok('access')
                else:
                    res.fail('access', where(fn), 'component number n is %s' % show(v), facts(s))
        # a number that no live component bears is refused
        for st in assume(I, start(I, CAP, 1), ('lt0', n - m), False):
            done = I.inline(fn, I.split(st), THIS, [st.n(n)], None, False)
            if done:
                res.fail('access', where(fn), 'a number beyond the last live component is accepted: %s' % show(done[0][1]), facts(done[0][0]))
            else:
                res.ok('access')
        res.analysed.append({'function': fn['fn']})
    fn = find(P, cls + '::HowMany')
    I = interp_(P)
    for s, v in I.inline(fn, I.new_state(), THIS, [], None, False):
        quiet(res, fn, s)
        if s.n(v) == m:
            res.ok('access')
        else:
            res.fail('access', where(fn), 'the number of components is %s' % show(v), facts(s))
    # a random component: uniform over those in use
    fn = find(P, cls + '::RandomPick')
    I = interp_(P)
    for st in start(I, CAP, 1):
        for s, v in I.inline(fn, I.split(st), THIS, symargs(I, fn, ['rng']), None, False):
            g = idx(s, v)
            a = g.single() if g is not None else None
            quiet(res, fn, s)
            if a is not None and a[0] == 'irn' and s.decide_eq0(s.n(as_num(a[2]))) is True and s.decide_eq0(s.n(as_num(a[3]) - m + N1)) is True:
                res.ok('random component')
            else:
                res.fail('random component', where(fn), 'the component picked is %s' % (('entry ' + show(g)) if g is not None else show(v)), facts(s))
    res.analysed.append({'function': fn['fn']})
    # membership
    fn = find(P, cls + '::Exist')
    for j, t in ((0, 'j'), (CAP - 1, 'j')):
        I = interp_(P)
        nm = Num.atom(('fld', THIS, (BUN, j, 'Name'), 'int'))
        for st in start(I, CAP):
            for st1, b in I.branch(st, ('lt0', nm - m)):
                for s, v in I.inline(fn, I.split(st1), THIS, [('ptr', THIS, (BUN, j))], None, False):
                    for s2, got in I.branch(s, v):
                        if got == b:
                            res.ok('membership')
                        else:
                            res.fail('membership', where(fn), 'component %d of the store %s a member although its name is %s the number in use' % (j, 'is' if got else 'is not', 'below' if b else 'not below'), facts(s2))
    I = interp_(P)
    for s, v in I.inline(fn, I.new_state(), THIS, [NULL], None, False):
        for s2, got in I.branch(s, v):
            if got is False:
                res.ok('membership')
            else:
                res.fail('membership', where(fn), 'the null address is a member', facts(s2))
    res.analysed.append({'function': fn['fn']})


def quiet(res, fn, s):
    w = [x for x in s.log if not (x[0][0] in ('L', 'T') or x[0][0] == 'ptr' and x[0][1][0] in ('L', 'T'))]
    if w:
        res.fail('access', where(fn), 'looking at the store changes it', facts(s))
