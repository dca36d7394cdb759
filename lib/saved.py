"""Saving and loading a diagram. The structure is taken from a list of small diagrams, every number in it is symbolic; the function that
builds the dictionary is interpreted on one diagram and the function that reads it on another, which must come out equal, with
everything that is not stored rebuilt."""
from terms import Num, N0, N1, show
from absint import NULL, strip, absnum
from frontend import AnalysisBroken
from plain import *
from plain import as_num
from accum import wholeloop
from oblig import facts
import dicts
import diagdom
from diagdom import p_gweight, p_wweight, p_wormweight

A, B = ('p', 'A'), ('p', 'B')
C = Num.c

# ends (IN, OUT) of the propagators and of the interactions
SHAPES = [([(0, 1), (1, 0)], [(0, 1)]), ([(1, 0), (0, 1)], [(1, 0)]),
          ([(2, 0), (0, 3), (1, 2), (3, 1)], [(3, 0), (1, 2)]), ([(0, 2), (2, 0), (1, 3), (3, 1)], [(0, 1), (3, 2)])]


def el(D, kind, i):
    return ('p', '%s.%s.%d' % (D[1], kind, i))


def parse(b):
    if isinstance(b, tuple) and len(b) == 2 and b[0] == 'p' and isinstance(b[1], str) and b[1].count('.') == 2:
        d, k, i = b[1].split('.')
        return d, k, int(i)
    return None


class SaveDomain(SrcDomain):
    """what is known of the diagrams on entry: structure of A, nothing of B"""

    def __init__(self, G, W, meas, worm):
        SrcDomain.__init__(self)
        self.G, self.W, self.meas, self.worm = G, W, meas, worm

    def known(self, base, path):
        x = parse(base)
        if x is not None and x[0] == 'A':
            d, k, i = x
            if path == ('Name',):
                return (C(i))
            if k in 'GW' and path[:1] == ('nVer',) and len(path) == 2 and isinstance(path[1], int):
                return (el(A, 'Ver', (self.G if k == 'G' else self.W)[i][path[1]]))
            if k in 'GW' and path == ('IsMeasure',):
                return (self.meas == (k, i))
            if k == 'G' and path == ('IsGGGammaG',) or k == 'W' and path == ('IsWWGammaW',):
                return (False)
        if base == A:
            if path == ('Worm', 'Exist'):
                return (self.worm is not None)
            if self.worm is not None and path in (('Worm', 'Ira'), ('Worm', 'Masha')):
                return (el(A, 'Ver', self.worm[0 if path[1] == 'Ira' else 1]))
        if base in (A, B) and path == ('HasGammaGW',):
            return (N0)
        if base in (A, B) and len(path) == 2 and path[1] == '#':
            return (C({'G': len(self.G), 'W': len(self.W), 'Ver': 2 * len(self.W)}.get(path[0], 0)) if base == A else N1)
        return None

    def init(self, I, st, base, path, typ):
        x = self.known(base, path)
        return [(st, x)] if x is not None else SrcDomain.init(self, I, st, base, path, typ)

    def rule(self, st, t):
        if t[0] == 'fld':
            x = self.known(t[1], t[2])
            if x is not None:
                return x
        return SrcDomain.rule(self, st, t)


def count(I, s, l):
    c = as_num(read1(I, s, (l[0], l[1] + ('#',)), 'int')).const()
    if c is None:
        raise AnalysisBroken('the number of stored elements is not known')
    return int(c)


def p_bundle(I, e, st, fr, lv):
    nm = e['f']['name']
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            n = count(I, s2, l)
            if nm == 'HowMany':
                out.append((s2, C(n)))
            elif nm in ('operator()', 'operator[]'):
                i = s2.n(vs[0])
                i = i.const() if isinstance(i, Num) else None
                if i is None or i.denominator != 1:
                    raise AnalysisBroken('the number of the element taken from a store is not known: %s' % show(vs[0]))
                if i < 0 or i >= n:
                    s2.ev.append(('out', int(i), n, I.where(fr, e)))
                    continue                       # refused: the run ends (P22)
                r = el(l[0], l[1][0], int(i))
                if nm == 'operator()':
                    out.append((s2, r))
                else:
                    out.append((s2, (r, ())) if lv else I.read(s2, (r, ()), e.get('t', ''))[0])
            elif nm == 'Add' and not vs:
                r = el(l[0], l[1][0], n)
                I.write(s2, (l[0], l[1] + ('#',)), C(n + 1), I.where(fr, e))
                I.write(s2, (r, ('Name',)), C(n), I.where(fr, e))
                out.append((s2, r))
            elif nm == 'Remove':
                I.write(s2, (l[0], l[1] + ('#',)), C(n - 1), I.where(fr, e))
                out.append((s2, NULL))
            else:
                return NotImplemented
    return out


def match(f, e):
    cls = f.get('cls') or ''
    if cls.startswith('diag::Bundle<') and e.get('k') == 'call':
        return p_bundle
    if f['qn'] == 'weight::GClass::Weight':
        return p_gweight
    if f['qn'] == 'weight::WClass::Weight':
        return p_wweight
    if f['qn'] == 'weight::Worm::Weight':
        return p_wormweight
    return dicts.match(f, e) or base_match(f, e)


def interp_(P, dom):
    from absint import Interp
    I = Interp(P, dom, {'match': match})
    I.ptr_arith = True
    I.MERGE = False
    I.RESTART = True
    return I


def rd(I, s, b, path, typ):
    return s.n(read1(I, s, (b, path), typ))


def same(s, a, b):
    a, b = s.n(a), s.n(b)
    if a == b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return s.decide_eq0(s.n(a - b)) is True
    return False


class Chk(object):
    def __init__(self, res, rule, fn, what):
        self.res, self.rule, self.fn, self.what = res, rule, fn, what

    def __call__(self, s, rule, name, got, want):
        if isinstance(want, bool) or isinstance(got, bool):
            g = got if isinstance(got, bool) else s.decide(got) if hasattr(s, 'decide') else got
            ok = g is want or g == want
        else:
            ok = same(s, got, want)
        if ok:
            self.res.ok(rule)
        else:
            self.res.fail(rule, where(self.fn), '%s: %s becomes %s, expected %s' % (self.what, name, show(got), show(want)), facts(s))


def fieldtype(P, cls, name):
    for f in P.recs[cls]['fields']:
        if f['name'] == name:
            return f.get('dt') or f['t']
    raise AnalysisBroken('%s has lost its field %s' % (cls, name))


# what is stored, by class
STORED = {'Ver': ('diag::Vertex', [('R', 'Sublattice'), ('R', 'Coordinate'), ('Tau',), ('_spin', 0), ('_spin', 1)]),
          'G': ('diag::GLine', [('K',)]), 'W': ('diag::WLine', [('K',), ('IsDelta',)])}
TYPES = {('R', 'Sublattice'): 'int', ('R', 'Coordinate'): 'Vec<int>', ('Tau',): 'double', ('_spin', 0): 'spin', ('_spin', 1): 'spin', ('K',): 'Momentum',
         ('IsDelta',): 'bool'}


def stored(I, s, chk, D, S, G, W, worm):
    """D holds the same data as S"""
    for kind, n in (('Ver', 2 * len(W)), ('G', len(G)), ('W', len(W))):
        chk(s, 'number of elements', 'the number of %s' % kind, as_num(rd(I, s, D, (kind, '#'), 'int')), C(n))
        for i in range(n):
            for p in STORED[kind][1]:
                chk(s, 'stored data', '%s %d: %s' % (kind, i, '.'.join(map(str, p))), rd(I, s, el(D, kind, i), p, TYPES[p]), rd(I, s, el(S, kind, i), p, TYPES[p]))
            if kind != 'Ver':
                for d in (0, 1):
                    chk(s, 'ends', '%s %d: end %d' % (kind, i, d), rd(I, s, el(D, kind, i), ('nVer', d), 'diag::Vertex *'), el(D, 'Ver', (G if kind == 'G' else W)[i][d]))
    if worm is not None:
        for j, p in enumerate(('Ira', 'Masha')):
            chk(s, 'worm', 'worm end ' + p, rd(I, s, D, ('Worm', p), 'diag::Vertex *'), el(D, 'Ver', worm[j]))
        chk(s, 'worm', 'worm momentum', rd(I, s, D, ('Worm', 'K'), 'Momentum'), rd(I, s, S, ('Worm', 'K'), 'Momentum'))
        chk(s, 'worm', 'worm spin', rd(I, s, D, ('Worm', 'dSpin'), 'int'), rd(I, s, S, ('Worm', 'dSpin'), 'int'))
    chk(s, 'worm', 'existence of the worm', rd(I, s, D, ('Worm', 'Exist'), 'bool'), worm is not None)
    chk(s, 'stored data', 'the sign of closed loops', rd(I, s, D, ('SignFermiLoop',), 'double'), rd(I, s, S, ('SignFermiLoop',), 'double'))


def derived(I, s, chk, D, G, W, meas, worm):
    """links, names, marks, tables and weights follow from what is stored"""
    V = lambda i: el(D, 'Ver', i)
    R = lambda i: s.n(rd(I, s, V(i), ('R',), 'Site'))
    T = lambda i: rd(I, s, V(i), ('Tau',), 'double')
    SP = lambda i, d: rd(I, s, V(i), ('_spin', d), 'spin')
    for i in range(2 * len(W)):
        chk(s, 'links', 'number of vertex %d' % i, as_num(rd(I, s, V(i), ('Name',), 'int')), C(i))
    tot = rd(I, s, D, ('SignFermiLoop',), 'double') * C((-1) ** len(W))
    for i, (a, b) in enumerate(G):
        g = el(D, 'G', i)
        chk(s, 'links', 'outgoing propagator of vertex %d' % a, rd(I, s, V(a), ('nG', 1), 'diag::GLine *'), g)
        chk(s, 'links', 'incoming propagator of vertex %d' % b, rd(I, s, V(b), ('nG', 0), 'diag::GLine *'), g)
        chk(s, 'links', 'number of propagator %d' % i, as_num(rd(I, s, g, ('Name',), 'int')), C(i))
        m = meas == ('G', i)
        chk(s, 'marks', 'measuring mark of propagator %d' % i, rd(I, s, g, ('IsMeasure',), 'bool'), m)
        chk(s, 'marks', 'vertex-function mark of propagator %d' % i, rd(I, s, g, ('IsGGGammaG',), 'bool'), False)
        w = Num.atom(('GW', R(a), R(b), T(a), T(b), SP(a, 1), SP(b, 0), m, False, ()))
        got = rd(I, s, g, ('Weight',), 'Complex')
        chk(s, 'weights', 'weight of propagator %d' % i, got, w)
        tot = tot * w
    for i, (a, b) in enumerate(W):
        w = el(D, 'W', i)
        for d, v in ((0, a), (1, b)):
            chk(s, 'links', 'interaction of vertex %d' % v, rd(I, s, V(v), ('nW',), 'diag::WLine *'), w)
            chk(s, 'links', 'direction of vertex %d' % v, as_num(rd(I, s, V(v), ('Dir',), 'int')), C(d))
        chk(s, 'links', 'number of interaction %d' % i, as_num(rd(I, s, w, ('Name',), 'int')), C(i))
        m = meas == ('W', i)
        worms = worm is not None and bool({a, b} & set(worm))
        chk(s, 'marks', 'measuring mark of interaction %d' % i, rd(I, s, w, ('IsMeasure',), 'bool'), m)
        chk(s, 'marks', 'vertex-function mark of interaction %d' % i, rd(I, s, w, ('IsWWGammaW',), 'bool'), False)
        chk(s, 'marks', 'worm mark of interaction %d' % i, rd(I, s, w, ('IsWorm',), 'bool'), worms)
        dl = rd(I, s, w, ('IsDelta',), 'bool')
        x = Num.atom(('WW', R(a), R(b), T(a), T(b), SP(a, 0), SP(a, 1), SP(b, 0), SP(b, 1), worms, m, dl, False, ()))
        got = rd(I, s, w, ('Weight',), 'Complex')
        chk(s, 'weights', 'weight of interaction %d' % i, got, x)
        tot = tot * x
    chk(s, 'weights', 'the total weight', rd(I, s, D, ('Weight',), 'Complex'), tot)
    ph = rd(I, s, D, ('Phase',), 'Complex')
    chk(s, 'weights', 'the phase', ph, phase_of(I, s, tot))
    if worm is not None:
        chk(s, 'weights', 'the weight of the worm', rd(I, s, D, ('Worm', 'Weight'), 'double'), Num.atom(('WormWt', R(worm[0]), R(worm[1]), T(worm[0]), T(worm[1]))))
    chk(s, 'number of elements', 'the order', as_num(rd(I, s, D, ('Order',), 'int')), C(len(W)))


def phase_of(I, s, x):
    x = s.n(x)
    return s.n(x / absnum(x))


def measuring(I, s, chk, D, meas):
    k, i = meas
    chk(s, 'marks', 'the kind of the measuring line', rd(I, s, D, ('MeasureGLine',), 'bool'), k == 'G')
    chk(s, 'marks', 'the recorded measuring line', rd(I, s, D, ('GMeasure' if k == 'G' else 'WMeasure',), 'diag::Line *'), el(D, k, i))


def tables(P, I, s, chk, D, G, W, res, fn, what):
    """the occupancy tables hold the momenta of the lines and nothing else"""
    loops = [e for e in s.ev if e[0] == 'loop-write']
    from numbers_ import limit
    MK = C(int(limit(P)))
    for tab, n, lines in (('GHash', MK + MK + N1, [('G', i) for i in range(len(G))]), ('WHash', MK + N1, [('W', i) for i in range(len(W))])):
        clr = [e for e in loops if e[1][0] == D and e[1][1][:1] == (tab,)]
        if clr and all(e[1][2] is False or e[1][2] == N0 for e in clr) and any(wholeloop(s, e, n) for e in clr):
            res.ok('tables')
        else:
            res.fail('tables', where(fn), '%s: the table %s is not cleared as a whole' % (what, tab), facts(s))
        want = set()
        for k, i in lines:
            K = rd(I, s, el(D, k, i), ('K',), 'Momentum')
            want.add(s.n(K + Num.atom(('int', 'MAX_K'))) if tab == 'GHash' else s.n(diagdom.kabs(K)))
        got = set()
        bad = None
        for b, p, v, w in s.log:
            if s.n(b) == D and p[:1] == (tab,) and len(p) == 2:
                i = s.n(as_num(p[1]))
                if v is True or v == N1:
                    got.add(i)
                else:
                    bad = i
        if bad is None and got == want:
            res.ok('tables')
        else:
            res.fail('tables', where(fn), '%s: the entries %s of %s are set, expected %s' % (what, ', '.join(sorted(map(show, got))) or 'none', tab, ', '.join(sorted(map(show, want)))), facts(s))


def cases():
    for G, W in SHAPES:
        n = len(W)
        ms = [('G', 0), ('W', n - 1)] + ([('G', 3), ('W', 0)] if n > 1 else [])
        for k, m in enumerate(ms):
            worms = [None, (0, 1)] if n == 1 else [None, (3, 0), (1, 3)]
            for w in worms:
                yield G, W, m, w


def run(P, res):
    save = [f for f in find(P, 'diag::Diagram::ToDict', many=True) if not f['params']]
    load = [f for f in find(P, 'diag::Diagram::FromDict', many=True) if len(f['params']) == 1]
    if len(save) != 1 or len(load) != 1:
        raise AnalysisBroken('the functions that save and load a diagram have vanished')
    save, load = save[0], load[0]
    for G, W, meas, worm in cases():
        what = 'order %d, measuring line %s %d, %s' % (len(W), meas[0], meas[1], 'worm at %d and %d' % worm if worm else 'no worm')
        I = interp_(P, SaveDomain(G, W, meas, worm))
        st = I.new_state()
        n = 0
        for s, d in I.inline(save, st, A, [], None, False):
            wr = [l for l in s.log if l[0] != A or True]
            chk = Chk(res, None, save, what)
            if s.log:
                res.fail('saving changes nothing', where(save), '%s: saving writes %s' % (what, show(s.log[0][1])), facts(s))
            else:
                res.ok('saving changes nothing')
            loc = I.temp_loc(s, d)
            for s2, r in I.inline(load, s, B, [('ref', loc)], None, False):
                n += 1
                chk = Chk(res, None, load, what)
                stored(I, s2, chk, B, A, G, W, worm)
                derived(I, s2, chk, B, G, W, meas, worm)
                measuring(I, s2, chk, B, meas)
                tables(P, I, s2, chk, B, G, W, res, load, what)
                if any(l[0] == A or (parse(l[0]) or ('',))[0] == 'A' for l in s2.log):
                    res.fail('saving changes nothing', where(load), '%s: loading writes the saved diagram' % what, facts(s2))
        if not n:
            res.fail('stored data', where(load), '%s: a saved diagram cannot be loaded' % what, [])
        res.analysed.append({'case': what, 'ends reached': n})


class FirstDomain(SaveDomain):
    """nothing is known of a diagram that was just constructed but the values its constructor gives"""

    def __init__(self, counts=0):
        SaveDomain.__init__(self, [], [], None, None)
        self.counts = counts

    def known(self, base, path):
        if base == B:
            if path == ('HasGammaGW',):
                return N0
            if len(path) == 2 and path[1] == '#':
                return N0
            if path == ('Worm', 'Exist'):
                return False
            if path in (('Worm', 'Ira'), ('Worm', 'Masha')):
                return NULL
        return None


def first(P, res):
    """the diagram a run starts from"""
    build = [f for f in find(P, 'diag::Diagram::BuildNew', many=True)]
    if len(build) != 1:
        raise AnalysisBroken('the function that builds the first diagram has vanished')
    build = build[0]
    I = interp_(P, FirstDomain())
    st = I.new_state()
    args = [(('ref', (('p', p['name']), ())) if p.get('ref') else ('p', p['name'])) for p in build['params']]
    n = 0
    what = 'the first diagram'
    for s, r in I.inline(build, st, B, args, None, False):
        n += 1
        chk = Chk(res, None, build, what)
        cnt = {k: as_num(rd(I, s, B, (k, '#'), 'int')).const() for k in ('Ver', 'G', 'W')}
        if cnt['W'] is None or cnt['W'] < 1 or cnt['G'] != 2 * cnt['W'] or cnt['Ver'] != 2 * cnt['W']:
            res.fail('number of elements', where(build), '%s: %s vertices, %s propagators, %s interactions' % (what, cnt['Ver'], cnt['G'], cnt['W']), [])
            continue
        nw = int(cnt['W'])
        chk(s, 'number of elements', 'the order', as_num(rd(I, s, B, ('Order',), 'int')), C(nw))
        num = {el(B, 'Ver', i): i for i in range(2 * nw)}

        def ends(kind, m):
            out = []
            for i in range(m):
                e = tuple(num.get(s.n(rd(I, s, el(B, kind, i), ('nVer', d), 'diag::Vertex *'))) for d in (0, 1))
                if None in e:
                    res.fail('ends', where(build), '%s: an end of %s %d is no vertex of the diagram' % (what, kind, i), [])
                else:
                    res.ok('ends')
                out.append(e)
            return out
        G, W = ends('G', 2 * nw), ends('W', nw)
        if any(None in e for e in G + W):
            continue
        for name, side in (('the outgoing propagators', [g[0] for g in G]), ('the incoming propagators', [g[1] for g in G]), ('the interactions', [v for w in W for v in w])):
            if sorted(side) == list(range(2 * nw)):
                res.ok('ends')
            else:
                res.fail('ends', where(build), '%s: %s leave or enter the vertices %s' % (what, name, sorted(side)), [])
        meas = [(k, i) for k, m in (('G', 2 * nw), ('W', nw)) for i in range(m) if rd(I, s, el(B, k, i), ('IsMeasure',), 'bool') is True]
        unknown = [(k, i) for k, m in (('G', 2 * nw), ('W', nw)) for i in range(m) if not isinstance(rd(I, s, el(B, k, i), ('IsMeasure',), 'bool'), bool)]
        if len(meas) != 1 or unknown:
            res.fail('marks', where(build), '%s: %d measuring lines' % (what, len(meas)), [])
            continue
        res.ok('marks')
        chk(s, 'worm', 'existence of the worm', rd(I, s, B, ('Worm', 'Exist'), 'bool'), False)
        derived(I, s, chk, B, G, W, meas[0], None)
        measuring(I, s, chk, B, meas[0])
        tables(P, I, s, chk, B, G, W, res, build, what)
        # what every update relies on
        K = lambda k, i: as_num(rd(I, s, el(B, k, i), ('K',), 'Momentum'))
        T = lambda i: as_num(rd(I, s, el(B, 'Ver', i), ('Tau',), 'double'))
        for v in range(2 * nw):
            ki = [K('G', i) for i, g in enumerate(G) if g[1] == v][0]
            ko = [K('G', i) for i, g in enumerate(G) if g[0] == v][0]
            i, d = [(i, d) for i, w in enumerate(W) for d in (0, 1) if w[d] == v][0]
            tot = ki - ko + (K('W', i) if d == 1 else N0 - K('W', i))
            c = s.n(tot).const()
            if c is not None and c == 0:
                res.ok('momentum')
            else:
                res.fail('momentum', where(build), '%s: momentum is not conserved at vertex %d' % (what, v), [])
        gk, wk = [s.n(K('G', i)).const() for i in range(2 * nw)], [s.n(K('W', i)).const() for i in range(nw)]
        if None not in gk + wk and len(set(gk)) == len(gk) and len(set(map(abs, wk))) == len(wk) and 0 not in wk:
            res.ok('momentum')
        else:
            res.fail('momentum', where(build), '%s: momenta %s of the propagators, %s of the interactions' % (what, gk, wk), [])
        for i, (a, b) in enumerate(G):
            chk(s, 'spin and place', 'the spin along propagator %d' % i, rd(I, s, el(B, 'Ver', a), ('_spin', 1), 'spin'), rd(I, s, el(B, 'Ver', b), ('_spin', 0), 'spin'))
            for p in (('R', 'Sublattice'), ('R', 'Coordinate')):
                chk(s, 'spin and place', 'the site along propagator %d' % i, rd(I, s, el(B, 'Ver', a), p, TYPES[p]), rd(I, s, el(B, 'Ver', b), p, TYPES[p]))
        sp = lambda v, d: as_num(rd(I, s, el(B, 'Ver', v), ('_spin', d), 'spin'))
        for i, (a, b) in enumerate(W):
            chk(s, 'spin and place', 'the spin exchanged over interaction %d' % i, sp(a, 0) + sp(b, 0), sp(a, 1) + sp(b, 1))
            dl = rd(I, s, el(B, 'W', i), ('IsDelta',), 'bool')
            if dl is False or s.n(T(a) - T(b)) == N0:
                res.ok('spin and place')
            else:
                res.fail('spin and place', where(build), '%s: the instantaneous interaction %d joins two times' % (what, i), [])
        for v in range(2 * nw):
            c = s.n(T(v)).const()
            if c is not None and c == 0:
                res.ok('spin and place')
            else:
                res.fail('spin and place', where(build), '%s: the time of vertex %d is %s, which need not lie below the inverse temperature' % (what, v, show(T(v))), [])
            sub = s.n(as_num(rd(I, s, el(B, 'Ver', v), ('R', 'Sublattice'), 'int'))).const()
            if sub is not None and sub == 0:
                res.ok('spin and place')
            else:
                res.fail('spin and place', where(build), '%s: the sublattice of vertex %d need not exist' % (what, v), [])
        sg = as_num(rd(I, s, B, ('SignFermiLoop',), 'double')).const()
        loops, seen = 0, set()
        nxt = dict(G)
        for v in range(2 * nw):
            if v not in seen:
                loops += 1
                while v not in seen:
                    seen.add(v)
                    v = nxt[v]
        if sg is not None and sg == (1 if loops % 2 else -1):
            res.ok('sign')
        else:
            res.fail('sign', where(build), '%s: sign %s with %d closed loops' % (what, sg, loops), [])
    if n != 1:
        res.fail('number of elements', where(build), '%s cannot be built on %d of the paths' % (what, 0 if n == 0 else n - 1), [])
    res.analysed.append({'function': build['qn'], 'ends reached': n})


def renew(P, res):
    """new weight tables: everything that depends on them is computed again, nothing else changes"""
    rs = [f for f in find(P, 'diag::Diagram::Reset', many=True) if len(f['params']) == 3]
    if len(rs) != 1:
        raise AnalysisBroken('the function that gives a diagram new weights has vanished')
    fn = rs[0]
    for G, W, meas, worm in cases():
        what = 'order %d, measuring line %s %d, %s' % (len(W), meas[0], meas[1], 'worm at %d and %d' % worm if worm else 'no worm')
        dom = SaveDomain(G, W, meas, worm)
        I = interp_(P, dom)
        args = [('ref', (('p', p['name']), ())) for p in fn['params']]
        n = 0
        for s, r in I.inline(fn, I.new_state(), A, args, None, False):
            n += 1
            chk = Chk(res, None, fn, what)
            derived(I, s, chk, A, G, W, meas, worm)
            for p, t, fld in zip(fn['params'], args, ('Lat', 'GWeight', 'WWeight')):
                chk(s, 'objects', fld, rd(I, s, A, (fld,), p['t'].rstrip(' &') + ' *'), t[1][0])
            keep = {'Weight', 'Phase', 'Order', 'IsWorm', 'IsGGGammaG', 'IsWWGammaW', 'nG', 'nW', 'Dir', 'Lat', 'GWeight', 'WWeight'}
            bad = [l for l in s.log if (l[0] == A or (parse(l[0]) or ('',))[0] == 'A') and l[1] and l[1][0] not in keep and not (l[1][0] == 'Worm' and l[1][1:] == ('Weight',))]
            if bad:
                res.fail('the rest is kept', where(fn), '%s: %s of %s is changed' % (what, '.'.join(map(str, bad[0][1])), bad[0][0][1]), facts(s))
            else:
                res.ok('the rest is kept')
        if n != 1:
            res.fail('weights', where(fn), '%s: %d ends are reached' % (what, n), [])
        res.analysed.append({'case': what, 'ends reached': n})

