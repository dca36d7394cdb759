"""Diagram domain: link algebra of the two-regular diagram graph, cached-weight terms, primitives of the update layer."""
from fractions import Fraction
from terms import Num, N0, N1, show, tkey
from absint import BaseDomain, Interp, Infeasible, Frame, strip, NULL, absnum
from frontend import AnalysisBroken

DIAG = ('p', 'diag')
PARA = ('p', 'para')
WGT = ('p', 'weight')
THIS = ('p', 'this')
KIND = {'diag::Vertex': 'V', 'diag::GLine': 'G', 'diag::WLine': 'W'}
CLS = {v: k for k, v in KIND.items()}


def fld(base, path, typ):
    return ('fld', base, path, typ)


ORDER = fld(DIAG, ('Order',), 'int')
EXIST = ('truth', fld(DIAG, ('Worm', 'Exist'), 'bool'))
IRA = fld(DIAG, ('Worm', 'Ira'), 'diag::Vertex *')
MASHA = fld(DIAG, ('Worm', 'Masha'), 'diag::Vertex *')
MEASG = ('truth', fld(DIAG, ('MeasureGLine',), 'bool'))
GMEAS = fld(DIAG, ('GMeasure',), 'diag::GLine *')
WMEAS = fld(DIAG, ('WMeasure',), 'diag::WLine *')
HASGW = fld(DIAG, ('HasGammaGW',), 'int')
GSTAR = fld(DIAG, ('gstar',), 'diag::GLine *')
WSTAR = fld(DIAG, ('wstar',), 'diag::WLine *')
SFL = fld(DIAG, ('SignFermiLoop',), 'double')
DW = fld(DIAG, ('Weight',), 'Complex')
PHASE = fld(DIAG, ('Phase',), 'Complex')
WORMK = fld(DIAG, ('Worm', 'K'), 'Momentum')
WORMW = fld(DIAG, ('Worm', 'Weight'), 'double')


def dirfld(v):
    return fld(v, ('Dir',), 'int')


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t)


class DiagDomain(BaseDomain):
    def on_test(self, st, p, v):
        """comparisons with a random number or with a product of weights are kept: they are the acceptance test"""
        at = p.atoms()
        if any(a[0] in ('abs', 'GW', 'WW', 'WormWt') or a[0] == 'fld' and a[3] == 'double' for a in at) and len(p.d) > 1 or \
                (any(a[0] == 'urn' for a in at) and any(a[0] != 'urn' for a in at)):
            st.ev.append(('test', p, v))

    def as_eq(self, st, p):
        # the names of live elements of one kind are distinct
        if len(p.d) != 2:
            return None
        xs = []
        for m, c in p.d.items():
            if len(m) != 1:
                return None
            (a, e), = m
            if e != 1 or a[0] != 'fld' or a[2] != ('Name',):
                return None
            xs.append((c, a[1]))
        if sorted(x[0] for x in xs) != [-1, 1]:
            return None
        a, b = xs[0][1], xs[1][1]
        if self.kind(a) is None or self.kind(a) != self.kind(b):
            return None
        return a, b

    def kind(self, t):
        h = t[0]
        if h == 'nG':
            return 'G'
        if h in ('gV', 'wV'):
            return 'V'
        if h == 'nW':
            return 'W'
        if h in ('new', 'pick', 'slot'):
            return t[1]
        if h == 'fld':
            ty = t[3]
            if ty.endswith('*'):
                return KIND.get(strip(ty[:-1]))
            return None
        return None

    def wrap(self, a, typ):
        t = strip(typ)
        if t.endswith('*') and a[0] not in ('fld', 'new', 'ptr', 'slot', 'pick'):
            return ('fld', a, (), t)
        return BaseDomain.wrap(self, a, typ)

    def rule(self, st, t):
        h = t[0]
        if h in ('nG', 'nW', 'gV', 'wV') and (len(t) < 2 or not isinstance(t[1], tuple)):
            return t                                 # the path of a field, not a term
        if h == 'nG':
            v = t[1]
            if v[0] == 'gV' and v[2] == 1 - t[2]:
                return v[1]
        elif h == 'nW':
            if t[1][0] == 'wV':
                return t[1][1]
        elif h == 'gV':
            g = t[1]
            if g[0] == 'nG' and g[2] == 1 - t[2]:
                return g[1]
        elif h == 'wV':
            w = t[1]
            if w[0] == 'nW':
                d = self.dirof(st, w[1])
                if d == t[2]:
                    return w[1]
            for k, v in st.sub.items():
                if k[0] == 'nW' and v == w and self.dirof(st, k[1]) == t[2] and not contains(k[1], t):
                    return k[1]
        elif h == 'fld':
            if t[2] == ('Dir',) and t[1][0] == 'wV':
                return Num.c(t[1][2])
            if t[2][:1] == ('R',) and t[1][0] == 'gV':     # propagators are local: both ends on one site
                g, d = t[1][1], t[1][2]
                if g[0] == 'nG' and g[2] == d:
                    return ('fld', g[1], t[2], t[3])
                if g[0] != 'nG' and d == 1:
                    return ('fld', st.n(('gV', g, 0)), t[2], t[3])
            p = t[2]
            if any(isinstance(x, Num) and x.const() is not None and x.const().denominator == 1 for x in p):
                return ('fld', t[1], tuple(int(x.const()) if isinstance(x, Num) and x.const() is not None else x for x in p), t[3])
        elif h == 'GW':
            return canon_g(t)
        elif h == 'WW':
            return canon_w(t)
        return t

    def closure(self, st):
        """two vertices on one interaction line: same direction makes them equal, being different makes the directions opposite"""
        on = {}
        for k, v in st.sub.items():
            if k[0] == 'nW' and isinstance(v, tuple):
                on.setdefault(v, []).append(k[1])
        for w, vs in on.items():
            if w[0] == 'nW' and w[1] not in vs:
                vs = vs + [w[1]]
            for a in vs:
                d = self.dirof(st, a)
                e = ('wV', w, d)
                if d is not None and a[0] == 'gV' and contains(a, e) and st.n(a) != st.n(e):
                    return [(a, e)]
            for i in range(len(vs)):
                for j in range(i):
                    a, b = vs[i], vs[j]
                    if a[0] == 'wV' and b[0] == 'wV':
                        continue
                    da, db = self.dirof(st, a), self.dirof(st, b)
                    if da is not None and db is not None:
                        if da == db and st.n(a) != st.n(b):
                            return [(a, b)]
                    elif da is not None or db is not None:
                        r = st.decide_eq(st.n(a), st.n(b), True)
                        if r is False:
                            x, d = (b, da) if db is None else (a, db)
                            return [(dirfld(x), Num.c(1 - d))]
        for k, v in st.sub.items():
            if k[0] == 'gV' and isinstance(v, tuple) and self.kind(v) == 'V':
                g, d = k[1], k[2]
                o = g[1] if g[0] == 'nG' and g[2] == d else ('gV', g, 1 - d)
                a, b = st.n(site(o)), st.n(site(v))
                if a != b:
                    return [(a, b)]
        return []

    def dirof(self, st, v):
        if v[0] == 'wV':
            return v[2]
        d = st.sub.get(dirfld(v))
        if isinstance(d, Num):
            c = d.const()
            return int(c) if c is not None else None
        return None

    def finite(self, st, a):
        r = BaseDomain.finite(self, st, a)
        if r is not None:
            return r
        if a[0] == 'sp':
            return [0, 1]
        if a == HASGW:
            return [0, 1, 2]
        if a[0] == 'fld':
            if a[2] == ('Dir',) and self.kind(a[1]) == 'V':
                return [0, 1]
            if a[3] == 'spin':
                return [0, 1]
            if a[2] == ('Worm', 'dSpin'):
                return [-1, 1]
        return None

    def base_bounds(self, st, f):
        if f.single() == ORDER:
            return (Fraction(0), False, None, False, frozenset())
        a = f.single()
        if a is not None and a[0] == 'fld' and a[2] == ('K',) and a[1][0] != 'new' and self.kind(a[1]) == 'W':
            return (None, False, None, False, frozenset([Fraction(0)]))    # no interaction carries momentum zero
        return BaseDomain.base_bounds(self, st, f)

    def distinct(self, st, a, b):
        if a[0] in ('new',) or b[0] in ('new',):
            return True
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb and ka != kb:
            return True
        s = {a, b}
        if s == {IRA, MASHA} and st.n(EXIST) is True:
            return True
        if s == {GSTAR, GMEAS} and st.n(MEASG) is True and st.n(Num.atom(HASGW)).const() == 1:
            return True
        if s == {WSTAR, WMEAS} and st.n(MEASG) is False and st.n(Num.atom(HASGW)).const() == 2:
            return True
        if NULL in s and (ka or kb):
            return True
        if (ka or kb) and (a[0] in ('p', 'ptr') or b[0] in ('p', 'ptr')):
            return True
        if ka == 'V' and kb == 'V':
            da, db = self.dirof(st, a), self.dirof(st, b)
            if da is not None and db is not None and da != db:
                return True
        return BaseDomain.distinct(self, st, a, b)

    def reduce_eq(self, st, a, b):
        k = self.kind(a)
        if k == 'G':
            if a[0] != 'nG' and b[0] == 'nG':
                a, b = b, a
            if a[0] == 'nG':
                return a[1], ('gV', b, 1 - a[2])
        elif k == 'V':
            if a[0] == 'gV' and b[0] == 'gV' and a[2] == b[2]:
                return a[1], b[1]
            if a[0] == 'wV' and b[0] == 'wV':
                return (a[1], b[1]) if a[2] == b[2] else False
        elif k == 'W':
            if a[0] != 'nW' and b[0] == 'nW':
                a, b = b, a
            if a[0] == 'nW':
                d = self.dirof(st, a[1])
                if d is None:
                    return ('need', dirfld(a[1]))
                return a[1], ('wV', b, d)
        return BaseDomain.reduce_eq(self, st, a, b)

    def induced(self, st, a, b):
        k = self.kind(a)
        if k == 'V':
            return [(st.n(('nG', a, d)), st.n(('nG', b, d))) for d in (0, 1)] + [(st.n(('nW', a)), st.n(('nW', b)))] + \
                [(st.n(dirfld(a)), st.n(dirfld(b)))]
        if k == 'G':
            return [(st.n(('gV', a, d)), st.n(('gV', b, d))) for d in (0, 1)]
        if k == 'W':
            return [(st.n(('wV', a, d)), st.n(('wV', b, d))) for d in (0, 1)]
        return []

    # --------------------------------------------------- flags: functions of the rest of the state
    def quick_bool(self, st, a):
        if a[0] != 'fld' or len(a[2]) != 1:
            return None
        f = a[2][0]
        k = self.kind(a[1])
        if k is None:
            return None

        def has():
            c = st.n(Num.atom(HASGW)).const()
            return c

        def same(x, y):
            x, y = st.n(x), st.n(y)
            r = st.decide_eq(x, y)
            return r if isinstance(r, bool) else None
        if f == 'IsMeasure':
            if has() == (1 if k == 'G' else 2) and a[1] == st.n(GSTAR if k == 'G' else WSTAR):
                return False        # the extended line is not the measuring line
            m = st.n(MEASG)
            if not isinstance(m, bool):
                return None
            if m != (k == 'G'):
                return False
            return same(a[1], GMEAS if k == 'G' else WMEAS)
        if f == 'IsGGGammaG' and k == 'G':
            h = has()
            if h is None:
                return None
            if h == 1 and st.n(MEASG) is True and a[1] == st.n(GMEAS):
                return False
            return False if h != 1 else same(a[1], GSTAR)
        if f == 'IsWWGammaW' and k == 'W':
            h = has()
            if h is None:
                return None
            if h == 2 and st.n(MEASG) is False and a[1] == st.n(WMEAS):
                return False
            return False if h != 2 else same(a[1], WSTAR)
        if f == 'IsDelta' and k == 'W':
            if has() == 2 and a[1] == st.n(WSTAR):
                return False        # the extended interaction is not instantaneous
            if a[1] == ('slot', 'W', 0) and st.n(Num.atom(ORDER)).const() == 0:
                return False        # the interaction kept at order zero is not instantaneous
            return None
        if f == 'IsWorm' and k == 'W':
            x = st.n(EXIST)
            if x is False:
                return False
            if x is True:
                r1, r2 = same(a[1], ('nW', IRA)), same(a[1], ('nW', MASHA))
                if r1 is True or r2 is True:
                    return True
                if r1 is False and r2 is False:
                    return False
        return None

    def expand(self, I, st, a):
        if a[0] != 'fld' or len(a[2]) != 1:
            return None
        k = self.kind(a[1])
        f = a[2][0]
        if k is None:
            return None
        if f == 'IsMeasure':
            out = []
            for s, m in I.branch(st, MEASG):
                if m != (k == 'G'):
                    out.append((s, False))
                else:
                    for s2, b in I.branch(s, ('eq', s.n(a[1]), s.n(GMEAS if k == 'G' else WMEAS))):
                        if b and k == 'W':
                            self.forbid(s2, a[1], 'IsDelta', out)
                        else:
                            out.append((s2, b))
            return out
        if f == 'IsGGGammaG' and k == 'G':
            return self._star(I, st, a, 1, GSTAR)
        if f == 'IsWWGammaW' and k == 'W':
            return self._star(I, st, a, 2, WSTAR)
        if f == 'IsWorm' and k == 'W':
            out = []
            for s, x in I.branch(st, EXIST):
                if not x:
                    out.append((s, False))
                    continue
                for s2, b in I.branch(s, ('eq', s.n(a[1]), s.n(('nW', IRA)))):
                    if b:
                        out.append((s2, True))
                    else:
                        out += I.branch(s2, ('eq', s2.n(a[1]), s2.n(('nW', MASHA))))
            return out
        return None

    def forbid(self, s, obj, f, out):
        k = ('truth', fld(s.n(obj), (f,), 'bool'))
        v = s.n(k)
        if v is True:
            return
        if v is not False:
            s.bools[v] = False
            s.reset()
        out.append((s, True))

    def _star(self, I, st, a, val, star):
        out = []
        for s, h in I.concretise(st, Num.atom(HASGW)):
            if h != val:
                out.append((s, False))
            else:
                out += I.branch(s, ('eq', s.n(a[1]), s.n(star)))
        return out

    # --------------------------------------------------- initial contents
    def init(self, I, st, base, path, typ):
        k = self.kind(base)
        if base[0] == 'new' or k is None:
            if base == DIAG and path in (('Vin',), ('Vout',)):
                out = []
                i = 0 if path == ('Vin',) else 1
                for s, h in I.concretise(st, Num.atom(HASGW)):
                    out.append((s, ('ptr', GSTAR if h == 1 else WSTAR, ('nVer', i)) if h else fld(base, path, strip(typ))))
                return out
            if base == DIAG and path == ('Worm', 'Weight'):
                out = []
                for s, b in I.branch(st, EXIST):
                    if b:
                        v = Num.atom(('WormWt', fld(IRA, ('R',), 'Site'), fld(MASHA, ('R',), 'Site'), tau(IRA), tau(MASHA)))
                    else:
                        v = Num.atom(WORMW)
                    out.append((s, v))
                return out
            if base == DIAG and path == ('SignFermiLoop',):
                o = st.n(Num.atom(ORDER)).const()
                if o is not None and o <= 1 and st.n(EXIST) is False:
                    return [(st, N1)]
            return [(st, self.default(base, path, typ))]
        if k == 'V':
            if path[:1] == ('nG',) and len(path) == 2:
                out = []
                for s, i in I.concretise(st, path[1] if isinstance(path[1], Num) else Num.c(path[1])):
                    out.append((s, s.n(('nG', s.n(base), i))))
                return out
            if path == ('nW',):
                return [(st, st.n(('nW', base)))]
            if path[:1] == ('_spin',) and len(path) == 2:
                out = []
                for s, i in I.concretise(st, path[1] if isinstance(path[1], Num) else Num.c(path[1])):
                    out.append((s, Num.atom(('sp', s.n(('nG', s.n(base), i))))))
                return out
        if k in ('G', 'W') and path[:1] == ('nVer',) and len(path) == 2:
            out = []
            for s, i in I.concretise(st, path[1] if isinstance(path[1], Num) else Num.c(path[1])):
                b = s.n(base)
                if k == 'W' and b[0] == 'nW' and s.n(Num.atom(dirfld(b[1]))).const() is None:
                    for s2, _ in I.concretise(s, Num.atom(dirfld(b[1]))):
                        out.append((s2, s2.n(('wV', s2.n(b), i))))
                else:
                    out.append((s, s.n(('gV' if k == 'G' else 'wV', b, i))))
            return out
        if path == ('Weight',):
            if k == 'G':
                return [(st, st.n(init_gweight(st, base)))]
            if k == 'W':
                out = []
                if base[0] == 'nW':
                    for s, _ in I.concretise(st, Num.atom(dirfld(base[1]))):
                        out.append((s, s.n(init_wweight(s, s.n(base)))))
                    return out
                return [(st, st.n(init_wweight(st, base)))]
        return [(st, self.default(base, path, typ))]


def tau(v):
    return Num.atom(fld(v, ('Tau',), 'double'))


def site(v):
    return fld(v, ('R',), 'Site')


EXT0 = (fld(fld(DIAG, ('UExt',), 'x'), (), 'x'),)


def flag(o, f):
    return ('truth', fld(o, (f,), 'bool'))


def sp(v, d):
    return Num.atom(('sp', ('nG', v, d)))


def ext_init():
    return ('ext', fld(DIAG, ('UExt', 'R'), 'Site'), Num.atom(fld(DIAG, ('UExt', 'Tau'), 'double')), Num.atom(fld(DIAG, ('UExt', 'Spin'), 'spin')))


def init_gweight(st, g):
    a, b = ('gV', g, 0), ('gV', g, 1)
    s = Num.atom(('sp', g))
    return Num.atom(('GW', site(a), site(b), tau(a), tau(b), s, s, flag(g, 'IsMeasure'), flag(g, 'IsGGGammaG'), ext_init()))


def init_wweight(st, w):
    a, b = ('wV', w, 0), ('wV', w, 1)
    return Num.atom(('WW', site(a), site(b), tau(a), tau(b), sp(a, 0), sp(a, 1), sp(b, 0), sp(b, 1),
                     flag(w, 'IsWorm'), flag(w, 'IsMeasure'), flag(w, 'IsDelta'), flag(w, 'IsWWGammaW'), ext_init()))


def canon_g(t):
    h, r1, r2, t1, t2, s1, s2, meas, ggg, ext = t
    if meas is True:
        ggg = False
    if ggg is False:
        ext = ()
    return (h, r1, r2, t1, t2, s1, s2, meas, ggg, ext)


def canon_w(t):
    h, r1, r2, t1, t2, a, b, c, d, worm, meas, delta, www, ext = t
    if worm is True:
        a = b = c = d = ()
    if delta is True:
        t1 = t2 = ()
        meas = www = False
    if meas is True:
        www = False
    if www is False:
        ext = ()
    return (h, r1, r2, t1, t2, a, b, c, d, worm, meas, delta, www, ext)


# ------------------------------------------------------------------ primitives
def unref(I, st, v, typ):
    if isinstance(v, tuple) and v and v[0] == 'ref':
        return I.read(st, v[1], typ)
    return [(st, v)]


def prim_match(f, e):
    cls = f.get('cls') or ''
    nm = f['name']
    pts = ' , '.join(f.get('pt', []))
    if cls == 'Complex' or cls == 'Momentum':
        return p_numclass
    if cls.startswith('diag::Bundle<'):
        return p_bundle
    if cls == 'RandomFactory':
        return {'urn': p_urn, 'irn': p_irn}.get(nm)
    if not cls and ('Complex &' in pts or 'Momentum &' in pts) and (nm.startswith('operator') or nm in ('mod', 'phase', 'mod2')):
        return p_numfree
    if not cls and 'Site &' in pts and nm in ('operator==', 'operator!='):
        return p_siteeq
    if f['qn'] == 'weight::GClass::Weight':
        return p_gweight
    if f['qn'] == 'weight::WClass::Weight':
        return p_wweight
    if f['qn'] == 'weight::Worm::Weight':
        return p_wormweight
    if nm == 'SetGLine' or nm == 'SetWLine':
        return None
    if f['qn'] in ('abs', 'fabs', 'std::abs', 'std::fabs'):
        return p_abs
    if f['qn'].split('<')[0] in ('std::min', 'std::max'):
        return p_minmax
    return None


def p_abs(I, e, st, fr, lv):
    out = []
    for s, (v,) in I.vals(e, st, fr):
        v = s.n(v)
        if isinstance(v, Num):
            c = v.const()
            if c is not None:
                v = Num.c(abs(c))
            elif len(v.d) == 1:
                v = absnum(v)
            else:
                v = Num.atom(('abs', v.normal()[1])).scale(abs(v.normal()[0]))
        out.append((s, v))
    return out


def p_minmax(I, e, st, fr, lv):
    out = []
    mx = e['f']['name'] == 'max'
    for s, vs in I.vals(e, st, fr):
        if len(vs) != 2:
            return NotImplemented
        for s2, c in I.arith('<', s.n(vs[0]), s.n(vs[1]), {}, s):
            for s3, b in I.branch(s2, c):
                v = s3.n(vs[1] if b == mx else vs[0])
                out.append((s3, I.temp_loc(s3, v) if lv else v))
    return out


def p_urn(I, e, st, fr, lv):
    a = ('urn', st.fresh())
    st.ev.append(('draw', a, I.where(fr, e)))
    return [(st, Num.atom(a))]


def p_irn(I, e, st, fr, lv):
    out = []
    for s, (lo, hi) in I.vals(e, st, fr):
        lo, hi = s.n(lo), s.n(hi)
        a, b = lo.const(), hi.const()
        if a is not None and b is not None:
            if s.hints is not None:
                w = I.where(fr, e)
                vals = [Num.c(i) for i in range(int(a), int(b) + 1)] if b - a <= 3 else s.hints.get('K', [])
                for i, v in enumerate(vals):
                    s2 = I.split(s)
                    s2.choice += (('irn', int(a), int(b), i),)
                    s2.ev.append(('draw', v, w))
                    out.append((s2, s2.n(v)))
                if vals:
                    continue
            t = ('irn', s.fresh(), int(a), int(b))
        else:
            t = ('irn', s.fresh(), lo, hi)
        s.ev.append(('draw', t, I.where(fr, e)))
        out.append((s, Num.atom(t)))
    return out


def p_numclass(I, e, st, fr, lv):
    f = e['f']
    cls = f['cls']
    if e['k'] == 'ctor':
        if e.get('copy'):
            return NotImplemented
        out = []
        for s, vs in I.vals(e, st, fr):
            vs = [s.n(v) for v in vs]
            if not vs:
                v = N0
            elif cls == 'Complex' and len(vs) == 2 and vs[1].const() != 0:
                v = vs[0] + vs[1] * Num.atom(('I',))
            else:
                v = vs[0]
            out.append((s, v))
        return out
    nm = f['name']
    obj = e.get('obj')
    if obj is None:
        return NotImplemented

    def objloc(s):
        if e.get('arrow'):
            return [(x, I.deref(v)) for x, v in I.ev(obj, s, fr)]
        return I.lval(obj, s, fr)
    out = []
    if nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
        for s, vs in I.vals(e, st, fr):
            for s2, l in objloc(s):
                if nm == 'operator=':
                    I.write(s2, l, s2.n(vs[0]), I.where(fr, e))
                    out.append((s2, l))
                else:
                    for s3, old in I.read(s2, l, cls):
                        r = arithn(nm[8:-1], s3.n(old), s3.n(vs[0]))
                        I.write(s3, l, r, I.where(fr, e))
                        out.append((s3, l))
        return out
    if cls == 'Momentum' and nm in ('index', 'abs'):
        for s, l in objloc(st):
            for s2, v in I.read(s, l, cls):
                if nm == 'index':
                    mk = I.p.globals.get('MAX_K')
                    out.append((s2, v + Num.atom(('int', 'MAX_K'))))
                else:
                    out.append((s2, kabs(s2.n(v))))
        return out
    return NotImplemented


def kabs(v):
    c = v.const()
    if c is not None:
        return Num.c(abs(c))
    return Num.atom(('abs', v.normal()[1])).scale(abs(v.normal()[0]))


def arithn(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    raise AnalysisBroken('operator ' + op)


def p_numfree(I, e, st, fr, lv):
    nm = e['f']['name']
    out = []
    for s, vs in I.vals(e, st, fr):
        vs = [s.n(v) for v in vs]
        if not all(isinstance(v, Num) for v in vs):
            return NotImplemented
        if nm == 'mod':
            out.append((s, absnum(vs[0])))
        elif nm == 'mod2':
            out.append((s, absnum(vs[0]) * absnum(vs[0])))
        elif nm == 'phase':
            out.append((s, vs[0] / absnum(vs[0]) if vs[0].d else N0))
        elif nm in ('operator==', 'operator!='):
            d = vs[0] - vs[1]
            c = d.const()
            r = (c == 0) if c is not None else ('eq0', d)
            if nm == 'operator!=':
                r = (not r) if isinstance(r, bool) else ('not', r)
            out.append((s, r))
        elif nm == 'operator-' and len(vs) == 1:
            out.append((s, -vs[0]))
        elif nm == 'operator+' and len(vs) == 1:
            out.append((s, vs[0]))
        elif nm[8:] in '+-*/' and len(vs) == 2:
            out.append((s, arithn(nm[8:], vs[0], vs[1])))
        else:
            return NotImplemented
    return out


def p_siteeq(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        a, b = s.n(vs[0]), s.n(vs[1])
        r = True if a == b else ('eq', a, b)
        if e['f']['name'] == 'operator!=':
            r = (not r) if isinstance(r, bool) else ('not', r)
        out.append((s, r))
    return out


def norm_slots(s):
    o = s.n(Num.atom(ORDER)).const()
    if o is not None and o <= 1 and s.n(EXIST) is False:
        v0, v1 = ('slot', 'V', 0), ('slot', 'V', 1)
        s.set_sub(('gV', ('nG', v0, 1), 1), v1)
        s.set_sub(('gV', ('nG', v1, 1), 1), v0)
        s.set_sub(('nW', v1), ('nW', v0))
        s.set_sub(('slot', 'W', 0), ('nW', v0))
        s.reset()


def p_bundle(I, e, st, fr, lv):
    f = e['f']
    k = KIND.get(f['cls'][len('diag::Bundle<'):-1])
    nm = f['name']
    if k is None:
        return NotImplemented
    out = []
    w = I.where(fr, e)
    if nm == 'Add' and not e.get('a'):
        t = ('new', k, st.fresh())
        st.ev.append(('add', k, t, w))
        return [(st, t)]
    if nm == 'Remove':
        for s, (v,) in I.vals(e, st, fr):
            v = s.n(v)
            if isinstance(v, Num):
                c = v.const()
                v = ('slot', k, int(c) if c is not None else v)
            s.ev.append(('remove', k, v, w))
            out.append((s, NULL))
        return out
    if nm == 'RandomPick' and st.hints is not None and st.hints.get(k):
        for i, t in enumerate(st.hints[k]):
            s = I.split(st)
            s.choice += (('pick', k, i),)
            out.append((s, s.n(t)))
        return out
    if nm == 'RandomPick':
        t = ('pick', k, st.fresh())
        st.ev.append(('pick', k, t, w))
        return [(st, t)]
    if nm == 'HowMany':
        n = Num.atom(ORDER).scale(1 if k == 'W' else 2)
        d = sum(1 for x in st.ev if x[0] == 'add' and x[1] == k) - sum(1 for x in st.ev if x[0] == 'remove' and x[1] == k)
        return [(st, st.n(n) + Num.c(d))]
    if nm in ('operator[]', 'operator()'):
        for s, (v,) in I.vals(e, st, fr):
            for s2, i in I.concretise(s, v):
                if isinstance(i, int) and i in (0, 1):
                    try:
                        norm_slots(s2)
                    except Infeasible:
                        continue
                    t = s2.n(('slot', k, i))
                else:
                    t = ('slot', k, i)
                out.append((s2, (t, ()) if lv else t))
        return out
    if nm == 'Exist':
        return [(s, ('truth', ('call', 'Exist', vs[0]))) for s, vs in I.vals(e, st, fr)]
    return NotImplemented


def read_spins(I, s, p):
    """the two spins behind a spin* argument"""
    res = []
    for s1, a in I.read(s, I.deref(I.ptr_add(p, 0)), 'spin'):
        for s2, b in I.read(s1, I.deref(I.ptr_add(p, 1)), 'spin'):
            res.append((s2, a, b))
    return res


def read_ext(I, s, p):
    if p == NULL or not isinstance(p, tuple):
        return [(s, ())]
    l = I.deref(p)
    out = []
    for s1, r in I.read(s, (l[0], l[1] + ('R',)), 'Site'):
        for s2, t in I.read(s1, (l[0], l[1] + ('Tau',)), 'double'):
            for s3, x in I.read(s2, (l[0], l[1] + ('Spin',)), 'spin'):
                out.append((s3, ('ext', r, t, x)))
    return out


def with_dir(I, e, st, fr, dirfirst):
    out = []
    for s, vs in I.vals(e, st, fr):
        if dirfirst:
            for s2, d in I.concretise(s, vs[0]):
                if not isinstance(d, int):
                    raise AnalysisBroken('direction argument of a weight call is not finite: %s' % show(vs[0]))
                out.append((s2, d, vs[1:]))
        else:
            out.append((s, 0, vs))
    return out


def p_gweight(I, e, st, fr, lv):
    df = e['f']['pt'][0] == 'int'
    out = []
    for s, d, v in with_dir(I, e, st, fr, df):
        r1, r2, t1, t2, s1, s2, meas, ggg = v[:8]
        if d != 0:
            r1, r2, t1, t2, s1, s2 = r2, r1, t2, t1, s2, s1
        for q, ext in read_ext(I, s, v[8] if len(v) > 8 else NULL):
            t = ('GW', r1, r2, t1, t2, s1, s2, meas, ggg, ext)
            q.ev.append(('wcall', 'G', q.n(t), I.where(fr, e)))
            out.append((q, q.n(Num.atom(t))))
    return out


def p_wweight(I, e, st, fr, lv):
    df = e['f']['pt'][0] == 'int'
    out = []
    for s, d, v in with_dir(I, e, st, fr, df):
        r1, r2, t1, t2, p1, p2, worm, meas, delta, www = v[:10]
        for q, a, b in read_spins(I, s, p1):
            for q2, c, dd in read_spins(I, q, p2):
                x = (r1, r2, t1, t2, a, b, c, dd)
                if d != 0:
                    x = (r2, r1, t2, t1, c, dd, a, b)
                for q3, ext in read_ext(I, q2, v[10] if len(v) > 10 else NULL):
                    t = ('WW',) + x + (worm, meas, delta, www, ext)
                    q3.ev.append(('wcall', 'W', q3.n(t), I.where(fr, e)))
                    out.append((q3, q3.n(Num.atom(t))))
    return out


def p_wormweight(I, e, st, fr, lv):
    return [(s, Num.atom(('WormWt',) + tuple(s.n(v) for v in vs))) for s, vs in I.vals(e, st, fr)]
