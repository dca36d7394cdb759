"""Abstract interpretation of ordinary functions: symbolic parameters, library calls as named terms, messages ignored."""
from terms import Num, N0, N1, show
from absint import Interp, BaseDomain, NULL, strip, NUMTYPES, element_of
from frontend import AnalysisBroken
import diagdom
from diagdom import p_abs, p_minmax, p_urn, p_irn, p_numclass, p_numfree

THIS = ('p', 'this')


class SrcDomain(BaseDomain):
    def rule(self, st, t):
        if t[0] == 'idiv' and isinstance(t[1], Num) and isinstance(t[2], Num) and t[2].single() is not None:
            q = t[1] / t[2]
            if all(c.denominator == 1 and all(e > 0 for a, e in m) for m, c in q.d.items()):
                return q            # an exact quotient
        if t[0] == 'conj':
            v = t[1]
            if isinstance(v, Num):
                r = conj(v)
                return t if r == Num.atom(t) else r
        if t[0] == 'fld':
            if isinstance(t[1], tuple) and t[1][0] == 'fld' and not t[1][3].endswith('*'):
                return self.rule(st, ('fld', t[1][1], t[1][2] + t[2], t[3]))     # a member of a member
            p = t[2]
            if any(isinstance(x, Num) and x.const() is not None and x.const().denominator == 1 for x in p):
                return ('fld', t[1], tuple(int(x.const()) if isinstance(x, Num) and x.const() is not None and x.const().denominator == 1 else x for x in p), t[3])
        return t

    def is_int_term(self, t):
        return False


def conj(v):
    """complex conjugation distributes over sums; real factors pass"""
    r = N0
    for m, c in v.d.items():
        x = Num({frozenset(): c})
        for a, e in m:
            if e == 1 and a[0] == 'conj':
                f = Num.atom(a[1]) if isinstance(a[1], tuple) else a[1]
                x = x * f
            elif complexvalued(a):
                x = x * Num.atom(('conj', Num.atom(a)), 1) if e == 1 else x * Num.atom(('conj', Num.atom(a, e)))
            else:
                x = x * Num.atom(a, e)
        r = r + x
    return r


def complexvalued(a):
    return a[0] == 'fld' and strip(a[3]) == 'Complex' or a[0] in ('elem', 'cplx')


def nothing(I, e, st, fr, lv):
    return [(st, I.temp_loc(st, NULL) if lv else NULL)]


def stream(I, e, st, fr, lv):
    """formatted output: no effect on the program"""
    return [(st, I.temp_loc(st, ('stream',)) if lv else ('stream',))]


def objloc(I, e, st, fr):
    if e.get('arrow'):
        return [(x, I.deref(x.n(v))) for x, v in I.ev(e['obj'], st, fr)]
    return I.lval(e['obj'], st, fr)


def element(I, e, st, fr, lv):
    """c[i]: a location inside the container"""
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            v = vs[0]
            if isinstance(v, Num) and v.const() is not None:
                v = int(v.const())
            r = (l[0], l[1] + (v,))
            if lv:
                out.append((s2, r))
            else:
                out += I.read(s2, r, e.get('t', ''))
    return out


def vsize(I, e, st, fr, lv):
    out = []
    for s2, l in objloc(I, e, st, fr):
        out += I.read(s2, (l[0], l[1] + ('size()',)), 'unsigned long')
    return out


def fun(name):
    def h(I, e, st, fr, lv):
        return [(s, s.n(Num.atom((name,) + tuple(s.n(v) for v in vs)))) for s, vs in I.vals(e, st, fr)]
    return h


def p_conj(I, e, st, fr, lv):
    return [(s, conj(s.n(vs[0]))) for s, vs in I.vals(e, st, fr)]


def p_pow(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        x, n = s.n(vs[0]), s.n(vs[1])
        c = n.const() if isinstance(n, Num) else None
        if isinstance(x, Num) and c is not None and c.denominator == 1 and 0 <= c <= 8:
            r = N1
            for _ in range(int(c)):
                r = r * x
        else:
            r = Num.atom(('pow', x, n))
        out.append((s, r))
    return out


def p_zero(I, e, st, fr, lv):
    """the tolerance test for zero"""
    out = []
    for s, vs in I.vals(e, st, fr):
        x = s.n(vs[0])
        c = x.const() if isinstance(x, Num) else None
        out.append((s, (c == 0) if c is not None else ('eq0', x)))
    return out


def p_copy(I, e, st, fr, lv):
    """std::copy(first, last, out) over a known number of elements, element by element"""
    out = []
    for s, vs in I.vals(e, st, fr):
        a, b, d = [s.n(v) for v in vs]
        pa, pb = I.deref(a), I.deref(b)
        n = None
        if pa[0] == pb[0] and pa[1] and pb[1] and pa[1][:-1] == pb[1][:-1]:
            n = as_num(pb[1][-1]) - as_num(pa[1][-1])
        elif pa[0] == pb[0] and len(pb[1]) == len(pa[1]) + 1 and pb[1][:-1] == pa[1]:
            n = as_num(pb[1][-1])
        c = n.const() if n is not None else None
        if c is None or c > 16:
            s.ev.append(('copy', pa, n, I.deref(d), I.where(fr, e)))
            out.append((s, NULL))
            continue
        sts = [s]
        for i in range(int(c)):
            nxt = []
            for q in sts:
                for q2, x in I.read(q, I.deref(I.ptr_add(a, i)), 'unsigned int'):
                    I.write(q2, I.deref(I.ptr_add(d, i)), x, I.where(fr, e))
                    nxt.append(q2)
            sts = nxt
        out += [(q, NULL) for q in sts]
    return out


def p_fill(I, e, st, fr, lv):
    """std::fill(first, last, value) and std::fill_n(first, n, value): the loop over the elements"""
    out = []
    for s, vs in I.vals(e, st, fr):
        a, b, v = [s.n(x) for x in vs]
        pa, ia = I.deref(a), N0
        if e['f']['name'] == 'fill_n':
            n = as_num(b)
            ia = element_of(('ptr',) + pa)[1]
            pa = (pa[0], pa[1][:-1] if pa[1] and isinstance(pa[1][-1], (Num, int)) else pa[1])
        else:
            (xa, ia), (xb, ib) = element_of(('ptr',) + pa), element_of(('ptr',) + I.deref(b))
            if xa != xb:
                return NotImplemented
            n = ib - ia
            pa = (pa[0], pa[1][:-1] if pa[1] and isinstance(pa[1][-1], (Num, int)) else pa[1])
        i = Num.atom(('loop', 'element', s.fresh()))
        s.ev.append(('loop-write', (pa[0], pa[1] + (i + ia,), v, I.where(fr, e)), (i, N0, ('lt0', i - n), 1)))
        out.append((s, NULL))
    return out


def as_num(x):
    return x if isinstance(x, Num) else Num.c(x)


LOGCLS = ('Logger',)


def base_match(f, e):
    cls = f.get('cls') or ''
    nm, qn = f['name'], f['qn']
    pts = ' , '.join(f.get('pt', []))
    if cls in LOGCLS:
        return nothing
    if nm == 'operator<<' and (f.get('sys') or 'basic_ostream' in f.get('ret', '') or 'ostream' in pts):
        return stream
    if cls.startswith('std::basic_ostringstream') or cls.startswith('std::basic_stringstream') or cls.startswith('std::basic_ostream'):
        return stream
    if cls in ('Complex', 'Momentum'):
        return p_numclass
    if not cls and ('Complex &' in pts or 'Momentum &' in pts) and (nm.startswith('operator') or nm in ('mod', 'phase', 'mod2')):
        return p_numfree
    if nm == 'conjugate':
        return p_conj
    if cls == 'RandomFactory':
        return {'urn': p_urn, 'irn': p_irn}.get(nm)
    if qn in ('abs', 'fabs', 'std::abs', 'std::fabs'):
        return p_abs
    if qn in ('floor', 'std::floor'):
        return fun('floor')
    if qn in ('pow', 'std::pow'):
        return p_pow
    if qn.split('<')[0] in ('std::min', 'std::max'):
        return p_minmax
    if qn.split('<')[0] == 'std::copy':
        return p_copy
    if qn.split('<')[0] in ('std::fill', 'std::fill_n'):
        return p_fill
    if qn == 'Zero':
        return p_zero
    return None


def matcher(extra):
    def m(f, e):
        for k in (f['qn'], f.get('cls', '') and f['cls'] + '::' + f['name'], f.get('cls') and 'class:' + f['cls']):
            h = extra.get(k)
            if h is not None:
                return h
        return base_match(f, e)
    return m


def interp(prog, extra=None, dom=None):
    I = Interp(prog, dom or SrcDomain(), {'match': matcher(extra or {})})
    I.ptr_arith = True
    return I


def find(prog, qn, pred=lambda f: True, many=False):
    c = [f for f in prog.funcs.values() if f['qn'] == qn and f.get('body') is not None and not f.get('implicit') and pred(f)]
    # one definition per signature
    seen = {}
    for f in c:
        seen.setdefault(f['fn'], f)
    c = [seen[k] for k in sorted(seen)]
    if many:
        if not c:
            raise AnalysisBroken('%s has vanished' % qn)
        return c
    if len(c) != 1:
        raise AnalysisBroken('%d definitions of %s' % (len(c), qn))
    return c[0]


def symargs(I, fn, names=None):
    """one symbolic value or object per parameter"""
    out = []
    for i, p in enumerate(fn['params']):
        b = ('p', (names[i] if names else 'a%d' % i))
        if p['ref']:
            out.append(('ref', (b, ())))
        elif p['t'].strip().endswith('*') or p['t'].strip().endswith(']'):
            out.append(b)
        else:
            out.append(I.dom.wrap(('fld', b, (), strip(p['t'])), p['t']))
    return out


def where(fn):
    return (fn['fn'], fn['file'], fn['l'])


def read1(I, s, loc, typ='double'):
    r = I.read(s, loc, typ)
    if len(r) != 1:
        raise AnalysisBroken('a location is ambiguous: %s' % (loc,))
    return r[0][1]
