"""Lattice arithmetic: the site number is one-to-one, displacements are periodic."""
from terms import Num, N0, N1, show
from absint import NULL, strip
from frontend import AnalysisBroken
from plain import *
from weightfns import rowmajor
from accum import changed, absloc, names
from oblig import facts


class LatDomain(SrcDomain):
    """quotient and remainder of a number written in mixed radix"""
    def rule(self, st, t):
        if t[0] in ('idiv', 'mod') and isinstance(t[1], Num) and isinstance(t[2], Num):
            r = split_radix(st, t[1], t[2])
            if r is not None:
                return r[0] if t[0] == 'idiv' else r[1]
        return SrcDomain.rule(self, st, t)


def split_radix(st, x, S):
    """x = q*S + r with 0 <= r < S known"""
    a = S.single()
    if a is None or isinstance(x, Num) is False:
        return None
    q, r = N0, N0
    for m, c in x.d.items():
        k = dict(m)
        if k.get(a, 0) >= 1:
            t = Num.c(c)
            for b, e in m:
                e2 = e - 1 if b == a else e
                if e2:
                    t = t * Num.atom(b, e2)
            q = q + t
        else:
            t = Num.c(c)
            for b, e in m:
                t = t * Num.atom(b, e)
            r = r + t
    if st.decide_lt0(r) is False and st.decide_lt0(r - S) is True:
        return q, r
    return None


DIM = 2


def size(i):
    return Num.atom(('fld', THIS, ('Size', '_Array', i), 'int'))


def comp(n, i, pre=()):
    return Num.atom(('fld', ('p', n), pre + ('_Array', i), 'int'))


def assume(I, s, c, b):
    r = [x for x, v in I.branch(s, c) if v is b]
    if not r:
        raise AnalysisBroken('contradicting assumptions')
    return r


def run(P, res):
    I = interp(P, dom=LatDomain())
    # sizes are positive
    ctor = find(P, 'Lattice::Initialize')
    for s, _ in I.inline(ctor, I.new_state(), THIS, symargs(I, ctor, ['size', 'n']), None, False):
        want = {('Vol',): comp('size', 0) * comp('size', 1), ('SublatVol',): Num.atom(('fld', ('p', 'n'), (), 'int'))}
        for i in range(DIM):
            want[('Size', '_Array', i)] = comp('size', i)
        for p, v in want.items():
            g = s.n(read1(I, s, (THIS, p), 'int'))
            if g != s.n(v):
                res.fail('lattice sizes', where(ctor), '%s is %s, expected %s' % ('.'.join(map(str, p)), show(g)[:120], show(v)), facts(s))
            else:
                res.ok('lattice sizes')
    res.analysed.append({'function': ctor['fn']})
    v2i = find(P, 'Lattice::Vec2Index', lambda f: 'initializer_list' not in f['params'][0]['t'])
    i2v = find(P, 'Lattice::Index2Vec')
    st = [I.new_state()]
    for i in range(DIM):
        for c, b in ((('lt0', comp('v', i)), False), (('lt0', comp('v', i) - size(i)), True)):
            st = [y for x in st for y in assume(I, x, c, b)]
    for s0 in st:
        for s, v in I.inline(v2i, s0, THIS, [('ref', (('p', 'v'), ()))], None, False):
            want = rowmajor([comp('v', i) for i in range(DIM)], [size(i) for i in range(DIM)])
            if s.n(v) != s.n(want):
                res.fail('site number', where(v2i), 'the number of a cell is %s, a one-to-one number is %s' % (show(s.n(v))[:200], show(want)), facts(s))
            else:
                res.ok('site number')
            for q, w in I.inline(i2v, s, THIS, [s.n(v)], None, False):
                got = []
                for i in range(DIM):
                    x = q.n(I.project(w, ('_Array', i), 'int') if not isinstance(w, tuple) or w[0] != 'ptr' else NULL)
                    got.append(q.n(x))
                for i in range(DIM):
                    if got[i] != comp('v', i):
                        res.fail('site number', where(i2v), 'component %d of the cell with number n(v) is %s, not v' % (i, show(got[i])[:200]), facts(q))
                    else:
                        res.ok('site number')
    res.analysed += [{'function': v2i['fn']}, {'function': i2v['fn']}]
    # displacements of two cells inside the lattice
    ci = find(P, 'Lattice::CoordiIndex')
    st = [I.new_state()]
    d = [comp('out', i, ('Coordinate',)) - comp('in', i, ('Coordinate',)) for i in range(DIM)]
    for i in range(DIM):
        for c, b in ((('lt0', d[i] + size(i)), False), (('lt0', d[i] - size(i)), True), (('eq0', d[i] + size(i)), False)):
            st = [y for x in st for y in assume(I, x, c, b)]
    for s0 in st:
        for s, v in I.inline(ci, s0, THIS, [('ref', (('p', 'in'), ())), ('ref', (('p', 'out'), ()))], None, False):
            # decide the signs of the components
            cases = [s]
            for i in range(DIM):
                cases = [y for x in cases for y, _ in I.branch(x, ('lt0', d[i]))]
            for q in cases:
                dig = []
                for i in range(DIM):
                    dig.append(d[i] + size(i) if q.decide_lt0(q.n(d[i])) is True else d[i])
                want = q.n(rowmajor(dig, [size(i) for i in range(DIM)]))
                if changed(q):
                    res.fail('periodic displacement', where(ci), 'asking for a displacement changes %s' % [names(l) for l in changed(q)], facts(q))
                elif q.n(v) != want:
                    res.fail('periodic displacement', where(ci), 'the displacement has the number %s, expected %s' % (show(q.n(v))[:200], show(want)[:200]), facts(q))
                else:
                    res.ok('periodic displacement')
    res.analysed.append({'function': ci['fn']})
    sh = find(P, 'Lattice::Shift')
    st = [I.new_state()]
    for i in range(DIM):
        v = comp('v', i)
        for c, b in ((('lt0', v + size(i)), False), (('lt0', v - size(i) - size(i)), True)):
            st = [y for x in st for y in assume(I, x, c, b)]
    for s0 in st:
        for s, _ in I.inline(sh, s0, THIS, [('ref', (('p', 'v'), ()))], None, False):
            good = True
            for i in range(DIM):
                g = s.n(read1(I, s, (('p', 'v'), ('_Array', i)), 'int'))
                k = (g - comp('v', i)) / size(i)
                k = s.n(g - comp('v', i))
                m = k.d and [x for x in (1, -1) if s.n(size(i) * Num.c(x)) == k]
                inside = s.decide_lt0(g) is False and s.decide_lt0(s.n(g - size(i))) is True
                if (k.d and not m) or not inside:
                    good = False
                    res.fail('periodic displacement', where(sh), 'component %d becomes %s, not its periodic image in the lattice' % (i, show(g)[:100]), facts(s))
            if good:
                res.ok('periodic displacement')
    res.analysed.append({'function': sh['fn']})
    equality(P, res)


def equality(P, res):
    """two sites are the same exactly if cell and sublattice agree"""
    I = interp(P, dom=LatDomain())
    for nm, neg in (('operator==', False), ('operator!=', True)):
        fn = find(P, nm, lambda f: len(f['params']) == 2 and strip(f['params'][0]['t']).replace('const ', '').replace('&', '').strip() == 'Site')
        eqs = [('eq0', Num.atom(('fld', ('p', 'a'), ('Sublattice',), 'int')) - Num.atom(('fld', ('p', 'b'), ('Sublattice',), 'int')))]
        for i in range(DIM):
            eqs.append(('eq0', comp('a', i, ('Coordinate',)) - comp('b', i, ('Coordinate',))))
        for s, v in I.inline(fn, I.new_state(), THIS, [('ref', (('p', 'a'), ())), ('ref', (('p', 'b'), ()))], None, False):
            cases = [(s, [])]
            for c in eqs:
                cases = [(y, r + [b]) for x, r in cases for y, b in I.branch(x, c)]
            for q, r in cases:
                for y, b in I.branch(q, q.n(v)) if not isinstance(q.n(v), bool) else [(q, q.n(v))]:
                    if b != (all(r) != neg):
                        res.fail('site equality', where(fn), 'sublattice and cell agree: %s, the answer is %s' % (r, b), facts(y))
                    else:
                        res.ok('site equality')
        res.analysed.append({'function': fn['fn']})
