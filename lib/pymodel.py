"""The bare interaction of the models: the coupling of two sites is the same whichever of them is named first, on lattices of any size."""
import ast

import pyabs
from pyabs import Interp, Bound, Num, Ref
from frontend import AnalysisBroken
from terms import show
from pyside import WEIGHT, A, klass, loaded, top
from pyfft import Tables, interp

MODEL = 'dyson/model.py'
N0, N1 = Num.c(0), Num.c(1)


class Builder(Tables):
    """a table made of zeros is the list of what is added to its elements"""

    def cell(self, st, ref, k):
        a = ('cell', ref.n, self.freeze(st, k))
        self.scalars.add(a)
        return Num.atom(a)

    def item(self, st, v, k, line):
        if isinstance(v, Ref) and st.rec(v)[0] == 'acc':
            return [(st, self.cell(st, v, k))]
        return Tables.item(self, st, v, k, line)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Subscript):
            out = []
            for s, ok in self.seq([t.value, t.slice], st, fr):
                if s.exc is not None or s.cut or not (isinstance(ok[0], Ref) and s.rec(ok[0])[0] == 'acc'):
                    return Tables.assign(self, t, v, st, fr)
                o, k = ok
                c = self.cell(s, o, k)
                e = (self.freeze(s, k), self.values(s, v, c), t.lineno)
                s.heap[o.n] = ('acc', s.rec(o)[1] + (e,))
                out.append(s)
            return out
        return Tables.assign(self, t, v, st, fr)

    def values(self, s, v, c):
        if isinstance(v, Ref) and s.rec(v)[0] in ('arr', 'list'):
            return tuple(self.values(s, x, c) for x in s.rec(v)[1])
        n = pyabs.num(v)
        return self.freeze(s, v) if n is None else n - c


def p_zeros(I, st, args, kw, line, fr):
    return [(st, st.new(('acc', ())))]


def p_outer(I, st, args, kw, line, fr):
    a, b = (st.rec(x)[1] if isinstance(x, Ref) and st.rec(x)[0] in ('arr', 'list') else None for x in args[:2])
    if a is None or b is None:
        return I.outside(st, 'numpy.outer', args, kw, line, fr)
    rows = []
    for x in a:
        r = [I.binop(ast.Mult(), x, y, st, line) for y in b]
        if any(y is None for y in r):
            return I.outside(st, 'numpy.outer', args, kw, line, fr)
        rows.append(st.new(('arr', tuple(r))))
    return [(st, st.new(('arr', tuple(rows))))]


def p_cell(I, st, args, kw, line, fr):
    """the number of a unit cell (P35) stands for its coordinates"""
    x = args[-1]
    items = x if isinstance(x, tuple) else st.rec(x)[1] if isinstance(x, Ref) and st.rec(x)[0] in ('list', 'arr') else None
    if items is None:
        return I.outside(st, 'CoordiIndex', args, kw, line, fr)
    if len(items) != len(I.sizes):
        return I.fail(st, 'IndexError', 'coordinates', line)
    return [(st, Num.atom(('cell-number', tuple(pyabs.num(y) for y in items))))]


def opposite(cell, sizes):
    return tuple(reduced(L - x, L) for x, L in zip(cell, sizes))


def folded(x, L):
    """quotients by the size, of coordinates less than a size away"""
    for a in list(x.atoms()):
        if isinstance(a, tuple) and a[0] == 'idiv' and isinstance(a[1], Num) and isinstance(a[2], Num) and not (a[2] - L).d:
            c = a[1].const()
            if c is not None:
                x = pyabs.Interp.replace(x, a, N0 if c >= 0 else Num.c(-1))
    return x


def reduced(x, L):
    """0 <= x < L for every size at which the coordinate is one"""
    x = folded(x, L)
    c = x.const()
    if c is not None:
        return x if c >= 0 else x + L
    d = (x - L).const()
    if d is not None and d >= 0:
        return x - L
    return x


def names(tree):
    """the names of lattices the models tell apart, of the models"""
    lat = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id == 'LatName':
            for c in n.comparators:
                if isinstance(c, ast.Constant) and isinstance(c.value, str):
                    lat.add(c.value)
                elif isinstance(c, (ast.Tuple, ast.List)):
                    lat.update(x.value for x in c.elts if isinstance(x, ast.Constant))
        if isinstance(n, ast.Dict):
            lat.update(k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str))
    return sorted(lat)


def couplings(P, res):
    I0 = interp()
    st = loaded(I0, MODEL)
    F = klass(st, MODEL, 'BareFactory')
    for n in ('Build', 'Heisenberg', 'Kitaev', 'Haldane'):
        if not isinstance(F.find(n), pyabs.Fn):
            raise AnalysisBroken('no method %s in %s' % (n, MODEL))
    cases = [('Heisenberg', x) for x in names(F.node)] + [('J1J2', x) for x in names(F.node)] + [('Kitaev', 'Honeycomb'), ('Haldane', 'Honeycomb')]
    seen = set()
    for model, lat in cases:
        for dim in (2, 3, 1):
            for sub in (4, 3, 2, 1):
                if built(res, model, lat, dim, sub):
                    seen.add((model, lat))
                    break
            if (model, lat) in seen:
                break
    if len([1 for m, l in seen if m == 'Heisenberg']) < 4:
        raise AnalysisBroken('only %s can be built' % sorted(seen))


def built(res, model, lat, dim, nsub):
    I = Builder()
    I.prims = interp().prims
    I.prims.update({'numpy.zeros': p_zeros, 'numpy.outer': p_outer, (WEIGHT, 'CoordiIndex'): p_cell, (WEIGHT, 'FFT'): pyabs.p_nothing})
    st = loaded(I, MODEL)
    F = klass(st, MODEL, 'BareFactory')
    for k, v in F.ns.items():
        # the propagator is not looked at
        if isinstance(v, pyabs.Fn) and 'BareG' in v.name:
            I.prims[(MODEL, v.name)] = pyabs.p_nothing
    fr = top(MODEL, st)
    s0 = st
    IM_ = klass(s0, WEIGHT, 'IndexMap')
    I.sizes = [A(I, 'L%d' % i) for i in range(dim)]
    L = st.new(('list', tuple(I.sizes)))
    got = False
    for s, m in I.call(st, IM_, (), dict(Beta=A(I, 'Beta', False), L=L, NSublat=nsub, MaxTauBin=2, MaxTauBinTiny=2, BasisNum=2, Symmetry=None), 0, fr):
        if s.exc is not None or s.cut:
            continue

        def vec(nm, n):
            return s.new(('list', tuple(A(I, '%s%d' % (nm, i), False) for i in range(n))))
        H = s.new(('dict', {'Name': model, 'Interaction': vec('J', 4), 'ExternalField': vec('h', nsub), 'ShortRangeInteraction': vec('V', 3), 'Hopping': vec('t', 2),
                            'Phase': vec('phase', 3), 'ChemicalPotential': vec('mu', 1)}, None))
        An = s.new(('dict', {'DeltaField': vec('d', nsub), 'Interval': vec('i', nsub)}, None))
        lattice = Num.atom(('lat',))
        I.given[('attr', lattice, 'NSublat')] = nsub
        I.given[('attr', lattice, 'Name')] = lat
        for s1, f in I.call(s, F, (m, lattice, H, An), {}, 0, fr):
            if s1.exc is not None or s1.cut:
                continue
            n0 = len(s1.ev)
            for s2, _ in I.call(s1, Bound(F.find('Build'), f), (), {}, 0, fr):
                if s2.exc is not None or s2.cut or any(e[0] == 'call' and 'format_exc' in str(e[1]) for e in s2.ev[n0:]):
                    continue
                w = s2.get(f, 'BareW')
                t = s2.get(w, 'Data') if isinstance(w, Ref) else None
                if not (isinstance(t, Ref) and s2.rec(t)[0] == 'acc' and s2.rec(t)[1]):
                    continue
                got = True
                judge(res, I, s2, F, s2.rec(t)[1], model, lat)
    if got:
        res.analysed.append({'file': MODEL, 'model': model, 'lattice': lat, 'dimensions': dim, 'sublattices': nsub})
    return got


def judge(res, I, s, F, entries, model, lat):
    table = {}
    fn = next((v.name for v in F.ns.values() if isinstance(v, pyabs.Fn) and v.node.lineno <= entries[0][2] <= max(getattr(x, 'lineno', 0) for x in ast.walk(v.node))), '?')
    for k, v, line in entries:
        # element (spin, sublattice, spin, sublattice, cell)
        c = k[-1].single() if isinstance(k, tuple) and isinstance(k[-1], Num) else None
        k = k[1:] if isinstance(k, tuple) and k and k[0] == 'tuple' else k
        if isinstance(v, Num) and not v.d or v == ('tuple',):
            continue
        rows = spins(k, v) if isinstance(k, tuple) and len(k) == 5 and c is not None and c[0] == 'cell-number' else None
        if rows is None:
            res.skipped.append('%s on %s: line %s adds to %s' % (model, lat, line, str(k)[:80]))
            return
        i, j = pyabs.num(k[1]).const(), pyabs.num(k[3]).const()
        for a, b, w in rows:
            if w.d:
                key = (a, i, b, j, tuple(s_norm(I, s, x, Lk) for x, Lk in zip(c[1], I.sizes)))
                x, l = table.get(key, (N0, line))
                table[key] = (x + w, l)
    for (a, i, b, j, r), (x, line) in table.items():
        back = tuple(s_norm(I, s, y, L) for y, L in zip(opposite(r, I.sizes), I.sizes))
        y = table.get((b, j, a, i, back), (N0, line))[0]
        if (x - y).d:
            res.fail('coupling named from either end', (fn, MODEL, line), '%s on %s: sublattice %s to %s by (%s) couples with %s, the other way round by (%s) with %s' % (
                model, lat, i, j, ', '.join(show(q) for q in r), show(x), ', '.join(show(q) for q in back), show(y)))
        else:
            res.ok('coupling named from either end')


def spins(k, v):
    """the spin components an index of the table means, each with what it gets of a matrix, a row or a number"""
    whole = ('slice', None, None, None)
    ranges = []
    for x in (k[0], k[2]):
        n = pyabs.num(x).const() if pyabs.num(x) is not None else None
        if x != whole and x != ('tuple',) + whole and (n is None or not -4 <= n < 4):
            return None
        ranges.append(list(range(4)) if n is None else [int(n) % 4])
    free = [len(r) == 4 for r in ranges]

    def pick(v, ks):
        if isinstance(v, Num):
            return v
        return pick(v[ks[0]], ks[1:]) if isinstance(v, tuple) and len(v) == 4 and ks else None
    out = []
    for a in ranges[0]:
        for b in ranges[1]:
            w = pick(v, [x for x, f in zip((a, b), free) if f])
            if w is None:
                return None
            out.append((a, b, w))
    return out


def s_norm(I, s, x, L):
    """a fixed size when the path has decided one"""
    for f, b in s.facts.items():
        a = f.single() if isinstance(f, Num) else None
        if b and a is not None and a[0] == 'cmp' and a[1] == '==' and isinstance(a[2], Num):
            for k in (1, -1):
                c = (a[2].scale(k) - L).const()
                if c is not None:
                    size = Num.c(-c)
                    for q in list(x.atoms()):
                        if isinstance(q, tuple) and q[0] == 'idiv' and isinstance(q[1], Num) and isinstance(q[2], Num) and not (q[2] - L).d:
                            n = pyabs.Interp.replace(q[1], L.single(), size).const()
                            if n is not None:
                                x = pyabs.Interp.replace(x, q, Num.c(n // size.const()))
                    v = pyabs.Interp.replace(x, L.single(), size)
                    return Num.c(v.const() % size.const()) if v.const() is not None else v
    return reduced(x, L)
