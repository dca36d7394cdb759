"""What is written to the files of a run is what a run reads back: parameters, accumulated statistics, weight tables."""
from terms import Num, N0, N1, show
from absint import NULL, strip
from frontend import AnalysisBroken
from plain import *
from plain import as_num
from oblig import facts
from saved import interp_, rd, Chk, same
import dicts

A, B = ('p', 'A'), ('p', 'B')
C = Num.c


class Domain(SrcDomain):
    def distinct(self, st, a, b):
        if a[0] == 'fld' and b[0] == 'fld' and a[3].endswith('*') and b[3].endswith('*'):
            x, y = tail(a, ()), tail(b, ())
            if {x[0], y[0]} == {A, B} and x[1] and x[1][-1] == '_Data':
                return True                       # every table owns its storage
        return SrcDomain.distinct(self, st, a, b)


def one(P, qn, n=None):
    fs = [f for f in find(P, qn, many=True) if n is None or len(f['params']) == n]
    if len(fs) != 1:
        raise AnalysisBroken('%s is not the single function it was' % qn)
    return fs[0]


def fields(P, cls):
    """fields of a class and of its bases"""
    out = []
    for b in P.recs[cls].get('bases', []):
        b = strip(b if isinstance(b, str) else b.get('t', ''))
        if b in P.recs:
            out += fields(P, b)
    return out + P.recs[cls]['fields']


def dim(P):
    return int(((P.globals.get('D') or {}).get('init') or {}).get('v') or 2)


def there_and_back(P, I, st, save, load, sargs=(), largs=(), a=A, b=B):
    """-> states after saving a and loading into b, with the dictionary"""
    out = []
    for s, d in I.inline(save, st, a, list(sargs), None, False):
        mark = len(s.log)
        loc = I.temp_loc(s, d)
        for s2, r in I.inline(load, s, b, [('ref', loc)] + list(largs), None, False):
            out.append((s2, d, mark))
    return out


def untouched(res, s, log, fn, what, base=A):
    bad = [l for l in log if l[0] == base or isinstance(l[0], tuple) and l[0][:2] == ('fld', base)]
    if bad:
        res.fail('saving changes nothing', where(fn), '%s: %s is changed' % (what, '.'.join(map(str, bad[0][1]))), facts(s))
    else:
        res.ok('saving changes nothing')


def parameters(P, res):
    save, load = one(P, 'para::ParaMC::ToDict'), one(P, 'para::ParaMC::FromDict')
    init = one(P, 'Lattice::Initialize')
    I = interp_(P, Domain())
    ends = there_and_back(P, I, I.new_state(), save, load)
    if not ends:
        res.fail('parameters', where(load), 'saved parameters cannot be read', [])
    for s, d, mark in ends:
        chk = Chk(res, None, load, 'saving and reading the parameters')
        untouched(res, s, s.log, save, 'saving and reading the parameters')
        for f in fields(P, 'para::ParaMC'):
            t = f['t']
            nm = f['name']
            if nm in ('Seed', 'Lat'):
                continue                                   # the state of the generator is stored instead; derived
            got = rd(I, s, B, (nm,), t)
            if nm == 'T':
                chk(s, 'derived parameters', nm, got, N1 / rd(I, s, A, ('Beta',), 'double'))
            elif t.startswith('Vec<'):
                for i in range(dim(P)):
                    chk(s, 'parameters', '%s %d' % (nm, i), rd(I, s, B, (nm, '_Array', i), 'int'), rd(I, s, A, (nm, '_Array', i), 'int'))
            else:
                chk(s, 'parameters', nm, got, rd(I, s, A, (nm,), t))
        # the lattice is the one of these sizes
        L = I.read(s, (A, ('L',)), 'Vec<int>')[0][1]
        for s2, _ in I.inline(init, I.split(s), ('p', 'C'), [L, rd(I, s, A, ('NSublat',), 'int')] if not init['params'][0].get('ref') else [('ref', (A, ('L',))), rd(I, s, A, ('NSublat',), 'int')], None, False):
            for f in fields(P, 'Lattice'):
                t = f['t']
                if f.get('static'):
                    continue
                for p in ([(f['name'], '_Array', i) for i in range(dim(P))] if t.startswith('Vec<') else [(f['name'],)]):
                    chk(s2, 'derived parameters', 'the lattice: ' + '.'.join(map(str, p)), rd(I, s2, B, ('Lat',) + p, 'int' if len(p) > 1 else t), rd(I, s2, ('p', 'C'), p, 'int' if len(p) > 1 else t))
    res.analysed.append({'function': load['qn'], 'ends reached': len(ends)})


def tail(b, p):
    from accum import absloc
    return absloc(b, p)


def element(I, s, loc):
    """a location inside an array: (the array, the index)"""
    b, p = tail(*loc)
    if p and isinstance(p[-1], (Num, int)):
        return (b, p[:-1]), as_num(p[-1])
    return (b, p), N0


def arrays_same(s, e, src, dst, sizes):
    """the event e makes every one of the elements of dst that of src"""
    from accum import wholeloop
    if e[0] == 'copy':
        (a, i), (d, j) = element(None, s, e[1]), element(None, s, e[3])
        return a == src and d == dst and s.n(i) == N0 and s.n(j) == N0 and e[2] is not None and s.n(e[2]) in sizes
    if e[0] == 'loop-write':
        (d, j) = element(None, s, (e[1][0], e[1][1]))
        v = s.n(e[1][2])
        if isinstance(v, Num):
            at = [a for m in v.d for a, k in m]
            if len(at) != 1 or v != Num.atom(at[0]):
                return False
            v = at[0]
        if d != dst or not (isinstance(v, tuple) and v[0] in ('fld', 'undef')):
            return False
        a, i = element(None, s, (v[1], v[2]))
        return a == src and s.n(i - j) == N0 and any(wholeloop(s, e, n) for n in sizes)
    return False


def copied(I, s, res, rule, fn, what, src, dst, sizes):
    sizes = [s.n(as_num(x)) for x in sizes]
    w = []
    for e in s.ev:
        if e[0] == 'copy' and element(None, s, e[3])[0] == dst or e[0] == 'loop-write' and element(None, s, (e[1][0], e[1][1]))[0] == dst:
            w.append(e)
    if w and arrays_same(s, w[-1], src, dst, sizes):
        res.ok(rule)
    else:
        res.fail(rule, where(fn), '%s: not every element is read back%s' % (what, ', last: %s' % show(w[-1][1:4])[:200] if w else ''), facts(s))


def arrloc(I, s, base, path, t):
    """the storage of an array member or of the array a member points to"""
    if strip(t).endswith('*'):
        return tail(*I.deref(rd(I, s, base, path, t)))
    return tail(base, path)


def sized(I, s, *locs):
    """the terms that stand for the number of elements"""
    out = []
    for b, p, t in locs:
        out.append(as_num(rd(I, s, b, p, t)))
    return out


def estimator(P, res):
    """the accumulator of a scalar: sum, norm, history"""
    for cls in ('Estimator<double>', 'Estimator<Complex>'):
        T = cls[10:-1]
        save, load = one(P, cls + '::ToDict'), one(P, cls + '::FromDict')
        I = interp_(P, Domain())
        upd = P.find
        ends = there_and_back(P, I, I.new_state(), save, load)
        if not ends:
            res.fail('accumulators', where(load), '%s: saved statistics cannot be read' % cls, [])
        seen = set()
        for s, d, mark in ends:
            what = 'saving and reading ' + cls
            chk = Chk(res, None, load, what)
            untouched(res, s, s.log, save, what)
            for nm, t in (('_accumulator', T), ('_norm', 'double'), ('_end', 'unsigned int')):
                chk(s, 'accumulators', nm, rd(I, s, B, (nm,), t), rd(I, s, A, (nm,), t))
            copied(I, s, res, 'accumulators', load, what, (A, ('_history',)), (B, ('_history',)), sized(I, s, (A, ('_end',), 'unsigned int')))
        res.analysed.append({'class': cls, 'ends reached': len(ends)})


def table_roundtrip(P, res, cls, save, load, scalars, arrays, rule, pre=(), ctor=None):
    """one class with scalar members and tables; pre: where the members lie; ctor: both objects are built by it"""
    I = interp_(P, Domain())
    sts = [I.new_state()]
    if ctor is not None:
        c = find(P, cls + '::' + cls.split('::')[-1])
        for b in (A, B):
            sts = [s for x in sts for s, _ in I.inline(c, x, b, symargs(I, c, ctor[:len(c['params'])]), None, False)]
    ends = []
    for st in sts:
        first = len(st.log)
        ends += there_and_back(P, I, st, save, load)
    what = 'saving and reading ' + cls
    if not ends:
        res.fail(rule, where(load), what + ': what was saved cannot be read', [])
    for s, d, mark in ends:
        chk = Chk(res, None, load, what)
        untouched(res, s, s.log[first:], save, what)
        for nm in scalars:
            chk(s, rule, '.'.join(pre + (nm,)), rd(I, s, B, pre + (nm,), 'double'), rd(I, s, A, pre + (nm,), 'double'))
        for nm in arrays:
            p = pre + (nm,)
            src, dst = arrloc(I, s, A, p + ('_Data',), 'Complex *'), arrloc(I, s, B, p + ('_Data',), 'Complex *')
            sizes = sized(I, s, (A, p + ('_Size',), 'unsigned int'), (B, p + ('_Size',), 'unsigned int'))
            sizes += [Num.atom(x) for x in sizeterms(s) if tail(*I.deref(x[1][1])) == src]
            copied(I, s, res, rule, load, what + ': ' + '.'.join(p), src, dst, sizes)
    res.analysed.append({'class': cls, 'ends reached': len(ends)})


def sizeterms(s):
    """sizes of stored arrays that occur on the path"""
    out = set()

    def go(x):
        if isinstance(x, Num):
            for m in x.d:
                for a, k in m:
                    go(a)
        elif isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'arrSize' and isinstance(x[1], tuple) and x[1][0] == 'arr':
                out.add(x)
            for y in x:
                go(y)
    for e in s.ev:
        go(e)
    return out


def tables(P, res):
    for cls, sv, ld, pre in (('weight::SigmaClass', 'ToDict', 'FromDict', ('Estimator',)), ('weight::PolarClass', 'ToDict', 'FromDict', ('Estimator',)),
                             ('weight::GammaGClass', 'StatisToDict', 'StatisFromDict', ()), ('weight::GammaWClass', 'StatisToDict', 'StatisFromDict', ())):
        table_roundtrip(P, res, cls, one(P, cls + '::' + sv), one(P, cls + '::' + ld), ('_Norm', '_NormAccu'), ('_WeightAccu',), 'accumulated functions', pre)
    for cls, sv, ld, arrays in (('weight::GClass', 'ToDict', 'FromDict', ('_SmoothTWeight',)), ('weight::WClass', 'ToDict', 'FromDict', ('_SmoothTWeight', '_DeltaTWeight')),
                                ('weight::GammaGClass', 'WeightToDict', 'WeightFromDict', ('_Weight',))):
        table_roundtrip(P, res, cls, one(P, cls + '::' + sv), one(P, cls + '::' + ld), (), arrays, 'tables', (), ['lat', 'beta', 'bins', 'norm' if 'Gamma' in cls else 'sym'])


FUNCTIONS = (('weight::SigmaClass', ('lat', 'beta', 'bins', 'order', 'sym', 'norm'), ('Estimator',)), ('weight::PolarClass', ('lat', 'beta', 'bins', 'order', 'norm'), ('Estimator',)),
             ('weight::GammaGClass', ('lat', 'beta', 'bins', 'norm'), ()), ('weight::GammaWClass', ('lat', 'beta', 'bins', 'basis', 'norm'), ()))
TABLES = (('weight::GClass', ('lat', 'beta', 'bins', 'sym'), ('_SmoothTWeight',)), ('weight::WClass', ('lat', 'beta', 'bins'), ('_SmoothTWeight', '_DeltaTWeight')),
          ('weight::GammaGClass', ('lat', 'beta', 'bins', 'norm'), ('_Weight',)))
SCALARS = ('double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'unsigned long long')


def built(P, I, st, cls, names, base, beta='beta'):
    c = [f for f in find(P, cls + '::' + cls.split('::')[-1], many=True) if not f.get('implicit') and len(f['params']) == len(names)]
    if len(c) != 1:
        raise AnalysisBroken('%d constructors of %s' % (len(c), cls))
    return [s for s, _ in I.inline(c[0], st, base, symargs(I, c[0], [beta if n == 'beta' else n for n in names]), None, False)]


def zeroed(s, ptr):
    """every element behind the pointer is zero: by its constructor or by the last loop over it"""
    from accum import wholeloop
    ev = [e for e in s.ev if e[0] == 'new' and e[1] == ptr or e[0] == 'copy' and element(None, s, e[3])[0] == (ptr, ())
          or e[0] == 'loop-write' and element(None, s, (e[1][0], e[1][1]))[0] == (ptr, ())]
    if not ev:
        return False
    e = ev[-1]
    if e[0] == 'new':
        return True                                  # the constructor of Complex
    if e[0] == 'copy':
        return False
    n = [x[3] for x in ev if x[0] == 'new']
    return s.n(as_num(e[1][2])) == N0 and bool(n) and wholeloop(s, e, s.n(as_num(n[0])))


def fresh(P, res):
    """what a new function holds: nothing measured, no weight"""
    zero = find(P, 'Complex::Complex', lambda f: not f['params'])
    I = interp_(P, Domain())
    for cls, names, pre in FUNCTIONS:
        for s in built(P, I, I.new_state(), cls, names, A):
            chk = Chk(res, None, find(P, cls + '::' + cls.split('::')[-1], many=True)[0], 'a new ' + cls)
            chk(s, 'empty', 'the normalisation', rd(I, s, A, pre + ('_NormAccu',), 'double'), N0)
            sts = [s]
            if 'GammaW' in cls:
                ld = one(P, cls + '::WeightFromDict')
                sts = [s2 for s2, _ in I.inline(ld, s, A, symargs(I, ld, ['dict']), None, False)]
            for s2 in sts:
                al = s2.n(read1(I, s2, (A, pre + ('_WeightAccu', 'IsAllocated')), 'bool'))
                if al is False:
                    res.fail('empty', where(chk.fn), '%s: there is nothing to measure into' % cls, facts(s2))
                elif zeroed(s2, s2.n(rd(I, s2, A, pre + ('_WeightAccu', '_Data'), 'Complex *'))):
                    res.ok('empty')
                else:
                    res.fail('empty', where(chk.fn), 'a new %s has measured something' % cls, facts(s2))
    for cls, names, tabs in TABLES:
        for s in built(P, I, I.new_state(), cls, names, A):
            for t in tabs:
                if zeroed(s, s.n(rd(I, s, A, (t, '_Data'), 'Complex *'))):
                    res.ok('empty')
                else:
                    res.fail('empty', where(find(P, cls + '::' + cls.split('::')[-1], many=True)[0]), '%s of a new %s is not zero' % (t, cls), facts(s))
        res.analysed.append({'class': cls})
    # taken into use: whatever was there is dropped
    for cls, names, pre in FUNCTIONS:
        for new in [f for f in P.funcs.values() if f.get('cls') == cls and f['name'] == 'BuildNew' and not f['params']]:
            for s in built(P, I, I.new_state(), cls, names, A):
                I.write(s, (A, pre + ('_NormAccu',)), Num.atom(('measured',)), ('', '', 0))
                mark = len(s.ev)
                for s2, _ in I.inline(new, s, A, [], None, False):
                    chk = Chk(res, None, new, 'a new ' + cls)
                    chk(s2, 'empty', 'the normalisation', rd(I, s2, A, pre + ('_NormAccu',), 'double'), N0)
                    late = [e for e in s2.ev[mark:] if e[0] in ('loop-write', 'copy')]
                    if late and zeroed(s2, s2.n(rd(I, s2, A, pre + ('_WeightAccu', '_Data'), 'Complex *'))):
                        res.ok('empty')
                    else:
                        res.fail('empty', where(new), '%s: what was accumulated before is kept' % cls, facts(s2))
    for cls in ('Estimator<double>', 'Estimator<Complex>'):
        for fn in makers_of(P, cls):
            for s, _ in I.inline(fn, I.new_state(), A, symargs(I, fn), None, False):
                chk = Chk(res, None, fn, 'an empty ' + cls)
                chk(s, 'empty', 'the sum', rd(I, s, A, ('_accumulator',), cls[10:-1]), N0)
                chk(s, 'empty', 'the number of samples', rd(I, s, A, ('_norm',), 'double'), N1)
                chk(s, 'empty', 'the length of the history', as_num(rd(I, s, A, ('_end',), 'unsigned int')), N0)
        res.analysed.append({'class': cls})


def makers_of(P, cls):
    own = [f for f in P.funcs.values() if f.get('cls') == cls and f.get('body')]
    out = [f for f in own if f.get('isctor') and not f.get('implicit') and not any(cls in p['t'] for p in f['params'])]
    out += [f for f in own if f['name'] == 'ClearStatistics']
    if len(out) < 3:
        raise AnalysisBroken('%s: its constructors or the function that clears it are gone' % cls)
    return out


def leaves(P, t, pre=()):
    """paths of the scalars of a record"""
    out = []
    for f in fields(P, t):
        ft = strip(f['t'])
        if f.get('static'):
            continue
        p = pre + (f['name'],)
        if ft in SCALARS or ft in P.enums:
            out.append((p, ft))
        elif ft.startswith('Vec<'):
            out += [(p + ('_Array', i), 'int') for i in range(dim(P))]
        elif ft in P.recs and not ft.startswith(('std::', 'Complex', 'weight::WeightArray<')):
            out += leaves(P, ft, p)
    return out


def temperature(P, res):
    """a function taken to another temperature is one built for it, with what was measured kept"""
    I = interp_(P, Domain())
    classes = [(c, n, p) for c, n, p in FUNCTIONS] + [(c, n, None) for c, n, p in TABLES if 'Gamma' not in c]
    for cls, names, pre in classes:
        if not find(P, cls + '::Reset', many=True):
            other = [f for f in P.funcs.values() if f.get('cls') == cls and f['name'] in ('Anneal', 'SetBeta', 'ChangeBeta', 'ResetBeta') and len(f['params']) == 1]
            if other:
                raise AnalysisBroken('%s::Reset has another name' % cls)
            ctor = find(P, cls + '::' + cls.split('::')[-1], many=True)[0]
            res.fail('temperature', where(ctor), '%s cannot be taken to another temperature: it keeps the old one' % cls, [])
            continue
        rs = one(P, cls + '::Reset')
        for s in built(P, I, I.new_state(), cls, names, A):
            for s1 in built(P, I, s, cls, names, B, 'beta2'):
                if pre is not None:
                    I.write(s1, (A, pre + ('_NormAccu',)), Num.atom(('measured',)), ('', '', 0))
                    n0 = rd(I, s1, A, pre + ('_Norm',), 'double')
                mark, first = len(s1.ev), len(s1.log)
                arg = symargs(I, rs, ['beta2'])
                for s2, _ in I.inline(rs, s1, A, arg, None, False):
                    chk = Chk(res, None, rs, cls + ' taken to another temperature')
                    for p, t in leaves(P, cls):
                        if p[-1] in ('_NormAccu',):
                            continue
                        got, want = rd(I, s2, A, p, t), rd(I, s2, B, p, t)
                        if got == Num.atom(('fld', A, p, t)) and want == Num.atom(('fld', B, p, t)):
                            continue                                # known only when a table is read
                        chk(s2, 'temperature', '.'.join(map(str, p)), got, want)
                    if pre is not None:
                        got = rd(I, s2, A, pre + ('_Norm',), 'double') / rd(I, s2, A, pre + ('_NormAccu',), 'double')
                        chk(s2, 'measured', 'norm per sample', got, n0 / Num.atom(('measured',)))
                    bad = [e for e in s2.ev[mark:] if e[0] in ('loop-write', 'copy', 'new')]
                    if bad:
                        res.fail('measured', where(rs), '%s: the tables change with the temperature' % cls, facts(s2))
                    else:
                        res.ok('measured')
        res.analysed.append({'class': cls, 'scalars': len(leaves(P, cls))})
