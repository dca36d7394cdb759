"""Models of standard library pieces that refactorings of the repository's code use: swaps, local containers, pairs, algorithms over known ranges."""
from terms import Num, N0, N1
from absint import NULL, strip, Infeasible

MAXN = 64


def objloc(I, e, st, fr):
    if e.get('arrow'):
        return [(x, I.deref(x.n(v))) for x, v in I.ev(e['obj'], st, fr)]
    if I.is_lv(e['obj']):
        return I.lval(e['obj'], st, fr)
    return I.mat(e['obj'], st, fr)


def const(v):
    c = v.const() if isinstance(v, Num) else None
    return int(c) if c is not None and c.denominator == 1 else None


def elem_type(t):
    """T of std::vector<T...> and std::array<T, N>"""
    t = strip(t)
    i = t.find('<')
    d, out = 0, ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        elif ch == '>':
            if d == 0:
                break
            d -= 1
        elif ch == ',' and d == 0:
            break
        out += ch
    return out.strip()


def length(I, st, loc, t):
    """number of elements of a container, if known"""
    t = strip(t)
    if t.startswith('std::array<'):
        try:
            return int(t.rstrip('> ').split(',')[-1])
        except ValueError:
            return None
    r = I.read(st, (loc[0], loc[1] + ('size()',)), 'unsigned long')
    return const(r[0][1]) if len(r) == 1 else None


def zero_of(t):
    t = strip(t)
    if t.endswith('*'):
        return NULL
    if t == 'bool':
        return False
    if t in ('Complex', 'Momentum'):
        return N0
    return ('zero',) if not _num(t) else N0


def _num(t):
    from absint import NUMTYPES
    return t in NUMTYPES


def make(t, vals):
    return ('S', strip(t), tuple(((i,), v) for i, v in enumerate(vals)) + ((('size()',), Num.c(len(vals))),))


def p_swap(I, e, st, fr, lv):
    out = []
    t = I.typ(e['a'][0])
    for s, a in I.lval(e['a'][0], st, fr):
        for s2, b in I.lval(e['a'][1], s, fr):
            for s3, x in I.read(s2, a, t):
                for s4, y in I.read(s3, b, t):
                    I.write(s4, a, y, I.where(fr, e))
                    I.write(s4, b, x, I.where(fr, e))
                    out.append((s4, NULL))
    return out


def p_exchange(I, e, st, fr, lv):
    out = []
    t = I.typ(e['a'][0])
    for s, a in I.lval(e['a'][0], st, fr):
        for s2, v in I.ev(e['a'][1], s, fr):
            for s3, x in I.read(s2, a, t):
                I.write(s3, a, v, I.where(fr, e))
                out.append((s3, x))
    return out


def p_ident(I, e, st, fr, lv):
    a = e['a'][0]
    if lv and I.is_lv(a):
        return I.lval(a, st, fr)
    if I.is_lv(a):
        out = []
        for s, l in I.lval(a, st, fr):
            out += I.read(s, l, I.typ(a))
        return out
    return [(s, I.temp_loc(s, v) if lv else v) for s, v in I.ev(a, st, fr)]


def element(I, e, st, fr, lv):
    """c[i]: a location inside the container"""
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            v = vs[0]
            if isinstance(v, Num) and v.const() is not None:
                v = int(v.const())
            r = (l[0], l[1] + (v,))
            if lv:
                out.append((s2, r))
            else:
                out += I.read(s2, r, e.get('t', ''))
    return out


def cls_of(e):
    return (e.get('f') or {}).get('cls') or ''


def p_size(I, e, st, fr, lv):
    out = []
    for s, l in objloc(I, e, st, fr):
        n = length(I, s, l, cls_of(e))
        if n is not None:
            r = [(s, Num.c(n))]
        else:
            r = I.read(s, (l[0], l[1] + ('size()',)), 'unsigned long')
        for s2, v in r:
            if e['f']['name'] == 'empty':
                v = v.const() == 0 if v.const() is not None else ('eq0', v)
            out.append((s2, v))
    return out


def p_push(I, e, st, fr, lv):
    out = []
    for s, l in objloc(I, e, st, fr):
        n = length(I, s, l, cls_of(e))
        if n is None or len(e.get('a', [])) != 1:
            return NotImplemented
        for s2, v in I.ev(e['a'][0], s, fr):
            I.write(s2, (l[0], l[1] + (n,)), v, I.where(fr, e))
            I.write(s2, (l[0], l[1] + ('size()',)), Num.c(n + 1), I.where(fr, e))
            out.append((s2, NULL))
    return out


def p_pop(I, e, st, fr, lv):
    out = []
    for s, l in objloc(I, e, st, fr):
        n = 1 if e['f']['name'] == 'clear' else length(I, s, l, cls_of(e))
        if n is None or not I.is_local(l[0]):
            return NotImplemented
        I.write(s, (l[0], l[1] + ('size()',)), Num.c(n - 1), I.where(fr, e))
        out.append((s, NULL))
    return out


def p_end(I, e, st, fr, lv):
    """front(), back(), begin(), end(), data()"""
    nm = e['f']['name']
    out = []
    for s, l in objloc(I, e, st, fr):
        n = length(I, s, l, cls_of(e))
        if nm in ('back', 'end', 'cend') and n is None:
            return NotImplemented
        i = 0 if nm in ('front', 'begin', 'cbegin', 'data') else n - 1 if nm == 'back' else n
        loc = (l[0], l[1] + (i,))
        if nm in ('front', 'back'):
            if lv:
                out.append((s, loc))
            else:
                out += I.read(s, loc, e.get('t', ''))
        else:
            out.append((s, ('ptr',) + loc))
    return out


def p_fillmember(I, e, st, fr, lv):
    out = []
    for s, l in objloc(I, e, st, fr):
        for s2, vs in I.vals(e, s, fr):
            if e['f']['name'] == 'assign':
                if len(vs) != 2 or const(s2.n(vs[0])) is None:
                    return NotImplemented
                n, v = const(s2.n(vs[0])), vs[1]
                if not I.is_local(l[0]):
                    return NotImplemented
                I.write(s2, (l[0], l[1] + ('size()',)), Num.c(n), I.where(fr, e))
            else:
                n, v = length(I, s2, l, cls_of(e)), vs[0]
            if n is None or n > MAXN:
                return NotImplemented
            for i in range(n):
                I.write(s2, (l[0], l[1] + (i,)), v, I.where(fr, e))
            out.append((s2, NULL))
    return out


def p_resize(I, e, st, fr, lv):
    out = []
    for s, l in objloc(I, e, st, fr):
        n = length(I, s, l, cls_of(e))
        for s2, vs in I.vals(e, s, fr):
            m = const(s2.n(vs[0]))
            if n is None or m is None or m > MAXN or not I.is_local(l[0]):
                return NotImplemented
            for i in range(n, m):
                I.write(s2, (l[0], l[1] + (i,)), vs[1] if len(vs) > 1 else zero_of(elem_type(cls_of(e))), I.where(fr, e))
            I.write(s2, (l[0], l[1] + ('size()',)), Num.c(m), I.where(fr, e))
            out.append((s2, NULL))
    return out


def nothing(I, e, st, fr, lv):
    return [(s, I.temp_loc(s, NULL) if lv else NULL) for s, _ in I.vals(e, st, fr)]


def p_vector(I, e, st, fr, lv):
    """constructors of std::vector"""
    f = e['f']
    t = e.get('t') or f['cls']
    pts = f.get('pt', [])
    a = e.get('a', [])
    if e.get('copy'):
        return NotImplemented
    if pts and pts[-1].startswith('const std::allocator'):
        pts, a = pts[:-1], a[:-1]
    elif pts and 'allocator' in pts[-1] and len(pts) > 1:
        pts, a = pts[:-1], a[:-1]
    if not a or pts and 'allocator' in pts[0] and 'initializer_list' not in pts[0]:
        return [(st, make(t, []))]
    if 'initializer_list' in pts[0]:
        out = []
        for s, v in I.ev(a[0], st, fr):
            v = s.n(v)
            if not (isinstance(v, tuple) and v[0] == 'ilist'):
                return NotImplemented
            out.append((s, make(t, list(v[1]))))
        return out
    if strip(pts[0]) in ('unsigned long', 'size_t', 'unsigned int', 'int', 'long'):
        out = []
        for s, vs in I.vals(dict(e, a=a), st, fr):
            n = const(s.n(vs[0]))
            if n is None or n > MAXN:
                return NotImplemented
            out.append((s, make(t, [vs[1] if len(vs) > 1 else zero_of(elem_type(t))] * n)))
        return out
    return NotImplemented


def p_pair(I, e, st, fr, lv):
    a = e.get('a', [])
    if e.get('copy') or len(a) != 2:
        return NotImplemented
    return [(s, ('S', strip(e.get('t') or ''), ((('first',), vs[0]), (('second',), vs[1])))) for s, vs in I.vals(e, st, fr)]


def p_array_fun(I, e, st, fr, lv):
    """std::begin and std::end of arrays"""
    import re
    t = I.typ(e['a'][0]) or ''
    m = re.search(r'\[(\d+)\]', t)
    if not m:
        return NotImplemented
    i = 0 if e['f']['name'] in ('begin', 'cbegin') else int(m.group(1))
    return [(s, ('ptr', l[0], l[1] + (i,))) for s, l in I.lval(e['a'][0], st, fr)]


ITER = '__gnu_cxx::__normal_iterator<'


def p_iter(I, e, st, fr, lv):
    """iterators over vectors: positions in them, as pointers are"""
    nm = e['f']['name'][8:]
    args = ([e['obj']] if 'obj' in e else []) + e.get('a', [])

    def value(s, a):
        if I.is_lv(a):
            return [r for s2, l in I.lval(a, s, fr) for r in I.read(s2, l, I.typ(a))]
        return I.ev(a, s, fr)

    def at(s, v):
        v = s.n(v)
        if not (isinstance(v, tuple) and len(v) == 3 and v[0] == 'ptr' and v[2]):
            return None
        i = v[2][-1]
        if isinstance(i, Num) and i.const() is not None:
            i = int(i.const())
        return (v[1], tuple(v[2][:-1])), i

    def shift(s, v, d, sign):
        d = const(s.n(d))
        p = at(s, v)
        if d is None or p is None or not isinstance(p[1], int):
            return None
        return ('ptr', p[0][0], p[0][1] + (p[1] + sign * d,))
    out = []
    if nm in ('++', '--', '+=', '-='):
        for s, l in I.lval(args[0], st, fr):
            for s2, v in I.read(s, l, I.typ(args[0])):
                ds = I.ev(args[1], s2, fr) if nm in ('+=', '-=') else [(s2, Num.c(1))]
                for s3, d in ds:
                    r = shift(s3, v, d, 1 if nm[0] == '+' else -1)
                    if r is None:
                        return NotImplemented
                    I.write(s3, l, r, I.where(fr, e))
                    post = nm in ('++', '--') and len(args) == 2
                    x = v if post else r
                    out.append((s3, I.temp_loc(s3, v) if post else l) if lv else (s3, x))
        return out
    if nm in ('->', '*'):
        for s, v in value(st, args[0]):
            if at(s, v) is None:
                return NotImplemented
            if nm == '->':
                out.append((s, s.n(v)))
            elif lv:
                out.append((s, I.deref(s.n(v))))
            else:
                out += I.read(s, I.deref(s.n(v)), e.get('t', ''))
        return out
    if len(args) != 2:
        return NotImplemented
    for s, a in value(st, args[0]):
        for s2, b in value(s, args[1]):
            p, q = at(s2, a), at(s2, b)
            if p is None:
                return NotImplemented
            if nm in ('+', '-', '[]') and q is None:
                r = shift(s2, a, b, -1 if nm == '-' else 1)
                if r is None:
                    return NotImplemented
                if nm != '[]':
                    out.append((s2, I.temp_loc(s2, r) if lv else r))
                elif lv:
                    out.append((s2, I.deref(r)))
                else:
                    out += I.read(s2, I.deref(r), e.get('t', ''))
                continue
            if q is None or p[0] != q[0] or not isinstance(p[1], int) or not isinstance(q[1], int):
                return NotImplemented
            i, j = p[1], q[1]
            r = {'==': i == j, '!=': i != j, '<': i < j, '>': i > j, '<=': i <= j, '>=': i >= j, '-': Num.c(i - j)}.get(nm)
            if r is None:
                return NotImplemented
            out.append((s2, r))
    return out


def p_iter_copy(I, e, st, fr, lv):
    if len(e.get('a', [])) != 1:
        return NotImplemented
    return [(s, vs[0]) for s, vs in I.vals(e, st, fr)]


def span(I, s, a, b):
    """locations of the elements of [a, b), if their number is known"""
    pa, pb = I.deref(s.n(a)), I.deref(s.n(b))
    if pa[0] != pb[0]:
        return None
    if pa[1] and pb[1] and pa[1][:-1] == pb[1][:-1] and isinstance(pa[1][-1], int) and isinstance(pb[1][-1], int):
        return [(pa[0], pa[1][:-1] + (i,)) for i in range(pa[1][-1], pb[1][-1])]
    if pb[1][:-1] == pa[1] and isinstance(pb[1][-1], int):
        return [(pa[0], pa[1] + (i,)) for i in range(pb[1][-1])]
    return None


def apply(I, clo, args, e, s, fr):
    """call of a closure or function with given locations or values"""
    v = s.n(clo)
    fn = I.p.find(v[1], fr.unit, fr.file) if isinstance(v, tuple) and v and v[0] in ('clo', 'fn') else None
    if fn is None or fn.get('body') is None or len(fn['params']) != len(args):
        return None
    return I.inline(fn, s, v[2] if v[0] == 'clo' else None, [x if isinstance(x, tuple) and x and x[0] == 'ref' else x for x in args], fr, False, v[3] if v[0] == 'clo' else ())


def p_algo(I, e, st, fr, lv):
    """for_each, any_of, all_of, none_of, count_if, accumulate over a known range"""
    nm = e['f']['name']
    out = []
    for s, vs in I.vals(e, st, fr):
        ls = span(I, s, vs[0], vs[1])
        if ls is None or len(ls) > MAXN:
            return NotImplemented
        if nm == 'accumulate':
            if len(vs) != 3:
                return NotImplemented
            cur = [(s, vs[2])]
            for l in ls:
                cur = [(s3, I.arith('+', s3.n(acc), s3.n(x), e, s3)) for s2, acc in cur for s3, x in I.read(s2, l, e.get('t', ''))]
                cur = [(s4, v) for s3, r in cur for s4, v in (r if isinstance(r, list) else [(s3, r)])]
            out += cur
            continue
        cur = [s]
        for l in ls:
            nxt = []
            for q in cur:
                r = apply(I, vs[2], [('ref', l)], e, q, fr)
                if r is None:
                    return NotImplemented
                for q2, v in r:
                    if nm == 'for_each':
                        nxt.append(q2)
                        continue
                    for q3, b in I.branch(q2, v):
                        if nm in ('any_of', 'none_of') and b:
                            out.append((q3, nm == 'any_of'))
                        elif nm == 'all_of' and not b:
                            out.append((q3, False))
                        else:
                            nxt.append(q3)
            cur = nxt
        out += [(q, NULL if nm == 'for_each' else nm != 'any_of') for q in cur]
    return out


def std_match(f, e):
    qn = (f.get('qn') or '').split('<')[0]
    cls = f.get('cls') or ''
    nm = f['name']
    if e.get('k') == 'ctor':
        if cls.startswith('std::vector<'):
            return p_vector
        if cls.startswith('std::pair<'):
            return p_pair
        if cls.startswith(ITER):
            return p_iter_copy
        return None
    if nm.startswith('operator') and (cls.startswith(ITER) or qn.startswith('__gnu_cxx::operator')):
        return p_iter
    if qn in ('std::swap', 'swap'):
        return p_swap
    if qn in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const') and len(e.get('a', [])) == 1:
        return p_ident
    if qn == 'std::exchange':
        return p_exchange
    if qn == 'std::make_pair':
        return p_pair
    if qn in ('std::begin', 'std::end', 'std::cbegin', 'std::cend'):
        return p_array_fun
    if qn in ('std::for_each', 'std::any_of', 'std::all_of', 'std::none_of', 'std::accumulate'):
        return p_algo
    if cls.startswith('std::vector<') or cls.startswith('std::array<'):
        if nm in ('operator[]', 'at'):
            return element
        if nm in ('size', 'empty'):
            return p_size
        if nm in ('push_back', 'emplace_back'):
            return p_push
        if nm in ('pop_back', 'clear'):
            return p_pop
        if nm in ('front', 'back', 'begin', 'end', 'cbegin', 'cend', 'data'):
            return p_end
        if nm in ('fill', 'assign'):
            return p_fillmember
        if nm == 'resize':
            return p_resize
        if nm == 'reserve':
            return nothing
    return None


def range_elements(I, r, st, fr):
    """[(state, locations)] of the elements a range-based for runs over; None: their number is not known"""
    import re
    x = r
    while x['k'] in ('temp',) or x['k'] == 'cast' and x['ck'] == 'NoOp':
        x = x['e']
    if x['k'] == 'ilist':
        out = [(st, [])]
        for a in x['a']:
            out = [(s2, ls + [I.temp_loc(s2, v)]) for s, ls in out for s2, v in I.ev(a, s, fr)]
        return out
    t = I.typ(x) or ''
    if not I.is_lv(x):
        if not strip(t).startswith(('std::vector<', 'std::array<')):
            return None
        ls = I.mat(x, st, fr)
    else:
        ls = I.lval(x, st, fr)
    out = []
    m = re.search(r'\[(\d+)\]', t)
    for s, l in ls:
        if m and not strip(t).startswith('std::'):
            n = int(m.group(1))
        elif strip(t).startswith(('std::vector<', 'std::array<')):
            n = length(I, s, l, t)
        elif 'initializer_list' in t:
            rs = I.read(s, l, t)
            v = rs[0][1] if len(rs) == 1 else None
            if not (isinstance(v, tuple) and v and v[0] == 'ilist'):
                return None
            out.append((s, [I.temp_loc(s, y) for y in v[1]]))
            continue
        else:
            n = None
        if n is None or n > MAXN:
            return None
        out.append((s, [(l[0], l[1] + (i,)) for i in range(n)]))
    return out
