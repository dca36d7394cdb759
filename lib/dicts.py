"""Model of the repository's dictionaries (string keys, any value) for abstract interpretation: what is stored under a key is what
is read back under it. Keys are path elements, so a dictionary is a record whose fields appear when they are written."""
from terms import Num, N0, N1
from absint import NULL, strip
from stdlib import objloc, make, elem_type

DICT = 'Dictionary'


def text(v):
    """the constant behind a string value, or its term"""
    if isinstance(v, tuple) and v and v[0] == 'str':
        return v[1]
    return v


def pe(s, v):
    v = s.n(v)
    t = text(v)
    return '[%s]' % (t if isinstance(t, str) else repr(t))


def items(v):
    """{path: value} of a record value, nested records flattened"""
    out = {}

    def go(pre, x):
        if isinstance(x, tuple) and x and x[0] == 'S':
            for k, y in x[2]:
                go(pre + (k if k != '' else ()), y)
        else:
            out[pre] = x
    go((), v)
    return out


def keys(v):
    """keys of a dictionary value; None when something in it is unknown"""
    ks = set()

    def go(x):
        if not (isinstance(x, tuple) and x and x[0] == 'S'):
            return False
        ok = True
        for k, y in x[2]:
            if k == '' or k == ():
                ok = ok and go(y)
            elif isinstance(k[0], str) and k[0].startswith('['):
                ks.add(k[0])
        return ok
    return ks if go(v) else None


def value(I, s, l, t):
    r = I.read(s, l, t)
    return r


def d_ctor(I, e, st, fr, lv):
    a = e.get('a', [])
    if e.get('copy'):
        return NotImplemented
    if not a:
        return [(st, ('S', DICT, ()))]
    out = []
    for s, vs in I.vals(e, st, fr):
        if len(vs) == 2:
            out.append((s, ('S', DICT, (((pe(s, vs[0]),), s.n(vs[1])),))))
        elif len(vs) == 1:
            d = literal(text(s.n(vs[0])))
            if d is None:
                return NotImplemented
            out.append((s, d))
        else:
            return NotImplemented
    return out


def literal(t):
    import ast
    if not isinstance(t, str):
        return None
    try:
        return lift(ast.literal_eval(t))
    except (ValueError, SyntaxError):
        return None


def lift(x):
    if isinstance(x, dict):
        return ('S', DICT, tuple((('[%s]' % k,), lift(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return make('std::vector<>', [lift(v) for v in x])
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return Num.c(x)
    if isinstance(x, float):
        from fractions import Fraction
        return Num.c(Fraction(x))
    return ('str', str(x))


def d_index(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            r = (l[0], l[1] + (pe(s2, vs[0]),))
            if lv:
                out.append((s2, r))
            else:
                out += I.read(s2, r, e.get('t', ''))
    return out


def convert(I, s, v, t, loc):
    """the value a reader of another type gets"""
    t = strip(t)
    if t.startswith('std::vector<') and isinstance(v, tuple) and v and v[0] == 'fld' and strip(v[3]).startswith('Vec<'):
        n = ((I.p.globals.get('D') or {}).get('init') or {}).get('v')
        return make(t, [I.dom.wrap(('fld', v[1], v[2] + ('_Array', i), elem_type(t)), elem_type(t)) for i in range(int(n if n is not None else 2))])
    if t.startswith('Vec<') and isinstance(v, tuple) and v and v[0] == 'S' and any(k == (0,) for k, _ in v[2]):
        return ('S', t, tuple((('_Array',) + k, x) for k, x in v[2] if k and isinstance(k[0], int)))
    return v


def origin(v, l):
    """where a dictionary came from: (object, keys...)"""
    if isinstance(v, tuple) and v and v[0] == 'fld':
        l = (v[1], v[2])
    b, p = l
    while isinstance(b, tuple) and b and b[0] == 'ptr':
        b, p = b[1], tuple(b[2]) + tuple(p)
    return (b,) + tuple(p)


def getter(I, e, st, fr, lv):
    f = e['f']
    out = []
    for s, ks in I.vals(dict(e, a=e['a'][:1]), st, fr):
        for s2, l in objloc(I, e, s, fr):
            src = (l[0], l[1] + (pe(s2, ks[0]),))
            held = keys(whole(I, s2, l))
            if held is not None and src[1][-1] not in held:
                continue                                # the key is missing: an error is thrown
            org = origin(whole(I, s2, l), l) + (src[1][-1],)
            if len(e['a']) == 2:
                t = I.typ(e['a'][1])
                for s3, d in I.lval(e['a'][1], s2, fr):
                    for s4, v in I.read(s3, src, t):
                        s4.ev.append(('get', src[1][-1], d, I.where(fr, e), org))
                        I.write(s4, d, convert(I, s4, v, t, src), I.where(fr, e))
                        out.append((s4, NULL))
            else:
                t = f.get('ret') or e.get('t') or ''
                for s3, v in I.read(s2, src, t):
                    s3.ev.append(('get', src[1][-1], None, I.where(fr, e), org))
                    v = convert(I, s3, v, t, src)
                    out.append((s3, I.temp_loc(s3, v) if lv else v))
    return out


def whole(I, s, l):
    r = I.read(s, l, DICT)
    return s.n(r[0][1]) if len(r) == 1 else None


def haskey(I, e, st, fr, lv):
    out = []
    for s, ks in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            v = whole(I, s2, l)
            k = keys(v) if v is not None else None
            p = pe(s2, ks[0])
            if k is not None:
                out.append((s2, p in k))
            else:
                out.append((s2, ('truth', ('haskey', l[0], l[1], p))))
    return out


def update(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            v = s2.n(vs[0])
            if keys(v) is None:
                return NotImplemented
            for k, x in items(v).items():
                I.write(s2, (l[0], l[1] + k), x, I.where(fr, e))
            out.append((s2, NULL))
    return out


def clear(I, e, st, fr, lv):
    out = []
    for s, l in objloc(I, e, st, fr):
        I.write(s, l, ('S', DICT, ()), I.where(fr, e))
        out.append((s, NULL))
    return out


def fromstring(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            d = literal(text(s2.n(vs[0])))
            if d is None:
                return NotImplemented
            I.write(s2, l, d, I.where(fr, e))
            out.append((s2, NULL))
    return out


def nothing(I, e, st, fr, lv):
    return [(s, I.temp_loc(s, NULL) if lv else NULL) for s, _ in I.vals(e, st, fr)]


def any_ctor(I, e, st, fr, lv):
    if len(e.get('a', [])) == 1:
        return [(s, s.n(vs[0])) for s, vs in I.vals(e, st, fr)]
    return [(s, ('none',)) for s, vs in I.vals(e, st, fr)]


def any_assign(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        for s2, l in objloc(I, e, s, fr):
            I.write(s2, l, s2.n(vs[0]), I.where(fr, e))
            if lv:
                out.append((s2, l))
            else:
                out += I.read(s2, l, e.get('t', ''))
    return out


def arr_ctor(I, e, st, fr, lv):
    if e.get('copy'):
        return any_ctor(I, e, st, fr, lv)
    return [(s, ('arr',) + tuple(s.n(v) for v in vs)) for s, vs in I.vals(e, st, fr)]


def arr_method(I, e, st, fr, lv):
    nm = e['f']['name'].split('<')[0]
    out = []
    for s, l in objloc(I, e, st, fr):
        r = I.read(s, l, 'Python::ArrayObject')
        for s2, v in r:
            v = s2.n(v)
            if isinstance(v, tuple) and v and v[0] == 'arr' and nm == 'Data':
                x = v[1]
            elif isinstance(v, tuple) and v and v[0] == 'arr' and nm == 'Dim' and len(v) > 3:
                x = v[3]
            elif isinstance(v, tuple) and v and v[0] == 'arr' and nm == 'Shape' and len(v) > 2 and isinstance(v[2], tuple) and v[2][0] == 'S':
                x = v[2]
            else:
                x = I.dom.wrap(('arr' + nm, v), e.get('t', ''))
            out.append((s2, I.temp_loc(s2, x) if lv else x))
    return out


def string_ctor(I, e, st, fr, lv):
    if e.get('copy'):
        return any_ctor(I, e, st, fr, lv)
    a = e.get('a', [])
    if not a:
        return [(st, ('str', ''))]
    return [(s, s.n(v)) for s, v in I.ev(a[0], st, fr)]


def string_plus(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        x, y = text(s.n(vs[0])), text(s.n(vs[1]))
        v = ('str', x + y) if isinstance(x, str) and isinstance(y, str) else ('cat', x, y)
        out.append((s, I.temp_loc(s, v) if lv else v))
    return out


def string_assign(I, e, st, fr, lv):
    return any_assign(I, e, st, fr, lv)


METHODS = {'operator[]': d_index, 'operator=': any_assign, 'HasKey': haskey, 'Update': update, 'Clear': clear, 'LoadFromString': fromstring,
           'Save': nothing, 'BigSave': nothing, 'Print': nothing}


def match(f, e):
    cls = f.get('cls') or ''
    nm = f['name'].split('<')[0]
    if cls == DICT:
        if e.get('k') == 'ctor':
            return d_ctor
        if nm == 'Get':
            return getter
        return METHODS.get(nm)
    if cls == 'Python::AnyObject':
        if e.get('k') == 'ctor':
            return any_ctor
        if nm == 'operator=':
            return any_assign
    if cls == 'Python::ArrayObject':
        if e.get('k') == 'ctor':
            return arr_ctor
        if nm in ('Data', 'Shape', 'Size', 'Dim'):
            return arr_method
    if cls.startswith('std::basic_string<') or cls.startswith('std::__cxx11::basic_string<'):
        if e.get('k') == 'ctor':
            return string_ctor
        if nm == 'operator=':
            return string_assign
    if nm == 'operator+' and not cls and any('basic_string' in p for p in f.get('pt', [])):
        return string_plus
    return None
