"""What a function may change: a flow-insensitive, interprocedural analysis of the lvalues written. A location is (root, members) where
the root is the object the method is called for, a parameter, a global, memory of the function itself, or unknown; the members are the
(class, field) pairs passed on the way. Pointers and references are followed through their initialisers and assignments."""
import astutil
from absint import strip

LOCAL = ('local',)
LIMIT = 6


def is_ref(t):
    return (t or '').strip().endswith('&')


def is_ptr(t):
    return strip(t).endswith('*')


def writable(t):
    """a reference or pointer to something that is not const"""
    t = (t or '').strip()
    if t.endswith('&&'):
        t = t[:-1]
    if t.endswith('&'):
        return not t[:-1].strip().startswith('const ') and not t[:-1].strip().endswith(' const')
    if t.endswith('const') and t[:-5].strip().endswith('*'):
        t = t[:-5].strip()
    if t.endswith('*'):
        return not t[:-1].strip().startswith('const ') and not t[:-1].strip().endswith(' const')
    return False


def step(o, m):
    root, path = o
    if root == LOCAL:
        return o
    if m in path:
        return (root, path[:path.index(m) + 1])
    return (root, (path + (m,))[-LIMIT:])


class Body:
    """variables of one function and what the references and pointers among them stand for"""

    def __init__(self, A, f):
        self.A, self.f = A, f
        self.params = {p['id']: (i, p) for i, p in enumerate(f.get('params', []))}
        self.init = {}
        self.types = {}
        self.lams = []
        self.nodes = []
        self.decl(f)
        self.busy = set()
        self.memo = {}

    def decl(self, f):
        roots = [f.get('body')] + [x.get('e') for x in f.get('inits', []) if isinstance(x, dict)]
        for y in astutil.walk([r for r in roots if r]):
            self.nodes.append(y)
            if y['k'] == 'decls':
                for d in y['a']:
                    v = d['v']
                    self.types[v['id']] = v.get('t', '')
                    if d.get('ref'):
                        self.types[v['id']] = v.get('t', '') + (' &' if not is_ref(v.get('t', '')) else '')
                    if d.get('init'):
                        self.init.setdefault(v['id'], []).append(d['init'])
                    if d.get('static'):
                        self.types[v['id']] = 'static ' + self.types[v['id']]
            elif y['k'] == 'rfor':
                v = y['v']
                v = v.get('v', v) if isinstance(v.get('v'), dict) else v
                if 'id' in v:
                    self.types[v['id']] = v.get('t', '')
                    self.init.setdefault(v['id'], []).append({'k': 'elements', 'a': y['r']})
            elif y['k'] == 'try':
                pass
            elif y['k'] == 'bin' and y['op'] == '=' and y['a']['k'] == 'var':
                self.init.setdefault(y['a']['v'].get('id'), []).append(y['b'])
            elif y['k'] == 'lambda':
                g = self.A.P.find(y['f'], self.f['unit'], self.f['file']) if y.get('f') else None
                if g is not None and g.get('body') is not None:
                    for p in g.get('params', []):
                        self.types[p['id']] = p['t']
                    self.lams.append(g)
                    self.decl(g)

    # ---- where an expression lives (lvalues) and what it points to (values)
    def at(self, e, depth=0):
        """set of locations an lvalue may denote"""
        if e is None or depth > 40:
            return {(('unknown',), ())}
        k = e['k']
        if k == 'var':
            v = e['v']
            if self.types.get(v.get('id'), '').startswith('static '):
                return {(('kept', v['name']), ())}
            if v.get('sc') == 'global' or v.get('sc') == 'static':
                return {(('global', v.get('qn') or v['name']), ())}
            if v.get('id') in self.params:
                i, p = self.params[v['id']]
                if is_ref(p.get('t', '')) or p.get('ref'):
                    return {(('param', i), ())}
                return {(LOCAL, ())}
            t = self.types.get(v.get('id'))
            if t is None:
                return {(LOCAL, ())}
            if is_ref(t) or any(x.get('k') == 'elements' for x in self.init.get(v['id'], [])):
                out = set()
                key = ('at', v['id'])
                if key in self.busy:
                    return set()
                self.busy.add(key)
                for x in self.init.get(v['id'], [])[:1]:
                    out |= self.at(x['a'] if x['k'] == 'elements' else x, depth + 1)
                self.busy.discard(key)
                return out or {(LOCAL, ())}
            return {(LOCAL, ())}
        if k == 'mem':
            m = (e.get('cls') or '', e['f'])
            base = self.points(e['b'], depth + 1) if e.get('arrow') else self.at(e['b'], depth + 1)
            return {step(o, m) for o in base}
        if k == 'idx':
            bt = e.get('bt') or e['b'].get('t', '')
            if is_ptr(bt) or e['b']['k'] in ('load',):
                return self.points(e['b'], depth + 1)
            return self.at(e['b'], depth + 1)
        if k == 'un':
            if e['op'] == '*':
                return self.points(e['e'], depth + 1)
            return self.at(e['e'], depth + 1)
        if k in ('load', 'temp'):
            return {(LOCAL, ())}        # a value of its own
        if k == 'cast':
            return self.at(e['e'], depth + 1)
        if k == 'bin':
            if e['op'] == ',':
                return self.at(e['b'], depth + 1)
            return self.at(e['a'], depth + 1)
        if k == 'cond':
            return self.at(e['a'], depth + 1) | self.at(e['b'], depth + 1)
        if k == 'this':
            return {(('this',), ())}
        if k == 'call':
            return self.returned(e, depth + 1, True)
        return {(LOCAL, ())}

    def points(self, e, depth=0):
        """set of locations a pointer value may point to"""
        if e is None or depth > 40:
            return {(('unknown',), ())}
        k = e['k']
        if k == 'this':
            return {(('this',), ())}
        if k in ('new', 'null', 'int', 'str', 'zero', 'flt'):
            return {(LOCAL, ())} if k == 'new' else set()
        if k == 'un' and e['op'] == '&':
            return self.at(e['e'], depth + 1)
        if k == 'cast' and e.get('ck') == 'ArrayToPointerDecay':
            return self.at(e['e'], depth + 1)
        if k in ('cast', 'load', 'temp'):
            return self.points(e['e'], depth + 1)
        if k == 'cond':
            return self.points(e['a'], depth + 1) | self.points(e['b'], depth + 1)
        if k == 'bin':
            if e['op'] == '=':
                return self.points(e['b'], depth + 1)
            out = set()
            for x in ('a', 'b'):
                if is_ptr(e[x].get('t', '')) or e[x]['k'] in ('var', 'mem', 'load', 'call'):
                    out |= self.points(e[x], depth + 1)
            return out
        if k == 'var':
            v = e['v']
            if v.get('id') in self.params:
                i, p = self.params[v['id']]
                return {(('param', i), ('*',) if is_ref(p.get('t', '')) else ())} | self.later(v['id'], depth)
            if v.get('sc') in ('global', 'static'):
                return {(('global', v.get('qn') or v['name']), ('*',))}
            return self.later(v.get('id'), depth)
        if k in ('mem', 'idx', 'un'):
            # a pointer kept in an object: what it points to is reached through the object
            return {step(o, ('*', '*')) if o[0] != LOCAL else o for o in self.at(e, depth + 1)}
        if k == 'call':
            return self.returned(e, depth + 1, False)
        if k == 'ctor':
            out = set()
            for a in e.get('a', []):
                if is_ptr(self.typeof(a)) or e.get('copy'):
                    out |= self.points(a, depth + 1)
            return out
        return {(LOCAL, ())}

    def typeof(self, e):
        if e['k'] == 'var':
            return e['v'].get('t', '')
        return e.get('t', '')

    def later(self, vid, depth):
        key = ('pt', vid)
        if key in self.busy:
            return set()
        self.busy.add(key)
        out = set()
        for x in self.init.get(vid, []):
            out |= self.at(x['a'], depth + 1) if x['k'] == 'elements' else self.points(x, depth + 1)
        self.busy.discard(key)
        return out

    def returned(self, e, depth, ref):
        """what the result of a call denotes (a reference) or points to"""
        c = e.get('f') or {}
        g = self.A.P.find(c, self.f['unit'], self.f['file']) if c.get('fn') else None
        ret = c.get('ret') or (g or {}).get('ret') or ''
        if g is not None and g.get('body') is not None:
            rf = is_ref(ret) or g.get('retref')
            if ref and not rf and not is_ptr(ret):
                return {(LOCAL, ())}
            if ref and not rf:
                return {(LOCAL, ())}
            out = set()
            for o in self.A.returns(g):
                out |= self.bind(o, e, g, depth)
            if not ref and rf:
                out = {step(o, ('*', '*')) for o in out}
            return out
        # a library function: the object and what was handed over
        if ref and ret and not is_ref(ret):
            return {(LOCAL, ())}
        out = set()
        name = c.get('name', '')
        if e.get('obj') is not None:
            return self.points(e['obj'], depth + 1) if name in ('operator*', 'operator->') and not is_ptr(self.typeof(e['obj'])) else self.objat(e, depth)
        a = self.args(e)
        if e.get('oper') and a:
            a = a[:1]
            if name in ('operator*', 'operator->') and c.get('cls'):
                return self.points(a[0], depth + 1)
        for x in a:
            out |= self.points(x, depth + 1) if is_ptr(self.typeof(x)) else self.at(x, depth + 1)
        return out

    def args(self, e):
        return e.get('a', []) or []

    def objat(self, e, depth=0):
        o = e['obj']
        return self.points(o, depth + 1) if e.get('arrow') else self.at(o, depth + 1)

    def bind(self, o, e, g, depth=0):
        """a location of the callee seen from here"""
        root, path = o
        if root[0] in ('global', 'unknown', 'local', 'kept'):
            return {o}
        if root[0] == 'this':
            if e['k'] == 'ctor':
                return {(LOCAL, ())}
            if e.get('obj') is not None:
                base = self.objat(e, depth)
            elif e.get('a') and e.get('oper') and g.get('cls'):
                base = self.at(e['a'][0], depth + 1)
            else:
                base = {(('this',), ())}
        else:
            i = root[1]
            a = self.args(e)
            if e.get('oper') and g.get('cls') and e.get('obj') is None:
                a = a[1:]
            if i >= len(a):
                return set()
            p = g['params'][i]
            base = self.at(a[i], depth + 1) if is_ref(p['t']) or p.get('ref') else self.points(a[i], depth + 1)
        out = set()
        for b in base:
            for m in path:
                b = step(b, m)
            out.add(b)
        return out

    # ---- effects
    def writes(self):
        """{(location, (function, file, line))}"""
        out = set()

        def put(locs, y):
            for o in locs:
                if o[0] != LOCAL:
                    out.add((o, (self.f['fn'], self.f['file'], y.get('l') or self.f['l'])))
        for y in self.nodes:
            k = y['k']
            if k == 'bin' and y['op'] in ASSIGN:
                # a static local that is assigned before it is used keeps nothing from one call to the next
                put({o for o in self.at(y['a']) if not (o[0][0] == 'kept' and y['op'] == '=')}, y)
            elif k == 'un' and y['op'] in ('++', '--'):
                put(self.at(y['e']), y)
            elif k == 'del':
                put({step(o, ('', 'delete')) for o in self.points(y['e'])}, y)
            elif k in ('call', 'ctor'):
                self.call(y, put, out)
        if self.f.get('isctor'):
            out = {w for w in out if w[0][0] != ('this',)}
        return out

    def call(self, e, put, out):
        c = e.get('f') or {}
        if not c and e.get('fp') is not None:
            if any(v['k'] == 'var' and v['v'].get('name', '').startswith(('PyArray_', 'Py_')) for v in astutil.walk(e['fp'])):
                return          # the C interface of Python: its objects are not part of the simulation
            put({(('unknown',), ('call',))}, e)
            return
        g = self.A.P.find(c, self.f['unit'], self.f['file']) if c.get('fn') else None
        if g is not None and g.get('body') is not None:
            for o, w in self.A.effects(g):
                for b in self.bind(o, e, g):
                    if b[0] != LOCAL:
                        out.add((b, w))
            return
        name = c.get('name', '')
        if name in PURE or name.startswith(('Py_', 'PyArray_', '_Py')):
            return
        if e['k'] == 'call' and e.get('obj') is not None and not c.get('const') and not c.get('static') and name not in ACCESS:
            put(self.objat(e), e)
        elif e['k'] == 'call' and e.get('oper') and c.get('cls') and not c.get('const') and e.get('a') and name not in ACCESS:
            put(self.at(e['a'][0]), e)
        a = self.args(e)
        if e.get('oper') and c.get('cls') and e.get('obj') is None:
            a = a[1:]
        for x, t in zip(a, c.get('pt') or []):
            if writable(t) and not any(s in t for s in STREAM):
                put(self.at(x) if is_ref(t) else self.points(x), e)


ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
# library members that only give access to what is inside, without a const overload at the call
ACCESS = {'operator[]', 'begin', 'end', 'at', 'front', 'back', 'data', 'c_str', 'find', 'rbegin', 'rend', 'operator*', 'operator->', 'str', 'get', 'lower_bound', 'upper_bound', 'equal_range',
          'count'}
PURE = {'move', 'forward', 'swap_placeholder', 'addressof'}
STREAM = ('basic_ostream', 'std::ostream', 'ostream', 'basic_istream', '_object', 'FILE', 'basic_ostringstream', 'basic_stringstream')


class Effects:
    def __init__(self, P):
        self.P = P
        self.bodies = {}
        self.eff = {}
        self.ret = {}
        self.stack = set()
        self.rstack = set()

    def body(self, f):
        if f['key'] not in self.bodies:
            self.bodies[f['key']] = Body(self, f)
        return self.bodies[f['key']]

    def solve(self, roots):
        """effects of everything reachable, to a fixed point"""
        work, seen = list(roots), []
        keys = set()
        while work:
            f = work.pop()
            if f['key'] in keys or f.get('body') is None:
                continue
            keys.add(f['key'])
            seen.append(f)
            for e in self.body(f).nodes:
                if e['k'] in ('call', 'ctor') and (e.get('f') or {}).get('fn'):
                    g = self.P.find(e['f'], f['unit'], f['file'])
                    if g is not None:
                        work.append(g)
        for _ in range(50):
            changed = False
            for f in reversed(seen):
                r = self.findret(f)
                if r != self.ret.get(f['key'], set()):
                    self.ret[f['key']] = r
                    changed = True
                w = self.body(f).writes()
                if w != self.eff.get(f['key'], set()):
                    self.eff[f['key']] = w
                    changed = True
            if not changed:
                break
        return seen

    def effects(self, f):
        return self.eff.get(f['key'], set())

    def returns(self, f):
        return self.ret.get(f['key'], set())

    def findret(self, f):
        b = self.body(f)
        ret = f.get('ret') or ''
        rf = is_ref(ret) or f.get('retref')
        if not rf and not is_ptr(ret):
            return set()
        out = set()
        for y in b.nodes:
            if y['k'] == 'ret' and y.get('e') is not None:
                out |= b.at(y['e']) if rf else b.points(y['e'])
        return out


# the members of the program that only look: a report, a check, a file, a value
OBSERVERS = [('the diagram check', 'diag::Diagram::CheckDiagram'), ('saving the diagram', 'diag::Diagram::ToDict'), ('drawing the diagram', 'diag::Diagram::WriteDiagram2gv'),
             ('saving the state', 'EnvMonteCarlo::Save'), ('saving the tables', 'weight::Weight::ToDict'), ('saving the parameters', 'para::ParaMC::ToDict'),
             ('saving the statistics', 'mc::MarkovMonitor::ToDict'), ('the report on the moves', 'mc::Markov::PrintDetailBalanceInfo'),
             ('the report on the visits', 'mc::MarkovMonitor::PrintOrderReWeight')]
STATE = ('diag::', 'weight::', 'mc::', 'para::', 'Lattice', 'Site', 'Vec<', 'Estimator', 'RandomFactory', 'Momentum', 'Complex', 'EnvMonteCarlo')
# not part of the simulation
OUTSIDE = {'Logger::m_', 'std::cout', 'std::cerr', 'std::clog', 'PyModule_Type', 'PyArray_API'}


def foreign(o):
    root, path = o
    return root[0] == 'global' and (root[1] in OUTSIDE or root[1].startswith('Py'))


def show(o):
    names = {'this': 'the object', 'unknown': 'memory reached through an unknown pointer', 'kept': 'a static variable'}
    root, path = o
    base = names.get(root[0]) or ('argument %d' % (root[1] + 1) if root[0] == 'param' else root[1])
    return '.'.join([base + (' ' + root[1] if root[0] == 'kept' else '')] + [m[1] for m in path if isinstance(m, tuple) and m[1] != '*'])


def observers(P):
    out = []
    for what, qn in OBSERVERS:
        out += [(what, f) for f in P.funcs.values() if f['qn'] == qn and f.get('body') is not None]
    for f in P.funcs.values():
        if f.get('body') is None or f.get('implicit') or f.get('isctor') or not f.get('cls'):
            continue
        if not (f['cls'].startswith(STATE) or f['cls'] in STATE):
            continue
        if f['name'] == 'PrettyString':
            out.append(('the text of an object', f))
        elif f.get('const'):
            out.append(('a look into an object', f))
    return out


def run(P, res):
    """what a const member writes into its arguments is its result"""
    A = Effects(P)
    obs = observers(P)
    A.solve([f for _, f in obs])
    for what, f in obs:
        bad = {}
        for o, w in A.effects(f):
            result = f.get('const') and o[0][0] == 'param' and not (f['cls'].startswith('weight::') and is_ptr(f['params'][o[0][1]]['t']))
            if not foreign(o) and not result:
                bad.setdefault(w, []).append(o)
        if not bad:
            res.ok('observers change nothing')
        for w, os_ in sorted(bad.items(), key=str)[:5]:
            res.fail('observers change nothing', w, '%s (%s) changes %s' % (what, f['qn'], ', '.join(sorted({show(o) for o in os_}))[:300]), '')
        res.analysed.append({'observer': f['fn']})
