"""Does control reach the end of a function that has to return a value? Structural flow analysis over the statements: for each one the ways it
can be left (to the next statement, by break, by continue). Calls of functions that never return end a path."""
import astutil


class Flow:
    def __init__(self, P, f):
        self.P, self.f = P, f

    def ends(self, e):
        """an expression that is always evaluated and never comes back"""
        if not isinstance(e, dict):
            return False
        k = e.get('k')
        if k == 'throw':
            return True
        if k in ('call', 'ctor') and (e.get('f') or {}).get('noret'):
            return True
        if k in ('bin',):
            return self.ends(e['a']) or (e['op'] not in ('&&', '||') and self.ends(e['b']))
        if k == 'cond':
            return self.ends(e['c']) or self.ends(e['a']) and self.ends(e['b'])
        return any(self.ends(v) for k2, v in e.items() if k2 != 'f' and isinstance(v, dict) and k != 'lambda')

    def const(self, e):
        if e is None:
            return True
        while e.get('k') in ('cast', 'load', 'temp'):
            e = e['e']
        if e.get('k') == 'int':
            return bool(e['v'])
        return None

    def stmt(self, s):
        """(reaches the next statement, breaks, continues)"""
        if s is None:
            return True, False, False
        k = s['k']
        if k == 'block':
            return self.seq(s['a'])
        if k == 'expr':
            return not self.ends(s.get('e')), False, False
        if k == 'decls':
            return not any(self.ends(d.get('init')) for d in s['a']), False, False
        if k == 'ret':
            return False, False, False
        if k == 'break':
            return False, True, False
        if k == 'continue':
            return False, False, True
        if k == 'if':
            c = self.const(s['c'])
            r = [self.stmt(x) for x, w in ((s['a'], True), (s.get('b'), False)) if c is None or c == w]
            return tuple(any(x[i] for x in r) for i in range(3))
        if k in ('while', 'for'):
            c = self.const(s.get('c'))
            n, b, cont = self.stmt(s['a'])
            if c is True:
                return b, False, False
            return True, False, False
        if k == 'do':
            n, b, cont = self.stmt(s['a'])
            c = self.const(s.get('c'))
            return b or ((n or cont) and c is not True), False, False
        if k == 'rfor':
            return True, False, False
        if k == 'switch':
            return self.switch(s)
        if k in ('case', 'default', 'label'):
            return self.stmt(s.get('a'))
        if k == 'try':
            r = [self.stmt(s['a'])] + [self.stmt(h['a']) for h in s['h']]
            return tuple(any(x[i] for x in r) for i in range(3))
        if k == 'goto':
            return False, False, False
        if k == 'throw' or (k in ('call', 'ctor', 'bin', 'un', 'cond', 'cast', 'temp', 'del', 'new')):
            return not self.ends(s), False, False
        return True, False, False

    def seq(self, ss):
        brk = cont = False
        for s in ss:
            n, b, c = self.stmt(s)
            brk |= b
            cont |= c
            if not n:
                # a label further on can still be reached
                if any(x.get('k') == 'label' for x in astutil.walk(ss[ss.index(s) + 1:])):
                    continue
                return False, brk, cont
        return True, brk, cont

    def switch(self, s):
        body = s['a']['a'] if s['a'] and s['a']['k'] == 'block' else [s['a']]
        labels, default = set(), False
        for x in astutil.walk(body):
            if x['k'] == 'case':
                labels.add(self.value(x['c']))
            default |= x['k'] == 'default'
        brk = cont = False
        nxt = False
        for x in body:
            if not nxt and x['k'] not in ('case', 'default') and brk is None:
                continue
            n, b, c = self.stmt(x)
            brk |= b
            cont |= c
            nxt = n
        full = default or self.covers(s, labels)
        return nxt or brk or not full or not body, False, cont

    def value(self, e):
        while isinstance(e, dict) and e.get('k') in ('cast', 'load', 'temp'):
            e = e['e']
        return e.get('v') if isinstance(e, dict) else e

    def covers(self, s, labels):
        e = s['c']
        while isinstance(e, dict) and e.get('k') in ('cast', 'load', 'temp'):
            e = e['e']
        t = (e.get('v', {}).get('t') if e.get('k') == 'var' else e.get('t')) or ''
        en = self.P.enums.get(t.replace('const ', '').strip())
        return bool(en) and {v for _, v in en['vals']} <= labels


def run(P, res):
    for f in P.funcs.values():
        if f.get('body') is None or f.get('implicit') or f.get('isctor') or f.get('isdtor'):
            continue
        ret = (f.get('ret') or '').strip()
        if ret in ('void', '') or f['qn'] == 'main' or f.get('noret'):
            continue
        n, _, _ = Flow(P, f).stmt(f['body'])
        if n:
            res.fail('a result on every path', (f['fn'], f['file'], f.get('el') or f['l']), '%s can reach its end without returning a value' % f['qn'], '')
        else:
            res.ok('a result on every path')
        res.analysed.append(f['fn'])
