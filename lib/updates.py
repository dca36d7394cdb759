"""Exits of every Monte Carlo update: abstract post-states, classified by the acceptance test that led to them."""
from terms import Num, N0, N1, show, tkey
from absint import Interp, Infeasible, NULL, strip
from diagdom import *
from frontend import AnalysisBroken
from astutil import walk, calls


class Exit(object):
    def __init__(self, st, n0, upd, e0=0):
        self.st, self.n0, self.upd, self.e0 = st, n0, upd, e0
        self.log = st.log[n0:]
        self.P = None
        self.bad = None
        self.kind = 'early'
        self.urn = None
        for ev in st.ev[e0:]:
            if ev[0] == 'test':
                self.take(ev[1], ev[2])

    def take(self, p, v):
        # the normal form of the tested expression on this path
        urns = [a for a in p.atoms() if a[0] == 'urn' and any(m == frozenset([(a, 1)]) for m in p.d)]
        rest_abs = any(realvalued(x) for x in p.atoms())
        if len(urns) == 1 and rest_abs:
            u = urns[0]
            c = p.d[frozenset([(u, 1)])]
            r = p - Num.atom(u).scale(c)
            if u in r.atoms() or abs(c) != 1:
                self.bad = 'the random number does not enter the acceptance test linearly: %s' % show(p)
                return
            P = -r if c == 1 else r
            acc = v if c == 1 else (not v)
            if frozenset() in P.d:
                self.bad = 'the acceptance test adds a constant to the ratio: u < %s' % show(P)
                return
            self.P, self.urn = P, u
            self.kind = 'accepted' if acc else 'rejected'
        elif rest_abs and not any(a[0] == 'urn' for a in p.atoms() if a not in taus(p)):
            c = p.d.get(frozenset(), Fraction(0))
            r = p - Num.c(c)
            if c == -1:
                P, acc = r, not v
            elif c == 1:
                P, acc = -r, v
            else:
                if c == 0 and len(p.d) == 1:
                    return
                self.bad = 'the ratio is compared with %s instead of 1' % (-c)
                return
            self.P = P
            if acc:
                self.kind = 'accepted'

    def where(self, i=None):
        """location of a write"""
        if i is not None:
            return self.log[i][3]
        return (self.upd.fn['fn'], self.upd.fn['file'], self.upd.fn['l'])

    def diagwrites(self):
        return [x for x in self.log if not (x[0] == THIS and x[1][:1] in (('Proposed',), ('Accepted',)))]


def realvalued(a):
    return a[0] in ('abs', 'WormWt', 'GW', 'WW') or a[0] == 'fld' and a[3] in ('double', 'float')


def taus(p):
    """random numbers that only enter as imaginary times (inside other atoms)"""
    return [a for a in p.atoms() if a[0] == 'urn']


class Update(object):
    def __init__(self, fn):
        self.fn = fn
        self.name = fn['name']
        self.exits = []
        self.steps = 0
        self.unfolded = True


class Updates(object):
    ROUNDS = 0

    def __init__(self, prog):
        self.p = prog
        self.ops = {}
        for e in prog.enums.values():
            if 'CREATE_WORM' in [x[0] for x in e['vals']]:
                for x in e['vals']:
                    self.ops[x[0]] = int(x[1])
        if not self.ops:
            raise AnalysisBroken('the enumeration of update kinds has vanished')
        self.opname = {v: k for k, v in self.ops.items() if k != 'END'}
        self.reset = self.method('Reset')
        self.hop = self.method('Hop')
        self.list = []
        self.interp = Interp(prog, DiagDomain(), {'match': prim_match})

    def method(self, nm):
        c = [f for f in self.p.funcs.values() if f['qn'] == 'mc::Markov::' + nm]
        if len(c) != 1:
            raise AnalysisBroken('mc::Markov::%s has vanished' % nm)
        return c[0]

    def discover(self):
        """methods without arguments that are reachable from the dispatcher, or that count proposals"""
        out = {}
        seen = set()
        work = [self.hop]
        while work:
            f = work.pop()
            if f['key'] in seen:
                continue
            seen.add(f['key'])
            for c in calls(f['body']):
                g = self.p.find(c['f'], f['unit'], f['file'])
                if g is None or g.get('cls') != 'mc::Markov' or g['params'] or g['ret'] != 'void':
                    continue
                if self.counts(g):
                    out[g['key']] = g
                else:
                    work.append(g)
        self.live = set(out)
        for f in self.p.funcs.values():
            if f.get('cls') == 'mc::Markov' and not f['params'] and f['ret'] == 'void' and f.get('body') and self.counts(f) \
                    and self.named(f):
                out[f['key']] = f
        return [out[k] for k in sorted(out, key=lambda k: (out[k]['file'], out[k]['l']))]

    def named(self, f):
        return f['access'] == 'public' if 'access' in f else True

    def counts(self, f, depth=0, seen=None):
        """mentions the proposal counter, directly or in a helper"""
        seen = seen if seen is not None else set()
        if f['key'] in seen or f.get('body') is None:
            return False
        seen.add(f['key'])
        for e in walk(f['body']):
            if e['k'] == 'mem' and e['f'] == 'Proposed':
                return True
        for c in calls(f['body']):
            g = self.p.find(c['f'], f['unit'], f['file'])
            if g is not None and g.get('cls') == 'mc::Markov' and g['params'] and self.counts(g, depth + 1, seen):
                return True
        return False

    def start(self):
        I = self.interp
        st = I.new_state()
        r = I.inline(self.reset, st, THIS, [('ref', (PARA, ())), ('ref', (DIAG, ())), ('ref', (WGT, ()))], None, False)
        if len(r) != 1:
            raise AnalysisBroken('mc::Markov::Reset is not straight-line')
        st = r[0][0]
        # the order never exceeds the configured maximum (its preservation is the rule 'order cap')
        over = Num.atom(ORDER) - Num.atom(fld(PARA, ('Order',), 'int')) - Num.c(1)
        st = [s for s, b in I.branch(st, ('lt0', over)) if b][0]
        st.ev = []
        return st

    def run(self, fn):
        u = Update(fn)
        I = self.interp
        st = self.start()
        n0 = len(st.log)
        s0 = I.steps
        st0 = I.split(st)
        I.stuck = []
        out = I.inline(fn, st, THIS, [], None, False)
        u.stuck = I.stuck
        u.exits = [Exit(s, n0, u) for s, v in out]
        u.unfolded = not any(ev[0] == 'loop-begin' for x in u.exits for ev in x.st.ev)
        u.bounded = 0
        if not u.unfolded and self.ROUNDS:
            # a loop along the diagram: follow it for a few rounds instead
            I.PARTITION, I.cut = self.ROUNDS, 0
            try:
                out = I.inline(fn, st0, THIS, [], None, False)
            finally:
                I.PARTITION = 0
            u.exits = [Exit(s, n0, u) for s, v in out]
            u.unfolded = not any(ev[0] == 'loop-begin' for x in u.exits for ev in x.st.ev)
            u.bounded = self.ROUNDS
        u.steps = I.steps - s0
        for x in u.exits:
            if x.kind == 'early' and not x.bad and self.counters(x)[1] and x.P is None:
                x.kind, x.P = 'accepted', N1     # accepted without a test: the ratio was decided to be at least one
        self.op(u)
        return u

    def run_after(self, fn, st):
        """exits of an update that starts from an abstract post-state"""
        u = Update(fn)
        n0, e0 = len(st.log), len(st.ev)
        self.interp.steps = 0
        out = self.interp.inline(fn, st, THIS, [], None, False)
        u.exits = [Exit(s, n0, u, e0) for s, v in out]
        return u

    def op(self, u):
        idx = set()
        for x in u.exits:
            p, a = self.counters(x)
            for path, val, w in p:
                if isinstance(path[1], int):
                    idx.add(path[1])
        u.op = min(idx) if idx else None
        u.opname = self.opname.get(u.op)

    def counters(self, x):
        p = [(b[1], b[2], b[3]) for b in x.log if b[0] == THIS and b[1][:1] == ('Proposed',)]
        a = [(b[1], b[2], b[3]) for b in x.log if b[0] == THIS and b[1][:1] == ('Accepted',)]
        return p, a

    def runall(self):
        for f in self.discover():
            self.list.append(self.run(f))
        return self.list
