"""The self-consistency loop, round by round: what a failing round leaves behind, what is published when, and under which names."""
import ast
import warnings

import iface
import pyabs
import pyside
from pyabs import Interp, St, Frame, Bound, Ref, Num, Ext
from pyside import A, COLLECT, WEIGHT, klass, say, items, top
from frontend import AnalysisBroken
from terms import show

warnings.simplefilter('ignore', SyntaxWarning)
MAIN, MODEL = 'dyson/main.py', 'dyson/model.py'
OUTSIDE = ('calculator', 'gamma3_calc', 'plot', 'measure', 'lattice')
FILES = ('ParaFile', 'WeightFile', 'MessageFile', 'OutputFile')
TABLES = ('SigmaDeltaT', 'Sigma', 'Polar')


class Rounds(Interp):
    """numbers are left to their own modules; every turn of the main loop is marked"""

    def __init__(self, rounds):
        Interp.__init__(self)
        self.UNROLL, self.WHILE, self.cap, self.budget = 6, rounds, 120, 3000000

    def imported(self, st, name, fr):
        if name in OUTSIDE:
            return [(st, Ext(name))]
        return Interp.imported(self, st, name, fr)

    def do_While(self, b, st, fr):
        if not (fr.mod == MAIN and (isinstance(b.test, ast.Constant) or isinstance(b.test, ast.Name))):
            return Interp.do_While(self, b, st, fr)
        out, res = [], [st]
        for i in range(self.WHILE + 1):
            nxt = []
            for s in res:
                s.ev.append(('round', i, fr.ref, dict(s.heap)))
                if i == self.WHILE:
                    s.cut = ('again', b.lineno)
                    out.append((s, None))
                    continue
                for s3, sig in self.block(b.body, s, fr):
                    if s3.exc is not None or s3.cut or isinstance(sig, tuple):
                        out.append((s3, sig))
                    elif sig == 'break':
                        out.append((s3, None))
                    else:
                        nxt.append(s3)
            res = nxt
        return out


def note(name, value=None):
    def h(I, st, args, kw, line, fr):
        st.ev.append((name, line))
        return [(st, value)]
    return h


def fails_or(I, cls_of, event, value):
    """a step that raises this exception, or gives this value"""
    def h(I, st, args, kw, line, fr):
        a = st.copy()
        a.ev.append((event, False, line))
        a.exc = cls_of(I, a, line, fr)
        st.ev.append((event, True, line))
        return [(a, None)] + value(st, line)
    return h


def prepare(rounds, only, new, gamma):
    """-> (I, state, Dyson, its arguments)"""
    job = [x for s, kinds, b in iface.jobs(2, gamma) for x in kinds if x[0] == 'DYSON']
    if not job:
        raise AnalysisBroken('no job for the self-consistency loop is written')
    d = job[0][2]
    I = Rounds(rounds)
    given = {}
    iface.files(I, lambda k, n: given.get((k, n)))
    I.prims[('dyson/logger.py', 'memory_usage')] = pyabs.p_nothing
    for s in I.module(St(), MAIN, 'main'):
        if s.exc is None:
            break
    else:
        raise AnalysisBroken('dyson/main.py cannot be loaded')
    s = s.copy()
    m = s.mods[MAIN]
    for n in FILES:
        s.put(m, n, n)
    fn = s.get(m, 'Dyson')
    if not isinstance(fn, pyabs.Fn):
        raise AnalysisBroken('no function Dyson in dyson/main.py')
    para = iface.thaw(I, s, iface.lookup(d, 'Para'))
    IM = klass(s, WEIGHT, 'IndexMap')
    L = s.new(('list', (A(I, 'L0'), A(I, 'L1'))))
    N = A(I, 'N')
    r = I.call(s, IM, (), dict(Beta=A(I, 'Beta', False), L=L, NSublat=1, MaxTauBin=N, MaxTauBinTiny=N, BasisNum=1, Symmetry=None), 0, top(MAIN, s))
    r = [x for x in r if x[0].exc is None]
    s, M = r[0]
    lat = ('lat',)
    I.given[('attr', Num.atom(lat), 'NSublat')] = 1
    # the models only fill the bare tables
    F = s.get(s.mods[MODEL], 'BareFactory')
    if not isinstance(F, pyabs.Cls):
        raise AnalysisBroken('no class BareFactory in dyson/model.py')
    for k, v in F.ns.items():
        if isinstance(v, pyabs.Fn) and v.name not in ('__init__', 'Build'):
            I.prims[(MODEL, v.name)] = pyabs.p_nothing
    I.prims[(WEIGHT, 'FFT')] = pyabs.p_nothing

    def failure(I, a, line, fr):
        c = klass(a, COLLECT, 'CollectStatisFailure')
        return [(v, '', line) for b, v in I.call(a, c, ('too few',), {}, 0, fr)][0]
    k = [0]

    def tick():
        k[0] += 1
        return k[0]
    I.prims[(COLLECT, 'CollectStatis')] = fails_or(I, failure, 'collect', lambda st, line: [(st, tuple(Num.atom(('mc', i, tick())) for i in range(4)))])

    def update(I, st, args, kw, line, fr):
        out = []
        for s1, a in table(I, st, fr, 'Sigma', ('TwoSpins', 'AntiSymmetric'), tick()):
            for s2, b in table(I, s1, fr, 'Polar', ('FourSpins', 'Symmetric'), tick()):
                out.append((s2, (a, b, Num.atom(('accepted', tick())))))
        return out

    def table(I, st, fr, what, kind, i):
        for s1, w in I.call(st, klass(st, WEIGHT, 'Weight'), ('SmoothT', M) + kind + ('R', 'T'), {}, 0, fr):
            if s1.exc is None and not s1.cut:
                s1.put(w, 'Data', Num.atom(('collected', what, i)))
                return [(s1, w)]
        raise AnalysisBroken('no table can be made')
    I.prims[(COLLECT, 'UpdateWeight')] = update

    def made(what, name='SmoothT', kind=('TwoSpins', 'AntiSymmetric')):
        def h(I, st, args, kw, line, fr):
            i = tick()
            for s1, w in I.call(st, klass(st, WEIGHT, 'Weight'), (name, M) + kind + ('R', 'T'), {}, 0, fr):
                if s1.exc is None and not s1.cut:
                    s1.put(w, 'Data', Num.atom(('v', what, i)))
                    I.scalars.add(('v', what, i))
                    return [(s1, w)]
        return h
    I.prims['calculator.SigmaDeltaT_FirstOrder'] = made('delta', 'DeltaT')
    I.prims['calculator.SigmaSmoothT_FirstOrder'] = made('sigma')
    I.prims['calculator.Polar_FirstOrder'] = made('polar', 'SmoothT', ('FourSpins', 'Symmetric'))
    I.prims['calculator.G_Dyson'] = made('G')
    I.prims['calculator.Calculate_Chi'] = made('chi', 'SmoothT', ('FourSpins', 'Symmetric'))

    def wdyson(I, st, args, kw, line, fr):
        a = st.copy()
        a.ev.append(('solve', False, line))
        a.exc = ('calculator.DenorminatorTouchZero', '', line)
        st.ev.append(('solve', True, line))
        return [(a, None)] + [(s1, (w, Num.atom(('tensor', tick())), Num.atom(('determ', tick())))) for s1, w in made('W', 'SmoothT', ('FourSpins', 'Symmetric'))(I, st, args, kw, line, fr)]
    I.prims['calculator.W_Dyson'] = wdyson
    args = (only, new, False, para, M, Num.atom(lat))
    return I, s, fn, args


def table_of(heap, ref):
    """what has been accumulated in a table"""
    if not isinstance(ref, Ref) or heap[ref.n][0] != 'obj':
        return None
    a = heap[ref.n][1]
    return a


def value(heap, v):
    if isinstance(v, Ref):
        c = heap[v.n]
        if c[0] in ('arr', 'list'):
            return tuple(value(heap, x) for x in c[1])
        return ('ref', v.n)
    n = pyabs.num(v) if v is not None else None
    return n if n is not None else v


def total(heap, ref):
    """(sum of the results, sum of the weights)"""
    a = heap[ref.n][1]
    x, n = value(heap, a.get('AccuData', 0)), value(heap, a.get('Norm', 0))
    return zero(x), zero(n)


def zero(x):
    return Num.c(0) if x is None or x == Num.c(0) or isinstance(x, tuple) and not x or isinstance(x, (int, float)) and x == 0 else x


def minus(a, b):
    return (a - b) if isinstance(a, Num) and isinstance(b, Num) else None if a != b else Num.c(0)


def paths(rounds, only, new, gamma):
    I, s, fn, args = prepare(rounds, only, new, gamma)
    ends = I.call(s, fn, args, {}, 0, top(MAIN, s))
    spot = ('Dyson', MAIN, fn.node.lineno)
    out = []
    for e, v in ends:
        marks = [i for i, x in enumerate(e.ev) if x[0] == 'round']
        if not marks:
            continue            # stopped before the first round
        out.append((e, marks))
    if not out:
        raise AnalysisBroken('the main loop of the solver is never reached')
    return I, spot, out


MODES = [(only, new, gamma) for only in (False, True) for new in (False, True) for gamma in (False, True)]


def label(only, new, gamma):
    return '%s, %s%s' % ('on its own' if only else 'fed by the simulation', 'new' if new else 'continued', ', vertex functions too' if gamma else '')


def rounds(P, res):
    """a failing round is undone, and only that round"""
    for only, new, gamma in MODES:
        n = 2 if gamma else 3
        I, spot, ends = paths(n, only, new, gamma)
        seen = {}
        for e, marks in ends:
            full = e.cut is not None and e.cut[0] == 'again'
            story = []
            for a, b in zip(marks, marks[1:]):
                ev = e.ev[a:b]
                bad = [x for x in ev if x[0] in ('collect', 'solve') and x[1] is False]
                story.append(bad[0][0] if bad else 'good')
                h0, h1 = e.ev[a][3], e.ev[b][3]
                f0, f1 = h0[e.ev[a][2].n][1], h1[e.ev[b][2].n][1]
                key = (tuple(story))
                for t in TABLES:
                    o0, o1 = f0.get(t), f1.get(t)
                    if table_of(h0, o0) is None or table_of(h1, o1) is None:
                        raise AnalysisBroken('%s is not a table of the main loop' % t)
                    if not bad:
                        continue
                    x0, x1 = total(h0, o0), total(h1, o0)
                    if x0 == x1:
                        seen[('undone', t, key)] = True
                    else:
                        d = [show(y) if isinstance(y, Num) else y for y in (minus(x1[0], x0[0]), minus(x1[1], x0[1]))]
                        res.fail('failing round undone', spot, '%s: after the rounds %s the accumulated %s is changed by %s (sum of the results, sum of the weights) in the last of them, which failed'
                                 % (label(only, new, gamma), story, t, d), 'rounds: %s' % ', '.join(story))
                for t in ('G', 'W'):
                    if bad:
                        if value(h0, f0.get(t)) != value(h1, f1.get(t)):
                            res.fail('failing round undone', spot, '%s: after the rounds %s the function %s is that of the failing round' % (label(only, new, gamma), story, t))
                        else:
                            res.ok('failing round undone')
                    else:
                        res.ok('good round kept')
            if not full:
                res.fail('goes on', spot, '%s: the loop ends after the rounds %s with %s' % (label(only, new, gamma), story, e.exc[:1] if e.exc else e.cut))
            else:
                res.ok('goes on')
        res.ok('failing round undone', len(seen))
        res.analysed.append({'mode': label(only, new, gamma), 'paths': len(ends)})


# ------------------------------------------------------------------------------------------- what is published
def entry(frozen, *keys):
    for k in keys:
        frozen = iface.lookup(frozen, k)
    return frozen


def publishing(P, res):
    """a good round first saves its functions and its parameters, then tells the simulation; a failing one does neither"""
    for only, new, gamma in MODES:
        I, spot, ends = paths(2, only, new, gamma)
        for e, marks in ends:
            for k, (a, b) in enumerate(zip(marks, marks[1:])):
                ev = e.ev[a:b]
                bad = [x for x in ev if x[0] in ('collect', 'solve') and x[1] is False]
                writes = [x for x in ev if x[0] == 'saved']
                told = [i for i, x in enumerate(writes) if x[2] == 'MessageFile']
                what = '%s, round %d' % (label(only, new, gamma), k + 1)
                if bad:
                    if told or [x for x in writes if x[2] == 'WeightFile']:
                        res.fail('failing round silent', spot, '%s: a failing round writes %s' % (what, [x[2] for x in writes]))
                    else:
                        res.ok('failing round silent')
                    continue
                big = [i for i, x in enumerate(writes) if x[2] == 'WeightFile' and x[1] == 'big']
                par = [i for i, x in enumerate(writes) if x[2] == 'ParaFile']
                if len(told) != 1 or not big or not par:
                    res.fail('published', spot, '%s: a good round writes %s' % (what, [str(x[2]) for x in writes]))
                    continue
                if not (max(big) < told[0] and max(par) < told[0]):
                    res.fail('published', spot, '%s: the message is sent before the files are written: %s' % (what, [str(x[2]) for x in writes]))
                else:
                    res.ok('published')
                h1, f1 = e.ev[b][3], e.ev[b][3][e.ev[b][2].n][1]
                msg = writes[told[0]][3]
                para = f1.get('para')
                version = iface.lookup(msg, 'Version')
                h0 = e.ev[a][3]
                v0, v1 = (pyabs.num(h[para.n][1].get('Version')) if h[para.n][1].get('Version') is not None else Num.c(0) for h in (h0, h1))
                if version is None or pyabs.num(version) != v1 or v1 - v0 != Num.c(1):
                    res.fail('published', spot, '%s: the message carries the version %s; the version goes from %s to %s' % (what, version, v0, v1))
                else:
                    res.ok('published')
                if entry(writes[par[-1]][3], 'Para', 'Version') is None or pyabs.num(entry(writes[par[-1]][3], 'Para', 'Version')) != v1:
                    res.fail('published', spot, '%s: the saved parameters hold the version %s, the message %s' % (what, entry(writes[par[-1]][3], 'Para', 'Version'), v1))
                else:
                    res.ok('published')
                data = writes[big[-1]][3]
                for t in ('G', 'W', 'SigmaDeltaT', 'Sigma', 'Polar'):
                    r = f1.get(t)
                    kind = 'DeltaT' if t == 'SigmaDeltaT' else 'SmoothT'
                    want = I.freeze(e, h1[r.n][1].get('Data')) if isinstance(r, Ref) else None
                    if want is None or entry(data, t, kind) != want:
                        res.fail('published', spot, '%s: what is saved as %s is %s, not the %s of this round' % (what, t, str(entry(data, t, kind))[:120], t))
                    else:
                        res.ok('published')
                protected(e, ev, writes, res, spot, what)
        res.analysed.append({'mode': label(only, new, gamma), 'paths': len(ends)})


def protected(e, ev, writes, res, spot, what):
    """the files are written while interrupts wait"""
    depth = 0
    for x in ev:
        if x[0] == 'enter' and x[1] == 'DelayedInterrupt':
            depth += 1
        elif x[0] == 'leave' and x[1] == 'DelayedInterrupt':
            depth -= 1
        elif x[0] == 'saved' and x[2] in ('WeightFile', 'ParaFile'):
            if depth < 1:
                res.fail('interrupts wait', spot, '%s: %s is written while an interrupt can cut it short' % (what, x[2]))
            else:
                res.ok('interrupts wait')
