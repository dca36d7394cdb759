"""The loop of a run and the handling of interrupts. MonteCarlo() is interpreted with the operations of the parts recorded as events."""
from terms import Num, N0, N1, show
from absint import NULL, strip, Interp
from frontend import AnalysisBroken
from plain import find, where, SrcDomain, as_num, base_match, symargs, read1
from stdlib import objloc
import dicts
from oblig import facts

C = Num.c
H = 'InterruptHandler'
SIGNALS = ((2, 'interrupt'), (15, 'termination'))
EXITS = ('exit', 'std::exit', '_exit', 'std::_Exit', 'abort', 'std::abort', '_Exit', 'quick_exit', 'std::quick_exit')
OBJ = ('p', 'handler')


class Handlers(Interp):
    """signal() sets a disposition; a signal may arrive around any of its calls"""

    def __init__(self, P):
        Interp.__init__(self, P, SrcDomain(), {'match': self.lookup})
        self.ptr_arith = True
        self.MERGE = False
        self.exits = []
        self.inject = None

    def lookup(self, f, e):
        if e.get('k') == 'call' and not f.get('cls'):
            if f['qn'] in ('signal', 'std::signal'):
                return self.p_signal
            if f['qn'] in ('sigaction', 'sigprocmask', 'raise', 'kill', 'pthread_sigmask', 'sigvec'):
                raise AnalysisBroken('signals are handled with %s()' % f['qn'])
            if f['qn'] in EXITS:
                return self.p_exit
        return dicts.match(f, e) or base_match(f, e)

    def aborts(self, s):
        import astutil
        if '_exits' not in s:
            s['_exits'] = any((c.get('f') or {}).get('qn') in EXITS for c in astutil.calls(s))
        return not s['_exits'] and Interp.aborts(self, s)

    def p_exit(self, I, e, st, fr, lv):
        for s, vs in I.vals(e, st, fr):
            self.exits.append((s, I.where(fr, e)))
        return []

    def p_signal(self, I, e, st, fr, lv):
        out = []
        for s, vs in I.vals(e, st, fr):
            n, h = s.n(vs[0]), s.n(vs[1])
            if not (isinstance(n, Num) and n.const() is not None):
                raise AnalysisBroken('the signal whose handling is changed is not known')
            before = disposition(s, int(n.const()))
            for s1 in self.maybe(s, 'before'):
                s1.ev.append(('signal', int(n.const()), h, I.where(fr, e)))
                for s2 in self.maybe(s1, 'after'):
                    out.append((s2, I.temp_loc(s2, before) if lv else before))
        return out

    def maybe(self, s, when):
        n = len([e for e in s.ev if e[0] == 'signal'])
        if when == 'before':
            n += 1
        if self.inject is None or self.inject[1:] != (n, when):
            return [s]
        s.ev.append(('arrived', self.inject[0]))
        return self.deliver(s, self.inject[0])

    def deliver(self, s, sig):
        """the states in which the handler comes back"""
        h = disposition(s, sig)
        if h == 'default':
            self.exits.append((s, None))
            return []
        if not (isinstance(h, tuple) and h and h[0] == 'fn'):
            raise AnalysisBroken('the handler of signal %d is not known: %s' % (sig, show(h)))
        fs = [f for f in self.p.funcs.values() if f['fn'] == h[1] and f.get('body') is not None] or [f for f in self.p.funcs.values() if h[1].startswith(f['fn']) and f.get('body') is not None]
        if not fs:
            raise AnalysisBroken('the handler of signal %d has no body' % sig)
        return [s2 for s2, _ in self.inline(fs[0], s, None, [C(sig)], None, False)]


def disposition(s, sig):
    for e in reversed(s.ev):
        if e[0] == 'signal' and e[1] == sig:
            h = e[2]
            return 'default' if h is NULL or h == NULL or h == N0 else 'ignored' if h == N1 else h
    return 'default'


def interrupts(P, res):
    one = lambda n: find(P, H + '::' + n)
    ctor, delay, resume = find(P, H + '::' + H), one('Delay'), one('Resume')
    dtor = [f for f in P.funcs.values() if f['qn'] == H + '::~' + H and f.get('body') is not None]

    def call(I, fn, sts):
        return [s2 for s in sts for s2, _ in I.inline(fn, s, OBJ, [], None, False)]

    def fail(rule, fn, msg):
        res.fail(rule, where(fn), msg, '')

    def need(rule, fn, ok, msg):
        if ok:
            res.ok(rule)
        else:
            fail(rule, fn, msg)

    def prefixes():
        yield 'a new handler', [ctor]
        yield 'after a save', [ctor, delay, resume]
        yield 'after two saves', [ctor, delay, resume, delay, resume]

    for name, seq in prefixes():
        def start(extra=()):
            I = Handlers(P)
            sts = [I.new_state()]
            for fn in list(seq) + list(extra):
                sts = call(I, fn, sts)
            return I, sts
        I, sts = start()
        need('comes back', seq[-1], sts and not I.exits, '%s: the program ends although no signal arrived' % name)
        need('tells', seq[-1], all(asked(P, I, s) is False for s in sts), '%s: the handler says that it is delaying' % name)
        for sig, what in SIGNALS:
            I, sts = start()
            back = [s2 for s in sts for s2 in I.deliver(s, sig)]
            need('ends at once', seq[-1], not back and I.exits, '%s: %s does not end the program' % (name, 'an interrupt' if sig == 2 else 'a request to terminate'))
            # during a protected section
            I, sts = start([delay])
            need('tells', delay, sts and all(asked(P, I, s) is True for s in sts), '%s: the handler does not say that it is delaying' % name)
            back = [s2 for s in sts for s2 in I.deliver(s, sig)]
            need('waits', delay, back and not I.exits, '%s: %s ends the program during a protected section' % (name, what))
            # ... also twice, and the other one
            more = [s3 for s2 in back for s3 in I.deliver(s2, sig)]
            need('waits', delay, len(more) == len(back) and not I.exits, '%s: a second %s ends the program during a protected section' % (name, what))
            for k, sts2 in (('a remembered %s' % what, back), ('%s that arrived twice' % what, more)):
                I.exits = []
                left = call(I, resume, sts2)
                need('ends afterwards', resume, not left and I.exits, '%s: %s does not end the program after the protected section' % (name, k))
        # arriving while the handling is being changed
        for step, fn in ((delay, delay), (resume, resume)):
            I, sts = start([delay] if fn is resume else [])
            base = len([e for e in (sts[0].ev if sts else []) if e[0] == 'signal'])
            probe = call(I, fn, [I.split(s) for s in sts])
            calls = max([len([e for e in s.ev if e[0] == 'signal']) for s in probe] or [base])
            for sig, what in SIGNALS:
                for n in range(base + 1, calls + 1):
                    for w in ('before', 'after'):
                        I, sts = start([delay] if fn is resume else [])
                        I.inject = (sig, n, w)
                        I.exits = []
                        left = call(I, fn, sts)
                        I.inject = None
                        if fn is delay:
                            left = call(I, resume, left)
                        lost = [s for s in left if any(e[0] == 'arrived' for e in s.ev)]
                        need('never lost', fn, not lost and I.exits, '%s: %s that arrives while a protected section %s is lost' % (name, what, 'begins' if fn is delay else 'ends'))
    for fn in dtor:
        I = Handlers(P)
        for s in call(I, fn, call(I, ctor, [I.new_state()])):
            for sig, what in SIGNALS:
                need('ends at once', fn, disposition(s, sig) == 'default', 'the handling of signals is not given back')
    res.analysed.append({'functions': [f['fn'] for f in [ctor, delay, resume] + dtor]})


def asked(P, I, s):
    f = [f for f in P.funcs.values() if f['qn'] == H + '::IsDelaying' and f.get('body') is not None]
    if not f:
        raise AnalysisBroken('the handler is not asked any more whether it is delaying')
    r = I.inline(f[0], I.split(s), OBJ, [], None, False)
    return r[0][0].n(r[0][1]) if len(r) == 1 else None


# ---- the loop ---------------------------------------------------------------------------------------------------------------------------

RUN = 'MonteCarlo'
MARK = {'EnvMonteCarlo::Load': 'load', 'EnvMonteCarlo::BuildNew': 'build', 'EnvMonteCarlo::Save': 'save', 'EnvMonteCarlo::ListenToMessage': 'listen',
        'EnvMonteCarlo::AdjustOrderReWeight': 'adjust', 'mc::Markov::Hop': 'hop', 'mc::MarkovMonitor::Measure': 'measure',
        'mc::MarkovMonitor::AddStatistics': 'history', 'diag::Diagram::CheckDiagram': 'check', 'mc::Markov::PrintDetailBalanceInfo': 'report',
        'mc::MarkovMonitor::PrintOrderReWeight': 'report', H + '::Delay': 'delay', H + '::Resume': 'resume', 'EnvMonteCarlo::DeleteSavedFiles': 'delete',
        'mc::MarkovMonitor::SqueezeStatistics': 'squeeze', 'mc::Markov::Reset': 'reset', 'mc::MarkovMonitor::Reset': 'reset'}
ACTIONS = (('report', 'PrinterTimer'), ('save', 'DiskWriterTimer'), ('listen', 'MessageTimer'), ('adjust', 'ReweightTimer'))


class Loops(Interp):
    """every loop is walked through once from an arbitrary state; what its iterations do is kept apart from what surrounds it"""

    def __init__(self, P):
        Interp.__init__(self, P, SrcDomain(), {'match': self.lookup})
        self.ptr_arith = True
        self.MERGE = False
        self.loops = {}          # statement -> iterations
        self.entries = {}        # statement -> what came before
        self.shapes = {}
        self.depth = []

    def lookup(self, f, e):
        qn = f['qn']
        if e.get('k') == 'ctor' and f.get('cls') in ('EnvMonteCarlo', H, 'timer') and not e.get('copy'):
            return self.p_object
        if e.get('k') == 'call' and qn in MARK:
            return self.p_mark
        if e.get('k') == 'call' and qn.startswith('timer::'):
            return self.p_timer
        if e.get('k') == 'call' and qn == 'InterruptHandler::IsDelaying':
            return self.p_delays
        return dicts.match(f, e) or base_match(f, e)

    def p_object(self, I, e, st, fr, lv):
        out = []
        for s, vs in I.vals(e, st, fr):
            v = ('fld', ('p', e['f']['cls'] if e['f']['cls'] != 'timer' else 'timer%d' % s.fresh()), (), e['f']['cls'])
            s.ev.append(('object', e['f']['cls'], v, I.where(fr, e)))
            out.append((s, v))
        return out

    def result(self, I, s, e, term, lv):
        v = ('truth', term) if strip(e.get('t') or '') == 'bool' else NULL
        return (s, I.temp_loc(s, v) if lv else v)

    def p_mark(self, I, e, st, fr, lv):
        out = []
        for s, vs in I.vals(e, st, fr):
            for s2, l in objloc(I, e, s, fr):
                t = ('answer', MARK[e['f']['qn']], s2.fresh())
                s2.ev.append(('do', MARK[e['f']['qn']], [s2.n(v) for v in vs], l, t, I.where(fr, e)))
                out.append(self.result(I, s2, e, t, lv))
        return out

    def p_delays(self, I, e, st, fr, lv):
        """what the handler says (correct by the rules for the handler); nothing is protected when a step begins (rule 'ends')"""
        ks = [x[1] for x in st.ev if x[0] == 'do' and x[1] in ('delay', 'resume')]
        v = ks[-1:] == ['delay']
        return [(st, I.temp_loc(st, v) if lv else v)]

    def p_timer(self, I, e, st, fr, lv):
        nm = e['f']['name']
        out = []
        for s, vs in I.vals(e, st, fr):
            for s2, l in objloc(I, e, s, fr):
                who = I.read(s2, l, 'timer')[0][1]
                t = ('answer', 'due', s2.fresh())
                due = nm == 'check' and strip(e.get('t') or '') == 'bool'
                s2.ev.append(('timer', 'due' if due else nm, [s2.n(v) for v in vs], who, t, I.where(fr, e)))
                out.append(self.result(I, s2, e, t, lv))
        return out

    def loop(self, s, st, fr):
        cur = [st]
        if s['k'] == 'for' and s.get('init'):
            cur = [y for y, c in self.stmt(s['init'], st, fr)]
        if s['k'] == 'rfor':
            return Interp.loop(self, s, st, fr)
        if s['k'] == 'do' and literal(s.get('c')) is False:
            return [(y, None if c in (None, 'continue', 'break') else c) for y, c in self.block(s['a'], st, fr)]
        key = (s.get('l'), self.where(fr, s))
        out = []
        for x in cur:
            out += self.once(key, s, x, fr)
        return out

    def once(self, key, s, st, fr):
        ind = self.havoc(s, st, fr)
        self.entries.setdefault(key, []).append(self.split(st))
        cond = self.loop_cond(s, st, fr)
        mark = len(st.ev)
        exits, bodies = [], []
        if s['k'] == 'do' or s.get('c') is None or literal(s['c']) is True:
            bodies = [st]
        else:
            exit_ = self.split(st)
            for y, b in self.cond(s['c'], st, fr):
                if b:
                    bodies.append(y)
            for y, b in self.cond(s['c'], exit_, fr):
                if not b:
                    exits.append(y)
        out, ends, its = [], [], self.loops.setdefault(key, [])
        for x in bodies:
            for z, c in self.block(s['a'], x, fr):
                if c in (None, 'continue'):
                    q = [z]
                    if s.get('inc') is not None:
                        q = [y for y, _ in (self.lval(s['inc'], z, fr) if self.is_lv(s['inc']) else self.ev(s['inc'], z, fr))]
                    ends += q
                    its += [(y, y.ev[mark:], 'on') for y in q]
                    if s['k'] == 'do' and literal(s.get('c')) is not True:
                        for y in q:
                            for w, b in self.cond(s['c'], self.split(y), fr):
                                if not b:
                                    exits.append(w)
                else:
                    its.append((z, z.ev[mark:], c))
                    out.append((z, None if c == 'break' else c))
        self.shapes[key] = self.loop_shape(s, st, fr, ind, cond, ends) if not out else None
        for x in exits:
            x.ev.append(('loop', key))
            out.append((x, None))
        return out

    def havoc(self, s, st, fr):
        """the locals written in the loop are unknown in a later iteration"""
        from astutil import walk
        from absint import root_var
        hit = set()
        for e in walk([s.get('a'), s.get('inc'), s.get('c')]):
            t = None
            if e['k'] == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                t = e['a']
            elif e['k'] == 'un' and (e['op'] in ('++', '--', '&')):
                t = e['e']
            r = root_var(t) if t is not None else None
            if r is not None:
                hit.add((r['id'], r['t']))
        ind = []
        for i, t in sorted(hit):
            base = ('L', fr.id, i)
            if (fr.id, i) in st.ref or base not in st.loc:
                continue
            old = st.loc[base].get(())
            new = self.dom.wrap(('loop', i, st.fresh()), t)
            st.loc[base] = {(): new}
            ind.append((base, old, new, None))
        return ind


def literal(e):
    while e is not None and e.get('k') in ('cast', 'load', 'temp'):
        e = e['e']
    if e is not None and e.get('k') == 'int':
        return bool(e['v'])
    return None


def doings(ev):
    return [e for e in ev if e[0] in ('do', 'timer', 'loop')]


def ask(s, term):
    return s.bools.get(('truth', term), s.bools.get(term))


def starter(P):
    """the function that sets up a simulation and runs it"""
    import astutil
    out = [f for f in P.funcs.values() if f.get('body') is not None and not f['file'].split('/')[-1].split('.')[0].endswith('test')
           and any(c.get('k') == 'ctor' and (c.get('f') or {}).get('cls') == 'EnvMonteCarlo' and not c.get('copy') for c in astutil.calls(f['body']))]
    if len(out) != 1:
        raise AnalysisBroken('%d functions run a simulation' % len(out))
    return out[0]


def setting(x):
    """name of the parameter of the simulation a number is"""
    a = x.single() if isinstance(x, Num) else x
    if isinstance(a, tuple) and a and a[0] == 'fld' and len(a[2]) >= 2 and a[2][-2] == 'Para' and a[1] == ('p', 'EnvMonteCarlo'):
        return a[2][-1]
    return None


def trips(shape):
    """how often a counting loop runs"""
    if shape is None:
        return None
    i, first, cond, step = shape
    neg = isinstance(cond, tuple) and cond[0] == 'not'
    c = cond[1] if neg else cond
    if not (isinstance(c, tuple) and c[0] == 'lt0'):
        return None
    x = c[1] if not neg else Num.c(0) - c[1] - N1            # goes on while x < 0
    a = i.single()
    for c in (1, -1):
        b = x - i.scale(c)
        if a not in b.atoms() and c * step == 1:
            return N0 - (b + first.scale(c))
    return None


def run(P, res):
    fn = starter(P)
    I = Loops(P)
    ends = I.inline(fn, I.new_state(), None, symargs(I, fn, ['job'] + ['a%d' % i for i in range(9)]), None, False)
    kinds = lambda ev: [e[1] for e in ev if e[0] == 'do']

    def need(rule, cond, msg, s=None, at=None):
        if cond:
            res.ok(rule)
        else:
            res.fail(rule, at[:2] + (at[2],) if at else where(fn), msg, facts(s) if s is not None else '')

    measuring = [k for k, v in I.loops.items() if any('measure' in kinds(ev) for _, ev, how in v)]
    if not measuring:
        res.fail('one measurement', where(fn), 'no loop measures', '')
        return
    # the loop of the run is the one that also saves, reports and so on; what else measures is judged as the warm-up
    M = max(measuring, key=lambda k: len({x for _, ev, how in I.loops[k] for x in kinds(ev)}))
    inner = lambda ev: [e[1] for e in ev if e[0] == 'loop']
    busy = {k for k, v in I.loops.items() if any(kinds(ev) for _, ev, how in v)}
    # protected saves, everywhere
    whole = [(s, s.ev, 'ret') for s, r in ends] + [(s, s.ev, 'entry') for k in busy for s in I.entries[k]] + [x for k in busy for x in I.loops[k]]
    for s, ev, how in whole:
        on, bad = False, None
        for e in doings(ev):
            if e[0] != 'do':
                continue
            if e[1] == 'delay':
                on = True
            elif e[1] == 'resume':
                on = False
            elif e[1] == 'save' and not on:
                bad = e
        need('protected', bad is None, 'the state is saved although an interrupt may end the program in the middle', s, bad and bad[5])
        if how not in ('throw',):
            need('ends', not on, 'interrupts stay delayed after the save', s)
    saves = sum(1 for s, ev, how in whole if 'save' in kinds(ev))
    need('protected', saves > 0, 'the state is never saved')
    # before the first step
    for s in I.entries[M]:
        ks = kinds(s.ev)
        ready = [k for k in ks if k in ('load', 'build')]
        need('prepared', len(ready) == 1 and ks[0] in ('load', 'build'), 'before the first step the simulation is prepared %d times, first: %s' % (len(ready), ks[:1]), s)
        job = [v for k, v in s.bools.items() if k[0] == 'truth' and isinstance(k[1], tuple) and k[1][0] == 'fld' and k[1][2][-1:] == ('DoesLoad',)]
        need('prepared', len(job) == 1 and (ready[:1] == ['load']) == job[0], 'the job asks to %s, the run %s' % ('continue' if job[:1] == [True] else 'start anew', 'continues' if ready[:1] == ['load'] else 'starts anew'), s)
        need('warm-up', 'hop' not in ks and not {'measure', 'squeeze'} & set(ks), 'something is measured or moved before the warm-up', s)
        warm = [k for k in inner(s.ev) if k in busy]
        need('warm-up', len(warm) == 1, 'the warm-up is done %d times' % len(warm), s)
    for k in busy - {M}:
        hops = [(s, ev) for s, ev, how in I.loops[k] if how == 'on']
        for s, ev in hops:
            need('warm-up', kinds(ev) == ['hop'] and sweep(ev), 'a step of the warm-up is not one sweep of the wanted length: %s' % kinds(ev), s)
        n = trips(I.shapes[k])
        if n is None:
            res.skipped.append('the length of the warm-up')
        else:
            need('warm-up', setting(n) == 'Toss', 'the warm-up takes %s sweeps' % show(n))
    # every step
    timers = {}
    for s, ev, how in I.loops[M]:
        ks = kinds(ev)
        if any(k in busy for k in inner(ev)):
            raise AnalysisBroken('a step contains a loop over its operations')
        core = [k for k in ks if k in ('hop', 'measure')]
        if how != 'throw':
            need('one measurement', core == ['hop', 'measure'], 'a step is %s' % (', '.join(core) or 'nothing'), s)
            need('one measurement', sweep(ev), 'the sweep between two measurements is not of the wanted length', s)
            rest = ks[ks.index('measure') + 1:] if 'measure' in ks else []
            need('one measurement', not {'squeeze', 'load', 'build', 'delete'} & set(ks), 'a step also does: %s' % ks, s)
            need('one measurement', core == ks[:2], 'something is done between the sweep and its measurement: %s' % ks, s)
        evs = doings(ev)
        looked = set()
        for x, F in ACTIONS:
            asked_ = [(i, e) for i, e in enumerate(evs) if e[0] == 'timer' and e[1] == 'due' and e[2] and setting(e[2][0]) == F]
            done = [i for i, e in enumerate(evs) if e[0] == 'do' and e[1] == x]
            due = [i for i, e in asked_ if ask(s, e[4]) is True]
            for i, e in asked_:
                timers.setdefault(F, set()).add(e[3])
                looked.add(x)
            if how == 'throw':
                continue
            need('when due', bool(done) == bool(due) and (not done or due[0] < done[0]), '%s although its interval has %spassed' % (WORD[x] % ('' if done else 'not '), 'not ' if done else ''), s)
            need('when due', len([i for i in done if evs[i][1] != 'report']) <= 1 and len(due) <= 1, '%s more than once' % (WORD[x] % ''), s)
        if how != 'throw':
            # one being due does not keep the others from being looked at
            need('when due', len(looked) in (0, len(ACTIONS)), 'in this step only the clocks of these are looked at: %s' % ', '.join(sorted(looked)), s)
        for e in evs:
            if e[0] == 'timer' and e[1] in ('restart', 'stop'):
                need('when due', False, 'a timer is set back between its checks', s, e[5])
        checks = [e for e in evs if e[0] == 'do' and e[1] == 'check']
        if how != 'throw':
            need('checked', bool(checks) == ('report' in ks), 'the diagram is %schecked when it is reported on' % ('' if checks else 'not '), s)
            need('checked', all(ask(s, e[4]) is True for e in checks), 'the run goes on with a diagram that failed its check', s)
    for x, F in ACTIONS:
        need('when due', any(x in kinds(ev) for s, ev, how in I.loops[M] if how != 'throw'), WORD[x] % 'never ')
        for s in I.entries[M]:
            started = {e[3] for e in doings(s.ev) if e[0] == 'timer' and e[1] in ('start', 'restart')}
            need('when due', timers.get(F) and timers[F] <= started, 'the timer for %s is not started' % F, s)
    whose = [t for F in timers for t in timers[F]]
    need('when due', len(whose) == len(set(whose)), 'one timer is used for two intervals')
    res.analysed.append({'function': fn['fn'], 'ways to start': len(I.entries[M]), 'ways through a step': len(I.loops[M])})


SAVES = ('protected', 'ends')


def saves(P, res):
    """the part of a run that concerns interrupts"""
    from registry import Result
    r = Result()
    run(P, r)
    for k in SAVES:
        if k in r.n:
            res.ok(k, r.n[k])
    res.fails += [f for f in r.fails if f['rule'] in SAVES]
    res.analysed += r.analysed


def steps(P, res):
    from registry import Result
    r = Result()
    run(P, r)
    for k, n in r.n.items():
        if k not in SAVES:
            res.ok(k, n)
    res.fails += [f for f in r.fails if f['rule'] not in SAVES]
    res.analysed += r.analysed
    res.skipped += r.skipped


WORD = {'report': 'the run is %sreported on', 'save': 'the state is %ssaved', 'listen': 'messages are %slooked for', 'adjust': 'the factors are %sadjusted'}


def sweep(ev):
    return all(len(e[2]) == 1 and setting(e[2][0]) == 'Sweep' for e in ev if e[0] == 'do' and e[1] == 'hop')


def clocks(P, res):
    """an interval counts from the last time it was found to have passed"""
    T = ('p', 'timer')

    def p_now(I, e, st, fr, lv):
        out = []
        for s, vs in I.vals(e, st, fr):
            t = Num.atom((e['f']['qn'].split('::')[-1], s.fresh()))
            s.ev.append(('now', t))
            out.append((s, I.temp_loc(s, t) if lv else t))
        return out

    def lookup(f, e):
        if e.get('k') == 'call' and f['qn'] in ('time', 'clock', 'std::time', 'std::clock'):
            return p_now
        return dicts.match(f, e) or base_match(f, e)
    I = Interp(P, SrcDomain(), {'match': lookup})
    I.ptr_arith = True
    I.MERGE = False
    is_time = lambda x: isinstance(x, Num) and isinstance(x.single(), tuple) and x.single()[0] == 'time'
    starts = find(P, 'timer::start'), find(P, 'timer::restart')
    check = [f for f in find(P, 'timer::check', many=True) if strip(f['ret']) == 'bool' and len(f['params']) == 1]
    if len(check) != 1:
        raise AnalysisBroken('the check of an interval is gone')
    check = check[0]

    def need(fn, cond, msg, s):
        if cond:
            res.ok('intervals')
        else:
            res.fail('intervals', where(fn), msg, facts(s))
    old = Num.atom(('fld', T, ('start_time',), 'long'))
    field = lambda s: as_num(s.n(read1(I, s, (T, ('start_time',)), 'long')))
    for fn, fresh in ((starts[0], True), (starts[0], False), (starts[1], None)):
        st = I.new_state()
        if fresh is not None:
            I.write(st, (T, ('running',)), not fresh, ('', '', 0))
        n = 0
        for s, _ in I.inline(fn, st, T, [NULL], None, False):
            n += 1
            if fresh is False:
                need(fn, s.n(field(s) - old) == N0, 'a running timer is set back by starting it again', s)
            else:
                need(fn, is_time(field(s)), 'starting a timer does not take the time', s)
                need(fn, s.n(read1(I, s, (T, ('running',)), 'bool')) is True, 'a started timer does not run', s)
        need(fn, n > 0, 'a timer cannot be started', st)
    wait = Num.atom(('fld', ('p', 'interval'), (), 'long'))
    seen = set()
    for s, r in I.inline(check, I.new_state(), T, [wait], None, False):
        r = s.n(r)
        ts = [e[1] for e in s.ev if e[0] == 'now' and is_time(e[1])]
        need(check, ts and isinstance(r, bool), 'the answer does not depend on the time', s)
        if not ts:
            continue
        seen.add(r)
        need(check, s.decide_lt0(s.n(ts[0] - old - wait)) is (not r), 'an interval is found to have %spassed although the time since the start is %s' % ('' if r else 'not ', 'shorter' if r else 'not shorter'), s)
        if r:
            need(check, field(s) in ts, 'the next interval does not begin when the last one has passed', s)
        else:
            need(check, s.n(field(s) - old) == N0, 'looking at the time sets the timer back', s)
    need(check, seen == {True, False}, 'an interval always or never passes', I.new_state())
    res.analysed.append({'functions': [f['fn'] for f in starts + (check,)]})
