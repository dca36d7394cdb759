"""The environment of a run as a whole: what is written into which file, and in what order everything is read back, started and
taken to a new temperature. The parts (parameters, diagram, functions, accumulators) are decided on their own; here each of their
operations is an event on the object it is called for, and the files are what was last written into them."""
from terms import Num, N0, N1, show
from absint import NULL, strip
from frontend import AnalysisBroken
from plain import find, symargs, where, read1
from plain import as_num
from oblig import facts
from stdlib import objloc, length
import dicts
import saved
import restart
from saved import rd
from restart import one, Domain

A, B = ('p', 'A'), ('p', 'B')
FILES = ('glob', '@files')
TOKEN = '[@]'

# class -> (methods that give its state, methods that take it back, methods that start it afresh)
PARTS = {
    'para::ParaMC': (('ToDict',), ('FromDict',), ()),
    'diag::Diagram': (('ToDict',), ('FromDict',), ('BuildNew',)),
    'weight::GClass': (('ToDict',), ('FromDict',), ()),
    'weight::WClass': (('ToDict',), ('FromDict',), ()),
    'weight::SigmaClass': (('ToDict',), ('FromDict',), ('BuildNew',)),
    'weight::PolarClass': (('ToDict',), ('FromDict',), ('BuildNew',)),
    'weight::GammaGClass': (('WeightToDict', 'StatisToDict'), ('WeightFromDict', 'StatisFromDict'), ('ClearStatistics',)),
    'weight::GammaWClass': (('WeightToDict', 'StatisToDict'), ('WeightFromDict', 'StatisFromDict'), ('ClearStatistics',)),
    'Estimator': (('ToDict',), ('FromDict',), ('ClearStatistics',)),
    'mc::Markov': ((), (), ('BuildNew',)),
}
OTHER = {('diag::Diagram', 'Reset'), ('diag::Diagram', 'CheckDiagram'), ('mc::Markov', 'Reset')}
OTHER |= {(c, n) for c in ('weight::GClass', 'weight::WClass', 'weight::SigmaClass', 'weight::PolarClass', 'weight::GammaGClass', 'weight::GammaWClass',
                           'weight::WeightEstimator', 'Estimator') for n in ('Reset', 'SqueezeStatistics', 'Anneal')}
BUILT = ('weight::GClass', 'weight::WClass', 'weight::SigmaClass', 'weight::PolarClass', 'weight::GammaGClass', 'weight::GammaWClass')


def norm(loc):
    b, p = loc
    while isinstance(b, tuple) and b and b[0] == 'ptr':
        b, p = b[1], tuple(b[2]) + tuple(p)
    return b, tuple(p)


def actuals(I, e, st, fr):
    """[(state, [location or value])]: objects as locations"""
    out = [(st, [])]
    for a in e.get('a', []):
        nxt = []
        for s, xs in out:
            if I.is_lv(a):
                nxt += [(s2, xs + [('at', norm(l))]) for s2, l in I.lval(a, s, fr)]
            else:
                nxt += [(s2, xs + [s2.n(v)]) for s2, v in I.ev(a, s, fr)]
        out = nxt
    return out


def content(I, s, x, t):
    """the value behind an actual"""
    if isinstance(x, tuple) and x and x[0] == 'at':
        r = I.read(s, x[1], t)
        return s.n(r[0][1])
    if isinstance(x, tuple) and x and x[0] in ('ptr', 'fld'):
        return s.n(x)
    return s.n(x)


def token(v):
    it = dicts.items(v) if isinstance(v, tuple) and v and v[0] == 'S' else {}
    return it.get((TOKEN,), v)


def give(cls, nm):
    def h(I, e, st, fr, lv):
        out = []
        for s, l in objloc(I, e, st, fr):
            v = ('S', dicts.DICT, (((TOKEN,), ('state', cls, nm) + norm(l)),))
            out.append((s, I.temp_loc(s, v) if lv else v))
        return out
    return h


def mark(cls, nm, kind):
    def h(I, e, st, fr, lv):
        out = []
        rt = e['f'].get('ret', 'void')
        for s, l in objloc(I, e, st, fr):
            for s2, xs in actuals(I, e, s, fr):
                where_ = I.where(fr, e)
                tok = None
                if kind == 'take':
                    tok = token(content(I, s2, xs[0], dicts.DICT))
                    if cls == 'para::ParaMC':
                        spread(I, s2, norm(l), tok, where_)
                s2.ev.append(('part', cls, nm, norm(l), tok, tuple(xs), where_, snapshot(I, s2, norm(l)[0])))
                v = NULL if rt == 'void' else True if rt == 'bool' and kind == 'take' else ('truth', ('result', nm, s2.fresh())) if rt == 'bool' else I.dom.wrap(('result', nm, s2.fresh()), rt)
                out.append((s2, I.temp_loc(s2, v) if lv else v))
        return out
    return h


def snapshot(I, s, base):
    """the temperature of the run at this moment"""
    return rd(I, s, base, I.para + ('Beta',), 'double') if base in (A, B) else None


def spread(I, s, loc, tok, w):
    """the parameters become those that were saved"""
    src = tok[3:] if isinstance(tok, tuple) and tok and tok[0] == 'state' else (('read', tok), ())
    for f in restart.fields(I.p, 'para::ParaMC'):
        if f.get('static'):
            continue
        if tok[0] == 'state':
            v = I.read(s, (src[0], tuple(src[1]) + (f['name'],)), f['t'])[0][1]
        elif f['name'] in I.case:
            v = I.case[f['name']]
        else:
            v = I.dom.wrap(('fld', src[0], (f['name'],), f['t']), f['t'])
        I.write(s, (loc[0], loc[1] + (f['name'],)), v, w)


class Construct(object):
    def __call__(self, I, e, st, fr, lv):
        return NotImplemented

    def construct(self, I, e, st, fr, b):
        out = []
        for s, xs in actuals(I, e, st, fr):
            s.ev.append(('part', e['f']['cls'], 'built', (b, ()), None, tuple(xs), I.where(fr, e)))
            out.append(s)
        return out


def filekey(s, v):
    """name of a file: a member of the job, the same in every run of the job, or a text"""
    v = s.n(v)
    if isinstance(v, tuple) and v and v[0] == 'fld':
        b, p = norm((v[1], v[2]))
        return '.'.join(map(str, p))
    return repr(dicts.text(v))


def to_file(kind):
    def h(I, e, st, fr, lv):
        out = []
        for s, l in objloc(I, e, st, fr):
            for s2, vs in I.vals(e, s, fr):
                k = filekey(s2, vs[0])
                mode = dicts.text(s2.n(vs[1])) if len(vs) > 1 else 'w'
                v = dicts.whole(I, s2, l)
                s2.ev.append(('saved', kind, k, mode, v, I.where(fr, e)))
                I.write(s2, (FILES, (kind + ' ' + k,)), v, I.where(fr, e))
                out.append((s2, NULL))
        return out
    return h


def from_file(kind):
    def h(I, e, st, fr, lv):
        out = []
        for s, l in objloc(I, e, st, fr):
            for s2, vs in I.vals(e, s, fr):
                k = filekey(s2, vs[0])
                v = I.read(s2, (FILES, (kind + ' ' + k,)), dicts.DICT)[0][1]
                s2.ev.append(('loaded', kind, k, I.where(fr, e)))
                I.write(s2, l, s2.n(v), I.where(fr, e))
                out.append((s2, NULL))
        return out
    return h


def tostring(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        v = s.n(vs[0])
        c = v.const() if isinstance(v, Num) else None
        x = ('str', str(c)) if c is not None and c.denominator == 1 else ('text', v)
        out.append((s, I.temp_loc(s, x) if lv else x))
    return out


FILEOPS = {'Save': to_file('text'), 'BigSave': to_file('big'), 'Load': from_file('text'), 'BigLoad': from_file('big')}


def match(f, e):
    cls = f.get('cls') or ''
    nm = f['name'].split('<')[0]
    if e.get('k') == 'ctor':
        if cls in BUILT and not e.get('copy'):
            return Construct()
        return saved.match(f, e)
    c = 'Estimator' if cls.startswith('Estimator<') else cls
    if c in PARTS:
        g, t, n = PARTS[c]
        if nm in g:
            return give(c, nm)
        if nm in t:
            return mark(c, nm, 'take')
        if nm in n:
            return mark(c, nm, 'new')
    if (c, nm) in OTHER:
        return mark(c, nm, 'other')
    if cls == dicts.DICT and nm in FILEOPS:
        return FILEOPS[nm]
    if nm == 'ToString' and not cls:
        return tostring
    if cls == 'mc::MarkovMonitor' and nm == 'SqueezeStatistics':
        return mark(cls, nm, 'other')
    if 'unordered_map' in cls or cls.startswith('std::map<') or '_Node_iterator' in cls or '_Node_iterator' in ' '.join(f.get('pt', [])):
        return maps
    return saved.match(f, e)


def maps(I, e, st, fr, lv):
    """the tables of names: what they answer is decided elsewhere"""
    out = []
    rt = e['f'].get('ret', 'void') if e.get('k') == 'call' else e.get('t', '')
    for s, vs in I.vals(e, st, fr):
        v = ('truth', ('map', s.fresh())) if rt == 'bool' else ('map', s.fresh())
        out.append((s, I.temp_loc(s, v) if lv else v))
    return out


def interp_(P, order, gamma):
    from absint import Interp
    I = Interp(P, Domain(), {'match': match})
    I.ptr_arith = True
    I.MERGE = False
    I.CATCH = True
    I.para = Layout(P).para
    I.case = {'Order': Num.c(order), 'runGamma3': gamma}
    return I


ENV = 'EnvMonteCarlo'


def members(P, cls, pred):
    return [f for f in restart.fields(P, cls) if pred(f['t'])]


def member(P, cls, typ):
    c = [f for f in P.recs[cls]['fields'] if strip(f['t']) == typ]
    if len(c) != 1:
        raise AnalysisBroken('%s has %d members of type %s' % (cls, len(c), typ))
    return (c[0]['name'],)


def accumulators(I, s, P, base, path, n):
    """locations of every accumulator of the monitor: [(name, location)]"""
    out = []
    for f in members(P, 'mc::MarkovMonitor', lambda t: 'Estimator' in t):
        t = strip(f['t'])
        p = path + (f['name'],)
        if t.startswith('Estimator<'):
            out.append((f['name'], (base, p)))
        elif t.startswith('EstimatorBundle<'):
            v = [g for g in P.recs[t]['fields'] if strip(g['t']).startswith('std::vector<')]
            if len(v) != 1:
                raise AnalysisBroken('the accumulators of %s' % t)
            for i in range(n):
                out.append(('%s of order %d' % (f['name'], i), (base, p + (v[0]['name'], i))))
    return out


class Layout(object):
    def __init__(self, P):
        self.P = P
        self.para = member(P, ENV, 'para::ParaMC')
        self.weight = member(P, ENV, 'weight::Weight')
        self.diag = member(P, ENV, 'diag::Diagram')
        self.markov = member(P, ENV, 'mc::Markov')
        self.monitor = member(P, ENV, 'mc::MarkovMonitor')
        self.fun = {}
        for f in P.recs['weight::Weight']['fields']:
            t = strip(f['t'])
            if t.endswith('*') and strip(t[:-1]) in BUILT:
                self.fun[strip(t[:-1])] = f['name']
        if len(self.fun) != len(BUILT):
            raise AnalysisBroken('the functions of weight::Weight')


def running(P, I, Y, order, gamma):
    """states with a running environment A, and a new process B"""
    st = I.new_state()
    I.write(st, (A, Y.para + ('Order',)), Num.c(order), ('', '', 0))
    I.write(st, (A, Y.para + ('runGamma3',)), gamma, ('', '', 0))
    wc = find(P, 'weight::Weight::Weight', lambda f: not f.get('implicit'))
    sts = [st]
    for b in (A, B):
        sts = [s for x in sts for s, _ in I.inline(wc, x, ('ptr', b, Y.weight), symargs(I, wc, ['sym']), None, False)]
    for s in sts:
        for cls, nm in Y.fun.items():
            if 'Gamma' not in cls or gamma:
                I.write(s, (A, Y.weight + (nm,)), ('p', 'A.' + nm), ('', '', 0))
        for b in (A, B):
            for f in members(P, 'mc::MarkovMonitor', lambda t: strip(t).startswith('EstimatorBundle<')):
                v = [g['name'] for g in P.recs[strip(f['t'])]['fields'] if strip(g['t']).startswith('std::vector<')][0]
                I.write(s, (b, Y.monitor + (f['name'], v, 'size()')), N0, ('', '', 0))
    bn = one(P, 'mc::MarkovMonitor::BuildNew')
    out = []
    for s in sts:
        for s2, _ in I.inline(bn, s, ('ptr', A, Y.monitor), [('ref', (A, Y.para)), ('ref', (A, Y.diag)), ('ref', (A, Y.weight))], None, False):
            del s2.ev[:]
            out.append(s2)
    return out


def final(s, cls, loc, names):
    """last event of the given kinds on an object"""
    r = None
    for e in s.ev:
        if e[0] == 'part' and e[1] == cls and e[2] in names and norm(e[3]) == loc:
            r = e
    return r


def target(I, s, base, path, t='void *'):
    return norm(I.deref(rd(I, s, base, path, t)))


class Case(object):
    def __init__(self, P, res, I, Y, s, what, fn):
        self.P, self.res, self.I, self.Y, self.s, self.what, self.fn = P, res, I, Y, s, what, fn

    def need(self, rule, cond, msg, w=None):
        if cond:
            self.res.ok(rule)
        else:
            self.res.fail(rule, w or where(self.fn), '%s: %s' % (self.what, msg), facts(self.s))

    def back(self, rule, name, cls, loc, take, want):
        """the object took back the state it should, last"""
        g, t, n = PARTS[cls]
        e = final(self.s, cls, loc, (take,) + (n if take != 'WeightFromDict' else ()))
        if e is None:
            self.need(rule, False, '%s is not read back' % name)
        elif e[2] != take:
            self.need(rule, False, '%s is started afresh after it was read back' % name, e[6])
        else:
            self.need(rule, e[4] == want, '%s takes back %s' % (name, show(e[4])[:160]), e[6])

    def connected(self, rule, name, e, want):
        if e is None:
            self.need(rule, False, '%s is not set up' % name)
            return
        got = [norm(x[1]) if isinstance(x, tuple) and x and x[0] == 'at' else x for x in e[5]]
        for w in want:
            self.need(rule, w in got, '%s is not given the %s of this run' % (name, '.'.join(map(str, w[1])) or show(w[0])), e[6])


def infile(I, s, kind, key, path):
    loc = I.temp_loc(s, I.read(s, (FILES, (kind + ' ' + key,)), dicts.DICT)[0][1])
    return token(s.n(I.read(s, (loc[0], loc[1] + path), dicts.DICT)[0][1]))


KEYS = (('weight::GClass', 'FromDict', 'G'), ('weight::WClass', 'FromDict', 'W'))
GKEYS = (('weight::GammaGClass', 'WeightFromDict', 'GGGammaG'), ('weight::GammaWClass', 'WeightFromDict', 'WWGammaW'))


def functions(C, base, gamma, rule, restored):
    """the propagators, interactions and vertex functions: from the weight file, built for the parameters of the run"""
    I, s, Y = C.I, C.s, C.Y
    for cls, take, key in KEYS + (GKEYS if gamma else ()):
        loc = target(I, s, base, Y.weight + (Y.fun[cls],))
        if cls == 'weight::GammaGClass' and final(s, cls, loc, (take,)) is None:
            continue                                  # without such a table in the file it is left as it is
        C.back(rule, key, cls, loc, take, infile(I, s, 'big', 'Job.WeightFile', ('[%s]' % key,)))
    for cls in BUILT:
        if 'Gamma' in cls and not gamma:
            continue
        loc = target(I, s, base, Y.weight + (Y.fun[cls],))
        at = [i for i, e in enumerate(s.ev) if e[0] == 'part' and e[2] == 'built' and norm(e[3]) == loc]
        if not at:
            if restored:
                C.need(rule, False, 'there is no %s' % cls)
            continue
        beta = [s.n(as_num(x)) if not (isinstance(x, tuple) and x and x[0] == 'at') else s.n(as_num(I.read(s, x[1], 'double')[0][1])) for x in s.ev[at[-1]][5][1:2]]
        C.need(rule, beta == [s.n(as_num(rd(I, s, base, Y.para + ('Beta',), 'double')))], '%s is built for another temperature' % cls, s.ev[at[-1]][6])


def run(P, res):
    """a run that was stopped is continued"""
    save, load = one(P, ENV + '::Save'), one(P, ENV + '::Load')
    Y = Layout(P)
    for order in (1, 2):
        for gamma in (False, True):
            what = 'order %d%s' % (order, ', with vertex functions' if gamma else '')
            I = interp_(P, order, gamma)
            n = 0
            for st in running(P, I, Y, order, gamma):
                first = len(st.log)
                for s, _ in I.inline(save, st, A, [], None, False):
                    C = Case(P, res, I, Y, s, 'saving, ' + what, save)
                    bad = [l for l in s.log[first:] if norm((l[0], l[1]))[0] in (A,) or str(l[0]).startswith("('p', 'A")]
                    C.need('saving changes nothing', not bad, 'a member is changed: %s' % (bad[:1],))
                    files = [e for e in s.ev if e[0] == 'saved']
                    inside = rd(I, s, A, Y.diag + ('HasGammaGW',), 'int')
                    if not files:
                        C.need('when', s.decide_eq0(as_num(inside)) is False, 'nothing is saved although the diagram is an ordinary one')
                        continue
                    C.need('when', s.decide_eq0(as_num(inside)) is True, 'a diagram with a vertex function in it is saved', files[0][5])
                    C.need('files', len(files) == 2 and len({e[2] for e in files}) == 2 and all(e[3] == 'w' for e in files), 'the files are not written afresh, once each', files[0][5])
                    mark_ = len(s.ev)
                    for s2, _ in I.inline(load, s, B, [], None, False):
                        if not any(e[0] == 'caught' for e in s2.ev):
                            n += 1
                            continued(P, res, I, Y, s2, what, load, order, gamma)
                        if any(e[0] == 'caught' for e in s2.ev):
                            C = Case(P, res, I, Y, s2, 'continuing without a saved state, ' + what, load)
                            C.back('fallback', 'the set of parameters', 'para::ParaMC', (B, Y.para), 'FromDict', infile(I, s2, 'text', 'Job.InputFile', ('[Para]',)))
                            functions(C, B, gamma, 'fallback', True)
                            links(C, B, 'BuildNew', 'fallback')
            if not n:
                res.fail('parts', where(load), 'what was saved cannot be read: ' + what, [])
            res.analysed.append({'case': what, 'continuations': n})


def continued(P, res, I, Y, s, what, load, order, gamma):
    C = Case(P, res, I, Y, s, 'continuing, ' + what, load)
    st = lambda cls, nm, b, p: ('state', cls, nm) + norm((b, p))
    C.back('parts', 'the set of parameters', 'para::ParaMC', (B, Y.para), 'FromDict', st('para::ParaMC', 'ToDict', A, Y.para))
    C.back('parts', 'the diagram', 'diag::Diagram', (B, Y.diag), 'FromDict', st('diag::Diagram', 'ToDict', A, Y.diag))
    for cls in ('weight::SigmaClass', 'weight::PolarClass'):
        C.back('parts', cls, cls, target(I, s, B, Y.weight + (Y.fun[cls],)), 'FromDict', st(cls, 'ToDict', ('p', 'A.' + Y.fun[cls]), ()))
    if gamma:
        for cls in ('weight::GammaGClass', 'weight::GammaWClass'):
            C.back('parts', 'the statistics of ' + cls, cls, target(I, s, B, Y.weight + (Y.fun[cls],)), 'StatisFromDict', st(cls, 'StatisToDict', ('p', 'A.' + Y.fun[cls]), ()))
    from_, to = accumulators(I, s, P, A, Y.monitor, order + 1), accumulators(I, s, P, B, Y.monitor, order + 1)
    for (nm, a), (_, b) in zip(from_, to):
        if 'Gamma' in nm and not gamma:
            continue
        C.back('parts', nm, 'Estimator', b, 'FromDict', ('state', 'Estimator', 'ToDict') + a)
    sizes(C, B, order)
    functions(C, B, gamma, 'functions', True)
    links(C, B, 'FromDict')


def links(C, base, how, rule='connections'):
    I, s, Y = C.I, C.s, C.Y
    fun = lambda cls: target(I, s, base, Y.weight + (Y.fun[cls],))
    C.connected(rule, 'the diagram', final(s, 'diag::Diagram', (base, Y.diag), (how,)), [(base, Y.para + ('Lat',)), fun('weight::GClass'), fun('weight::WClass')])
    C.connected(rule, 'the random walk', final(s, 'mc::Markov', (base, Y.markov), ('BuildNew', 'Reset')), [(base, Y.para), (base, Y.diag), (base, Y.weight)])
    for f in members(C.P, 'mc::MarkovMonitor', lambda t: strip(t).endswith('*')):
        t = strip(strip(f['t'])[:-1])
        want = {'para::ParaMC': Y.para, 'diag::Diagram': Y.diag, 'weight::Weight': Y.weight}.get(t)
        if want is not None:
            C.need(rule, target(I, s, base, Y.monitor + (f['name'],)) == (base, want), 'the measurement is not connected to %s' % '.'.join(want))
    # the walk copies its parameters, the diagram computes its weights: what they need has to be there by then
    beta = rd(I, s, base, Y.para + ('Beta',), 'double')
    for name, e in (('diagram', final(s, 'diag::Diagram', (base, Y.diag), (how,))), ('random walk', final(s, 'mc::Markov', (base, Y.markov), ('BuildNew', 'Reset')))):
        C.need(rule, e is not None and saved.same(s, e[7], beta), 'the %s is set up before the parameters are known' % name, e[6] if e else None)
    di = [i for i, e in enumerate(s.ev) if e[0] == 'part' and e[1] == 'diag::Diagram' and norm(e[3]) == (base, Y.diag) and e[2] == how]
    fu = [i for i, e in enumerate(s.ev) if e[0] == 'part' and e[1] in ('weight::GClass', 'weight::WClass') and e[2] in ('built', 'FromDict')]
    C.need(rule, di and fu and max(fu) < max(di), 'the diagram is set up before the propagators and interactions are there')


def begin(P, res):
    """a run that starts from its input file"""
    build = one(P, ENV + '::BuildNew')
    Y = Layout(P)
    for order in (1, 2):
        for gamma in (False, True):
            what = 'starting, order %d%s' % (order, ', with vertex functions' if gamma else '')
            I = interp_(P, order, gamma)
            n = 0
            for st in running(P, I, Y, order, gamma):
                for s, _ in I.inline(build, st, B, [], None, False):
                    n += 1
                    C = Case(P, res, I, Y, s, what, build)
                    para = infile(I, s, 'text', 'Job.InputFile', ('[Para]',))
                    loaded = [e for e in s.ev if e[0] == 'loaded' and e[2] == 'Job.InputFile']
                    C.back('parts', 'the set of parameters', 'para::ParaMC', (B, Y.para), 'FromDict', para)
                    C.need('parts', loaded, 'the input file is not read')
                    functions(C, B, gamma, 'functions', True)
                    for cls in ('weight::SigmaClass', 'weight::PolarClass'):
                        loc = target(I, s, B, Y.weight + (Y.fun[cls],))
                        e = final(s, cls, loc, ('FromDict', 'BuildNew', 'built'))
                        C.need('empty', e is not None and e[2] != 'FromDict', '%s does not start empty' % cls, e[6] if e else None)
                    acc = accumulators(I, s, P, B, Y.monitor, order + 1)
                    for nm, b in acc:
                        if 'Gamma' in nm and not gamma:
                            continue
                        e = final(s, 'Estimator', b, ('FromDict', 'ClearStatistics'))
                        C.need('empty', e is not None and e[2] == 'ClearStatistics', '%s does not start empty' % nm, e[6] if e else None)
                    sizes(C, B, order)
                    links(C, B, 'BuildNew')
                    saved_ = [e for e in s.ev if e[0] == 'saved' and e[2] == 'Job.ParaFile']
                    C.need('files', len(saved_) == 1 and saved_[0][1] == 'text' and saved_[0][3] == 'w', 'the first state is not written once, afresh')
                    if saved_:
                        loc = I.temp_loc(s, saved_[0][4])
                        k = lambda key: token(s.n(I.read(s, (loc[0], loc[1] + (key,)), dicts.DICT)[0][1]))
                        C.need('files', k('[Config]') == ('state', 'diag::Diagram', 'ToDict') + norm((B, Y.diag)), 'the first state does not contain the diagram', saved_[0][5])
                        C.need('files', k('[Para]') == para, 'the first state does not contain the parameters', saved_[0][5])
            if not n:
                res.fail('parts', where(build), 'no run can be started: ' + what, [])
            res.analysed.append({'case': what, 'starts': n})


def sizes(C, base, order):
    for f in members(C.P, 'mc::MarkovMonitor', lambda t: strip(t).startswith('EstimatorBundle<')):
        v = [g['name'] for g in C.P.recs[strip(f['t'])]['fields'] if strip(g['t']).startswith('std::vector<')][0]
        k = rd(C.I, C.s, base, C.Y.monitor + (f['name'], v, 'size()'), 'unsigned long')
        C.need('parts', k == Num.c(order + 1), 'there are %s accumulators in %s' % (show(k), f['name']))


def anneal(P, res):
    """a message changes the temperature of a running simulation"""
    listen = one(P, ENV + '::ListenToMessage')
    Y = Layout(P)
    for gamma in (False, True):
        what = 'a message' + (', with vertex functions' if gamma else '')
        I = interp_(P, 1, gamma)
        yes = no = 0
        for st in running(P, I, Y, 1, gamma):
            first = len(st.log)
            before = I.split(st)
            for s, r in I.inline(listen, st, A, [], None, False):
                C = Case(P, res, I, Y, s, what, listen)
                msg = lambda k: s.n(as_num(I.read(s, (FILES, ('text Job.MessageFile', k)), 'double')[0][1]))
                if s.n(r) is False:
                    no += 1
                    bad = [l for l in s.log[first:] if str(norm((l[0], l[1]))[0]).startswith(("('p', 'A", "('fld', ('p', 'A"))]
                    bad += [e for e in s.ev if e[0] == 'part']
                    C.need('kept', not bad, 'something is changed although the message is not followed: %s' % show(bad[:1])[:200])
                    continue
                C.need('result', s.n(r) is True, 'the answer is neither yes nor no')
                yes += 1
                inside = rd(I, s, A, Y.diag + ('HasGammaGW',), 'int')
                if gamma:
                    C.need('when', s.decide_eq0(as_num(inside)) is True, 'the temperature changes while there is a vertex function in the diagram')
                C.need('when', not any(e[0] == 'caught' for e in s.ev), 'the message is followed although a file is missing')
                old = rd(I, before, A, Y.para + ('Version',), 'int')
                new = infile_number(I, s, 'Version', 'int')
                C.need('when', s.decide_lt0(s.n(as_num(old) - new)) is True, 'an old message is followed')
                beta = infile_number(I, s, 'Beta', 'double')
                C.need('parameters', saved.same(s, rd(I, s, A, Y.para + ('Version',), 'int'), new), 'the version is not that of the message')
                C.need('parameters', saved.same(s, rd(I, s, A, Y.para + ('Beta',), 'double'), beta), 'the inverse temperature is not that of the message')
                C.need('parameters', saved.same(s, rd(I, s, A, Y.para + ('T',), 'double'), N1 / beta), 'the temperature is not that of the message')
                functions(C, A, gamma, 'functions', False)
                for cls in BUILT:
                    if 'Gamma' in cls and not gamma:
                        continue
                    loc = target(I, s, A, Y.weight + (Y.fun[cls],))
                    e = final(s, cls, loc, ('built', 'Reset'))
                    arg = None
                    if e is not None:
                        x = e[5][0 if e[2] == 'Reset' else 1]
                        arg = I.read(s, x[1], 'double')[0][1] if isinstance(x, tuple) and x and x[0] == 'at' else x
                    C.need('temperature', arg is not None and saved.same(s, as_num(arg), beta), '%s is not taken to the new temperature' % cls, e[6] if e else None)
                links(C, A, 'Reset')
                sq = [e for e in s.ev if e[0] == 'part' and e[1] == 'mc::MarkovMonitor' and e[2] == 'SqueezeStatistics']
                x = sq[0][5][0] if len(sq) == 1 else None
                x = I.read(s, x[1], 'double')[0][1] if isinstance(x, tuple) and x and x[0] == 'at' else x
                C.need('statistics', x is not None and saved.same(s, as_num(x), infile_number(I, s, 'SqueezeFactor', 'double')), 'the statistics are not reduced once, by the factor of the message')
                order_ = [e[2] for e in s.ev if e[0] == 'part' and e[1] == 'diag::Diagram']
                C.need('checked', order_[-1:] == ['CheckDiagram'], 'the diagram is not checked afterwards')
        C = Case(P, res, I, Y, st, what, listen)
        C.need('result', yes and no, 'the message is always or never followed')
        res.analysed.append({'case': what, 'followed': yes, 'ignored': no})


def infile_number(I, s, key, t):
    loc = I.temp_loc(s, I.read(s, (FILES, ('text Job.MessageFile',)), dicts.DICT)[0][1])
    return s.n(as_num(I.read(s, (loc[0], loc[1] + ('[%s]' % key,)), t)[0][1]))
