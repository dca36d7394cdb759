"""The simulation and the self-consistency loop exchange files: what one side asks for is what the other one writes."""
import environ
import iface
import pyabs
import pyloop
import restart
from absint import NULL
from frontend import AnalysisBroken
from plain import find, symargs, where
from terms import Num

A = environ.A
DICT = (('p', 'DICT'), ())


def keyname(k):
    return k[1:-1] if isinstance(k, str) and k.startswith('[') and k.endswith(']') else None


def gets(ev, root):
    """keys asked for below this dictionary"""
    out = {}
    for e in ev:
        if e[0] != 'get' or not e[4]:
            continue
        p = e[4]
        if p[:len(root)] == root:
            keys = tuple(keyname(k) for k in p[len(root):])
            if None in keys:
                raise AnalysisBroken('a key that is not spelt out is read: %s' % (p,))
            out.setdefault(keys, e[3])
    return out


def component(P, cls, meth):
    """keys a part of the simulation asks for in its own section"""
    I = restart.interp_(P, restart.Domain())
    names = dict((c, n) for c, n, _ in restart.FUNCTIONS + restart.TABLES).get(cls)
    sts = [I.new_state()]
    if names:
        sts = restart.built(P, I, sts[0], cls, names, A)
    f = find(P, cls + '::' + meth)
    out = None
    for st in sts:
        for s, _ in I.inline(f, I.split(st), A, [('ref', DICT)], None, False):
            g = gets(s.ev, (('p', 'DICT'),))
            out = g if out is None else {k: v for k, v in out.items() if k in g}
    if out is None:
        raise AnalysisBroken('no path through %s' % f['fn'])
    return out


def written(v, pre=()):
    """keys of a dictionary a part of the simulation writes"""
    out = set()
    if isinstance(v, tuple) and v and v[0] == 'S' and v[1] == 'Dictionary':
        for k, x in v[2]:
            if isinstance(k, tuple) and len(k) == 1 and keyname(k[0]) is not None and k[0] != '[@]':
                out.add(pre + (keyname(k[0]),))
                out |= written(x, pre + (keyname(k[0]),))
    return out


def writes(P, cls, meth):
    I = restart.interp_(P, restart.Domain())
    names = dict((c, n) for c, n, _ in restart.FUNCTIONS + restart.TABLES).get(cls)
    sts = restart.built(P, I, I.new_state(), cls, names, A) if names else [I.new_state()]
    f = find(P, cls + '::' + meth)
    out = None
    for st in sts:
        for s, v in I.inline(f, I.split(st), A, [], None, False):
            w = written(s.n(v))
            out = w if out is None else out & w
    if out is None:
        raise AnalysisBroken('no path through %s' % f['fn'])
    return f, out


def parts(ev, kind):
    """[(class, method, file, keys before)] parts that are handed a section of a file, or hand one over"""
    out = []
    for e in ev:
        if e[0] == 'part' and e[4] is not None and e[2] == kind:
            out.append(e)
    return out


def token_path(t):
    if isinstance(t, tuple) and t and t[0] == 'fld' and t[1] == ('glob', '@files') and t[2]:
        return t[2][0], tuple(keyname(k) for k in t[2][1:])
    return None


def foreign(name):
    """files the simulation does not write itself"""
    return not name.endswith(('Job.ParaFile', 'Job.StatisticsFile'))


def asked(P, gamma):
    """{file: {keys: where}} what the simulation cannot do without"""
    Y = environ.Layout(P)
    out = {}
    for name in ('BuildNew', 'Load', 'ListenToMessage'):
        I = environ.interp_(P, 1, gamma)
        f = find(P, 'EnvMonteCarlo::' + name)
        ways = []
        for st in environ.running(P, I, Y, 1, gamma):
            for s, _ in I.inline(f, I.split(st), A, [], None, False):
                here = {}
                for e in s.ev:
                    if e[0] == 'get' and e[4] and e[4][0] == ('glob', '@files') and foreign(e[4][1]):
                        keys = tuple(keyname(k) for k in e[4][2:])
                        if None not in keys:
                            here.setdefault((e[4][1], keys), e[3])
                    if e[0] == 'part' and e[4] is not None and 'FromDict' in e[2]:
                        p = token_path(e[4])
                        if p is None or None in p[1] or not foreign(p[0]):
                            continue
                        for k, w in component_(P, e[1], e[2]).items():
                            here.setdefault((p[0], p[1] + k), w)
                ways.append(here)
        if not ways:
            raise AnalysisBroken('no path through %s' % f['fn'])
        # a path that reads nothing of a file does not use it
        for name_ in {k[0] for h in ways for k in h}:
            use = [h for h in ways if any(k[0] == name_ for k in h)]
            for k in use[0]:
                if k[0] == name_ and all(k in h for h in use):
                    out.setdefault(name_, {}).setdefault(k[1], use[0][k])
    return out


_cache = {}


def component_(P, cls, meth):
    k = (id(P), cls, meth)
    if k not in _cache:
        _cache[k] = component(P, cls, meth)
    return _cache[k]


def has(frozen, keys):
    for k in keys:
        if not (isinstance(frozen, tuple) and frozen and frozen[0] == 'dict'):
            return False
        for n, v in frozen[1]:
            if n == k:
                frozen = v
                break
        else:
            return False
    return True


def spot(w):
    return (w[0] or '', w[1], w[2]) if isinstance(w, tuple) and len(w) >= 3 else ('', '', 0)


def compare(res, rule, what, want, data, source):
    for keys, w in sorted(want.items()):
        if has(data, keys):
            res.ok(rule)
        else:
            res.fail(rule, spot(w), '%s: %s is read, %s does not write it' % (what, '/'.join(keys), source))


FILES = {'Job.WeightFile': 'weights', 'Job.MessageFile': 'messages', 'Job.InputFile': 'jobs', 'FermiBasis': 'basis', 'BoseBasis': 'basis'}


def names(P, res):
    """every entry one program reads is written by the other under the same name"""
    for gamma in (False, True):
        want = asked(P, gamma)
        by = {}
        for f, keys in want.items():
            k = [x for x in FILES if x in f]
            if len(k) != 1:
                raise AnalysisBroken('the simulation reads a file that is not known here: %s' % f)
            by[k[0]] = keys
        if len(by) != len(FILES):
            raise AnalysisBroken('the simulation no longer reads %s' % sorted(set(FILES) - set(by)))
        tag = 'with vertex functions' if gamma else 'without vertex functions'
        # what the solver publishes
        for only, new in ((False, False), (False, True), (True, False), (True, True)):
            I, sp, ends = pyloop.paths(1, only, new, gamma)
            for e, marks in ends:
                ev = e.ev[marks[0]:]
                saved = {x[2]: x[3] for x in ev if x[0] == 'saved'}
                if any(x[0] in ('collect', 'solve') and x[1] is False for x in ev):
                    continue
                for f, label in (('WeightFile', 'Job.WeightFile'), ('MessageFile', 'Job.MessageFile')):
                    if f not in saved:
                        raise AnalysisBroken('a good round of the solver writes no %s' % f)
                    need = by[label]
                    if gamma and label == 'Job.WeightFile' and not (only or new):
                        pass
                    compare(res, 'names: ' + FILES[label], pyloop.label(only, new, gamma), need, saved[f], 'the self-consistency loop')
        # jobs and bases
        for s, kinds, basis in iface.jobs(2, gamma):
            mc = [k for k in kinds if k[0] == 'MC']
            if not mc:
                raise AnalysisBroken('the job list holds no simulation')
            for k in mc:
                compare(res, 'names: jobs', tag, by['Job.InputFile'], k[2], 'the job list')
                compare(res, 'names: jobs', tag, jobkeys(P), k[2], 'the job list')
            for name in ('FermiBasis', 'BoseBasis'):
                d = [v for n, v in basis if name in str(n)]
                if not d:
                    res.fail('names: basis', ('', 'inlist.py', 0), '%s: no file %s is written' % (tag, name))
                    continue
                compare(res, 'names: basis', tag, by[name], d[0], 'the job list')
        statistics(P, res, gamma)
        res.analysed.append({'mode': tag, 'files': {FILES[k]: len(v) for k, v in by.items()}})


def jobkeys(P):
    import jobs
    f = find(P, 'para::Job::Job', lambda f: len(f['params']) == 1)
    I = jobs.machine(P)
    out = None
    for s, _ in I.inline(f, I.new_state(), jobs.JOB, symargs(I, f, ['file']), None, False):
        g = {}
        for e in s.ev:
            if e[0] == 'get' and e[4] and e[4][0] == ('glob', '@files'):
                keys = tuple(keyname(k) for k in e[4][2:])
                if None not in keys:
                    g.setdefault(keys, e[3])
        out = g if out is None else {k: v for k, v in out.items() if k in g}
    if not out:
        raise AnalysisBroken('a job reads nothing')
    return out


STATIS = {'weight::SigmaClass': ('Sigma', 'ToDict'), 'weight::PolarClass': ('Polar', 'ToDict'),
          'weight::GammaGClass': ('GammaGStatis', 'StatisToDict'), 'weight::GammaWClass': ('GammaWStatis', 'StatisToDict')}


def statistics(P, res, gamma):
    """the collector gets along with exactly these entries (see pyside.collecting): the simulation writes them all"""
    leaf = [('WeightAccu',), ('NormAccu',), ('Norm',)]
    need = [(k,) + x for k in ('Sigma', 'Polar') for x in [('Histogram',), ('Histogram', 'SmoothT')] + [('Histogram', 'SmoothT') + y for y in leaf]]
    if gamma:
        need += [(k,) + x for k in ('GammaGStatis', 'GammaWStatis') for x in leaf]
    Y = environ.Layout(P)
    I = environ.interp_(P, 1, gamma)
    f = find(P, 'EnvMonteCarlo::Save')
    n = 0
    for st in environ.running(P, I, Y, 1, gamma):
        for s, _ in I.inline(f, I.split(st), A, [], None, False):
            for e in s.ev:
                if e[0] != 'saved' or e[1] != 'big' or 'Job.StatisticsFile' not in e[2]:
                    continue
                n += 1
                have = set()
                collect(P, e[4], (), have)
                for k in need:
                    if k in have:
                        res.ok('names: statistics')
                    else:
                        res.fail('names: statistics', where(f), 'the collector reads %s, the statistics file does not hold it' % '/'.join(k))
    if not n:
        raise AnalysisBroken('no statistics are saved')


def collect(P, v, pre, have):
    if isinstance(v, tuple) and v and v[0] == 'S' and v[1] == 'Dictionary':
        for k, x in v[2]:
            if k in ('', ()):
                collect(P, x, pre, have)
                continue
            name = k[0] if isinstance(k, tuple) and len(k) == 1 else None
            if name == '[@]':
                if isinstance(x, tuple) and x[0] == 'state':
                    for w in written_by(P, x[1], x[2]):
                        have.add(pre + w)
                continue
            if keyname(name) is not None:
                have.add(pre + (keyname(name),))
                collect(P, x, pre + (keyname(name),), have)


def written_by(P, cls, meth):
    k = (id(P), cls, meth, 'w')
    if k not in _cache:
        _cache[k] = writes(P, cls, meth)[1] if cls in STATIS else set()
    return _cache[k]
