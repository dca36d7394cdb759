"""A process and its job: what it is asked to do, which files are its own, and the messages it is sent."""
from terms import Num, show
from absint import NULL, Interp, strip
from frontend import AnalysisBroken
from plain import find, symargs, where, SrcDomain, base_match
from oblig import facts
import dicts
import environ
from environ import FILES, norm
from saved import rd

JOB, MSG, OTHER = ('p', 'JOB'), ('p', 'MSG'), ('p', 'MSG2')


def flat(v):
    """pieces of a text"""
    if isinstance(v, tuple) and v and v[0] == 'cat':
        return flat(v[1]) + flat(v[2])
    x = dicts.text(v)
    return [x]


def joined(v):
    out = []
    for x in flat(v):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


def source(v):
    """(section of the file, key) of something read"""
    if isinstance(v, bool):
        return None
    if isinstance(v, Num):
        v = v.single()
    if isinstance(v, tuple) and v and v[0] == 'truth':
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == 'fld':
        b, p = norm((v[1], v[2]))
        if b == FILES and p and p[0].startswith('text '):
            return p[0][len('text '):], tuple(p[1:])
    return None


def append(I, e, st, fr, lv):
    out = []
    for s, l in environ.objloc(I, e, st, fr):
        for s2, vs in I.vals(e, s, fr):
            x, y = dicts.text(s2.n(I.read(s2, l, 'std::basic_string<char>')[0][1])), dicts.text(s2.n(vs[0]))
            I.write(s2, l, ('str', x + y) if isinstance(x, str) and isinstance(y, str) else ('cat', x, y), I.where(fr, e))
            out.append((s2, l if lv else NULL))
    return out


def note(what):
    def h(I, e, st, fr, lv):
        out = []
        for s, vs in I.vals(e, st, fr):
            s.ev.append((what, [s.n(v) for v in vs], I.where(fr, e)))
            out.append((s, NULL))
        return out
    return h


def member(I, e, st, fr, lv):
    """questions to a set of texts"""
    nm = e['f']['name'].split('<')[0]
    out = []
    for s, l in environ.objloc(I, e, st, fr):
        base = s.n(I.read(s, l, e['f'].get('cls') or '')[0][1])
        if nm in ('end', 'cend'):
            out.append((s, ('end of', base)))
            continue
        for s2, vs in I.vals(e, s, fr):
            key = ('truth', ('among', base, s2.n(vs[0])))
            if nm == 'find':
                out.append((s2, ('place in', base, s2.n(vs[0]))))
            else:
                for s3, b in I.branch(s2, key):
                    out.append((s3, Num.c(1 if b else 0)))
    return [(s, I.temp_loc(s, v) if lv else v) for s, v in out]


def places(I, e, st, fr, lv):
    out = []
    for s, vs in I.vals(e, st, fr):
        x, y = s.n(vs[0]), s.n(vs[1])
        if isinstance(x, tuple) and x and x[0] == 'end of':
            x, y = y, x
        if not (isinstance(x, tuple) and x and x[0] == 'place in' and isinstance(y, tuple) and y[0] == 'end of' and y[1] == x[1]):
            out.append((s, ('truth', ('places', s.fresh()))))
            continue
        for s2, b in I.branch(s, ('truth', ('among', x[1], x[2]))):
            out.append((s2, b if e['f']['name'] == 'operator!=' else not b))
    return out


def lookup(f, e):
    nm = f['name'].split('<')[0]
    cls = f.get('cls') or ''
    if e.get('k') == 'call':
        if 'basic_string<' in cls and nm in ('operator+=', 'append') and len(e.get('a', [])) == 1:
            return append
        if cls.startswith('std::set<') and nm in ('find', 'end', 'cend', 'count'):
            return member
        if nm in ('operator==', 'operator!=') and any('_Rb_tree' in x for x in f.get('pt', []) + [cls]):
            return places
        if nm == 'to_string' and f['qn'].startswith('std::'):
            return environ.tostring
    return environ.match(f, e)


def machine(P):
    I = Interp(P, environ.Domain(), {'match': lookup})
    I.ptr_arith = True
    I.MERGE = False
    I.CATCH = True
    I.para = environ.Layout(P).para
    I.case = {}
    return I


def kinds(v):
    """the texts of a set"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'str' and isinstance(x[1], str):
                out.add(x[1])
                return
            for y in x:
                go(y)
    go(v)
    return out


def run(P, res):
    fn = find(P, 'para::Job::Job', lambda f: len(f['params']) == 1)
    rec = P.recs['para::Job']['fields']
    I = machine(P)
    n = 0
    texts = [f['name'] for f in rec if 'basic_string' in strip(f['t']) and 'set<' not in f['t']]

    def need(rule, cond, msg, s):
        if cond:
            res.ok(rule)
        else:
            res.fail(rule, where(fn), msg, facts(s))
    for s, _ in I.inline(fn, I.new_state(), JOB, symargs(I, fn, ['file']), None, False):
        n += 1
        got = {}
        for f in rec:
            if 'set<' not in f['t']:
                got[f['name']] = s.n(rd(I, s, JOB, (f['name'],), f['t']))
        asked = {k: source(v) for k, v in got.items()}
        for k in ('Type', 'DoesLoad', 'Sample', 'PID', 'WeightFile', 'MessageFile'):
            if k not in got:
                raise AnalysisBroken('no %s in a job' % k)
            need('what is asked', asked[k] == ('', ('[Job]', '[%s]' % k)), '%s of a job is not what the job file says: %s' % (k, show(got[k]) if asked[k] is None else ' '.join(asked[k][1])), s)
        need('what is asked', got['InputFile'] == ('fld', ('p', 'file'), (), 'std::basic_string<char>') or got['InputFile'] == I.read(s, (('p', 'file'), ()), 'std::basic_string<char>')[0][1],
             'the parameters are not read from the file the job came from', s)
        need('what is asked', all(e[2] == '' for e in s.ev if e[0] == 'loaded'), 'a job is read from another file', s)
        # known kinds only
        about = [(k, v) for k, v in s.bools.items() if k[0] == 'truth' and isinstance(k[1], tuple) and k[1][0] == 'among' and source(k[1][2]) == ('', ('[Job]', '[Type]'))]
        need('known kinds', about and all(v for k, v in about), 'a job of an unknown kind is accepted', s)
        for k, v in about:
            need('known kinds', 'MC' in kinds(k[1][1]), 'simulations are not a known kind of job', s)
        # files of its own
        mine = [('fld', FILES, ('text ', '[Job]', '[PID]'), 'int')]
        names = {}
        for k in ('ParaFile', 'StatisticsFile', 'LogFile'):
            if k not in got:
                raise AnalysisBroken('no %s in a job' % k)
            v = joined(got[k])
            names[k] = v
            pos = [i for i, x in enumerate(v) if isinstance(x, tuple) and x[0] == 'text' and source(x[1]) == ('', ('[Job]', '[PID]'))]
            kind = [i for i, x in enumerate(v) if source(x) == ('', ('[Job]', '[Type]'))]
            alien = [x for i, x in enumerate(v) if not isinstance(x, str) and i not in pos + kind]
            apart = pos and all(isinstance(x, str) for x in v[:pos[0]]) and (pos[0] + 1 == len(v) or isinstance(v[pos[0] + 1], str) and not v[pos[0] + 1][0].isdigit())
            need('own files', apart, 'jobs of different numbers can write to one file: %s' % ' '.join(show(x) if not isinstance(x, str) else x for x in v), s)
            if alien and kind:
                res.skipped.append('kinds of jobs in the name %s' % show(got[k]))
                continue
            need('own files', len(kind) == 1, 'jobs of different kinds write to one file: %s' % ' '.join(show(x) if not isinstance(x, str) else x for x in v), s)
        ks = sorted(names)
        for a in ks:
            for b in ks:
                if a < b:
                    x, y = names[a], names[b]
                    xs, ys = x[-1] if isinstance(x[-1], str) else '', y[-1] if isinstance(y[-1], str) else ''
                    xp, yp = x[0] if isinstance(x[0], str) else '', y[0] if isinstance(y[0], str) else ''
                    diff = not (xs.endswith(ys) or ys.endswith(xs)) or not (xp.startswith(yp) or yp.startswith(xp))
                    need('own files', diff, '%s and %s of a job may be one file' % (a, b), s)
    if not n:
        res.fail('what is asked', where(fn), 'no job can be read', '')
    res.analysed.append({'function': fn['fn'], 'ways': n})


def messages(P, res):
    save, load = find(P, 'para::Message::Save'), find(P, 'para::Message::Load')
    rec = P.recs['para::Message']['fields']
    I = machine(P)

    def need(rule, fn, cond, msg, s):
        if cond:
            res.ok(rule)
        else:
            res.fail(rule, where(fn), msg, facts(s))
    told = 0
    for s, _ in I.inline(save, I.new_state(), MSG, symargs(I, save, ['file']), None, False):
        ws = [e for e in s.ev if e[0] == 'saved']
        need('message', save, len(ws) == 1 and ws[0][1:3] == ('text', '') and ws[0][3].startswith('w'), 'a message is not written to its file, alone', s)
        for f in rec:
            need('message', save, s.n(rd(I, s, MSG, (f['name'],), f['t'])) == rd(I, I.new_state(), MSG, (f['name'],), f['t']), 'sending a message changes its %s' % f['name'], s)
        for s2, r in I.inline(load, s, OTHER, symargs(I, load, ['file']), None, False):
            r = s2.n(r)
            if r is False:
                continue
            told += 1
            for f in rec:
                a, b = s2.n(rd(I, s2, MSG, (f['name'],), f['t'])), s2.n(rd(I, s2, OTHER, (f['name'],), f['t']))
                need('message', load, a == b, '%s of a message arrives as %s' % (f['name'], show(b)), s2)
    need('message', load, told, 'no message ever arrives', I.new_state())
    seen = set()
    for s, r in I.inline(load, I.new_state(), MSG, symargs(I, load, ['file']), None, False):
        r = s.n(r)
        got = [e for e in s.ev if e[0] == 'loaded']
        missing = [e for e in s.ev if e[0] == 'caught']
        seen.add(bool(missing))
        need('no message', load, r is (not missing), 'a message is said to be %s' % ('there although it is not' if r is True else 'missing although it is there'), s)
        if missing:
            for f in rec:
                need('no message', load, s.n(rd(I, s, MSG, (f['name'],), f['t'])) == rd(I, I.new_state(), MSG, (f['name'],), f['t']), '%s changes although there is no message' % f['name'], s)
        else:
            need('message', load, len(got) == 1 and got[0][1:3] == ('text', ''), 'a message is read from another file', s)
    need('no message', load, True in seen, 'the absence of a message stops the run', I.new_state())
    res.analysed.append({'functions': [save['fn'], load['fn']]})


def process(P, res):
    """what a process does with its arguments"""
    fn = find(P, 'main')
    KIND = ('kind of the job',)

    def match(f, e):
        nm = f['name'].split('<')[0]
        cls = f.get('cls') or ''
        if e.get('k') == 'ctor' and cls == 'para::Job' and not e.get('copy'):
            return Made()
        if e.get('k') == 'call':
            if f['qn'] == 'MonteCarlo':
                return carried
            if f['qn'] == 'RunTest' or f['qn'].startswith('Python::'):
                return note('aside')
            if nm in ('strcmp', 'operator==', 'operator!=', 'compare') and (nm == 'strcmp' or any('basic_string' in p for p in f.get('pt', [])) or 'basic_string' in cls):
                return compared(nm)
        return lookup(f, e)

    def carried(I, e, st, fr, lv):
        out = []
        for s, xs in environ.actuals(I, e, st, fr):
            s.ev.append(('carried out', xs, I.where(fr, e)))
            out.append((s, NULL))
        return out

    class Made(object):
        def __call__(self, I, e, st, fr, lv):
            out = []
            for s, vs in I.vals(e, st, fr):
                s.ev.append(('job', s.n(vs[0]), I.where(fr, e)))
                out.append((s, ('S', 'para::Job', ((('Type',), KIND),))))
            return out

        def construct(self, I, e, st, fr, b):
            out = []
            for s, vs in I.vals(e, st, fr):
                s.ev.append(('job', s.n(vs[0]), I.where(fr, e)))
                I.write(s, (b, ('Type',)), KIND, I.where(fr, e))
                out.append(s)
            return out

    def compared(nm):
        def h(I, e, st, fr, lv):
            out = []
            sts = [(st, [])]
            for x in ([e['obj']] if e.get('obj') else []) + e.get('a', [])[:2]:
                sts = [(s2, vs + [piece(s2.n(v))]) for s, vs in sts for s2, v in I.ev(x, s, fr)]
            for s, vs in sts:
                for s2, yes in equal(s, *vs[:2]):
                    out.append((s2, yes if nm == 'operator==' else (not yes) if nm == 'operator!=' else Num.c(0 if yes else 1)))
            return out
        return h

    def piece(v):
        v = dicts.text(v)
        return v if isinstance(v, str) else repr(v)

    def equal(s, x, y):
        texts = [v for v in (x, y) if v in LITERALS]
        if len(texts) == 2 or x == y:
            return [(s, x == y)]
        out = []
        key = ('truth', ('same text', frozenset((x, y))))
        for yes in (True, False):
            if s.bools.get(key, yes) != yes:
                continue
            rest = {x, y} - set(texts)
            if yes and any(v and k[0] == 'truth' and isinstance(k[1], tuple) and k[1][0] == 'same text' and k != key and rest & k[1][1] for k, v in s.bools.items()):
                continue
            s2 = I.split(s)
            s2.bools[key] = yes
            out.append((s2, yes))
        return out

    class Texts(object):
        def __contains__(self, v):
            return not v.startswith('(')
    LITERALS = Texts()
    I = Interp(P, environ.Domain(), {'match': match})
    I.ptr_arith = True
    I.MERGE = False
    I.CATCH = True
    I.para = environ.Layout(P).para
    I.case = {}
    argc, argv = Num.atom(('fld', ('p', 'argc'), (), 'int')), ('p', 'argv')

    def need(rule, cond, msg, s):
        if cond:
            res.ok(rule)
        else:
            res.fail(rule, where(fn), msg, facts(s))
    arg = lambda i: repr(dicts.text(I.read(I.new_state(), (argv, (i,)), 'const char *')[0][1]))
    seen = set()
    for s, r in I.inline(fn, I.new_state(), None, [argc, argv], None, False):
        yes = {tuple(sorted(k[1][1])) for k, v in s.bools.items() if v and k[0] == 'truth' and isinstance(k[1], tuple) and k[1][0] == 'same text'}
        opt = {x for k in yes for x in k if arg(1) in k and x != arg(1)}
        jobs = [e for e in s.ev if e[0] == 'job']
        done = [e for e in s.ev if e[0] == 'carried out']
        need('arguments', s.decide_eq0(s.n(argc - Num.c(3))) is True, 'the program goes on with a number of arguments other than two', s)
        need('arguments', len(jobs) == 1 and len(opt) == 1, 'the program goes on although its arguments say nothing', s)
        if len(jobs) != 1 or len(opt) != 1:
            continue
        o = opt.pop()
        seen.add(o)
        v = joined(jobs[0][1])
        v = [x if isinstance(x, str) else ('argument', 2) if repr(x) == arg(2) else x for x in v]
        if o in ('-f', '--file'):
            need('arguments', v == [('argument', 2)], 'the job is not read from the file given: %s' % v, s)
        elif o in ('-p', '--PID'):
            need('arguments', len(v) == 2 and isinstance(v[0], str) and v[0] and v[1] == ('argument', 2), 'the file of the job does not follow from its number: %s' % v, s)
        else:
            need('arguments', False, 'an option nobody knows is accepted: %s' % o, s)
        mc = s.bools.get(('truth', ('same text', frozenset((repr(KIND), 'MC')))))
        need('carried out', len(done) == (1 if mc else 0), 'a simulation is carried out %d times for a job that %s one' % (len(done), 'is' if mc else 'is not'), s)
    need('arguments', {'-f', '-p'} <= seen, 'a way to name the job is gone: %s' % sorted(seen), I.new_state())
    res.analysed.append({'function': fn['fn'], 'options': sorted(seen)})
