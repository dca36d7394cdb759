"""The simulation and the self-consistency loop exchange files: what one side asks for is what the other one writes."""
import ast
import copy
import warnings

import pysrc
import pyabs
from pyabs import Interp, St, Frame, Bound, Ref, Num, unknown

warnings.simplefilter('ignore', SyntaxWarning)


NUMERIC = ('calculator.py', 'gamma3_calc.py', 'alternative_calc_gamma3.py', 'plot.py', 'measure.py', 'model.py', 'lattice.py')


def files(I, given):
    """the file module: what is saved is an event, what is loaded is given or unknown"""
    def save(kind):
        def h(I, st, args, kw, line, fr):
            root = kw.get('root', args[-1] if args else None)
            st.ev.append(('saved', kind, args[0], I.freeze(st, root), fr.mod, line, fr.fn))
            return [(st, None)]
        return h

    def load(kind):
        def h(I, st, args, kw, line, fr):
            st.ev.append(('loaded', kind, args[0], fr.mod, line, fr.fn))
            v = given(kind, args[0])
            return [(st, thaw(I, st, v) if v is not None else unknown('file', kind, args[0]))]
        return h
    I.prims[('IO.py', 'SaveDict')] = save('text')
    I.prims[('IO.py', 'SaveBigDict')] = save('big')
    I.prims[('IO.py', 'LoadDict')] = load('text')
    I.prims[('IO.py', 'LoadBigDict')] = load('big')


def thaw(I, st, v):
    if isinstance(v, tuple) and v and v[0] == 'dict':
        return st.new(('dict', {thaw(I, st, k): thaw(I, st, x) for k, x in v[1]}, v[2]))
    if isinstance(v, tuple) and v and v[0] == 'list':
        return st.new(('list', tuple(thaw(I, st, x) for x in v[1:])))
    if isinstance(v, tuple) and v and v[0] == 'tuple':
        return tuple(thaw(I, st, x) for x in v[1:])
    return v


def settings(duplicates, gamma):
    """the job list with the number of simulations and the treatment of vertex functions set"""
    tree = copy.deepcopy(pysrc.load('inlist.py'))
    first = [True]
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'Gamma3':
            n.value = ast.copy_location(ast.Constant(value=gamma), n.value)
        if isinstance(n, ast.Dict) and first[0]:
            for i, k in enumerate(n.keys):
                if isinstance(k, ast.Constant) and k.value == '__Duplicate':
                    n.values[i] = ast.copy_location(ast.Constant(value=duplicates), n.values[i])
                    first[0] = False
    return tree


def lookup(frozen, key):
    if isinstance(frozen, tuple) and frozen and frozen[0] == 'dict':
        for k, v in frozen[1]:
            if k == key:
                return v
    return None


def jobs(duplicates, gamma):
    """[(state, {type of job: (pid, what goes into its input file)}, basis files)]"""
    I = Interp()
    I.UNROLL = 8
    files(I, lambda k, n: None)
    st = St()
    tree = settings(duplicates, gamma)
    st.mods['inlist.py'] = st.new(('frame', {'__name__': 'inlist', '__file__': 'inlist.py'}, ()))
    fr = Frame('inlist.py', st.mods['inlist.py'], None, None, '<module>')
    out = {}
    for s, sig in I.block(tree.body, st, fr):
        if s.exc is not None or s.cut:
            continue
        basis = tuple((e[2], e[3]) for e in s.ev if e[0] == 'saved')
        todo = s.get(s.mods['inlist.py'], 'TO_DO')
        kinds = []
        for o in s.rec(todo)[1]:
            for s2, v in I.call(s, Bound(s.rec(o)[2].find('to_dict'), o), (), {}, 0, fr):
                if s2.exc is None and not s2.cut and isinstance(v, tuple):
                    d = I.freeze(s2, v[1])
                    kinds.append((lookup(lookup(d, 'Job'), 'Type'), v[0], d))
        out[(tuple(kinds), tuple(lookup(b[1], 'Basis') is not None and b[0] for b in basis))] = (s, kinds, basis)
    return list(out.values())


def solver(job):
    """ends of one round of the loop started with this input file"""
    I = Interp()
    I.UNROLL = 6
    I.budget = 3000000

    def given(kind, name):
        return job if kind == 'text' else None
    files(I, given)
    I.prims[('dyson/logger.py', 'Assert')] = pyabs.p_nothing     # an assertion only ever stops the run
    I.cap = 120
    I.summary = lambda mod: mod.split('/')[-1] in NUMERIC
    ends = I.module(St(), 'dyson/main.py', '__main__')
    return I, ends
