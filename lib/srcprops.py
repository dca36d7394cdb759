"""Properties of ordinary functions: measurement, tables, lattice, accumulators, files."""
from registry import Result, Property
from mcprops import load

TEXT = 'Abstract interpretation of the functions from symbolic arguments (normal forms of polynomials, partitioned on the finite case distinctions). '
BASE = ['arithmetic is exact', 'imaginary times lie in [0, beta), sites inside the lattice, sizes are positive']


def over(*fs):
    def run(tier):
        U = load()
        res = Result()
        for f in fs:
            mod, fn = f.split('.')
            m = __import__(mod)
            getattr(m, fn)(U if mod == 'measure' else U.p, res)
        return res
    return run


PROPS = {p.pid: p for p in [
    Property('P15', over('measure.run'), 'Abstract interpretation of the measuring step from a symbolic diagram. Obligation: for every combination of '
             'worm, order, measured line and vertex-function state exactly the right accumulators are called, with the ends of the measuring '
             'line, the phase and the inverse re-weighting factors; the diagram is not written.', BASE,
             {'diagram untouched': 20, 'visits': 30, 'measured function': 6, 'normalisation': 4, 'nothing else is measured': 20}),
    Property('P16', over('weightfns.orientation'), TEXT + 'Obligation: the directed form of a line-weight lookup is the undirected form applied to '
             'the ends in the order of the direction; a line touching the worm is looked up with all spins up; every kind of line uses its own '
             'table, the time-order sign goes with the smooth propagator only.', BASE, {'orientation': 16, 'table': 8, 'worm line': 8}),
    Property('P17', over('weightfns.indices', 'accum.measure', 'accum.gamma', 'accum.gammaw', 'accum.alloc'), TEXT + 'Obligation: every index is '
             'the mixed-radix number of its digits in the shape of the table, the table has exactly that many elements, time differences fall '
             'into equal bins of one period, a measurement goes to the bin that a lookup with the same arguments reads, once, with the right factor.',
             BASE, {'shape': 10, 'index': 3, 'time bin': 3, 'bin of a measurement': 2, 'norm of a measurement': 3, 'table size': 9, 'first contents': 7,
                    'vertex function of a propagator': 4, 'vertex function of an interaction': 40, 'measured where it is looked up': 40}),
    Property('P18', over('lattice.run'), TEXT + 'Obligation: the number of a cell is the mixed-radix number of its coordinates, its inverse gives '
             'the cell back, the displacement of two cells is its periodic image, equality compares cell and sublattice.', BASE,
             {'site number': 3, 'periodic displacement': 8, 'site equality': 8, 'lattice sizes': 3}),
    Property('P19', over('accum.squeeze', 'accum.discard', 'accum.estimator'), TEXT + 'Obligation: discarding history divides every sum and every '
             'norm by the same factor, in every accumulator, every order and every bin (loops are shown to visit all elements once); a visit adds '
             'its value to the sum and one to the norm.', BASE, {'discarding history': 8, 'every accumulator': 12, 'every order': 6, 'visits are counted': 4}),
    Property('P20', over('numbers_.complex_laws', 'numbers_.tests', 'numbers_.roots', 'numbers_.momentum'), TEXT + 'Obligation: every operator of the '
             'complex type equals its definition in real and imaginary parts (normal forms compared, mixed real operands included), the compound '
             'assignments agree with the operators, tests and powers treat zero and negative reals right; momentum sums stay in the range and agree '
             'modulo the range with integer sums.', ['arithmetic is exact'], {'complex': 60, 'momentum': 30}),
    Property('P21', over('numbers_.random_', 'numbers_.draws', 'numbers_.source'), TEXT + 'Obligation: the uniform draw is the generator\'s word scaled '
             'into [0,1), integer draws reach exactly the closed range, each choice of the moves takes its values with equal chance (or the density '
             'returned next to it); over the call graph of the chain, no function draws from anything but the generator of the parameters.', BASE,
             {'one generator': 10, 'distribution of a draw': 5, 'range of a random number': 1, 'range of a random integer': 1}),
    Property('P22', over('store.run'), TEXT + 'Obligation: adding takes the first free place and one more component is live, adding to a full store '
             'is refused, removing keeps every other component reachable and frees exactly one, access and random choice only reach live components.',
             ['component names are the positions in the table of live components (checked inductively)'],
             {'room for a new component': 3, 'removed component': 6, 'access': 6, 'random component': 3}),
    Property('P23', over('saved.run', 'saved.renew'), TEXT + 'The dictionary is modelled as a map from constant keys to values. Obligation: for every shape of diagram '
             '(elements, worm, measuring line) saving followed by loading into an empty diagram reproduces every stored field, every link and mark, the worm, '
             'and weights looked up again from the same arguments; recomputing weights keeps everything else.', BASE,
             {'saving changes nothing': 16, 'number of elements': 60, 'stored data': 300, 'ends': 120, 'worm': 40, 'links': 300, 'marks': 200, 'weights': 100, 'tables': 50,
              'objects': 40, 'the rest is kept': 12}),
    Property('P24', over('saved.first'), TEXT + 'Obligation: the diagram a new run starts from has two vertices, two propagators, one interaction and no worm, with '
             'links, momenta, spins, sites, times, marks, weights and sign satisfying every structural rule of the chain.', BASE,
             {'number of elements': 2, 'ends': 5, 'marks': 8, 'worm': 1, 'links': 10, 'weights': 4, 'tables': 4, 'momentum': 3, 'spin and place': 10, 'sign': 1}),
    Property('P25', over('environ.begin', 'restart.fresh'), TEXT + 'Obligation: starting a run hands the parameters read from the file to every part, reads the line '
             'functions, connects every pointer to the object it stands for, and every accumulator and norm starts from zero.', BASE,
             {'parts': 24, 'functions': 50, 'empty': 70, 'connections': 70, 'files': 18}),
    Property('P26', over('environ.run', 'restart.parameters', 'restart.estimator', 'restart.tables'), TEXT + 'Files and dictionaries are modelled as maps from constant '
             'names to values. Obligation: loading what was saved gives back every parameter, generator state, accumulator, norm and line function, and connects the parts as before; '
             'saving writes nothing but the files.', BASE,
             {'saving changes nothing': 12, 'parameters': 15, 'derived parameters': 4, 'accumulators': 10, 'accumulated functions': 8, 'tables': 3, 'when': 6, 'files': 3, 'fallback': 100,
              'parts': 90, 'functions': 50, 'connections': 70}),
    Property('P27', over('environ.anneal', 'restart.temperature', 'accum.squeeze'), TEXT + 'Obligation: after a message of the self-consistency loop every part holds the new temperature, '
             'line functions are replaced by the new ones, the diagram weights are recomputed after that, and the accumulated functions stand for the same averages; '
             'an unchanged or missing message leaves everything alone.', BASE,
             {'kept': 5, 'result': 6, 'when': 10, 'parameters': 12, 'functions': 20, 'temperature': 70, 'connections': 40, 'statistics': 4, 'checked': 4, 'measured': 8}),
    Property('P28', over('reweight.run'), TEXT + 'Obligation: for every order and both states of the vertex functions, re-weighting factors only change when every sector '
             'involved has enough visits, and then by the ratio of wanted to observed visits of neighbouring sectors; nothing else is written.', BASE,
             {'nothing else': 100, 'enough': 300, 'factors': 150}),
    Property('P29', over('effects.run'), 'Interprocedural effect analysis over the type-checked syntax trees (locations as access paths, pointers and references followed '
             'through initialisers, assignments and calls, to a fixed point). Obligation: no function reachable from an observer writes anything but its own variables, results and the log.',
             ['library functions write only what their signature allows'], {'observers change nothing': 50}),
    Property('P30', over('returns.run'), 'Structural flow analysis of every function that returns a value: no path reaches its end without a return, a throw or a call that never comes back.',
             [], {'a result on every path': 300}),
    Property('P31', over('checkdiag.run'), TEXT + 'Obligation: the self-check answers yes on small diagrams (order 0 to 2, every placement of measuring line, worm, '
             'instantaneous line and vertex function) whose symbolic data obey every rule, and on no path after one field was given another value.', BASE,
             {'a good diagram is accepted': 40, 'number of elements': 300, 'links': 2500, 'spins': 300, 'marks': 350, 'momenta': 200, 'weights': 400, 'times': 80}),
    Property('P32', over('runloop.interrupts', 'runloop.saves'), 'Abstract interpretation of the interrupt handler over the disposition of every signal (a signal may arrive before and after every '
             'change of a disposition) and of the run loop. Obligation: a signal ends the program at once outside a protected section, is remembered inside one and ends the program when it is left, '
             'and the state is only saved inside one.', ['delivery of a signal is atomic with respect to the statements of the handler'],
             {'comes back': 1, 'tells': 2, 'ends at once': 2, 'waits': 2, 'ends afterwards': 2, 'never lost': 2, 'protected': 3, 'ends': 3}),
    Property('P33', over('runloop.steps', 'runloop.clocks'), TEXT + 'Every loop of the run is walked once from an arbitrary state. Obligation: the run is prepared once as the job says, warms up the wanted '
             'number of sweeps without measuring, and every further step is one sweep and one measurement; reports, checks, saves, messages and adjustments happen exactly when their interval has passed.', BASE,
             {'prepared': 2, 'warm-up': 4, 'one measurement': 20, 'when due': 30, 'checked': 5, 'intervals': 8}),
    Property('P34', over('jobs.run', 'jobs.messages', 'jobs.process'), TEXT + 'Files are modelled as maps from constant names to values, names of files as the list of their pieces. Obligation: a job holds what its '
             'file says and is of a known kind; the files it writes differ from each other and from those of every other job; a message arrives as it was sent; the arguments name the job, which is carried out once.', BASE,
             {'what is asked': 8, 'known kinds': 2, 'own files': 9, 'message': 6, 'no message': 4, 'arguments': 12, 'carried out': 4}),
    Property('P35', over('pyside.grids', 'weightfns.indices'), 'Abstract interpretation of the Python sources of the solver (normal forms over symbolic sizes, in one to three dimensions) and of the '
             'index functions of the simulation. Obligation: both sides number cells, sites, spin pairs and time bins by the same expressions and give their tables the same shape; '
             'the inverse of the cell number gives the cell back; the listed spin components are all that conserve spin, once each.', ['arithmetic is exact', 'sites inside the lattice, sizes are positive'],
             {'solver sites': 18, 'solver time bins': 4, 'solver spins': 20, 'solver tables': 4, 'index': 3, 'shape': 10, 'time bin': 3}),
    Property('P36', over('pyside.merging', 'pyside.collecting'), 'Abstract interpretation of the Python sources: sequences of merged results with symbolic values and weights, and collections of one to '
             'five statistics files with symbolic contents of which some cannot be read, lack an entry or have another normalisation. Obligation: the table equals the weighted mean of what was merged, '
             'taking back leaves the mean of the others; values and normalisations are summed over the same files, which include every good one.', ['arithmetic is exact', 'Fourier transforms are linear and inverse to each other'],
             {'merged mean': 12, 'taken back': 18, 'not accumulated': 8, 'collected': 120, 'too few': 6}),
    Property('P37', over('pyloop.rounds', 'pyloop.publishing'), 'Abstract interpretation of the main loop of the solver over two or three rounds, each of which can succeed or fail in the collection or in the '
             'solution (numerics uninterpreted). Obligation: a failing round leaves line functions and accumulations as they were and publishes nothing; a good one saves its functions and parameters, protected '
             'from interrupts, before the message with its version is sent.', ['the numerical modules do not keep references to the accumulated tables'],
             {'failing round undone': 100, 'goes on': 40, 'good round kept': 60, 'failing round silent': 20, 'published': 100, 'interrupts wait': 30}),
    Property('P38', over('exchange.names'), 'Both programs are interpreted abstractly with files as maps from constant names to values. Obligation: every entry one program cannot do without is written by the other '
             'under the same name: line functions, messages, job files, basis files, statistics.', ['entries are looked up by constant names'],
             {'names: weights': 40, 'names: messages': 12, 'names: jobs': 60, 'names: basis': 16, 'names: statistics': 20}),
    Property('P39', over('pyfft.transforms', 'pyfft.vertex'), 'Abstract interpretation of the Python sources: every pair of requests for a domain, followed by the way home, on tables with and without '
             'time, symmetric or not, with and without accumulated sums, in one to three dimensions. A table is a word of phases and transforms over its initial value; phases next to each other add up and a transform '
             'next to its inverse cancels. Obligation: the word is that of the requested domain, for the table and for the sums; vertex functions are transformed along every axis once and back along the same.',
             ['arithmetic is exact', 'the library transforms are linear and inverse to each other', 'tables are values (no two share storage)', 'grids of two to four bins stand for all: the phases are affine in the bin'],
             {'transforms': 2000, 'accumulated part': 1000, 'domains': 2000, 'vertex transforms': 6}),
    Property('P40', over('pymodel.couplings'), 'Abstract interpretation of the set-up of every model on every lattice in one to three dimensions with symbolic coupling strengths, over sizes two, three and arbitrary. '
             'Obligation: the entry of the bare interaction between two sites, read from either end (spins exchanged, displacement reversed and folded back into the lattice), is the same expression.',
             ['arithmetic is exact', 'sites inside the lattice, sizes are positive'], {'coupling named from either end': 600}),
]}
