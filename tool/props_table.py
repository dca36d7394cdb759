prop('P01', 'A move that is not accepted changes nothing',
     'Whenever a proposed move is refused, or returns before its acceptance test, the diagram is exactly what it was before: no element is added or removed and no stored quantity differs. Acceptance is decided by comparing one uniform draw in [0,1) with the ratio of the move.',
     ['histories', 'inputs'], ALLH, WHY, [MK, G3], [('acceptance blocks of the updates', MK + ', ' + G3)],
     [('diagram', 'elements, links, momenta, weights, flags and worm of the sampled diagram')], 'the diagram before and after one call of an update')
prop('P03', 'Diagram links are mutual and complete after every accepted move',
     'In every sampled diagram each vertex has exactly one incoming propagator, one outgoing propagator and one interaction, and each line\'s recorded ends point back to it with the right direction. No live element or worm end ever refers to a removed element.',
     ['histories', 'inputs'], ALLH, WHY, [MK, G3, CP, 'src/module/diagram/component.h'],
     [('link updates in the acceptance blocks', MK + ', ' + G3), ('link accessors', CP)], [('links', 'line ends, vertex neighbours, vertex direction')], 'the diagram after an accepted update')
prop('P04', 'Momentum is conserved at every vertex',
     'At every vertex of every sampled diagram incoming momentum equals outgoing momentum, counting the interaction\'s momentum by its direction and the worm\'s momentum at the two worm ends.',
     ['histories', 'inputs'], ALLH, WHY, [MK, G3, 'src/utility/momentum.cpp'], [('momentum assignments of the updates', MK)],
     [('momenta', 'momentum of lines and of the worm')], 'the diagram after an accepted update')
prop('P05', 'Stored line weights and total weight always match the diagram',
     'After every accepted move each line\'s stored weight is the weight function of its current ends, spins, times and flags, and the total weight has changed by exactly the product of the weight changes including the sign of closed loops. The stored phase follows the total weight.',
     ['histories', 'inputs'], ALLH, WHY, [MK, G3, 'src/module/weight/component_MC.cpp'],
     [('weight ratio and refresh in every update', MK + ', ' + G3)], [('weights', 'stored weight of each line, total weight, phase, loop sign, worm weight')], 'the diagram after an accepted update')
prop('P06', 'Momentum occupancy tables match the lines of the diagram',
     'After every accepted move the occupancy tables of propagator and interaction momenta contain exactly the momenta of the lines present. No move gives a line a momentum already taken by another line of its kind, and no interaction gets momentum zero.',
     ['histories', 'inputs'], ALLH, WHY, [MK, DG], [('occupancy checks and updates', MK + ', ' + DG)],
     [('occupancy tables', 'one entry per momentum of a propagator / absolute momentum of an interaction')], 'the tables after an accepted update')
prop('P07', 'Element counts follow the order, which stays within its limits',
     'A diagram of order n holds n interactions, 2n propagators and 2n vertices (order zero keeps the elements of order one). No move takes the order above the configured maximum or below zero.',
     ['histories', 'inputs', 'configurations'], ALLH, WHY, [MK, DG], [('order changes of the updates', MK)],
     [('order', 'recorded order and number of elements of each kind')], 'the diagram after an accepted update')
prop('P08', 'Exactly one measuring line, and the vertex-function marks are consistent',
     'Every sampled diagram of order one or more has exactly one measuring line, the recorded one, of the recorded kind. A line is marked as extended by a vertex function exactly when it is the recorded extended line of the recorded kind, and it is never the measuring line.',
     ['histories', 'inputs'], ALLH, WHY, [MK, G3], [('measuring-line moves', MK), ('vertex-function moves', G3)],
     [('measuring line', 'its kind, the recorded line, the per-line marks'), ('vertex-function state', 'kind and ends of the extended line')], 'the diagram after an accepted update')
prop('P09', 'Interactions are marked as worm lines exactly when a worm end is on them',
     'After every accepted move an interaction is marked as touching the worm if and only if a worm exists and one of its two ends is on that interaction. Two distinct vertices are the worm ends whenever a worm exists.',
     ['histories', 'inputs'], ALLH, WHY, [MK, DG], [('worm moves', MK)], [('worm', 'existence, ends, per-interaction marks')], 'the diagram after an accepted update')
prop('P10', 'Proposal and acceptance statistics count each move once',
     'Each call that reaches its acceptance test counts one proposal, and one acceptance if it is accepted, under that move\'s own kind and the order the diagram had before the move; calls that stop earlier count nothing.',
     ['histories', 'inputs'], ALLH, WHY, [MK, G3], [('counters in the updates', MK + ', ' + G3)], [('statistics', 'proposals and acceptances per kind and order')], 'the counters before and after one call of an update')
prop('P11', 'Moves are called with the probabilities the acceptance ratios assume',
     'With the vertex-function moves switched on or off, each step of the chain draws one random number and performs at most one move, and each move is called with exactly the probability recorded for its kind, the one its acceptance ratio uses. The recorded probabilities are not negative and add up to one, each step advances the step counter by one, and the move statistics start at zero when the chain is built.',
     ['configurations', 'histories'], ALLH, WHY, [MK, 'src/module/markov/markov.h'], [('dispatch of the moves', MK + ' Hop'), ('call probabilities', MK + ' BuildNew')],
     [('call probabilities', 'probability and cumulative probability of each kind of move')], 'which move one step performs as a function of its draw')
prop('P12', 'A propagator carries one spin',
     'After every accepted move the outgoing spin at the start of each propagator equals the incoming spin at its end.',
     ['histories', 'inputs'], ALLH, WHY, [MK, G3, CP], [('spin assignments of the updates', MK), ('spin accessors', CP)], [('spins', 'incoming and outgoing spin of each vertex')], 'the diagram after an accepted update')
prop('P13', 'Instantaneous interactions have equal times at both ends',
     'In every sampled diagram an interaction marked instantaneous has the same imaginary time at its two ends and is neither the measuring line nor extended by a vertex function.',
     ['histories', 'inputs'], ALLH, WHY, [MK, G3], [('moves between instantaneous and continuous interactions', MK)], [('instantaneous mark', 'per interaction')], 'the diagram after an accepted update')
prop('P02', 'Every move is in detailed balance with its reverse',
     'The acceptance ratio of each move is the modulus of the weight ratio times the ratio of re-weighting factors and of the chances of proposing the reverse and the forward change, so a move and its reverse have ratios whose product is one. From every state a move can reach, the reverse move can be proposed and reaches its acceptance test.',
     ['histories', 'inputs', 'configurations'], ALLH, WHY, [MK, G3], [('acceptance ratios and early returns of the updates', MK + ', ' + G3)],
     [('re-weighting', 'factors per order, for the worm sector and per measured quantity'), ('proposal', 'random draws of each update')], 'the ratio that one uniform draw is compared with, and the state after acceptance')
prop('P14', 'Propagators join vertices of the same lattice site',
     'In every sampled diagram both ends of each propagator lie on the same lattice site (unit cell and sublattice); moves that exchange, split or merge propagators or change sites keep this true.',
     ['histories', 'inputs', 'configurations'], ALLH, WHY, [MK, G3], [('site assignments of the updates', MK + ', ' + G3)],
     [('sites', 'lattice site of each vertex')], 'the diagram after an accepted update')
CM = 'src/module/weight/component_MC.cpp'
G3W = 'src/module/weight/gamma3.cpp'
AIF = 'abstract interpretation of the functions over symbolic arguments (polynomial normal forms, path partitioning)'
NOTEF = ('Decided for all arguments by interpreting the functions symbolically; trusts the clang AST, the exporter, the interpreter and its rewrite '
         'rules; arithmetic is exact (no rounding or overflow).')
IN = 'every argument, table size, lattice and configuration'
WHYF = 'the repository tests a few arguments on one lattice; the functions must agree for every spin, site, time, order and size'
prop('P15', 'Measuring adds the diagram to exactly the right accumulator',
     'Each measuring step counts one visit for the current order and sector and, if there is no worm, adds the phase divided by the order\'s re-weighting factor (and by that of the vertex function) for the measured function, with the ends of the measuring line, or the inverse factor to the norm at order zero. Polarization is measured with a minus sign, nothing else is measured, and the diagram and parameters are left as they are.',
     ['histories', 'inputs', 'configurations'], ALLH, WHY, ['src/module/markov/markov_monitor.cpp'], [('measuring step', 'src/module/markov/markov_monitor.cpp Measure')],
     [('accumulators', 'visits per order and sector, self-energy, polarization, vertex functions, norms')], 'the accumulator calls of one measuring step',
     technique='abstract interpretation of the measuring step over symbolic diagrams', note=NOTEF)
prop('P16', 'Line weights do not depend on which end is named first',
     'Looking up a propagator or interaction from either of its ends, with the matching direction, reads the same table element with the same sign. Lines touching the worm read the weight for all spins up, and the measuring line, instantaneous lines, lines extended by a vertex function and ordinary lines each read their own table; the sign of a propagator that runs backwards in time goes with ordinary ones only.',
     ['inputs', 'configurations'], IN, WHYF, [CM], [('line-weight lookups', CM)], [('tables', 'smooth, instantaneous, measuring-line and vertex-function weights')],
     'the value of a lookup', technique=AIF, note=NOTEF)
prop('P17', 'Table indices are one-to-one and measurements land where lookups read',
     'Distinct spins, sublattices, displacements and time bins have distinct indices inside the table, for lookups and for measurements, with equal time bins over one period. A measurement adds its value once, to the block of its order and the bin of its arguments, with the sign or symmetry factor of that function; vertex functions are measured in the bin they are looked up from; tables have exactly the required size and start from zero (one for the measuring line).',
     ['inputs', 'configurations'], IN, WHYF, ['src/module/weight/index_map.cpp', CM, G3W, 'src/module/weight/weight_estimator.cpp', 'src/module/weight/weight_array.cpp', 'src/module/weight/component.cpp'],
     [('index functions', 'src/module/weight/index_map.cpp'), ('accumulators', 'src/module/weight/weight_estimator.cpp'), ('vertex functions', G3W)],
     [('tables', 'shape, size and contents of weights and accumulators')], 'index and value of a lookup or measurement', technique=AIF, note=NOTEF)
prop('P18', 'Sites are numbered one-to-one and displacements are periodic',
     'The number of a unit cell is its row-major index in the lattice, and converting it back gives the same cell. The displacement between two cells is the index of its periodic image inside the lattice, whichever way round it wraps; two sites are equal exactly if cell and sublattice agree.',
     ['inputs', 'configurations'], IN, WHYF, ['src/lattice/lattice.cpp', 'src/utility/vector.h'], [('lattice arithmetic', 'src/lattice/lattice.cpp')], [('lattice', 'size, volume, number of sublattices')],
     'the numbers and cells returned', technique=AIF, note=NOTEF)
prop('P19', 'Discarding history rescales every sum and its norm alike',
     'Discarding old statistics by a factor divides every accumulated sum and every norm of every estimator by that factor exactly once, so all averages stay the same. A visit adds its value to the sum and one to the norm, and clearing a group of estimators resets all of them.',
     ['inputs', 'configurations', 'histories'], 'every factor, every number of orders and bins, with and without vertex functions', WHYF,
     ['src/estimator/estimator.cpp', 'src/module/weight/weight_estimator.cpp', G3W, 'src/module/markov/markov_monitor.cpp', 'src/module/weight/weight_array.h'],
     [('rescaling', 'SqueezeStatistics of every accumulator')], [('accumulators', 'sums and norms')], 'the sums and norms before and after', technique=AIF, note=NOTEF)
prop('P20', 'Complex and momentum arithmetic follow the algebra they stand for',
     'Every operator and compound assignment of the complex number type equals the operation on real and imaginary parts, also when one operand is real, and modulus, conjugate, powers, zero tests and the phase of negative numbers follow their definitions. Momentum sums, differences and negations stay inside the momentum range and agree with integer arithmetic modulo the size of the range.',
     ['inputs'], 'every pair of operands', 'the repository tests a few values; every weight, ratio and momentum of the simulation goes through these operators',
     ['src/utility/complex.h', 'src/utility/complex.cpp', 'src/utility/momentum.cpp', 'src/utility/momentum.h'], [('complex operators', 'src/utility/complex.h, src/utility/complex.cpp'), ('momentum operators', 'src/utility/momentum.h')],
     [('values', 'real and imaginary part; momentum number')], 'the value an operator returns or leaves in its operand', technique=AIF, note=NOTEF)
prop('P21', 'Random choices have the stated range and distribution, from one seeded source',
     'Uniform draws lie in [0,1) and integer draws reach every value of their closed range and no other. Each random choice of a move (momentum, time, direction, spin change, yes or no, site) takes its values with equal chance, or with the density returned for the acceptance ratio, and every draw of the chain comes from the one generator that is seeded and stored with the parameters.',
     ['inputs', 'histories'], 'every word of the generator, every draw in every reachable function', 'tests cannot see a biased choice or a second source of randomness',
     ['src/utility/rng.h', 'src/utility/rng.cpp', MK], [('draws', 'src/utility/rng.h'), ('choices of the moves', MK)], [('generator', 'state of the generator of the parameters')],
     'values drawn and their chances', technique='abstract interpretation of the draws over a symbolic generator word; call-graph query for sources of randomness', note=NOTEF)
CB = 'src/module/diagram/component_bundle.cpp'
prop('P22', 'The stores of diagram elements never lose, duplicate or overrun elements',
     'Adding an element makes exactly one more element live, keeps all others, and is refused when the store is full. Removing one, by number or by reference, keeps every other element reachable under a number below the new count, and numbered access and random choice reach live elements only.',
     ['inputs', 'histories'], 'every history of additions and removals', 'the tests add and remove a few elements; the moves add and remove them millions of times',
     [CB], [('element store', CB)], [('store', 'live elements, their numbers, count')], 'the store after one operation', technique=AIF, note=NOTEF)
DG_ = 'src/module/diagram/diagram.cpp'
DIO = 'src/module/diagram/diagram_IO.cpp'
ENVF = 'src/environment/envMonteCarlo.cpp'
PARF = 'src/module/parameter/parameter.cpp'
MON = 'src/module/markov/markov_monitor.cpp'
WEF = 'src/module/weight/weight_estimator.cpp'
prop('P23', 'A saved diagram comes back the same',
     'Saving a diagram and loading the result gives back the same vertices, propagators and interactions with the same spins, sites, times, momenta, marks and links between them, the same worm, sign and order, and weights looked up again from the same arguments. Saving leaves the diagram as it is; recomputing weights after the tables have changed recomputes every weight and the overall weight and leaves everything else alone.',
     ['inputs', 'configurations', 'crash_points'], 'every diagram (links, marks, worm, measuring line), with elements in every shape of sharing', 'the repository tests one small diagram; a run is stopped at an arbitrary one',
     [DIO, DG_], [('saving and loading', DIO), ('recomputing weights', DG_ + ' Reset')], [('diagram', 'elements, links, marks, worm, weights')], 'the diagram after loading or recomputing', technique=AIF,
     note=NOTEF + ' A diagram of order zero is reloaded as the order-one diagram it shares its elements with.')
prop('P24', 'A run starts from a diagram that obeys every rule',
     'The diagram a new run starts from has two vertices joined by two propagators and one interaction and no worm; its links, momenta (conserved, and all different), spins, sites, times and marks satisfy all rules of sampled diagrams. Its element weights and overall weight and sign are those computed from the tables.',
     ['inputs', 'configurations'], 'every lattice, temperature and table', 'tests build it for one lattice and do not compare every rule',
     [DG_, DIO], [('building the first diagram', DIO)], [('diagram', 'elements, links, momenta, weights')], 'the diagram after it is built', technique=AIF, note=NOTEF)
prop('P25', 'A new run starts with its own input and empty statistics',
     'Starting a new run gives every part (diagram, random walk, measurement, tables) the parameters of its input file, the propagator, interaction and vertex functions of the weight file, and connects the parts to each other and not to copies. Every accumulator starts empty, every accumulated function and its normalisation from zero, and the first state file holds the parameters read and the first diagram.',
     ['inputs', 'configurations'], 'every input file, with and without vertex functions', 'tests build single parts; nothing runs the start as a whole',
     [ENVF, MON, WEF, 'src/module/markov/markov.cpp'], [('start of a run', ENVF + ' BuildNew')], [('environment', 'parameters, diagram, random walk, measurement, tables, files')],
     'the environment after it is built', technique=AIF, note=NOTEF)
prop('P26', 'A stopped run continues with everything it had',
     'Loading what a run saved gives back every parameter (with the derived ones and the state of the random generator), the diagram, every accumulator and norm, and every accumulated function with its normalisation, for every order and with or without vertex functions, connected as before; without a saved state the input file and a new diagram are used. Saving changes nothing in the running simulation, and happens only while no vertex function is part of the diagram.',
     ['histories', 'crash_points', 'inputs'], 'every state at which a run is stopped', 'tests do not stop and continue a run', [ENVF, PARF, 'src/estimator/estimator.cpp', WEF, MON, G3W, DIO],
     [('saving and loading', ENVF + ' Save, Load')], [('environment', 'parameters, diagram, statistics, tables'), ('files', 'parameter, statistics and weight files')], 'the environment after loading', technique=AIF,
     note=NOTEF + ' Files and dictionaries are modelled as maps from names to values; the seed itself (only the generator state matters) and the interval of the history are not stored.')
prop('P27', 'A new temperature reaches every part and keeps what was measured',
     'When a newer message is followed, version and temperature of the parameters become those of the message, every table and accumulator is taken to the new temperature, the new line functions replace the old ones before the diagram weights are recomputed from them, and the statistics are reduced once by the factor of the message. What was measured stands for the same averages afterwards; an old, missing or incomplete message changes nothing.',
     ['histories', 'inputs'], 'every message, state and table', 'tests do not change the temperature of a run', [ENVF, PARF, 'src/module/weight/weight.cpp', WEF, G3W, DG_],
     [('following a message', ENVF + ' ListenToMessage'), ('change of temperature', 'Reset and Anneal of tables and accumulators')], [('environment', 'parameters, tables, statistics, diagram')],
     'the environment after a message', technique=AIF, note=NOTEF)
prop('P28', 'Re-weighting factors follow the visits, once there are enough',
     'The re-weighting factors change only when every order, the polarization and (with vertex functions) both vertex functions have had at least a thousand visits and none of the measured quantities is empty. Then the factor of each order is multiplied by its wanted share and by the ratio of the visits of order zero to its own (with order zero fixed to one), the worm factor by the ratio of ordinary to worm visits of the positive orders, and those of the measured quantities by the ratio of visits of the quantity they are compared with to their own; nothing else changes.',
     ['histories', 'inputs'], 'every number of visits, wanted share and factor, for orders one to three', 'tests do not adjust factors; a wrong ratio only shows as slow convergence',
     [MON], [('adjustment of the factors', MON + ' AdjustOrderReWeight')], [('factors', 're-weighting factors of orders, worm and measured quantities'), ('visits', 'accumulators per sector')],
     'the factors after an adjustment', technique=AIF, note=NOTEF + ' An empty worm sector leaves the worm factor and those of the measured quantities as they are.')
prop('P29', 'Checking, reporting, saving and looking change nothing',
     'Checking the diagram, reporting on moves and visits, drawing or saving the diagram, the parameters, the statistics or the tables, and every read-only lookup of a table, lattice or diagram element leave the diagram, the tables, the accumulators, the parameters (re-weighting factors included) and the random generator exactly as they are. A lookup does not change the spins it is given.',
     ['histories', 'inputs', 'configurations'], 'every state and argument', 'a test sees the report, not what the report did to the simulation',
     [DG_, 'src/module/diagram/diagram_check.cpp', DIO, MON, MK, CM, ENVF], [('diagram check', 'src/module/diagram/diagram_check.cpp'), ('reports', MON + ' PrintOrderReWeight, ' + MK + ' PrintDetailBalanceInfo'), ('lookups', CM)],
     [('simulation', 'diagram, tables, accumulators, parameters, generator')], 'the simulation before and after looking',
     technique='interprocedural effect (mod) analysis over access paths', note='Flow-insensitive and conservative; trusts the clang AST, the exporter and the signatures of library functions; output streams, the log and Python objects are outside.')
prop('P30', 'Every function returns a result on every path',
     'No function that has a result can reach its end without returning one, for any input or state; paths that cannot go on stop with an error.',
     ['inputs', 'histories'], 'every path of every function of the program', 'an unreturned result is an arbitrary value that a test may happen to get right',
     ['src'], [('function bodies', 'src')], [('control flow', 'paths of a function')], 'the result of a call', technique='structural control-flow analysis',
     note='Every branch is taken to be possible, except on constants; a switch over all enumerators of its type is complete.')
prop('P31', 'The diagram check accepts good diagrams and refuses wrong ones',
     'Checking a diagram that obeys every rule succeeds. If a single thing is wrong - the number of elements or the order, a link between a line and a vertex or its direction, a spin, a momentum of a line between two vertices or of the worm, a measuring mark, a worm mark, an instantaneous mark or its times, the weight of a line (or a zero weight), or the total weight - the check fails or stops the program, even if all weights agree with the wrong data.',
     ['configurations', 'inputs'], 'every diagram of order zero to two with one field changed to any other value', 'the tests only check good diagrams; a check that misses an error is silent',
     ['src/module/diagram/diagram_check.cpp'], [('diagram check', 'src/module/diagram/diagram_check.cpp')], [('diagram', 'elements, links, marks, momenta, weights')], 'the answer of the check', technique=AIF,
     note=NOTEF + ' Weights that differ are taken to differ by more than the tolerance; diagrams of order three and more are not enumerated.')
prop('P32', 'An interrupt ends the run, but never in the middle of a save',
     'An interrupt or termination signal ends the program at once, except while the state is being saved: then it is only remembered, and ends the program as soon as the save is done. No signal is lost, also when it arrives while protection begins or ends; every save of a run is protected, protection ends after each, and the handler says that it delays exactly while it does.',
     ['schedules', 'crash_points'], 'every moment at which a signal can arrive', 'tests send no signals',
     ['src/utility/abort.cpp', 'src/main.cpp'], [('interrupt handler', 'src/utility/abort.cpp'), ('run loop', 'src/main.cpp MonteCarlo')], [('signals', 'what a signal does now, and the remembered signal')],
     'end of the program after a signal', technique='abstract interpretation of the handler over signal dispositions, with arrivals around every change, and of the run loop', note='Trusts signal(); the statements between two changes of a disposition are one step.')
prop('P33', 'A run warms up, then measures once per sweep and acts when due',
     'A run continues its saved state or starts anew as its job says, once and before anything else, and first takes the wanted number of warm-up sweeps without measuring. From then on every step is one sweep of the wanted length followed by exactly one measurement; reports (with a check of the diagram), saves, looking for messages and adjusting the factors happen between steps, each exactly when its own interval has passed since it was last found to have passed. A diagram that fails its check stops the run.',
     ['schedules', 'histories'], 'every step of a run and every sequence of elapsed intervals', 'tests do not run the loop of the program',
     ['src/main.cpp', 'src/utility/timer.cpp', 'src/utility/timer.h'], [('run loop', 'src/main.cpp MonteCarlo'), ('intervals', 'src/utility/timer.cpp')], [('run', 'operations done in a step, timers')],
     'operations of a step', technique=AIF, note=NOTEF + ' Intervals are looked at every hundredth step; the number is not part of the property.')
prop('P34', 'A job does what its file says and keeps its files to itself',
     'The arguments of the program name the job file (by path or by number), anything else is refused, and a simulation job is carried out exactly once. A job holds what its file says, unknown kinds are refused, and the parameter, statistics and log files it writes differ from each other and from those of every job of another number or kind. A message arrives as it was sent; without a message nothing changes and the run goes on.',
     ['inputs', 'configurations'], 'every argument list, job file and message', 'tests start no process and read no job file',
     ['src/main.cpp', 'src/job/job.cpp', 'src/module/parameter/message.cpp'], [('job', 'src/job/job.cpp'), ('message', 'src/module/parameter/message.cpp'), ('arguments', 'src/main.cpp')], [('files', 'names and contents')],
     'job, names of files, message', technique=AIF, note=NOTEF + ' Files are modelled as maps from names to values.')
AIP = 'abstract interpretation of the Python sources (symbolic values, path-sensitive, no execution)'
NOTEP = 'Trusts the Python 2 to 3 rewriting of the syntax, the interpreter and its models of built-in and array operations; arithmetic is exact.'
prop('P35', 'Simulation and solver lay out their tables in the same way',
     'Simulation and self-consistency loop number the cells of a lattice (of any size, in one to three dimensions), the sites, the pairs of spins and the bins of imaginary time in the same way, and their tables have the same dimensions in the same order. On both sides the numbering is one-to-one: the solver gets the cell back from its number, a bin stands for the time in its middle, and the components it lists for a function are exactly those that conserve spin, each once.',
     ['inputs', 'configurations'], 'every lattice size, site, spin and time', 'each side is only ever run with one small lattice, and never against the other',
     ['dyson/weight.py', 'src/module/weight/index_map.cpp'], [('solver', 'dyson/weight.py IndexMap, Weight'), ('simulation', 'src/module/weight/index_map.cpp')], [('tables', 'index and shape')],
     'index of a value in a table', technique=AIP + '; the same for the C++ index functions', note=NOTEP)
prop('P36', 'Results are merged as weighted means, over rounds and over files',
     'A function accumulated over the rounds of the self-consistency loop is the weighted mean of the results merged into it; taking back the last result leaves the mean of the others, and a result that is not to be accumulated changes neither sums nor weights. Collecting the statistics of the simulations sums values and normalisations over the same files, among them every good one; a file that cannot be read, is incomplete, or has another normalisation contributes to a function either both or nothing, and with less than three quarters of the files the round fails.',
     ['inputs', 'histories', 'fault_sequences'], 'every value and weight, sequences of up to three results, up to five files of which up to two are damaged', 'no test covers the solver; a damaged file is rare',
     ['dyson/weight.py', 'dyson/collect.py'], [('merging', 'dyson/weight.py Merge, RollBack'), ('collecting', 'dyson/collect.py MergeFromDict, CollectStatis')], [('accumulation', 'sum of results, sum of weights')],
     'the accumulated function', technique=AIP, note=NOTEP + ' The smoothing and acceptance of orders is not covered.')
prop('P37', 'A failing round of the self-consistency loop leaves no trace',
     'A round in which the collection or the solution fails leaves the line functions and everything accumulated as they were before it - and takes back nothing merged by earlier rounds - writes neither weights nor a message, and the loop goes on. A good round raises the version by one, saves its line functions, self-energy, polarisation and parameters with interrupts held back, and only then sends the message with that version.',
     ['fault_sequences', 'histories', 'crash_points'], 'every sequence of good and failing rounds up to length three, on its own and fed by simulations, new and continued', 'failures depend on timing and noise; no test runs the loop',
     ['dyson/main.py', 'dyson/weight.py', 'dyson/parameter.py'], [('main loop', 'dyson/main.py Dyson, Measure'), ('taking back', 'dyson/weight.py')], [('round', 'line functions, accumulations, version, files')],
     'files and state after a round', technique=AIP, note=NOTEP + ' The numerical modules are uninterpreted functions; collection and solution of the interaction are the steps that can fail.')
prop('P38', 'Each program writes what the other one reads',
     'Every entry the simulation needs from the weight file, the message, its job file and the basis files is written by the self-consistency loop or the job list under exactly that name, with and without vertex functions; every entry the collector needs is in the statistics file the simulation writes.',
     ['configurations', 'programs'], 'every entry read on either side', 'the programs are tested apart, if at all; a misspelt entry only shows when they meet',
     ['src', 'dyson', 'inlist.py', 'job_class.py', 'basis.py'], [('readers', ENVF + ', src/module/weight, src/module/parameter, dyson/collect.py'), ('writers', 'dyson/main.py, inlist.py, job_class.py, ' + ENVF)], [('files', 'names of entries')],
     'entries of the files', technique=AIF + '; ' + AIP, note=NOTEP + ' Values are covered by other properties.')
prop('P39', 'Transforming a function and back gives it back, with its sums',
     'Taking a function of the self-consistency loop from time to frequency or from space to momentum gives the sum over the centres of the time bins (half-integer frequencies if it is antisymmetric) and over the cells, and back gives the same function again, in whichever order the two are asked for. What has been accumulated of a function is transformed exactly as the function itself, a function without time is not changed by the time transform, and asking for the domain it is in changes nothing. Vertex functions are transformed once along every axis and back along the same axes.',
     ['inputs', 'histories', 'configurations'], 'every value, symmetry, dimension and sequence of requests', 'no test that runs covers the solver, and none transforms a function with accumulated sums',
     ['dyson/weight.py', 'dyson/gamma3_calc.py'], [('transforms', 'dyson/weight.py Weight.FFT'), ('vertex functions', 'dyson/gamma3_calc.py FFTGammaW, FFTWshift')], [('tables', 'values, accumulated sums, domain')],
     'the tables after a transform', technique=AIP, note=NOTEP + ' The library transforms are taken to be linear and inverse to each other.')
prop('P40', 'The bare interaction is the same from either end',
     'For every model and every lattice it can be put on, of any size and dimension, the bare interaction from one site to another equals the one from the other to the first with the spins exchanged and the displacement reversed across the periodic boundary. Whatever two sites a line of the interaction joins, it has one weight however its ends are named.',
     ['inputs', 'configurations'], 'every model, lattice, size and coupling strength', 'no test that runs covers the solver, and the simulation takes the table as it is',
     ['dyson/model.py'], [('models', 'dyson/model.py BareFactory')], [('tables', 'bare interaction')], 'the bare interaction handed to the simulation', technique=AIP, note=NOTEP)
prop('N01', 'The moves connect all diagrams', 'From any diagram up to the order limit every other one of its sector structure can be reached by a finite sequence of moves of positive probability, with any lattice size and interaction.',
     ['schedules', 'inputs'], 'every pair of diagrams', 'a test run visits a vanishing part of the diagrams', ['src/module/markov'], [('updates', MK)], [('the diagram', 'topology, momenta, times, spins, sites')], 'the diagrams a long run visits', technique='-')
prop('N02', 'Estimates converge to the exact sums within the stated errors', 'With growing run time the measured functions approach the exact sums of diagrams up to the order limit, and the error estimate of each history covers the deviation at the stated confidence.',
     ['inputs', 'histories'], 'every model and run length', 'short runs are dominated by noise', ['src/estimator', 'src/module/weight', 'src/module/markov'], [('estimators', 'src/estimator/estimator.cpp')], [('histories', 'sums over the samples')], 'estimates and their errors', technique='-')
prop('N03', 'The solver satisfies the Dyson equations to working accuracy', 'For every input whose denominator stays away from zero, the dressed functions written to the weight file satisfy the two Dyson equations on the time grid, to the accuracy of the discretisation.',
     ['inputs'], 'every self-energy, polarization, lattice and grid', 'there is no test of the solver', ['dyson'], [('solver', 'dyson/calculator.py, dyson/weight.py')], [('tables', 'dressed functions in momentum and frequency')], 'the weight file', technique='-')
prop('N04', 'Random numbers of different jobs are statistically independent', 'The streams drawn by jobs of different identity are uncorrelated over any length a run can reach.',
     ['configurations', 'histories'], 'every set of jobs and run length', 'a correlation shows only over long streams', ['src/utility/rng.h', 'src/module/parameter'], [('generator', 'src/utility/rng.h, src/utility/rng.cpp')], [('generator', 'its word state')], 'the streams of the jobs', technique='-')
prop('N05', 'Accumulated rounding never makes the check refuse a good run', 'Over any number of accepted moves the weight that is multiplied along stays within the tolerance of the diagram check of the weight computed afresh.',
     ['histories'], 'every history of moves', 'rounding accumulates over millions of moves', ['src/module/diagram', 'src/module/markov'], [('running product', MK), ('check', 'src/module/diagram/diagram_check.cpp')], [('total weight', 'running product of ratios')], 'the self-check of a long run', technique='-')
NOT_APPLICABLE = [
    ('N01', 'reachability over an unbounded diagram space: no finite case distinction of the source bounds the number of moves needed, and it depends on which table entries are zero. What is local to one move is decided: every move has its reverse (P02) and a worm can leave every position (P02, worm mobility).'),
    ('N02', 'a limit theorem about random sums with unknown autocorrelation times: it is not a fact of the source. The static ingredients are decided: detailed balance (P02), call probabilities (P11), what a measurement adds (P15, P17), what discarding does (P19).'),
    ('N03', 'quantifies over floating-point values through numpy transforms and matrix inversions: accuracy and distance from the singular point are runtime quantities. Layout, merging and the handling of a refused solution are decided (P35-P37), the transforms too (P39).'),
    ('N04', 'a statistical property of the generator of the C++ library. Range, use, seeding and saving of the single generator are decided (P21, P26, P34).'),
    ('N05', 'a bound on accumulated rounding over an unbounded history depends on the sizes of the table entries; the arithmetic of the analysis is exact. That the product is the right one is decided (P05), as is the check (P31).'),
]
