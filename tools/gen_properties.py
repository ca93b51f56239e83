#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
G='optlib/src/genetic/mod.rs'; S='optlib/src/particleswarm/mod.rs'; T='optlib/src/tools/statistics/mod.rs'; L='optlib/src/tools/logging/mod.rs'; C='optlib/src/tools/stopchecker/mod.rs'
X='optlib/src/genetic/cross/mod.rs'; M='optlib/src/genetic/mutation/mod.rs'; PA='optlib/src/genetic/pairing/mod.rs'; SE='optlib/src/genetic/selection/mod.rs'; SF='optlib/src/genetic/selection/vec_float.rs'; PB='optlib/src/genetic/pre_birth/vec_float.rs'; CR='optlib/src/genetic/creation/vec_float.rs'
V='optlib/src/particleswarm/velocitycalc/mod.rs'; PM='optlib/src/particleswarm/postmove/mod.rs'; PV='optlib/src/particleswarm/postvelocitycalc/mod.rs'; IN='optlib/src/particleswarm/initializing/mod.rs'; TO='optlib/src/tools/mod.rs'; TF='optlib-testfunc/src/lib.rs'; LI='optlib/src/lib.rs'

prop('C01','A reported goal value is the goal function value of the reported point',
 "Every (point, value) pair the library hands out - the returned solution, the best and worst agents, every agent of the state, the per-agent best and worst - consists of a point and exactly the value the user's goal function returned when it was evaluated at that very point. The value is never recomputed, mixed with another agent's value, or kept while the point is replaced.",
 ['inputs','histories'],"for every goal function (even a stateful one), every configuration of plug-ins and every number of iterations",
 "Tests look at the final answer of a handful of converging runs with a deterministic smooth goal; a pair mixed up on one path still looks plausible.",
 [G,S],[('individual creation evaluates the goal once and stores point and value together',G),('particle move replaces point and value together and copies both into the personal records',S),('best/worst are whole-agent clones',G+', '+S)],
 [('agent point/value fields','the pair','Individual, Particle')],['Optimizer::find_min','AlgorithmState::get_best_solution','AgentsState::get_agents','Population::get_best'])
prop('C02','Particle swarm: records are the true best and worst and never get worse',
 "At every moment visible from outside, the swarm's best solution has the least value among all evaluations of the run that completed with an earlier or current iteration, and the recorded worst has the greatest; the same holds for every particle's personal best and worst over its own evaluations. A value that is not finite ranks behind every finite one, so the best value of a run never increases and a non-finite evaluation never displaces a finite best.",
 ['histories','inputs'],"for every sequence of goal values including NaN, infinities and ties, every swarm size and every iteration count",
 "There is no end-to-end swarm test in the stable suite and the unit tests compare two or three particles with distinct finite values.",
 [S],[('personal record update on move',S),('global record update after all particles moved',S),('float comparison with non-finite last',S)],
 [('best/worst particle of the swarm','records','Swarm'),('personal best/worst','records','Particle')],['AlgorithmState::get_best_solution','ParticleSwarmOptimizer::find_min'])
prop('C03','Genetic: best and worst are the extremes of the current generation',
 "After every completed generation the reported best individual is an individual of the surviving population with minimal goal value and the reported worst is one with maximal goal value, where NaN is worse than everything as a best candidate and is never chosen as worst while a number is available. If nobody survives, the previous records are kept unchanged.",
 ['histories','inputs'],"for every surviving population, with NaN, infinities and ties, after every generation",
 "Tests check convergence of the final answer on smooth functions; they never inspect the records per generation or feed NaN.",
 [G],[('min/max search over the survivors after selection',G),('NaN-aware comparison',G)],[('best/worst individual','records','Population')],['Population::get_best','Population::get_worst','AlgorithmState::get_best_solution'])
prop('C04','Comparing goal values never panics and puts NaN behind every number',
 "Wherever the optimizers rank agents, the ranking agrees with the numeric order on finite values, places NaN as the worst possible goal, and yields a result for every pair of values without panicking.",
 ['inputs'],"for all pairs of 64-bit floats, including NaN, both infinities and equal values",
 "A few chosen pairs are compared by one unit test of the swarm comparison; the genetic ones are not tested with NaN at all.",
 [G,S,SE,PA],[('population min/max comparison',G),('swarm comparison',S),('selection order',SE),('tournament duel',PA)],observe=['find_min with a goal that returns NaN or infinity'])
prop('C05','Logger life cycle is start, resume, one call per iteration, finish',
 "Every attached logger gets start exactly once when a fresh run has been initialised, resume exactly once before the first iteration of every run or continuation, the per-iteration call exactly once at the end of each completed iteration, and finish exactly once after the last one, in this order and with nothing in between skipped. Each call receives the optimizer state as it is at that moment: initial population at start, the fully updated state (best, worst, iteration number) at the end of an iteration.",
 ['histories','configurations'],"for every list of loggers, every number of iterations (also zero), both optimizers, fresh and resumed runs",
 "The only test with a logger counts entries for the genetic algorithm in one configuration; ordering against state updates and the swarm are untested.",
 [G,S,L],[('logger loops',G+' find_min/next_iterations'),('logger loops',S+' find_min/next_iterations')],observe=['Logger methods'])
prop('C06','Iteration numbers count completed iterations and the stop check guards each',
 "The stop criterion is asked exactly once before every iteration, with the current state, and no iteration starts after it answered true or is skipped after it answered false. The iteration number shown to stop criteria, loggers and plug-ins starts at 0 for a fresh run and grows by exactly one per completed iteration.",
 ['histories','configurations'],"for every stop criterion, including stateful ones and those that are true at once",
 "Convergence tests pass with a wrong count or an extra stop query.",
 [G,S],[('main loops',G+' / '+S),('next_iteration increments',G+' / '+S)],[('iteration','completed iterations','Population, Swarm')],['StopChecker::can_stop','AlgorithmState::get_iteration'])
prop('C07','A fresh run starts from scratch; a continuation keeps everything',
 "Starting a run discards all agents, the best and worst records and the iteration number of any earlier run, so nothing found earlier can be reported; continuing a run keeps all of them and adds iterations.",
 ['histories'],"for every history of runs and continuations on one optimizer object",
 "No test calls the same optimizer twice.",
 [G,S],[('reset before initialisation',G+' find_min'),('renewal of the swarm',S+' find_min'),('continuation does not re-initialise',G+' / '+S)],observe=['Optimizer::find_min twice','IterativeOptimizer::next_iterations'])
prop('C08','Every evaluated point has been through all configured point filters',
 "Every point that reaches the goal function and then becomes a swarm agent has first been processed by every configured post-move step, in the configured order, including the initial points; every child of the genetic algorithm has first been through every configured pre-birth step, in order. The point evaluated and stored is exactly what the last step left.",
 ['histories','configurations'],"for every list of steps and every evaluation of every run",
 "No test installs two steps or checks that the initial swarm is also filtered.",
 [G,S],[('post-move loops before the goal call',S),('pre-birth loop before append',G)],observe=['Goal::get','PostMove::post_move','PreBirth::pre_birth'])
prop('C09','Boundary and teleport steps leave every coordinate inside its interval',
 "After the move-to-boundary step every coordinate is a finite number inside its own closed interval, coordinates that already were inside are unchanged, one below (or not finite) becomes the lower bound and one above becomes the upper bound. The teleport step either leaves the point untouched or replaces all its coordinates, each drawn from its own closed interval, and it does the latter exactly when its configured probability exceeds a fresh uniform number of [0,1).",
 ['inputs','configurations'],"for every point including NaN and infinities, every dimension and every list of intervals with lower <= upper",
 "Unit tests use five finite points; teleport is not tested at all.",
 [PM],[('clamp loop',PM+' MoveToBoundary'),('teleport loop',PM+' RandomTeleport')],observe=['PostMove::post_move'])
prop('C10','Both interval checks reject exactly the points outside the box',
 "The pre-birth interval filter removes a child, and the selection interval filter kills an individual, exactly when at least one of its genes is not finite or lies outside the closed interval of the same position; all others are kept untouched and in order. A chromosome whose length differs from the number of intervals is refused loudly.",
 ['inputs','configurations'],"for every population, dimension, and gene value including NaN, infinities and values equal to a bound",
 "Neither filter has a unit test; the integration tests only need most bad genes to disappear.",
 [SF,PB],[('gene test',SF),('gene test',PB)],observe=['Selection::kill','PreBirth::pre_birth'])
prop('C11','Limiting the population kills exactly the surplus worst individuals',
 "After the population limit has been applied at most the configured number of individuals is alive, and exactly max(0, alive - limit) individuals that were alive have been killed: no individual that stays alive is worse than one that was killed, NaN counting as worst. Individuals that were already dead stay dead and are not counted, and nobody is revived.",
 ['inputs','histories'],"for every population with any mixture of alive and dead individuals, NaN and ties, and every limit including zero",
 "No unit test; the integration tests converge even when the wrong individuals are killed.",
 [SE],[('limit selection',SE+' LimitPopulation'),('worst selection',SE+' kill_worst')],observe=['Selection::kill','kill_worst'])
prop('C12','Non-finite individuals can be culled and the dead never survive',
 "The NaN selection kills exactly the individuals whose goal value is not a finite number and touches no other. After all selections of a generation precisely the individuals still marked alive remain, in their order, and an individual once killed can never become alive again or appear in a later generation.",
 ['inputs','histories'],"for every population, every mixture of values and every list of selections",
 "Not unit tested; a surviving dead individual does not stop the convergence tests.",
 [SE,G],[('non-finite test',SE+' KillFitnessNaN'),('removal of the dead',G)],observe=['Selection::kill','Population::iter','Individual::is_alive'])
prop('C13','Pairing yields valid families of the promised size; tournaments keep winners',
 "Every index a pairing algorithm returns addresses an individual of the population it was given; the random pairing returns half as many pairs as there are individuals, the tournament the configured number of families, each with the configured number of partners. A tournament partner starts from a random individual and is replaced by a challenger exactly when the challenger is better (NaN being worst) for the configured number of rounds; an empty population yields no families.",
 ['inputs','configurations'],"for every population size including 0 and 1, every configuration and every outcome of the random numbers",
 "No unit test; the integration tests use one configuration with a full population.",
 [PA],[('index sampling',PA),('duel',PA+' Tournament')],observe=['Pairing::get_pairs'])
prop('C14','Initial points have the requested number, dimension and intervals',
 "The genetic creator and the swarm initialisers return exactly the configured number of vectors, each with one entry per configured interval, entry i drawn uniformly from the closed interval i; zero velocities are all zeros of the configured dimension. An empty or reversed interval (and, for the genetic creator, no individuals or no intervals) is refused loudly.",
 ['inputs','configurations'],"for every count, dimension, interval list and every outcome of the random numbers",
 "Tests sample one or three fixed intervals for one creator only; the swarm initialisers are untested.",
 [CR,IN,TO],[('genetic creator',CR),('vector creator',TO),('swarm initialisers',IN)],observe=['Creator::create','CoordinatesInitializer::get_coordinates','VelocityInitializer::get_velocity'])
prop('C15','Single-point crossing takes low bits from one parent, the rest from the other',
 "For every integer and float width, the child of a single-point crossing equals the second parent in every bit below the position and the first parent in every other bit, including the sign bit, for each position from 1 to width-1. The bitwise crossers draw the position uniformly from exactly that range and return one child; the exponent/mantissa crosser combines mantissa, exponent and sign of its two parents that way and rebuilds sign * mantissa * 2^exponent.",
 ['inputs'],"for all parent bit patterns and all positions in range, all eight widths and types",
 "Doc tests try three or four positions with all-zero/all-one parents.",
 [X],[('cross_* functions',X),('CrossBitwise',X),('FloatCrossExp',X)],observe=['cross_u64 and siblings','Cross::cross'])
prop('C16','Gene-wise mutation and crossing treat every gene once, in place, in order',
 "Vector mutation returns as many genes as it got, the i-th being either the unchanged i-th gene or the single-gene mutation of exactly the i-th gene, the latter exactly when a fresh uniform number of [0,100) is below the configured percentage. Vector crossing concatenates, gene by gene in order, the children of the i-th genes of the first and second parent; bitwise mutation flips exactly the configured number of uniformly drawn bit positions of the gene's own width.",
 ['inputs','configurations'],"for every chromosome, probability, single-gene operator and outcome of the random numbers",
 "Not unit tested; integration tests cannot see a gene that is skipped or swapped.",
 [M,X],[('VecMutation',M),('BitwiseMutation',M),('VecCrossAllGenes',X)],observe=['Mutation::mutation','Cross::cross'])
prop('C17','Velocity updates follow the documented equations in every dimension',
 "Each velocity calculator returns one component per coordinate, and component i is the documented formula over the i-th velocity, position, personal record, swarm record (and, with reinforcement, current best and worst) with each attraction weighted by its own coefficient and its own fresh uniform random number of [0,1]. Attractions to bests enter with plus and repulsions from worsts with minus, and the inertia calculator asks its inertia once per call with the swarm's current iteration number.",
 ['inputs','histories'],"for all particles, swarms, coefficients, dimensions and random outcomes",
 "There is no test of any velocity calculator.",
 [V],[('ClassicVelocityCalculator',V),('CanonicalVelocityCalculator',V),('NegativeReinforcement',V),('InertiaVelocityCalculator',V)],observe=['VelocityCalculator::calc_new_velocity'])
prop('C18','Velocity limiters bound the speed and keep the direction',
 "The per-dimension limiter returns each component unchanged when its magnitude does not exceed its limit and otherwise the limit with the component's sign; the absolute limiter returns the velocity unchanged when its Euclidean norm does not exceed the limit and otherwise the same vector scaled to the limit. Neither changes the number or order of components, and a velocity of the wrong dimension is refused loudly by the per-dimension limiter.",
 ['inputs'],"for every velocity vector and limit",
 "Unit tests use four vectors.",
 [PV],[('MaxVelocityDimensions',PV),('MaxVelocityAbs',PV)],observe=['PostVelocityCalc::correct_velocity'])
prop('C19','Stop criteria fire exactly when documented',
 "The iteration limit fires exactly when the iteration number has reached it, the threshold exactly when a best solution exists whose value does not exceed it, and the stagnation criterion exactly when more than the configured number of iterations have passed since the best value last differed by more than delta from the last recorded one. The composite criteria are the logical OR and AND of their parts, asked in order until the outcome is settled; they refuse an empty list, and a state without best solution never fires a value-based criterion.",
 ['inputs','histories'],"for every sequence of states given to a criterion, including restarts where the iteration number goes back, NaN and infinite goals",
 "Not unit tested; integration tests only need the run to end.",
 [C],[('MaxIterations',C),('Threshold',C),('GoalNotChange',C),('CompositeAny/All',C)],[('old_goal/change_iter','stagnation memory','GoalNotChange')],['StopChecker::can_stop'])
prop('C20','Statistics keep exactly one entry per run and one per iteration',
 "Each started run appends exactly one convergence record, each completed iteration appends the state's best solution to the record of the latest run, and each finished run has exactly one result: its latest best solution, at the same index as its convergence record, also when the run is continued after finishing. Uniting two statistics appends the other's runs after the own ones, losing and reordering nothing.",
 ['histories'],"for every history of start, iteration, finish, continuation and unite events",
 "One test collects statistics of several fresh genetic runs; continuation and uniting non-empty data are untested.",
 [T],[('StatisticsLogger',T),('Statistics::unite, add_result, add_convergence',T)],[('results / convergence','parallel per-run vectors','Statistics')],['Statistics::get_results','Statistics::get_convergence','Statistics::get_run_count'])
prop('C21','Aggregates over runs are the documented averages, deviations and rates',
 "Average goal and average point are arithmetic means over the successful runs only, the standard deviations are the (n-1)-normalised ones over the successful runs, the average convergence at iteration i is the mean over the runs that had a solution then and is defined for the iterations every run reached, and the success rate divides the successes by all runs. Where no such number exists (no runs, no solutions, fewer than two solutions) the answer is 'none' and never NaN from 0/0, and never a panic.",
 ['inputs','histories'],"for every list of runs with any pattern of missing solutions and any lengths",
 "Unit tests cover lists of up to three runs; they cannot exclude a wrong divisor on other patterns.",
 [T],[('StatFunctionsGoal',T),('StatFunctionsSolution',T),('StatFunctionsConvergence',T)],observe=['get_average*','get_standard_deviation*','get_success_rate','get_min_iterations'])
prop('C22','Goal calls are counted exactly once each and passed through unchanged',
 "Every evaluation through the counting goal increments the counter of the current run by exactly one and evaluates the wrapped goal exactly once, at the same point, returning its value unchanged. Starting a new run opens a new zero counter without touching earlier ones, adding n adds n to the current one, uniting appends the other's counters, and the average is total calls over runs (or none without runs).",
 ['histories','inputs'],"for every history of evaluations, new runs, additions and unions",
 "Unit tests exercise a few short sequences of the counter only.",
 [T,LI],[('GoalCalcStatistics',T),('CallCountData',T),('GoalFromFunction',LI)],[('counters','calls per run','CallCountData')],['Goal::get','CallCountData::get_call_count'])
prop('C23','The bundled test functions compute their published formulas',
 "Paraboloid, Schwefel, Rastrigin and Rosenbrock return, for every vector, the documented sum over all its coordinates (Rosenbrock: over all neighbouring pairs), with the documented constants and each term entering exactly once.",
 ['inputs'],"for every vector of every length (at least one coordinate for Rosenbrock) and both float types",
 "Doc tests evaluate each function at its minimum only, where most wrong terms vanish.",
 [TF],[('paraboloid, schwefel, rastrigin, rosenbrock',TF)],observe=['function results'])
prop('C24','Built-in text loggers report the state they are given, completely',
 "For every completed iteration with a best solution the verbose logger writes exactly one line with the iteration number, every coordinate in order and the goal value; the result logger writes at the end every coordinate and the goal of the best solution, or that none was found, and always the iteration count; the time logger writes one elapsed time measured from the latest resume. They write to the given writer only, at the configured precision, and nothing at other moments.",
 ['inputs','histories'],"for every state, dimension, precision and writer",
 "No test looks at any logger output.",
 [L],[('VerboseLogger',L),('ResultOnlyLogger',L),('TimeLogger',L)],observe=['bytes written to the writer'])
prop('C25','Plug-ins cannot forge goal values, points, records or iteration numbers',
 "Code outside the library can neither construct an agent nor change an agent's point or value, the best and worst records, the iteration number or the list of agents; the only state change available to a selection plug-in besides permuting agents is to kill them, and observers (loggers, stop criteria, pairing, pre-birth steps, velocity rules) only get read access.",
 ['programs'],"for every plug-in that compiles against the public API",
 "A test is one program; this quantifies over all programs that type-check.",
 [G,S,T],[('private fields and crate-private mutators',G+', '+S+', '+T),('shared references in the plug-in traits',G+', '+S+', '+L+', '+C)],observe=['the public API surface'])
prop('C26','A generation or swarm may die out without panicking the optimizer',
 "When a population becomes empty - all individuals killed, all children filtered away, or a continuation requested before any run - both optimizers and all bundled pairing, selection, stop and logging parts keep working without a panic, and the answer is the last known best solution or none.",
 ['inputs','histories'],"for every run in which the population becomes empty at any generation",
 "No test empties a population.",
 [G,S,PA,SE],[('empty-population guards',PA),('empty checks of record updates',G+', '+S)],observe=['find_min','next_iterations'])
prop('C27','Setters and builders replace exactly the named part, also between runs',
 "After a part of an optimizer has been replaced (stop criterion, pairing, crossing, mutation, selections, pre-birth steps, loggers, post-move and velocity steps) the following iterations use the new part wherever that kind of part is used and never the old one, and all other parts and the current state are untouched. Constructors put every argument into the role it names, and option builders change only their own option.",
 ['configurations','histories'],"for every part and every point in a history at which it is replaced",
 "Tests build each optimizer once with distinct trait types; swapped same-typed arguments and setters are not observed.",
 [G,S,PA,SE,V],[('set_* methods and constructors',G+', '+S),('Tournament builders',PA),('LimitPopulation::set_limit',SE)],observe=['which plug-in object is called'])
prop('C28','A genetic generation runs its stages in order, each exactly as often as due',
 "Each generation asks the pairing once, crosses each returned family exactly once with precisely the chromosomes the family's indices denote in order, mutates every child of every family exactly once, then runs the pre-birth steps, evaluates every remaining child exactly once and adds it to the population after the existing individuals, and only then applies every selection once in the configured order and removes the killed. No child is lost, duplicated or evaluated before mutation.",
 ['histories','configurations'],"for every plug-in, any number of families and children and every generation",
 "A lost, repeated or reordered child does not stop the convergence tests.",
 [G],[('generation pipeline',G+' next_iterations, run_pairing')],observe=['calls seen by the plug-ins'])
prop('C29','A swarm iteration moves every particle exactly once by its new velocity',
 "In each iteration every particle, in order, gets one velocity from the velocity rule computed from the swarm and that particle, passed through all velocity filters in order; the stored velocity is the result, the new position is old position plus that velocity component by component (then post-move steps), and it is evaluated exactly once and stored. The swarm-wide records are updated once after all particles have moved.",
 ['histories','configurations'],"for every swarm size, dimension, plug-in and iteration",
 "There is no end-to-end swarm test in the stable suite.",
 [S],[('iteration pipeline',S+' next_iterations')],observe=['calls seen by the plug-ins','AgentsState::get_agents'])
prop('C30','Inertia schedules and the constriction coefficient follow their definitions',
 "The constant inertia is the configured value at every iteration; the linear one is w_max at iteration 0, w_min at t_max and linear in between. The canonical constriction factor is 2*alpha/(phi-2) with phi the sum of both coefficients, and a phi not above 4 or an alpha outside the open interval (0,1) is refused loudly.",
 ['inputs'],"for all coefficients and iteration numbers",
 "There is no test of the velocity calculators or inertia schedules.",
 [V],[('ConstInertia, LinearInertia',V),('CanonicalVelocityCalculator::new',V)],observe=['Inertia::get','VelocityCalculator::calc_new_velocity','constructor panics'])
prop('C31','The success predicates accept exactly the answers within tolerance',
 "The goal predicate accepts a solution exactly when its goal value differs from the expected one by less than delta; the point predicate accepts it exactly when no coordinate differs from the expected one by more than its own delta. A NaN goal or coordinate is never a success, and tolerances whose number differs from the number of expected coordinates are refused loudly.",
 ['inputs'],"for all solutions, expectations and tolerances including NaN and infinities",
 "Unit tests cover a few finite answers.",
 [T],[('get_predicate_success_goal',T),('get_predicate_success_vec_solution',T)],observe=['predicate results'])
prop('C32','Mean crossers return one child that is the documented mean of all parents',
 "The arithmetic crosser returns exactly one child, the sum of all parents divided by their number; the geometric crosser returns exactly one child, the product of all parents raised to one over their number. Fewer than two parents are refused loudly.",
 ['inputs'],"for every number of parents and all values",
 "Doc tests try two or three parents, and those of the geometric mean cannot fail for a too small result.",
 [X],[('CrossMean',X),('FloatCrossGeometricMean',X)],observe=['Cross::cross'])
prop('C33','Read access shows the whole current state and changes nothing',
 "The accessors of population, swarm and agents - agent lists, lengths, iteration over individuals, indexing, count of the living, best solution, iteration number, point and value - report every agent exactly once in order and the current records, and agree with each other; a cloned agent equals its original in every observable part.",
 ['histories','inputs'],"for every state of every run",
 "The accessors are used but never checked against each other, least of all for partially dead populations.",
 [G,S],[('accessors',G+', '+S),('Clone for agents',G+', '+S)],observe=['get_agents, len, len_alive, iter, Index, get_best_solution, get_iteration, get_goal, get_parameter'])
prop('C34','Objects are isolated: no hidden shared state and no ambient effects',
 "Optimizers, their parts, statistics and test functions depend only on what they were given, on their own history and on the random numbers drawn, so that objects used alternately, one after another or on several threads behave as if each were alone. The library keeps no mutable state outside its objects, prints only to the writers it was given, touches no environment, files or processes, and reads the clock only in loggers. Copies of agents and statistics share nothing with their originals that can change.",
 ['histories','schedules','programs'],"for every number of objects, every interleaving of their use and every environment",
 "A test uses one optimizer at a time in one process and environment; leftovers of another object are never there to be seen.",
 [G,S,T,PA,X,M,SE,V,L,C,TO,TF],[('all functions of the library crates, their statics and constants',TO+' and all other source files')],observe=['results of a second object used after or between uses of a first one, standard streams'])
prop('C40','Optimizers converge to the global minimum',
 "With the documented example configurations the optimizers find the global minimum of the bundled test functions within the documented tolerance.",
 ['inputs','histories'],"over all random number sequences (with high probability)",
 "A statistical statement over random sequences; a test samples some.",
 [G,S],[('whole algorithms',G+', '+S)],observe=['find_min result'])
prop('C41','Random choices are uniform and independent',
 "The random numbers behind creation, pairing, crossing, mutation, teleport and velocities are independent and uniformly distributed over their ranges, and every partner, bit or gene can be chosen.",
 ['inputs'],"over all draws",
 "A statistical statement about the generator and its seeding.",
 [PA,X,M,V,TO],[('thread random generator from the rand crate',TO)],observe=['distribution of results'])
prop('C42','Rounding keeps float results close to the exact formulas',
 "The floating-point results of velocity rules, means, deviations and test functions differ from the exact real-number formulas by no more than accumulated rounding error, also near overflow and underflow.",
 ['inputs'],"for all floats",
 "Numerical error over all inputs.",
 [V,T,TF,X],[('float arithmetic',V)],observe=['numeric results'])
prop('C43','The time logger reports the true elapsed time',
 "The elapsed time written is the wall-clock time between resume and finish.",
 ['schedules'],"for every run duration",
 "Depends on the clock.",
 [L],[('TimeLogger',L)],observe=['written text'])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
