#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it or spec.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import spec

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


G, I, S = 'src/solver/genetic/', 'src/solver/improvement/', 'src/solver/'
prop('C01', 'Solution evaluation is exact',
     'Evaluating a set of routes gives, for every route, the distance depot to first customer to ... to depot, the load minus the vehicle capacity, and distance plus penalty times the excess load; the solution cost is the sum of the route costs. The solution is feasible exactly when no route exceeds the capacity by more than 1e-6. The recorded neighbours of every visited customer are the customers (or the depot) before and after it.',
     'inputs', 'all partitions of the customers into routes, all symmetric distances, demands (also fractional), capacities and penalties',
     'no test evaluates a solution; the result must be right for every route shape, and errors show only for particular loads (just above or below the capacity) or empty and one-customer routes',
     S + 'evaluate.rs', [('evaluate, route_cost', S + 'evaluate.rs')], [('SolutionEvaluation', 'cost, feasibility, neighbours', S + 'evaluate.rs')], ['Individual::evaluate'])
prop('C02', 'Split finds the cheapest partition of a giant tour',
     'Splitting a visiting order into routes without a binding fleet limit yields routes that, concatenated in their original order, visit exactly the customers of the order, consecutive in it. Their penalised cost is the minimum over all ways of cutting the order into consecutive segments. The result does not depend on what the same splitter split before.',
     'inputs histories', 'all visiting orders, distances, demands, penalties; earlier use of the splitter',
     'the linear-time split relies on dominance of queue entries; a wrong comparison loses optimality only for particular distance and demand combinations, and no test runs the split',
     G + 'split.rs', [('split', G + 'split.rs'), ('propagate, dominates, dominates_right', G + 'split.rs')], [('path_cost, predecessors', 'shortest paths', G + 'split.rs')], ['Split::run'])
prop('C03', 'Split under a fleet limit',
     'Splitting a visiting order with a maximum number of routes never yields more non-empty routes than the larger of that maximum and the least number of vehicles the total demand needs, and every customer is still visited exactly once. The penalised cost is the minimum over all cuts of the order into at most that many segments (for the quadratic split: among cuts whose loads stay within its load factor, when there are any).',
     'inputs configurations', 'all visiting orders, distances, demands, penalties, route limits',
     'the limited-fleet recursion runs only when the unlimited split uses too many vehicles; its off-by-one errors lose customers or optimality for particular limits',
     G + 'split.rs', [('split_limited_fleet', G + 'split.rs'), ('vehicle_lower_bound', S + 'context.rs')], [], ['Split::run'])
prop('C04', 'Local search moves do what they promise',
     'For every move of the local search, the cost change it promises before being applied is the change of the penalised cost of the solution that applying it causes. After it is applied every customer is still visited exactly once, the move only touches the two routes involved, and all bookkeeping of the search (links in both directions, positions, cumulated and total distances and loads, overloads, the set of empty routes) describes the new routes.',
     'inputs', 'all solutions, all pairs of customers and depots a move may be applied to, all distances, demands, capacities',
     'nine moves with special cases for adjacent nodes, the same route and depots; a wrong term corrupts the search silently, and no test exercises a move',
     ' '.join([I + 'moves/relocation.rs', I + 'moves/swap.rs', I + 'moves/two_opt.rs', I + 'linked_list.rs', I + 'local_search.rs']), [('Move::delta, Move::perform', I + 'moves'), ('update_route', I + 'local_search.rs')], [('LinkNode, LinkRoute', 'doubly linked routes', I + 'linked_list.rs')], ['LocalSearch'])
prop('C05', 'SWAP* only improves and misses nothing',
     'The exchange search between two routes, when it reports an improvement, has lowered the penalised cost and left every customer visited exactly once with consistent bookkeeping; otherwise it has changed nothing. It takes the best of its candidates: no relocation of one customer from one route to its cheapest place in the other, and no exchange of two customers each to its cheapest place (among those whose removal gains outweigh the penalty change), would have lowered the cost more; when it reports none, no such move would lower it at all. Insertion places remembered from earlier runs never make it act on outdated routes.',
     'inputs histories', 'all pairs of routes, distances, demands, capacities, penalties; repeated runs',
     'the three best insertion places are cached per route and customer and invalidated by time stamps; stale or wrongly ranked entries matter only in particular geometries',
     ' '.join([I + 'moves/swap_star.rs', I + 'preprocess.rs', I + 'local_search.rs']), [('SwapStar::run', I + 'moves/swap_star.rs'), ('preprocess_insertions, cheapest_insert_and_removal', I + 'local_search.rs'), ('ThreeBestInserts::add', I + 'preprocess.rs')], [('best_inserts', 'cached insertion places', I + 'local_search.rs')], ['SwapStar::run'])
prop('C06', 'Local search ends in a complete, no worse local optimum',
     'A run of the local search returns a solution that visits every customer exactly once on the same number of routes, with a truthful evaluation, whose cost under the penalty of the run is not higher than that of the solution it was given. No enabled move between two neighbouring customers, and none that moves a customer to the front of a neighbour\'s route, would improve the result; with SWAP* enabled no relocation or exchange (each customer to its cheapest place) between two routes whose sectors overlap would; and once the search has improved anything, no enabled move of a customer into an unused route would; apart from the order in which pairs are tried, nothing of an earlier run of the same search object influences the outcome.',
     'inputs histories configurations', 'all start solutions, distances, demands, capacities, random orders, enabled moves; reuse of the object',
     'the search skips pairs by time stamps of routes and nodes; a wrong stamp leaves improving moves behind or reuses links of the previous solution, for particular inputs only',
     I + 'local_search.rs', [('search', I + 'local_search.rs'), ('load_individual, update_individual', I + 'local_search.rs')], [('last_tested, last_modified', 'time stamps', I + 'linked_list.rs')], ['LocalSearch::run'])
prop('C07', 'Ruin and recreate keeps the solution whole',
     'One ruin step followed by one recreate step leaves every customer in exactly one route, none unassigned and no route marked as ruined. Every route\'s recorded distance and overload, every customer\'s recorded location, and the solution cost equal what the routes themselves give. A customer is put into a ruined route that can take it without overload at its cheapest place if there is one, and otherwise at the place of any route with the least sum of added distance and penalty for that route\'s load beyond the capacity.',
     'inputs schedules', 'all solutions, random draws, distances, demands, capacities',
     'the removed strings depend on half a dozen random draws and on index arithmetic at both ends of a route; the existing tests do not touch it',
     ' '.join([I + 'ruin_recreate/' + x for x in ('ruin.rs', 'recreate.rs', 'node.rs', 'mod.rs')]), [('AdjacentStringRemoval::run', I + 'ruin_recreate/ruin.rs'), ('GreedyBlink::run', I + 'ruin_recreate/recreate.rs'), ('Route::add, Route::remove', I + 'ruin_recreate/node.rs')], [('RuinRecreateSolution', 'routes, locations, cost', I + 'ruin_recreate/mod.rs')], ['Ruin::run, Recreate::run'])
prop('C08', 'Ruin and recreate search returns the best it has seen',
     'After a solution is loaded and the ruin-and-recreate search is run, the solution handed out visits every customer exactly once, its reported cost is its true penalised cost, and it is never worse than the solution loaded. It is the cheapest of all solutions the search accepted, and the working solution is always the last accepted one. In the elite education the penalty is lowered by its factor every thousandth iteration when the working solution is feasible and raised otherwise, and the costs of all solutions held are those under the new penalty from then on. It lasts for its configured number of iterations per customer (or its share of the time limit); the mutations that follow it last for theirs and keep the penalty.',
     'inputs schedules histories', 'all loaded solutions, random draws, distances, demands; repeated loads',
     'the three copies of the solution are exchanged on acceptance, rejection and improvement; a missed copy shows only after particular accept/reject sequences',
     I + 'ruin_recreate/mod.rs', [('RuinRecreate::load, search, update_best, get_best_solution', I + 'ruin_recreate/mod.rs')], [('solution, current_solution, best_solution', 'search state', I + 'ruin_recreate/mod.rs')], ['RuinRecreate::get_best_solution'])
prop('C09', 'Annealing schedules cool down and finish',
     'A schedule starts at its start temperature, its temperature follows start * (exp(-2t) - t*exp(-2)) of the elapsed fraction t, never rises and is never negative within the schedule, and it completes exactly when its iterations (or its duration, at the next temperature update) are used up; resetting makes it behave like new. A candidate cheaper than the current cost by more than the comparison tolerance is always accepted, and a dearer one only if its increase stays below temperature times minus the logarithm of the random draw.',
     'inputs histories schedules', 'all start temperatures, lengths, clock readings, costs, draws; any number of updates and resets',
     'the schedule tests look at three fixed points; completion, monotonicity, acceptance and reset are untested',
     I + 'ruin_recreate/schedule.rs', [('IterationSchedule, TimeSchedule, AcceptanceCriterion', I + 'ruin_recreate/schedule.rs')], [('temp, iteration, completed', 'schedule state', I + 'ruin_recreate/schedule.rs')], ['Acceptance'])
prop('C10', 'Crossover yields a complete tour of both parents',
     'A child contains every customer exactly once. It takes over a contiguous, possibly wrapping, section of one parent at the same positions, and fills the remaining positions, starting after the section, with the other customers in the order in which the other parent visits them. Both parents are members of the population and are unchanged.',
     'inputs schedules', 'all parents, section bounds and random draws',
     'wrapping sections and sections ending at the last position are the error-prone cases; no test covers the crossover',
     G + 'genetic.rs', [('crossover, crossover_ox', G + 'genetic.rs'), ('tournament', G + 'population.rs')], [], ['GeneticAlgorithm::iterate'])
prop('C11', 'Population bookkeeping and survivor selection',
     'Each subpopulation stays ordered by cost; its diversity table holds, for every member, exactly one distance to every other member and none to removed ones, in ascending order. Adding a member keeps it unless it is a clone of another member; when the size limit is reached, members are removed down to the minimum size, clones first and then by worst biased fitness, and the cheapest member is never removed. Feasible and infeasible solutions are kept apart.',
     'inputs histories', 'all sequences of additions of solutions with any costs and distances',
     'the table, the fitness ranks and the sorted vector are updated in place on every addition and removal; errors need several additions and particular ties',
     G + 'population.rs', [('add_individual, natural_selection, update_diversity, remove_diversity, update_fitness', G + 'population.rs')], [('population, diversity', 'members and distance table', G + 'population.rs')], ['SubPopulation'])
prop('C12', 'Broken-pairs distance follows its definition',
     'The distance between two solutions is the number of customers whose successor in the first solution is neither successor nor predecessor in the second, plus the number of customers that open a route in the first solution but are next to the depot on neither side in the second. It is zero between a solution and itself and between a solution and any copy of it with routes reversed or reordered, and never exceeds twice the number of customers.',
     'inputs', 'all pairs of solutions',
     'diversity control rests on it; the two conditions differ only for particular placements of route starts and ends, and no test computes it',
     G + 'individual.rs', [('calculate_broken_pairs_distance', G + 'individual.rs')], [], ['Individual::calculate_broken_pairs_distance'])
prop('C13', 'The penalty follows the share of feasible solutions',
     'At each penalty update the capacity penalty is raised by its factor when the share of feasible solutions among the recent ones is more than five points below the target, lowered by its factor when more than five points above, and otherwise kept, always within its fixed limits. All infeasible members are then re-evaluated under the new penalty and stay ordered by cost. Updates happen once per configured interval of iterations.',
     'inputs histories', 'all feasibility histories, penalties, factors, populations',
     'needs a run with populations of both kinds; the tests never update the penalty',
     G + 'genetic.rs ' + G + 'population.rs', [('update_penalty', G + 'genetic.rs'), ('feasible_history', G + 'population.rs')], [], ['Config::penalty_capacity'])
prop('C14', 'The search history only ever improves',
     'Every solution recorded as a new best is feasible, visits every customer exactly once, carries its true cost and is cheaper than the one recorded before it. The last record is the best solution the search has reported, and a feasible solution cheaper than the last record is always recorded when the search compares it.',
     'inputs histories', 'all sequences of candidate solutions offered by the genetic and the ruin-and-recreate search',
     'two searches write to the same history, each with its own idea of the best; only particular interleavings of their improvements break the order',
     ' '.join([S + 'history.rs', G + 'genetic.rs', I + 'ruin_recreate/mod.rs']), [('SearchHistory::add', S + 'history.rs'), ('update_best', G + 'genetic.rs'), ('update_best', I + 'ruin_recreate/mod.rs')], [('best_cost, history', 'records', S + 'history.rs')], ['SearchHistory::entries'])
prop('C15', 'The solution file states the best solution',
     'A written solution lists exactly the non-empty routes of the best recorded solution, numbered from one without gaps, each with its customers in visiting order, followed by the cost rounded to the nearest integer. Writing replaces an existing file completely, and nothing is written when no output path is configured.',
     'inputs', 'all route sets (with empty routes) and costs; any earlier file content',
     'no test prints a solution; skipped numbers and rounding show for particular routes and costs',
     S + 'history.rs src/utils/serializer.rs', [('Display for HistoricSolution', S + 'history.rs'), ('write_solution_file', 'src/utils/serializer.rs')], [], ['output file'])
prop('C16', 'Distances are Euclidean, symmetric and consistent',
     'The distance between two nodes is the Euclidean distance of their coordinates, rounded to the nearest integer if rounding is on, whether distances are precomputed or computed on demand; it is symmetric and zero from a node to itself. Given an explicit lower-triangular matrix, its entries are used (rounded if rounding is on) for both directions. The largest distance is reported where known, and a subproblem sees the distances of its nodes in the full problem.',
     'inputs configurations', 'all coordinates and explicit matrices, rounding on and off, precomputed and lazy',
     'the tests do not compare the lazy and the precomputed matrix; agreement must hold for all coordinates',
     'src/models/matrix.rs', [('DistanceMatrixBuilder::build', 'src/models/matrix.rs'), ('DistanceMatrix::get, get_vec, from_mapping', 'src/models/matrix.rs')], [], ['DistanceMatrix::get'])
prop('C17', 'Neighbour lists hold the nearest customers',
     'The neighbour list of every node contains distinct customers, never the depot and never the node itself, ordered by non-decreasing distance, and no customer left out is strictly nearer than one listed. Its length is the smaller of 200 and the number of customers minus one.',
     'inputs', 'all distance matrices',
     'lazy sorting with ties and the width limit decide which neighbours the searches ever look at',
     'src/models/matrix.rs', [('CorrelationMatrix::new', 'src/models/matrix.rs')], [], ['CorrelationMatrix::get'])
prop('C18', 'Route sectors cover their customers and overlap correctly',
     'The circle sector of a route, built by adding the angles of its customers one by one, encloses every angle added, whatever their order. Two sectors are reported to overlap exactly when some angle is enclosed by both, the test is symmetric, and a node\'s integer angle, the polar angle around the depot in units of pi/32768, lies in [0, 65536).',
     'inputs', 'all angle sequences',
     'wrap-around at angle zero and sectors covering more than half of the circle are the interesting cases; no test covers them',
     'src/models/circle_sector.rs src/models/problem.rs', [('extend, is_enclosed, overlaps', 'src/models/circle_sector.rs'), ('get_angle', 'src/models/problem.rs')], [('start, end', 'sector bounds', 'src/models/circle_sector.rs')], ['CircleSector'])
prop('C19', 'Decomposition preserves the global solution',
     'Extracting a subproblem takes whole routes out of the global solution and gives a subproblem whose nodes, demands and distances are those of the taken customers, solved by the taken routes at their cost. Putting the (possibly improved) subsolution back yields a global solution that visits every customer exactly once, whose cost changed by exactly the change of the subsolution, and that the next search can load.',
     'inputs schedules', 'all global solutions, seed customers, subproblem sizes, subsolutions',
     'decomposition runs only on instances of thousands of customers, which no test has; index mapping errors lose or duplicate customers',
     G + 'decomposition.rs ' + S + 'context.rs', [('Decomposition::new, finish', G + 'decomposition.rs'), ('from_mapping', S + 'context.rs')], [('mapping', 'subproblem index to node', G + 'decomposition.rs')], ['Decomposition'])
prop('C20', 'The search stops at its limits',
     'The search stops at the first step taken after the time limit has been reached, or after the configured number of search iterations, and not before; once stopped it changes nothing any more. Without an improvement for more than the configured number of iterations, it restarts with a new population and keeps the best solution found. The search of a subproblem is bound by the time limit of the whole search, counted from its start.',
     'inputs histories schedules', 'all clock readings, limits and iteration counts',
     'the tests never run the search loop; limits must hold for every clock history',
     ' '.join([S + 'context.rs', S + 'solver.rs', G + 'genetic.rs']), [('terminate', S + 'context.rs'), ('Solver::run', S + 'solver.rs'), ('iterate, reset', G + 'genetic.rs')], [], ['Solver::run'])
prop('C21', 'Instance files are read faithfully',
     'Parsing an instance file yields exactly the stated dimension, vehicle capacity, node coordinates and demands, node by node, and for explicit instances the stated distances, independent of extra blanks, tabs, colons and header order. The first node is the depot.',
     'inputs', 'all well-formed files within a size, all digits of the numbers, separators',
     'no test reads an instance; sections are located by scanning lines and offsets that must be right for every layout',
     'src/utils/parser.rs', [('ProblemParser::parse', 'src/utils/parser.rs')], [], ['ProblemParser::problem'])
prop('C22', 'Configuration layers override in order',
     'Loading a configuration changes exactly the settings the file names and keeps the built-in values of all others; unknown settings are ignored. Command-line values given by the user override the file\'s, and settings not given on the command line keep the file\'s values.',
     'inputs configurations', 'all subsets of settings and their values',
     'the tests do not load a configuration; every setting must survive the round trip',
     'src/config.rs src/cli.rs', [('update, update_from_args', 'src/config.rs'), ('Args::parse', 'src/cli.rs')], [], ['Config'])
prop('C23', 'A deterministic run is reproducible',
     'With the deterministic setting, two runs on the same instance with the same seed and configuration go through the same solutions and end with the same one, whatever the operating system\'s random state is.',
     'inputs histories schedules', 'all seeds, operating-system entropy, instances',
     'hash sets with random state or draws from an unseeded source change the course only in some runs; tests run once',
     'src/utils/random.rs ' + I + 'ruin_recreate/mod.rs ' + G + 'population.rs', [('Random::from_seed, random_state', 'src/utils/random.rs')], [], ['SearchHistory'])
prop('C24', 'Tolerant float comparisons are mutually consistent',
     'For any two numbers exactly one of "clearly less", "approximately equal or within the tolerance band" and "clearly greater" can be claimed: clearly less excludes greater-or-equal, clearly greater excludes less-or-equal, equality is symmetric and reflexive for finite numbers, less-or-equal holds whenever less or equal holds, and the tolerance is one millionth.',
     'inputs', 'all pairs of 64-bit floating-point numbers',
     'the tests compare about twenty pairs; the functions decide every cost comparison of the solver',
     'src/utils/comparison.rs', [('FloatCompare for f64', 'src/utils/comparison.rs')], [], ['FloatCompare'])
prop('C25', 'Small and degenerate instances are solved without a crash',
     'On every well-formed instance with at least one customer, also with fewer customers than the configured neighbourhood size, equal coordinates or a single route, building the solver and running search iterations under the default settings neither panics nor reads or writes memory outside its buffers.',
     'inputs configurations schedules', 'all tiny instances, random draws',
     'raw pointers and unchecked slices are sized by settings meant for large instances; the tests use no tiny instance',
     ' '.join(['src/models/matrix.rs', I + 'local_search.rs', S + 'context.rs']), [('Matrix::slice, slice_mut', 'src/models/matrix.rs'), ('LocalSearch::new', I + 'local_search.rs')], [], ['GeneticAlgorithm::iterate'])
prop('C26', 'The reported solution is complete, feasible and truthful',
     'Whatever the random draws, after any number of search iterations the best solution reported visits every customer exactly once, respects the vehicle capacity on every route, and its reported cost is its true total distance. Every individual in the population visits every customer exactly once and carries its true cost under the current or, for feasible ones, any penalty.',
     'inputs schedules histories', 'all distances, demands and random draws on tiny instances',
     'it is the end-to-end guarantee; any component may break it in rare draws, while the tests never run the search',
     ' '.join([G + 'genetic.rs', G + 'population.rs', S + 'history.rs']), [('GeneticAlgorithm::iterate, educate', G + 'genetic.rs')], [], ['GeneticAlgorithm::best_solution, SearchHistory'])
prop('C27', 'Fleet size and initial penalty are sufficient',
     'The least number of vehicles is the total demand divided by the capacity, rounded up, and the fleet the search works with is 1.2 times that plus two, rounded up. The initial penalty is the largest distance over the largest demand, kept within 0.0001 and 10000, or 100 when the largest distance is not known.',
     'inputs', 'all demands, capacities, distances',
     'no test builds a context from an instance; rounding at multiples of the capacity matters',
     S + 'context.rs src/models/problem.rs', [('vehicle_lower_bound, initial_num_vehicles, initial_penalty', S + 'context.rs')], [], ['Config::num_vehicles, Config::penalty_capacity'])
prop('C28', 'Sorting routes reorders them without changing them',
     'Ordering the routes of a solution by the polar angle of their centre around the depot keeps the multiset of routes and each route\'s order of customers, puts non-empty routes in ascending angle before all empty ones, and makes the giant tour the concatenation of the routes.',
     'inputs', 'all solutions and coordinates',
     'every search ends with it; a lost or duplicated route would corrupt the solution',
     G + 'individual.rs', [('sort_routes', G + 'individual.rs')], [], ['Individual::sort_routes'])
prop('C29', 'The program turns an instance file into a valid solution file',
     'Run on a well-formed instance, the program ends when its configured time or number of iterations is used up and leaves a solution file at the path given on the command line, else at the one in the configuration file, and nowhere else (none at all when no path is configured). When a solution was found, the file lists routes that visit every customer of the instance exactly once without overloading a vehicle, and a cost that is their total distance, with the distances rounded to integers exactly when the settings say so.',
     'inputs configurations schedules', 'all tiny instances (digits of their distances), settings and arguments, random draws, clock readings',
     'the tests never run the program; parsing, settings, search and output must fit together for every instance and setting',
     'src/main.rs ' + S + 'solver.rs src/utils/parser.rs src/utils/serializer.rs src/config.rs src/cli.rs', [('main', 'src/main.rs'), ('Solver::run', S + 'solver.rs'), ('write_solution_file', 'src/utils/serializer.rs')], [], ['the solution file'])
prop('C30', 'The decomposed search is sound from start to end',
     'For large instances the decomposed search ends at its limits like the plain one. After every step before that its global solution visits every customer exactly once, states its true cost under the penalty in force, and has not become worse (dearer without carrying less overload); the penalty and the settings of the whole are those of the start; and a feasible global solution is on record, every record being feasible, truthful and cheaper than the one before.',
     'inputs schedules histories', 'all distances and random draws on small instances, limits, subproblem sizes, clock readings',
     'the tests have no instance large enough for it; penalty and settings are changed for a while and parts of the solution travel to and from a subproblem in every step',
     G + 'decomposition.rs ' + G + 'genetic.rs ' + S + 'context.rs', [('DecomposedGeneticAlgorithm::iterate, create_global_solution', G + 'decomposition.rs'), ('Decomposition::run, finish', G + 'decomposition.rs')], [('global_solution', 'the solution of the whole', G + 'decomposition.rs')], ['SearchHistory', 'DecomposedGeneticAlgorithm::global_solution (hook)'])

HOOKS = ['c45c6f8', 'f42a605']
LEVEL_NOTE = ('Bounded: every value of the symbolic inputs within the harness bounds (see evidence: harnesses, bounds, paths, solver queries), nothing outside them. Trusts the executor (symex/), its exact-real model of f64 with bounded rounding variables, z3, rustc; '
              'counterexamples are replayed natively before being reported and sampled passing paths are replayed to validate the executor.')


def main():
    with open(HERE + '/properties.jsonl', 'w') as h:
        for p in P:
            h.write(json.dumps(p) + '\n')
    ids = [p['id'] for p in P]
    checks = []
    for i in ids:
        if i in spec.CHECKS:
            c = spec.CHECKS[i]
            checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, technique='symbolic execution of the real code\'s LLVM IR, deciding with z3', level='model_checking',
                               level_note=LEVEL_NOTE + (' Outside the bounds: ' + c['outside'] if c.get('outside') else '')))
    na = [dict(property=i, reason=spec.NOT_APPLICABLE.get(i, 'no check built yet')) for i in ids if i not in spec.CHECKS]
    m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na, 
             hooks=dict(guard='--cfg hybridcvrp_verif (rustc)', enable='RUSTFLAGS="--cfg hybridcvrp_verif", set by tools/build_ir.sh and run.py', source_commits=HOOKS),
             notes='All checks: run.py PROPERTY TIER. Hooks: fewer iterations of the decomposed search (2 and 3 instead of 100000 and 2000) and a view of its global solution; everything else uses the public API.')
    with open(HERE + '/MANIFEST.json', 'w') as h:
        json.dump(m, h, indent=1)
        h.write('\n')


main()
