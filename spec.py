"""Which harnesses decide which property, within which bounds."""


class H:
    def __init__(self, entry, reach=('end',), weight=1.0, samples=12, jobs=None, max_instr=None, note='', **params):
        self.entry, self.reach, self.weight, self.samples, self.jobs, self.max_instr, self.note, self.params = entry, reach, weight, samples, jobs, max_instr, note, params

    def describe(self):
        return self.entry + '(' + ', '.join('%s=%s' % kv for kv in sorted(self.params.items())) + ')' + (': ' + self.note if self.note else '')


COMMON_ASSUMPTIONS = [
    'The harness, not the shipped binary, drives the code; rustc/LLVM 23 at -O2 with overflow checks produce the analysed IR, the same harness is replayed natively.',
    'fastrand is replaced by a copy whose draws the harness can make arbitrary, getrandom by a counter; log output is off; no concurrency (the code has none).',
    'A symbolic f64 is tracked as its exact real value; operations whose result may not be representable get a bounded rounding-error variable; the sign of zero and subnormal results are not modelled.',
    'Memory allocation never fails.',
]
NOT_APPLICABLE = {}
CHECKS = {
    'C01': dict(quick=[H('h_eval', n=3, k=3, reach=('end', 'overloaded')), H('h_eval', n=4, k=3, shift=22, reach=('end', 'overloaded', 'within tolerance')), H('h_eval_again', reach=('end', 'shorter routes'), n=3)], thorough=[H('h_eval_again', reach=('end', 'shorter routes'), n=4, mask=3), H('h_eval', n=4, k=3, reach=('end', 'overloaded'))]),
    'C02': dict(
        quick=[H('h_split', n=3, lim0=4, lim1=4, p0=0), H('h_split', n=4, lim0=5, lim1=5, weight=3), H('h_split', n=4, linear=0, lim0=5, lim1=5, p0=3, weight=2), H('h_split', n=6, symq=0, lim0=7, lim1=7, p0=2, p1=2)],
        thorough=[H('h_split', n=5, lim0=6, lim1=6, p0=0, p1=0, weight=4), H('h_split', n=5, linear=0, lim0=6, lim1=6, p0=0, p1=0, weight=2), H('h_split', n=7, symq=0, lim0=8, lim1=8, p0=0)],
        outside='more than 4 customers with symbolic demands, 6 with fixed demands (thorough: 5 and 7); visiting orders other than four fixed ones (relabelling customers is covered by the symbolic distances)'),
    'C03': dict(
        quick=[H('h_split', reach=('end', 'limit met', 'limit below the lower bound'), n=3, lim0=1, lim1=3, p0=0, weight=2),
               H('h_split', reach=('end', 'limit met', 'limit below the lower bound'), n=3, linear=0, lim0=1, lim1=3, p0=0),
               H('h_split', reach=('end', 'limit met', 'limit below the lower bound'), n=5, symq=0, lim0=1, lim1=5, p0=0, p1=0, weight=2),
               H('h_split', reach=('end', 'limit met', 'no cut within the load factor'), n=5, linear=0, symq=0, big=1, lim0=1, lim1=5, p0=0),
               H('h_split', reach=('end', 'limit met'), n=4, linear=0, symq=0, fleet=3, warmq=7, warmlimit=3, lim0=2, lim1=3, p0=0), H('h_split', reach=('end', 'limit met'), n=4, symq=0, fleet=3, warmq=7, warmlimit=3, lim0=2, lim1=3, p0=0)],
        thorough=[H('h_split', reach=('end', 'limit met', 'limit below the lower bound'), n=4, lim0=1, lim1=4, p0=0, weight=4),
                  H('h_split', reach=('end', 'limit met'), n=4, linear=0, lim0=1, lim1=4, p0=0, weight=2),
                  H('h_split', reach=('end', 'limit met', 'limit below the lower bound'), n=6, symq=0, lim0=1, lim1=6, p0=0, p1=0, weight=2),
                  H('h_split', reach=('end', 'limit met', 'no cut within the load factor'), n=5, linear=0, lim0=3, lim1=3, p0=0, p1=0, weight=3)],
        outside='more than 3 customers with symbolic demands, 5 with fixed demands (thorough: 4 and 6)'),
    'C04': dict(
        quick=[H('h_move', n=3, k=2, reach=('end', 'improving')), H('h_move', n=5, k=2, reach=('end', 'improving'))],
        thorough=[H('h_move', n=6, k=3, reach=('end', 'improving'))],
        outside='more than 5 customers (thorough: 6) or 2 routes (3); distances other than integers up to 1000; demands other than integers'),
    'C05': dict(
        quick=[H('h_swap_star', a=2, b=1, reach=('end', 'improved')), H('h_swap_star', a=3, b=1, symq=0, cap=3, reach=('end', 'improved'), weight=3), H('h_swap_star', a=2, b=2, mask=7, cap=3, symq=0, runs=2, reach=('end', 'improved')), H('h_swap_star_three', reach=('end', 'improved later'))],
        thorough=[H('h_swap_star_three', a=2, b=2, mask=31, cap=3, reach=('end', 'improved later'), weight=2), H('h_swap_star', a=2, b=2, reach=('end', 'improved'), weight=4), H('h_swap_star', a=3, b=1, symq=0, cap=3, reach=('end', 'improved')), H('h_swap_star', a=3, b=2, symq=0, mask=0x3ff, cap=3, runs=2, reach=('end', 'improved'), weight=3)],
        outside='more than 4 customers in the two routes (thorough: 5)'),
    'C06': dict(
        quick=[H('h_ls_rounding', reach=('end', 'moved')), H('h_ls_rounding', n=4, pens=2, exchange=1, on=0, mask=17, reach=('end', 'exchanged', 'nothing to exchange')), H('h_ls_rounding', equal=1, exchange=1, on=0, mask=24, reach=('end', 'exchanged', 'nothing to exchange')), H('h_ls', n=3, k=3, e0=0, e1=5, reach=('end', 'improved', 'overlap', 'unused route')), H('h_ls', n=3, k=3, e0=6, e1=9, mask=15, reach=('end', 'improved', 'unused route')), H('h_ls', n=4, k=2, e0=5, e1=5, mask=79, cap=3, mix=1, reach=('end', 'improved', 'overlap')), H('h_ls', n=3, k=3, shuffle=1, draws=4, reach=('end', 'improved')),
               H('h_ls', n=3, k=2, symq=1, warmmult=3, reach=('end', 'improved')), H('h_ls', n=4, k=3, mask=15, reach=('end', 'improved'), weight=2), H('h_ls', n=5, k=2, gran=2, mask=7, cap=3, mix=1, reach=('end', 'improved', 'overlap'), weight=2)],
        thorough=[H('h_ls_rounding', pens=2, reach=('end', 'moved')), H('h_ls_rounding', n=4, pens=0, equal=1, mask=15, reach=('end', 'moved')), H('h_ls', n=4, k=2, e0=5, e1=5, mask=1023, mix=1, reach=('end', 'improved', 'overlap'), weight=3), H('h_ls', n=4, k=3, reach=('end', 'improved'), weight=4), H('h_ls', n=4, k=2, mask=15, symq=1, reach=('end', 'improved')), H('h_ls', n=4, k=2, mask=15, shuffle=1, draws=6, reach=('end', 'improved'), weight=2),
                  H('h_ls', n=5, k=2, gran=2, mask=992, reach=('end', 'improved'), weight=2)],
        outside='more than 5 customers; more than a few nondeterministic random draws per run (later draws fixed)'),
    'C07': dict(
        quick=[H('h_rr_step', n=3, k=3, reach=('end', 'several removed'), ints=3, reals=5), H('h_rr_step', n=5, k=1, mask=0, ints=4, reals=6, reach=('end', 'several removed')),
               H('h_rr_step', n=5, k=2, mask=3, ints=3, reals=5, fixq=1, cap=8, reach=('end', 'several removed'), weight=2), H('h_rr_step', n=4, k=3, mask=15, ints=4, reals=5, rints=3, reach=('end', 'several removed')),
               H('h_rr_step', n=3, k=2, mask=7, ints=1, reals=2, steps=2, reach=('end', 'several removed')),
               H('h_recreate', n=4, k=3, reach=('end', 'fits', 'does not fit')), H('h_recreate', n=3, k=3, symq=1, cap=4, reach=('end', 'fits', 'does not fit'))],
        thorough=[H('h_rr_step', n=5, k=2, mask=3, ints=4, reals=6, fixq=1, cap=8, reach=('end', 'several removed')), H('h_rr_step', n=5, k=3, mask=31, ints=4, reals=6, rints=3, reach=('end', 'several removed'), weight=2),
                  H('h_rr_step', n=6, k=1, mask=0, ints=5, reals=8, reach=('end', 'several removed')), H('h_rr_step', n=4, k=2, mask=3, ints=2, reals=3, steps=2, reach=('end', 'several removed'), weight=3),
                  H('h_recreate', n=5, k=3, reach=('end', 'fits', 'does not fit')), H('h_recreate', n=4, k=3, symq=1, cap=4, reach=('end', 'fits', 'does not fit'), weight=2)],
        outside='more than 5 customers, 3 routes; real draws other than multiples of 2^-10; draws after the first few of each step are fixed'),
    'C08': dict(
        quick=[H('h_rr_states', reach=('end', 'rejected', 'dearer accepted', 'improvement')), H('h_rr_states', rounds=2, iterations=2, reach=('end', 'rejected', 'dearer accepted', 'improvement'), weight=2),
               H('h_rr_search', reach=('end', 'improved')), H('h_rr_search', n=3, k=2, iterations=2, rounds=2, mask=7, reach=('end', 'improved', 'second round')), H('h_rr_search', n=4, k=2, iterations=2, mask=15, reach=('end', 'improved')), H('h_rr_elite', mask=1, reach=('end', 'lowered', 'raised')), H('h_rr_elite_lengths', reach=('end', 'time up'))],
        thorough=[H('h_rr_elite', mask=3, before=3, after=2, reach=('end', 'lowered', 'raised'), weight=2), H('h_rr_states', iterations=5, reach=('end', 'rejected', 'dearer accepted', 'improvement')), H('h_rr_states', rounds=2, iterations=3, reach=('end', 'rejected', 'dearer accepted', 'improvement'), weight=3),
                  H('h_rr_search', n=3, k=2, iterations=3, rounds=2, mask=7, reach=('end', 'improved', 'second round')), H('h_rr_search', n=4, k=2, iterations=2, mask=31, reals=5, ints=2, reach=('end', 'improved'), weight=2)],
        outside='more than 4 customers, 3 iterations per search, 2 searches; real draws other than multiples of 2^-10; the elite education\'s thousand iterations offer nothing new but around the penalty update'),
    'C09': dict(
        quick=[H('h_sched_iter', reach=('end', 'completed'), total=12), H('h_sched_time', reach=('end', 'completed'), steps=4), H('h_sched_time', reach=('end', 'completed'), steps=3), H('h_accept', reach=('end', 'accepted', 'rejected', 'dearer accepted'))],
        thorough=[H('h_sched_iter', reach=('end', 'completed'), total=60), H('h_sched_time', reach=('end', 'completed'), steps=8), H('h_accept', reach=('end', 'accepted', 'rejected', 'dearer accepted'))],
        outside='schedules of more than 12 iterations (60), durations other than 0.5, 1, 8 and 64 s, clock readings that are not multiples of half a second; start temperature zero'),
    'C10': dict(
        quick=[H('h_crossover', reach=('end', 'new child'), n=4, weight=2), H('h_crossover', reach=('end', 'new child'), n=4, parents=3), H('h_crossover', reach=('end', 'new child'), n=5, draws=6, weight=2), H('h_crossover_big', reach=('end', 'new child'), n=130)],
        thorough=[H('h_crossover', reach=('end', 'new child'), n=5, draws=8, weight=4), H('h_crossover', reach=('end', 'new child'), n=5, parents=3, draws=8, weight=4), H('h_crossover_big', reach=('end', 'new child'), n=130, draw=2), H('h_crossover_big', reach=('end', 'new child'), n=70)],
        outside='more than 5 customers with all sections and second parents (130 customers with fixed parents and 14 section bounds), more than 3 members, redraws of a section beyond 8 draws; the first parent is the identity or its reverse (relabelling customers changes nothing), the second any permutation'),
    'C11': dict(
        quick=[H('h_population', reach=('end', 'clone', 'selection'), weight=2), H('h_population', reach=('end', 'clone', 'selection'), adds=5, both=0, colours=3, weight=2), H('h_population', reach=('end', 'selection'), adds=6, both=0, colours=4, symcost=0), H('h_population_add'), H('h_selection', reach=('end', 'clone')), H('h_selection', reach=('end', 'clone'), members=6)],
        thorough=[H('h_population', reach=('end', 'clone', 'selection'), adds=5, elites=3, close=1, weight=4), H('h_population', reach=('end', 'clone', 'selection'), adds=6, both=0, colours=3, weight=4), H('h_population_add', adds=6)],
        outside='more than 6 members; distances beyond those of two-place colours; minimum sizes other than 2'),
    'C12': dict(
        quick=[H('h_broken_pairs', n=4), H('h_broken_pairs', n=4, same=1)],
        thorough=[H('h_broken_pairs', n=5), H('h_broken_pairs', n=5, same=1)],
        outside='more than 4 customers (thorough: 5)'),
    'C13': dict(
        quick=[H('h_penalty', reach=('end', 'raised', 'lowered', 'kept')), H('h_penalty', reach=('end', 'raised', 'lowered', 'kept'), symp=0), H('h_penalty_interval'), H('h_penalty_restart', reach=('end', 'restarted'))],
        thorough=[H('h_penalty', reach=('end', 'raised', 'lowered', 'kept'), all=1, weight=3), H('h_penalty', reach=('end', 'raised', 'lowered', 'kept'), symp=0, all=1, weight=3)],
        outside='populations of more than four members; a symbolic penalty together with symbolic factors (one of them is fixed); quick: shares other than 0, 3, 41, 99 of the recent hundred'),
    'C14': dict(
        quick=[H('h_records', reach=('end', 'improved', 'ruin and recreate')), H('h_records', reach=('end', 'improved', 'ruin and recreate'), rr=2, menu=2, weight=2), H('h_records', reach=('end', 'improved', 'ruin and recreate'), rr=2, rounds=2), H('h_records_restart', reach=('end', 'restarted', 'restarted with a record'))],
        thorough=[H('h_records_restart', reach=('end', 'restarted', 'restarted with a record'), mask=7, steps=12, weight=3), H('h_records', reach=('end', 'improved', 'ruin and recreate'), rr=2, weight=4), H('h_records', reach=('end', 'improved', 'ruin and recreate'), rounds=4, menu=2, weight=2)],
        outside='more than 3 rounds and 2 ruin-and-recreate iterations in each; candidates outside a menu of four route sets on three customers; the ruin and recreate operators are replaced by ones that offer arbitrary solutions of the menu'),
    'C15': dict(
        quick=[H('h_solution_file', reach=('end', 'cost', 'untouched')), H('h_solution_file', reach=('end', 'cost', 'untouched'), n=4, k=2, first=8, d=40, hi=4000)],
        thorough=[H('h_solution_file', reach=('end', 'cost', 'untouched'), n=4, k=4, weight=2), H('h_solution_file', reach=('end', 'cost', 'untouched'), n=5, k=3, first=7, d=40, hi=4000, weight=2)],
        outside='more than 4 customers and 3 routes (thorough: 5 customers, 4 routes), customer numbers beyond 12, distances that are not multiples of a quarter; the file system is an in-memory model that never fails'),
    'C16': dict(
        quick=[H('h_distance', n=3, reach=('end', 'precomputed', 'lazy', 'subproblem')), H('h_distance', n=4, sub=0, reach=('end', 'precomputed', 'lazy')), H('h_distance', n=3, explicit=1, reach=('end', 'explicit', 'subproblem')),
               H('h_distance', n=4, explicit=1, reach=('end', 'explicit', 'subproblem'))],
        thorough=[H('h_distance', n=4, reach=('end', 'precomputed', 'lazy', 'subproblem')), H('h_distance', n=5, sub=0, reach=('end', 'precomputed', 'lazy')), H('h_distance', n=5, explicit=1, reach=('end', 'explicit', 'subproblem'))],
        outside='more than 4 nodes (thorough: 5); coordinates beyond 1000 or finer than a quarter'),
    'C17': dict(
        quick=[H('h_neighbours', n=5, reach=('end', 'left out')), H('h_neighbours', n=204, mask=1, lo=180, hi=230, reach=('end', 'left out')), H('h_neighbours', n=6, mask=0, lazy=1, reach=('end', 'left out'))],
        thorough=[H('h_neighbours', n=6, reach=('end', 'left out')), H('h_neighbours', n=210, mask=2, hi=300, reach=('end', 'left out'))],
        outside='more than 5 nodes with all distances symbolic (thorough: 6), 204 nodes with a few symbolic distances'),
    'C18': dict(
        quick=[H('h_sector', a=3, b=2, reach=('end', 'enclosed already', 'overlap', 'apart')), H('h_angle'), H('h_angle', near=1)],
        thorough=[H('h_sector', a=4, b=3, reach=('end', 'enclosed already', 'overlap', 'apart')), H('h_angle'), H('h_angle', near=1)],
        outside='sectors of more than 3 and 2 customers (thorough: 4 and 3)'),
    'C19': dict(
        quick=[H('h_decompose', reach=('end', 'more routes'), weight=2), H('h_decompose', reach=('end', 'run'), run=1, globals=2, size=3, time=15, mask=0x100, weight=2), H('h_decompose', reach=('end', 'run'), run=1, globals=0, vehicles=3, size=3, time=15, mask=0x18000)],
        thorough=[H('h_decompose', reach=('end', 'more routes'), n=7, vehicles=7, size=6, mask=0x1300, weight=2), H('h_decompose', reach=('end', 'run'), run=1, weight=4), H('h_decompose', reach=('end', 'run'), run=1, draws=1, globals=2, size=2, time=20, mask=0x100, weight=2)],
        outside='more than 6 customers (thorough: 7), five global route sets, subproblems of more than 5 customers demanded; the inner search runs for a fixed number of clock readings; the global search of thousands of customers around it is not run'),
    'C20': dict(
        quick=[H('h_terminate', reach=('end', 'stopped')), H('h_restart', reach=('end', 'restarted', 'cycles'), draws=1), H('h_restart', reach=('end', 'restarted', 'cycles'), draws=2, steps=10, weight=2), H('h_sub_limit', reach=('end', 'over'))],
        thorough=[H('h_terminate', reach=('end', 'stopped'), steps=10, weight=2), H('h_restart', reach=('end', 'restarted', 'cycles'), draws=1, steps=20, weight=2)],
        outside='more than 14 steps (thorough: 20) and patience above 3; fractions of a second other than 0, 0.4, 0.6 and 0.999999999; instances of other than three customers'),
    'C21': dict(
        quick=[H('h_instance', reach=('end',), form1=7, qform1=4), H('h_instance', reach=('end', 'explicit'), explicit=1, form1=7, qform1=2), H('h_instance', reach=('end', 'explicit', 'context'), explicit=1, context=1, form1=0, qform1=0, orders=1)],
        thorough=[H('h_instance', reach=('end',), n0=4, n1=4, form1=7, qform1=7), H('h_instance', reach=('end', 'explicit'), n0=4, n1=4, explicit=1, form1=7, qform1=2, weight=2), H('h_instance', reach=('end', 'explicit', 'context'), explicit=1, context=1, form1=2, qform1=1, orders=3)],
        outside='more than 3 nodes (thorough: 4); numbers of more than four digits; line layouts other than six fixed ones and one of two arbitrary separators; header orders other than four; files that are not well-formed'),
    'C22': dict(
        quick=[H('h_config', reach=('end', 'unknown', 'two settings'), layouts=1), H('h_args', reach=('end', 'given'))],
        thorough=[H('h_config', reach=('end', 'unknown', 'two settings'), layouts=1), H('h_args', reach=('end', 'given'), digits=19), H('h_config', reach=('end', 'unknown', 'two settings'), layouts=1, digits=19)],
        outside='more than two settings in one file (each setting alone, and paired with one other), YAML forms other than plain scalars in two layouts, fractions of more than four digits, integers of other than one, two or eleven (thorough: nineteen) digits; malformed files and arguments'),
    'C23': dict(
        quick=[H('h_determinism'), H('h_determinism', ties=1), H('h_decompose_twice', reach=('end', 'several routes')), H('h_dga_twice')],
        thorough=[H('h_decompose_twice', reach=('end', 'several routes'), n=8, rounds=4, size=7), H('h_determinism', n=5, steps=8, weight=3), H('h_determinism', n=5, steps=8, ties=1, mask=7, weight=3)],
        outside='more than 5 customers, 8 steps, seeds other than 0, 1, 42 and 2^64-1; two values of the operating system\'s entropy; more than two symbolic distances'),
    'C24': dict(
        quick=[H('h_float', part=0, real=1), H('h_float', part=1, real=1), H('h_float', part=2, real=1, reach=('end', 'greater', 'less')), H('h_float', part=3, real=1, reach=('end', 'equal')), H('h_float', part=1, real=0, reach=('end', 'nan'), weight=3), H('h_float', part=0, real=2), H('h_float', part=1, real=2)],
        outside='infinities and not-a-number except for reflexivity and the negations (decided over all bit patterns); numbers beyond 1e300 (for the tolerance: beyond 1e6)'),
    'C25': dict(
        quick=[H('h_tiny', n0=1, reach=('end', 'cycles', 'reported')), H('h_tiny', n0=1, n1=1, k1=0, draws=1, steps=6, reach=('end', 'cycles', 'reported')), H('h_tiny', reach=('end', 'cycles', 'reported'), n0=4, n1=8), H('h_tiny', reach=('end', 'cycles', 'reported'), n1=2, k1=1, draws=2, steps=6, weight=2), H('h_tiny', reach=('end', 'reported'), gamma=1, init=0, n1=4)],
        thorough=[H('h_tiny', reach=('end', 'cycles', 'reported'), n1=3, draws=2, steps=7, weight=3), H('h_tiny', reach=('end', 'cycles', 'reported'), n0=20, n1=24)],
        outside='more than 8 customers (thorough: 24), 8 search steps; draws beyond the first two of each step follow a fixed pattern; three kinds of coordinates'),
    'C26': dict(
        quick=[H('h_ga', reach=('end', 'cycles', 'reported'), weight=2), H('h_ga', reach=('end', 'cycles', 'reported'), ints=1, vehicles=2), H('h_ga', reach=('end', 'cycles', 'reported'), elite=1, steps=8, ints=1)],
        thorough=[H('h_ga', reach=('end', 'cycles', 'reported'), ints=3, weight=4), H('h_ga', reach=('end', 'cycles', 'reported'), n=4, mask=3, weight=2), H('h_ga', reach=('end', 'cycles', 'reported'), steps=10, symbolic=6, mask=3, weight=2), H('h_ga', reach=('end', 'cycles', 'reported'), elite=1, steps=9, weight=2)],
        outside='more than 3 customers (thorough: 4), 6 to 10 iterations of which three take symbolic draws, two integer and one real draw each; the remaining draws follow a fixed pattern'),
    'C27': dict(
        quick=[H('h_context', reach=('end', 'penalty', 'upper limit', 'lazy')), H('h_context', symcap=1)],
        outside='more than 3 customers, demands that are not multiples of a quarter'),
    'C28': dict(
        quick=[H('h_sort_routes', n=3, k=3), H('h_sort_routes', n=4, k=3, mask=7), H('h_sort_routes', near=1)],
        thorough=[H('h_sort_routes', n=4, k=3), H('h_sort_routes', n=5, k=3, mask=31)],
        outside='more than 4 customers (thorough: 5), 3 routes'),
    'C29': dict(
        quick=[H('h_program', mask=5, ends=0, reach=('end', 'no file', 'solution', 'several routes')), H('h_program', mask=1, reach=('end', 'no file', 'solution', 'several routes', 'timed')), H('h_program', mask=0, ends=0, draws=3, skip=4, reals=2, reach=('end', 'solution')),
               H('h_program', explicit=0, mask=2, ends=0, reach=('end', 'solution', 'rounded')), H('h_program', mask=0, heavy=3, iterations=4, ends=0, reach=('end', 'solution')), H('h_program', n=4, mask=32, iterations=3, ends=0, reach=('end', 'solution', 'several routes')),
               H('h_program', n=1, mask=1, reach=('end', 'no file', 'solution', 'timed')), H('h_program', decompose=1, mask=1, seconds=30, reach=('end', 'no file', 'solution', 'several routes', 'timed'))],
        thorough=[H('h_program', n=2, mask=7, ends=0, reach=('end', 'no file', 'solution', 'several routes')), H('h_program', decompose=1, mask=21, n=4, ends=0, reach=('end', 'no file', 'solution', 'several routes'), weight=2), H('h_program', mask=21, ends=0, reach=('end', 'no file', 'solution', 'several routes'), weight=3), H('h_program', n=5, mask=2, iterations=8, ends=0, cap1=4, reach=('end', 'solution', 'several routes'), weight=2), H('h_program', mask=1, ends=0, draws=4, skip=20, reals=2, reach=('end', 'solution'), weight=2),
                  H('h_program', explicit=0, mask=6, heavy=2, seconds=40, reach=('end', 'solution', 'timed', 'rounded'))],
        outside='instances of more than 4 customers (thorough: 5) and runs of more than 4 iterations (thorough: 8); one seed, all but a few draws those of the generator; two symbolic two-digit distances (thorough: three); the logger is replaced by one that logs nothing'),
    'C30': dict(
        quick=[H('h_dga', reach=('end', 'stopped', 'feasible', 'reported')), H('h_dga', n=6, mask=1, limit0=1, limit1=1, reach=('end', 'stopped', 'feasible', 'reported', 'improved')),
               H('h_dga', n=3, vehicles=2, heavy=6, limit0=1, reach=('end', 'stopped', 'feasible', 'infeasible', 'improved')), H('h_dga', timed=1, mask=0, limit0=2, timed1=60, reach=('end', 'stopped', 'feasible', 'time is up')),
               H('h_dga', vehicles=3, heavy=6, limit0=1, reach=('end', 'stopped', 'feasible', 'reported')), H('h_sub_limit', reach=('end', 'over'))],
        thorough=[H('h_dga', mask=7, reals=1, limit0=1, limit1=1, reach=('end', 'stopped', 'feasible', 'reported', 'improved'), weight=3), H('h_dga', vehicles=2, mask=1, ints=2, limit1=1, reach=('end', 'stopped', 'feasible', 'reported'), weight=2),
                  H('h_dga', n=6, mask=1, limit0=2, limit1=3, reach=('end', 'stopped', 'feasible', 'reported', 'improved'), weight=2), H('h_dga', n=8, mask=1, size=5, limit0=1, limit1=1, reach=('end', 'stopped', 'feasible', 'reported', 'improved'))],
        outside='more than 6 customers (thorough: 8), 2 steps of the cycle (thorough: 3), one symbolic draw in each (thorough: 2), 3 symbolic distances; the hook shortens the search on the whole to 2 iterations and that on a subproblem to 3'),
}
