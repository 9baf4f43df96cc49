B = ' Seeded search: no guarantee outside the runs explored.'
NOTE = {
 'C01': (': allocation failure at every point of every edit, undisturbed twin compared bit for bit', 'Graphs up to some 30 nodes; one failure (or failing from then on) per edit, retries with the same or a new object.' + B),
 'C02': (': solves interrupted by allocation failure, throwing factors or throwing output, then continued', 'Interruption at any of the first 1000 allocations or any callback; later estimates compared only where the problem is well posed.' + B),
 'C03': (': Levenberg-Marquardt from corrupted and damaged states, error before and after against the reference model', 'All budgets, dampings and tolerances drawn; sparse and both dense variants.' + B),
 'C04': (': liveness after faults stop, against a reference minimiser', 'Progress bound: 15 solves. Claimed where the reference solver from the same states converges without leaving the basin.' + B),
 'C05': (': replicas receiving the same data in other network orders', 'Up to three replicas per run; estimates compared where the problem is well posed.' + B),
 'C06': (': reported system, errors and residuals against a numerically differentiated reference model along histories', 'Matrices compared where no angular residual is near half a turn; errors compared also for states up to 1e7 away.' + B),
 'C07': (': bits of anchored states watched after every operation, interrupted ones included', B.strip()),
 'C08': (': validity of every state watched through long histories of updates, solves and overwrites', B.strip()),
 'C09': (': the same history with and without queries, compared bit for bit', B.strip()),
 'C10': (': controlled thread schedules (switch points at basic blocks, race-directed), compared with each program run alone', 'Two to four threads, real code serialised by the simulator: data races are seen by their effects, not by memory-model semantics.' + B),
 'C11': (': simulated clocks that stall, jump and tick inside calls', B.strip()),
 'C12': (': scenes built under simulated clock readings and failing allocations, checked against their own ground truth', B.strip()),
 'C13': (': output device refusing, truncating, throwing and recovering at any byte, compared with a healthy twin', B.strip()),
 'C14': (': histories of points, resets and evaluations against re-computed sums over every point', B.strip()),
 'C15': (': histories of solver calls in every mode against a reference model, stopping rules and twins', 'Recovery is claimed only for observable scenes and starts within 0.5 of the truth.' + B),
 'C16': (': allocation failure at every point of every plane edit and solve, undisturbed twin', B.strip()),
 'C17': (': simulated allocator that owns, guards, poisons and quarantines every block, over any order of destruction', 'Temporaries that Eigen itself loses when memory runs out inside a solve are exempt.' + B),
 'C18': (': the same history in both solvers', B.strip()),
 'C19': (': virtual CPU budget per call under bit-flipped and extreme finite inputs', 'Termination within a budget proportional to the size of the problem; results are not judged here.' + B),
 'C20': (': re-sent and misaddressed messages at any point of a history', B.strip()),
 'C21': (': mapper crashes at any operation, only the log and the reported states survive', B.strip()),
 'C22': (': executions with different memory contents, addresses and neighbours, compared bit for bit', B.strip()),
 'C23': (': initialising measurements inside histories, against the reference residual', B.strip()),
 'C24': (': sessions through the Python module under simulated garbage collection, array layouts and allocation failure, compared with C++', 'scipy is not installed here: its matrix classes are replaced by stubs that keep what the module hands over.' + B),
 'C25': (': permuted, duplicated and degenerate clouds and allocation failure inside the solvers', B.strip()),
 'C28': (': fleets of poses moved, saved, crashed, restored and handed over, against a long-double reference', 'Tolerances follow the number of motions and the conditioning of the logarithm near half a turn.' + B),
}
