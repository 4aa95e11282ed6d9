"""What is claimed, per property: (technique, level note)."""
T = 'TLA+ specification checked with TLC; its histories replayed into the real code and every recorded call judged by a TLA+ trace specification'
DATA = ('Exhaustive within small bounds on the specification (two datasets, up to 5 points, histories of 2-4 operations); the code is '
        'bound to it by replaying specification histories and seeded random histories and judging every observable state after every '
        'call, so the code is covered for the histories that were run. ')
POOL = ('The design is explored exhaustively (every interleaving of atomic steps, up to 3 clients, 4 tasks, 3 workers; progress under weak '
        'fairness), and seeded design faults are noticed. The real header is compiled against a controlled scheduler: histories of the '
        'specification are followed step by step, small programs run under every schedule with few preemptions, larger ones under seeded '
        'random and priority schedules and on operating-system threads, all judged by the same monitor. Trusts the stand-ins for mutex, '
        'atomic, queue and thread; sequentially consistent memory. ')
NEIGH = ('The neighbour relation is specified over any distance table and checked exhaustively for up to 5 points with ties; the code is run on '
         'inputs of the specification and on seeded random inputs and every answer is judged by the specification. Integer coordinates; metrics '
         'Euclidean, Manhattan, Chebyshev. ')
COMB = ('The combination loops are checked against their declarative winners for every table of answers of 2-4 classes and up to 3 members; the code is '
        'run with learners that record what they are given and answer from a table, on every such table and on seeded random ones, and judged by '
        'the specification. Ties may be broken in any way. ')
VALID = ('Counting loops are checked against declarative counts for every table of up to 5 predictions of 2-3 classes, fold assignments for up to 6 points '
         'and 4 folds; the code is run with classifiers that answer from a table and record what they are trained and evaluated on, and judged by the '
         'specification in exact rationals (rounded at a millionth / a thousandth). ')
LIN = ('Training loops are explored exhaustively for every data set of up to 3-4 small points (every visiting order, limits, seeded faults noticed); the code is '
       'trained on every data set of the specification and on seeded random ones (also with polynomial and Gaussian kernels, q-norms, limits and '
       'flexible margins) and weights, bias, multipliers, norms, scores and classes are judged by the specification, exactly where the learning rate '
       'makes the arithmetic exact and otherwise at a thousandth. ')
CLAIMS = {
    'C01': (T, DATA + 'Trusts the C++ projection of a dataset to integers.'),
    'C02': (T, DATA + 'When every point is to be removed, which one survives is left open.'),
    'C03': (T, DATA + 'Independence is observed by changing each derived dataset after it has been recorded.'),
    'C04': (T, DATA + 'Names are assumed to be distinct.'),
    'C05': (T, DATA + 'Joining is only called with equal dimensions.'),
    'C06': (T, DATA + 'The random split is specified as a relation; every produced split is judged.'),
    'C07': (T, DATA + 'Coverage of all members of a class is observed over 300 seeds.'),
    'C08': (T, DATA + 'Contents are restricted to values the text format represents exactly (at most six significant digits).'),
    'C09': (T, POOL),
    'C10': (T, POOL + 'Waits that overlap a pause, unpause or resize by another thread are only required to have seen the pool idle.'),
    'C11': (T, POOL),
    'C12': (T, 'Every interleaving of the workers for up to 4 points and 3 blocks on the specification; the real header is run under the controlled '
               'scheduler with random and priority schedules and every matrix is judged. Integer coordinates (exact squares), three metrics.'),
    'C13': (T, NEIGH + 'k larger than the number of training points is left open.'),
    'C14': (T, COMB + 'One-vs-all is also run with real perceptrons whose scores are exact.'),
    'C15': (T, LIN + 'Success is required only where the mistake bound of a known separating plane is within the limits.'),
    'C16': (T, LIN + 'The penalty constant of the code is fixed; the reported bias is held to the optimality conditions when some multiplier is '
               'strictly inside the box, otherwise some bias has to satisfy them.'),
    'C17': (T, COMB + 'Boosting is judged exactly in rationals for up to 3 members that each miss some but not all points; perceptron committees are run '
               'on separable data only.'),
    'C18': (T, VALID + 'Ratios with a zero denominator are left open, and so are predictions outside the class list.'),
    'C19': (T, VALID + 'Each split is judged as produced; stratified folds only with at least as many points per class as folds.'),
    'C21': (T, NEIGH + 'Interpolation is judged with a tolerance of a thousandth.'),
    'C22': (T, 'Ranking, elimination and best-first search are explored exhaustively for 3-4 features with every score, weight, error growth and training failure '
               '(seeded faults noticed); every history of ranking and elimination is replayed into the real code, with learners that record the features they are '
               'trained on and answer weights, margins and failures from a table, and so are seeded random data with up to 30 features. Scores are compared '
               'within an eighth. Which features the best-first search prefers is not claimed.'),
    'C23': (T, 'The cache is explored exhaustively as a state machine (types, parameters, data changes, recomputations); its histories and seeded random ones are '
               'replayed into the real kernels and every matrix entry is judged, exactly for inner-product and polynomial kernels. Gaussian entries are '
               'compared with a driver-computed value at a thousandth.'),
    'C25': (T, LIN + 'Margins are judged for two classes and non-negative multipliers; monotonicity is observed over growing update budgets. Optimality of '
               'the final margin is not claimed.'),
    'C20': (T, "Lloyd's iteration is explored from every start for every data set of up to 4-5 points on a line (partition, descent, fixed point, termination; seeded faults "
               'noticed), and its possible results are what trained models are judged against, in exact rationals, on those data sets in every position and on seeded random '
               'ones; the starts of many seeds are collected and compared with the possible ones. For the other metrics only nearest centres are claimed.'),
    'C24': (T, 'Every history of giving, changing, training and asking is explored for two learners and two datasets (seeded faults noticed) and replayed with every learner '
               'of the library; the drivers of the other areas (neighbours, ensembles, validation, linear classifiers, feature selection, k-means) are held to it as well. '
               'Data is compared by fingerprints of everything observable. Data handed over as a shared pointer is shared by design and not claimed.'),
    'C28': (T, 'The seeding discipline is explored exhaustively for histories of up to 6-7 calls (a seeded fault is noticed); the histories are replayed with every function '
               'and learner that takes a seed, with seeded random ones in addition, and results are compared by fingerprint. Perceptron committees cannot be given a seed.'),
    'C29': (T, 'Generation is explored for every small request (seeded faults noticed); the requests and seeded random ones are given to the real generators and every dataset '
               'is judged, coordinates at a hundredth. A deviation of exactly zero is outside (std::normal_distribution requires a positive one).'),
    'C26': (T, 'A register machine of points (assignments, compound assignments, nested expressions) and the laws of the distances over all small pairs are explored exhaustively '
               '(seeded faults noticed); its programs, every small pair and seeded random ones go through the real code with elements of several types. Values are compared exactly '
               'where they are rational, logarithms and roots at a thousandth. Floating-point error of large inputs is outside.'),
    'C30': (T, 'The steps of the least-mean-squares rule are explored on every small data set at dyadic rates (never away from an exact plane, fixed points, termination; seeded faults '
               'noticed) and nearest-neighbour means over every table of distances; real trainings on those and seeded random data are judged step for step in exact dyadic numbers '
               'for the first passes, and by what convergence requires afterwards.'),
    'C27': (T, 'A plotting program (settings it remembers, files it reads when it gets to them) is specified as a state machine; sessions of calls are explored with it obeying as late '
               'as it can (every picture as asked, folders there until read and gone afterwards; seeded faults noticed). The sessions and seeded random ones go through the real code with a '
               'stand-in for the plotting program in the same process, prompt or late; what it was sent, the rows in the files when read, and the returned scripts are obeyed by the '
               'specification and the pictures compared with the data and models. What gnuplot itself paints is outside.'),
}
NOT_APPLICABLE = {}
HOOKS = None
