"""Budgets and descriptions per property."""

CAP = {'quick': 800, 'thorough': 4 * 3600}

# property: tier: (workers, runs per worker)
RUNS = {
    'C01': {'quick': (7, 130), 'thorough': (8, 8000)},
    'C02': {'quick': (7, 120), 'thorough': (8, 8000)},
    'C03': {'quick': (7, 150), 'thorough': (8, 8000)},
    'C04': {'quick': (7, 120), 'thorough': (8, 6000)},
    'C05': {'quick': (7, 140), 'thorough': (8, 6000)},
    'C06': {'quick': (7, 130), 'thorough': (8, 6000)},
    'C07': {'quick': (7, 170), 'thorough': (8, 8000)},
    'C08': {'quick': (7, 65), 'thorough': (8, 4000)},
    'C09': {'quick': (7, 90), 'thorough': (8, 6000)},
    'C10': {'quick': (7, 60), 'thorough': (8, 4000)},
    'C11': {'quick': (7, 150), 'thorough': (8, 8000)},
    'C12': {'quick': (7, 70), 'thorough': (8, 4000)},
    'C13': {'quick': (7, 200), 'thorough': (8, 8000)},
    'C14': {'quick': (7, 280), 'thorough': (8, 12000)},
    'C15': {'quick': (7, 280), 'thorough': (8, 12000)},
}
LEVEL = {}

_SEQ = ('One case is one simulated execution drawn from one seed: workload, '
        'schedule and faults; two cases are distinct when their lists of '
        'choices differ. ')
_SHARED = _SEQ + ('Non-trivial: a fault was injected or two threads or '
                  'processes shared the working directory.')
RULE = {
    'C01': _SHARED,
    'C02': _SHARED,
    'C03': _SEQ + 'Non-trivial: at least one caller may change a matrix it '
    'was given (every case).',
    'C04': _SHARED,
    'C05': _SEQ + 'Non-trivial: an interruption, failed allocation or I/O '
    'error was injected into a call that was then repeated.',
    'C06': _SEQ + 'Non-trivial: a fault was injected into an earlier '
    'conversion, or sources were edited between conversions.',
    'C07': _SEQ + 'Non-trivial: a fault was injected into a conversion or a '
    'reader.',
    'C08': _SEQ + 'Non-trivial: more than one text was parsed in the process.',
    'C09': _SEQ + 'Non-trivial: every case (a whole batch over generated '
    'store files, listing order, torn files and faults).',
    'C10': _SEQ + 'Non-trivial: every case (several operations on shared '
    'algebra objects).',
    'C11': _SEQ + 'Non-trivial: every case (a simulated user with slips, end '
    'of input or an interruption).',
    'C12': _SEQ + 'Non-trivial: more than one elimination in the process.',
    'C13': _SEQ + 'Non-trivial: every case (180 simulated child processes).',
    'C14': _SEQ + 'Non-trivial: every case (a session of sequents with a '
    'simulated user, random source, disk and faults).',
    'C15': _SEQ + 'Non-trivial: every case (a session of sequents with a '
    'simulated user, random source, disk and faults).',
}

_SYM = ('sympy matrix product and inverse: memoised by content; the inverse '
        'of the 81x81 and 243x243 sign matrices comes from the Kronecker '
        'structure')
_FS = ('file system: real files in a scratch directory behind a simulated '
       'open/read/write/rename/fsync/listdir layer; clock and standard '
       'streams simulated; processes and threads are simulated, each process '
       'with its own copy of every module')
_INS = ' (instrumented with a yield point before each statement)'
REAL = {}
STUB = {}
for _p in ('C01', 'C02', 'C03'):
    REAL[_p] = ['vts/matrix_of_signs.py' + _INS, 'sympy', 'pickle']
    STUB[_p] = [_SYM, _FS]
for _p in ('C04', 'C05'):
    REAL[_p] = ['vts/uni_vts.py, vts/isym.py, vts/matrix_of_signs.py' + _INS,
                'sympy', 'pickle', 'Z3 real closed fields (z3rcf)']
    STUB[_p] = [_SYM, _FS]
REAL['C05'].append('vts/grf_parser.py' + _INS)
REAL['C05'].append('pyparsing')
for _p in ('C06', 'C07'):
    REAL[_p] = ['vts/examples_parser.py, vts/grf_parser.py and what they '
                'import' + _INS, 'sympy', 'pickle', 'pyparsing']
    STUB[_p] = [_SYM, _FS]
REAL['C08'] = ['vts/grf_parser.py' + _INS, 'sympy', 'pyparsing']
STUB['C08'] = [_FS]
REAL['C09'] = ['vts/checker.py, vts/examples_parser.py, vts/isym.py, '
               'vts/uni_vts.py, vts/matrix_of_signs.py' + _INS, 'sympy',
               'pickle', 'Z3 real closed fields (z3rcf)']
STUB['C09'] = [_SYM, _FS]

_QE = ('sympy polynomial functions (LT, LC, degree, div, pdiv, diff): '
       'memoised by argument')
_BL = 'blist.sortedlist (not installed): a sorted list with the same order'
REAL['C10'] = ['highschool_qe/cachedsympywrapper.py, sympywrapper.py' + _INS,
               'sympy']
REAL['C11'] = ['highschool_qe/muchnik.py, basequeue and the algebra wrappers'
               + _INS, 'sympy']
REAL['C12'] = ['highschool_qe/muchnik.py, cohenhorm.py, diagrams and the '
               'algebra wrappers' + _INS, 'sympy']
for _p in ('C10', 'C11', 'C12'):
    STUB[_p] = [_QE, _BL, 'standard streams simulated; threads simulated']
_SAGE = ('Sage (not installed): stubs/minisage.py, an exact stand-in for the '
         'calls the program makes (multivariate polynomials over Q, '
         'resultants, discriminants, real roots and their isolation, Groebner '
         'bases, random elements from the seed)')
REAL['C13'] = ['GRF/test.sage' + _INS]
STUB['C13'] = ['multiprocessing: simulated children with drawn running '
               'times, results and deaths; clock and sleep simulated',
               'the relevance filter that a child runs: a drawn result',
               _SAGE, 'numpy.percentile, glob']
for _p in ('C14', 'C15'):
    REAL[_p] = ['GRF/grf.sage, GRF/local_search.py, GRF/smt2.py' + _INS]
    STUB[_p] = [_SAGE, 'MILP solver: exact minimum by enumeration',
                'numerical solver (fsolve): a drawn answer, good or bad',
                'standard streams and file system simulated; the user is '
                'simulated']

ASSUME_ALL = [
    'Preemption happens between statements and at seam calls, not inside a '
    'statement or inside a library.',
    'A write system call that fails or is cut by a crash may have taken any '
    'prefix; data not synced may be lost, torn or zero-filled by a power '
    'loss; directory entries survive.',
    'sympy, pyparsing, pickle and Z3 behave as they do when run alone.',
]
ASSUME = {}
