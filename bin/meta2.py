_QE_STATE = [
    ('memo tables', 'results already computed by an algebra object',
     'highschool_qe/cachedsympywrapper.py')]

prop('C10', 'Remembered algebra results equal fresh ones in every history',
     'Every operation of the plain and of the remembering polynomial algebra '
     '(leading term, leading coefficient, degree, division, pseudo-division, '
     'tail, derivative, sign and so on) gives the value sympy gives when '
     'asked directly for the main variable of that algebra object, or fails '
     'exactly when sympy fails. This holds whatever this and other algebra '
     'objects were asked before, in any interleaving of threads, and after '
     'operations that failed or were interrupted.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'for all sequences and interleavings of operations on several algebra '
     'objects over different main variables, with interruptions at any '
     'statement',
     'No test uses the remembering algebra twice.',
     ['highschool_qe/cachedsympywrapper.py', 'highschool_qe/sympywrapper.py'],
     [('one table per operation and object', 'CachedSympyWrapper'),
      ('an entry is made only from a complete result',
       'CachedSympyWrapper')],
     _QE_STATE, ['every method of SympyWrapper and CachedSympyWrapper'],
     ('operations by simulated threads on shared algebra objects, cut at '
      'drawn statements, compared with direct sympy calls',
      'One to three objects over x or y, one or two threads of up to 24 '
      'operations on pools of related polynomials in three variables.'))

prop('C11', 'The dialogue assigns exactly what the user entered',
     'An interactive assignment asks for every coefficient that is not a '
     'number, accepts only the permitted values (asking again after anything '
     'else, however often), and yields exactly the value entered for each '
     'coefficient and the true value of each number. The partial elimination '
     'procedures, driven by the dialogue, end as they do when the same '
     'values are given in advance. After end of input or an interruption the '
     'next dialogue works as in a fresh process.',
     ['inputs', 'histories', 'fault_sequences'],
     'for all sequences of good and bad entries, end of input and '
     'interruption at any point, in real and complex dialogues',
     'No test holds a dialogue.',
     ['highschool_qe/muchnik.py'],
     [('the question is repeated until the entry is valid',
       'r_assignment_interactive, c_assignment_interactive')],
     [], ['r_assignment_interactive', 'c_assignment_interactive',
          'real_partial', 'complex_partial'],
     ('a simulated user with slips, end of input and interruptions; '
      'assignments compared with what was entered, partial runs with runs on '
      'preset values',
      'One to three dialogues per process about up to four coefficients and '
      'three numbers; up to 400 slips in a row.'))

prop('C12', 'Elimination answers are the true ones in every history',
     'Full elimination of one variable from a system of polynomials that '
     'have to be negative, zero or positive (real), or zero or non-zero '
     '(complex), reports satisfiability truly when there is no parameter, '
     'and otherwise returns conditions on the parameter that hold exactly '
     'where the system has a solution. Arguments stay unchanged. Answers do '
     'not depend on earlier, failed or interrupted eliminations, on '
     'eliminations running at the same time, or on which algebra is used.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'for all systems (checked: one to three polynomials of degree at most '
     'two with at most one parameter; Cohen-Hormander for at most two '
     'polynomials with numeric leading coefficients) in all histories and '
     'interleavings',
     'The procedures have no running tests.',
     ['highschool_qe/muchnik.py', 'highschool_qe/cohenhorm.py',
      'highschool_qe/cachedsympywrapper.py',
      'highschool_qe/sympywrapper.py'],
     [('sign diagrams', 'real_extend, complex_extend, extend_single_table'),
      ('work queues are per run', 'Muchniker, CohenHormander')],
     _QE_STATE, ['Muchniker.real_full', 'Muchniker.complex_full',
                 'CohenHormander.real_full'],
     ('eliminations by simulated threads sharing procedures and algebras, '
      'some interrupted, compared with exact decisions at sample parameter '
      'values',
      'Conditions are evaluated at 14 parameter values. Parametric leading '
      'coefficients are excluded for Cohen-Hormander (known findings F21, '
      'F22).'))

prop('C13', 'The benchmark runner gives each trial its one true row',
     'A benchmark run ends, never has more children at once than the number '
     'of cores it is set to, and writes exactly one row per trial: the '
     'parameters of that trial with its own running time and number of '
     'hidden hypotheses when it ended within the limit, or the mark for a '
     'timeout, in which case the child has been ended. This holds for all '
     'running times, orders of completion and delays of the runner itself.',
     ['schedules', 'configurations', 'fault_sequences'],
     'for all running times and results of 180 trials, and stalls of the '
     'runner',
     'The runner has no test and takes hours.',
     ['GRF/test.sage'],
     [('running list with one entry per child', 'GRF/test.sage main loop')],
     [('running queue', 'children started and not yet reported',
       'GRF/test.sage')],
     ['test.csv', 'children started and ended'],
     ('simulated children and clock; rows compared with what each child did',
      'Whole benchmarks of 180 trials with drawn running times around and '
      'beyond the limit. Trials that die without a result are known finding '
      'F20.'))

_GRF = ('sessions of one to three generated sequents in a simulated Sage '
        'process (exact stand-in), by file, by parser and by the decision '
        'procedure itself, interactive and '
        'not, with drawn random numbers, solver answers and faults; ')
_GRFN = ('Sequents in one to three variables with small polynomials: '
         'univariate ones are decided exactly, others by construction and on '
         'a grid of points. Decomposition without factorisation loses '
         'completeness when projected polynomials share a factor; such '
         'sequents are not generated.')
prop('C14', 'Relevance filtering hides only hypotheses that are not needed',
     'When filtering a sequent ends with a result, the hypotheses it keeps '
     'imply the goal by themselves, the goal and every hypothesis the user '
     'asked to keep are not hidden, and each hidden hypothesis is named '
     'once, by a number that exists in the sequent. Printed line, output '
     'file and returned counts agree. This holds for every random choice, '
     'numerical solver answer, user dialogue and earlier sequent, failed '
     'or interrupted ones included.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'for all sequents, parameters, random choices and dialogues, in all '
     'histories of a session',
     'There are no tests, and the program needs Sage.',
     ['GRF/grf.sage', 'GRF/local_search.py', 'GRF/smt2.py'],
     [('decomposition and sample points', 'GRF/grf.sage'),
      ('subsets ruled out until none refutes', 'GRF/grf.sage, '
       'GRF/local_search.py'),
      ('hypothesis numbers mapped back', 'GRF/smt2.py')],
     [('parser context', 'settings and results of a session',
       'GRF/smt2.py')],
     ['grf_on_file', 'ParseSMT.processCommands', 'RCF_GD_Decide.check',
      'output file'],
     (_GRF + 'what is kept is checked to imply the goal', _GRFN))

prop('C15', 'A valid sequent is filtered, never refuted, in every session',
     'Filtering a sequent whose hypotheses imply its goal never reports a '
     'counterexample, and filtering any sequent ends with a hiding result or '
     'a counterexample and with no other error unless a fault happens in '
     'that very run. This holds for every random choice, numerical solver '
     'answer, user dialogue and earlier sequent, failed or interrupted ones '
     'included.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'for all sequents, parameters, random choices and dialogues, in all '
     'histories of a session',
     'There are no tests, and the program needs Sage.',
     ['GRF/grf.sage', 'GRF/local_search.py', 'GRF/smt2.py'],
     [('a counterexample satisfies all hypotheses and not the goal',
       'GRF/grf.sage, GRF/local_search.py'),
      ('every problem starts afresh', 'GRF/smt2.py, GRF/grf.sage')],
     [('parser context', 'settings and results of a session',
       'GRF/smt2.py')],
     ['grf_on_file', 'ParseSMT.processCommands', 'RCF_GD_Decide.check'],
     (_GRF + 'counterexamples to valid sequents and errors are violations',
      _GRFN))

prop('C21', 'Polynomial kernels compute what their names say',
     'Multiplication, pseudo-remainders, remainder sequences, Cauchy indices, '
     'Tarski queries, derivatives and the conversion between sympy '
     'polynomials and coefficient lists are mathematically correct for every '
     'polynomial.',
     ['inputs'], 'for all polynomials',
     'The tests try a few polynomials.',
     ['vts/uni_vts.py', 'vts/isym.py'],
     [('coefficient-list arithmetic', 'multiply, signed_pseudo_remainder, '
       'tarski_query, convert')],
     na='Pure functions of their input. Their effect on verdicts is covered '
     'by C04, which does have histories, caches and faults to explore.')
