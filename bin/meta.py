#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the one source of both)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
CHECKS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), claim=None, na=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': None}})
    if claim:
        CHECKS.append({
            'property': id,
            'quick_cmd': 'python3 bin/check.py %s' % id,
            'thorough_cmd': 'env VERIF_TIER=thorough python3 bin/check.py %s' % id,
            'evidence_file': 'evidence/%s.json' % id,
            'technique': 'deterministic simulation with fault injection '
                         '(seeded search): ' + claim[0],
            'level': 'exploration',
            'level_note': claim[1]})
    else:
        NA.append({'property': id, 'reason': na})


_CACHE_STATE = [
    ('cache files', 'one pickled matrix per size, in ./cache, shared by every '
     'process started in the directory', 'vts/matrix_of_signs.py '
     'write_to_cache/read_cache'),
    ('in-memory tables', 'matrices already known to the process',
     'vts/matrix_of_signs.py new_matrix_of_signs_lookup, '
     'new_matrix_of_signs_inverse_lookup')]

prop('C01', 'A sign-matrix lookup returns the exact matrix in every cache state',
     'Whatever the matrix cache directory has been through (empty, filled by '
     'this or another process, cut short by a crash, a power loss or a full '
     'disk, being written at this moment by other threads or processes), a '
     'lookup of the matrix of signs or of its inverse for n = 1..5 that '
     'returns at all returns exactly the n-fold Kronecker power of '
     '[[1,1,1],[0,1,-1],[0,1,1]], or its exact rational inverse.',
     ['schedules', 'crash_points', 'histories', 'fault_sequences'],
     'for all histories of lookups by any number of threads and processes in '
     'one directory, with crashes, power losses, I/O errors and interruptions '
     'at any point',
     'The tests look up matrices once, in an empty directory, in one process '
     'with nothing failing.',
     ['vts/matrix_of_signs.py'],
     [('one cache file per size and kind', 'new_get_matrix, '
       'new_get_matrix_inverse'),
      ('pickle framing: a cut file does not load', 'read_cache')],
     _CACHE_STATE, ['get_matrix', 'get_matrix_inverse'],
     ('lookups by simulated threads and processes over a simulated disk, '
      'compared with exact matrices',
      'Seeded runs of one to three processes with one or two threads each, in '
      'one to three rounds, sharing one directory; n up to 5. Sampling, not '
      'exhaustive: preemption is between statements.'))

prop('C02', 'Lookups recover: a damaged or half-written cache never blocks use',
     'After any crash, power loss, full disk, I/O error or interruption, '
     'importing the library and looking up a matrix of signs or an inverse '
     'in the same directory succeeds; a lookup fails only because of an error '
     'that happens during that very lookup.',
     ['schedules', 'crash_points', 'histories', 'fault_sequences'],
     'for all fault histories left in the directory, and for all lookups '
     'running at the same time',
     'No test starts the library in a directory in which an earlier process '
     'died, or beside a running one.',
     ['vts/matrix_of_signs.py'],
     [('an unreadable file counts as a miss and is rewritten', 'read_cache '
       'and its callers'),
      ('an existing cache directory is not an error', 'write_to_cache')],
     _CACHE_STATE, ['import matrix_of_signs', 'get_matrix',
                    'get_matrix_inverse'],
     ('crash, restart and lookup again over a simulated disk; progress is '
      'required once faults stop',
      'As C01; a failure counts only when no fault was injected into the call '
      'that failed.'))

prop('C03', 'What a caller does to a returned matrix never reaches other callers',
     'A matrix handed out by a lookup belongs to the caller: changing it in '
     'place, in any way and at any moment, changes neither a matrix another '
     'caller holds, nor the result of any later lookup in this process, nor '
     'what later processes find in the cache.',
     ['schedules', 'histories', 'programs'],
     'for all interleavings of lookups and in-place changes by several '
     'threads, and all later processes',
     'No test changes a matrix it was given and looks it up again.',
     ['vts/matrix_of_signs.py'],
     [('a copy is handed out', 'get_matrix, get_matrix_inverse')],
     _CACHE_STATE, ['get_matrix', 'get_matrix_inverse'],
     ('callers that change what they were given, interleaved with lookups '
      'and restarts',
      'Seeded runs of up to three threads; element assignment, fill, row swap '
      'and row removal; every held and later matrix compared with the exact '
      'one.'))

prop('C04', 'Satisfiability verdicts are the true ones, whatever went on before',
     'For every finite set of univariate polynomial constraints p <= 0, '
     'p < 0, p = 0, p != 0 (p a non-zero integer polynomial of degree at most '
     'four), virtual term substitution and term substitution answer True exactly when some real '
     'number satisfies them all, and leave their arguments unchanged. The '
     'answer does not depend on the state of the matrix cache, on earlier '
     'queries, on queries running at the same time, or on faults outside the '
     'query.',
     ['inputs', 'schedules', 'histories', 'fault_sequences', 'crash_points'],
     'for all constraint sets (checked: one to five polynomials) in all '
     'histories, schedules and cache states',
     'One test asks for a single verdict, in a fresh process with an empty '
     'cache; term substitution has no test.',
     ['vts/uni_vts.py', 'vts/isym.py', 'vts/matrix_of_signs.py'],
     [('Tarski queries and the inverse matrix of signs give the sign of each '
       'polynomial at each root', 'evaluate_single_on_sign_assignment'),
      ('points: roots, roots plus an infinitesimal, minus infinity',
       'internal_vts, internal_ts')],
     _CACHE_STATE, ['uni_vts.internal_vts', 'uni_vts.internal_ts',
                    'isym.vts', 'isym.ts'],
     ('queries in simulated processes over damaged, shared and fresh caches, '
      'compared with an exact Sturm-sequence reference model',
      'Random integer polynomials with repeated, shared and almost equal '
      'roots, constants, large coefficients and quartics; non-zero roots are '
      'kept between 1/8 and 8 in size because Z3 mislocates some roots '
      'beyond 16.'))

prop('C05', 'An interrupted call leaves the library fully usable',
     'When a lookup, a satisfiability query or a parse ends by an exception '
     'raised anywhere inside it (interrupt, failed allocation, I/O error, '
     'closed standard output), the same and every other call made afterwards '
     'in the same process gives the same result as in a fresh process.',
     ['fault_sequences', 'crash_points', 'histories', 'schedules'],
     'for every statement and every system call at which a call can be '
     'interrupted, and all calls that follow',
     'No test interrupts a call.',
     ['vts/matrix_of_signs.py', 'vts/uni_vts.py', 'vts/isym.py',
      'vts/grf_parser.py'],
     [('tables are filled only after the value is complete',
       'new_get_matrix, new_get_matrix_inverse'),
      ('queries keep no state between calls', 'uni_vts.py')],
     _CACHE_STATE, ['every public call, after an interrupted one'],
     ('an exception injected at a chosen statement or seam call, then the '
      'calls repeated and compared with the reference',
      'One or two threads, up to five calls each. Interrupted imports are '
      'restarts and belong to C02.'))

prop('C06', 'Converting the examples and reading them back gives every example',
     'Once a conversion of the example sources has run to its end, reading '
     'the store (as a whole or file by file) yields, for every source file, '
     'every sequent in it in order: each antecedent and succedent formula '
     'with its own relation, all variables renamed to x, and right-hand side '
     'zero. This holds for any listing order of directories, and whatever '
     'earlier conversions, cut short or of older sources, have left behind.',
     ['inputs', 'histories', 'crash_points', 'fault_sequences'],
     'for all source files, listing orders, and histories of earlier '
     'conversions',
     'No test writes or reads the example store.',
     ['vts/examples_parser.py', 'vts/grf_parser.py'],
     [('every file is written anew from its source',
       'write_sympy_parseable_examples'),
      ('reader and writer use the same directory', 'unpickle_dirs, '
       'unpickle_dirs_gen')],
     [('example store', 'one pickle per source file', './Examples')],
     ['write_sympy_parseable_examples', 'unpickle_dirs',
      'unpickle_dirs_gen'],
     ('conversions crashed and repeated over a simulated disk, store compared '
      'with the generated sources',
      'One to five source files with up to three sequents each; up to two '
      'disturbed conversions before each complete one.'))

prop('C07', 'Reading the example store never yields partial or foreign content',
     'Reading a stored example file either raises an error or yields exactly '
     'the sequents of one version of its source: a conversion killed, starved '
     'of disk or interrupted at any point, a power loss after it, and errors '
     'while reading never make a reader return fewer, altered or invented '
     'examples as if they were the file\'s content.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for all points at which a conversion or a reader can be cut short',
     'No test reads a store that a failed conversion left.',
     ['vts/examples_parser.py'],
     [('pickle framing: a cut file does not load', 'unpickle_from_dir, '
       'unpickle_dirs_gen'),
      ('a source is read and parsed whole before anything is written',
       'write_sympy_parseable_examples')],
     [('example store', 'one pickle per source file', './Examples')],
     ['unpickle_dirs', 'unpickle_dirs_gen'],
     ('conversions and readers with faults at chosen points over a simulated '
      'disk, every returned file compared with all versions of its source',
      'One to five source files; torn, zero-filled and lost writes; errors '
      'while listing a directory are not injected.'))

prop('C08', 'What a sequent parses to does not depend on anything parsed before',
     'Parsing a text in the GRF format gives, for every sequent in it, its '
     'name and the exact relations of its antecedent and succedent, each '
     'variable an ordinary symbol of its own name. The result is the same '
     'whatever the process parsed, failed to parse or was interrupted in '
     'parsing before or at the same time, and later parses leave it '
     'unchanged.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'for all texts, all variable names, and all histories and interleavings '
     'of parses in a process',
     'The tests parse a few fixed strings, each once, with one variable '
     'name.',
     ['vts/grf_parser.py'],
     [('parse actions build values and keep no state', 'doVariable, doInt, '
       'doReal, proc_*')],
     [('module globals', 'the grammar itself, which parse actions must not '
       'rebind', 'vts/grf_parser.py')],
     ['grf_parser.cmd.scanString', 'grf_parser.cmd.parseString'],
     ('sequences of good, broken and interrupted parses by interleaved '
      'threads, compared with relations built by the generator',
      'Terms up to depth three, 30 variable names including every kind of '
      'global of the parser.'))

prop('C09', 'The batch checker reports the true value of every stored example',
     'A batch check of stored example files prints, for every example of '
     'every file in the order read, whether its antecedent implies all of its '
     'succedent for every real x, and its summary lists exactly the examples '
     'refuted; this holds with either decision method. A stored file that '
     'cannot be read ends the batch with an error and is never passed over in '
     'silence.',
     ['inputs', 'fault_sequences', 'configurations', 'histories'],
     'for all stores of up to three files (the batch examines no more), '
     'listing orders, decision methods, torn files and faults',
     'No test runs the batch checker.',
     ['vts/checker.py', 'vts/examples_parser.py', 'vts/isym.py',
      'vts/uni_vts.py'],
     [('implication as unsatisfiability of antecedent and negated succedent',
       'vts_preformat, negate_relations, rewrite_to_less, '
       'make_relation_map')],
     [('example store', 'one pickle per file', './Examples')],
     ['checker.check_examples (standard output)'],
     ('whole batches in a simulated process over generated and damaged '
      'stores, output compared with an exact reference model',
      'Up to three files of two examples, polynomials up to degree two.'))

exec(open(os.path.join(VERIF, 'bin', 'meta2.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash bin/setup.sh',
               'checks': CHECKS, 'not_applicable': NA}, f, indent=1)
    f.write('\n')
