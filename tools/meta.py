#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'src/qnet/algebra/core/'
CORE = A + 'abstract_algebra.py'
TOOL = 'src/qnet/algebra/toolbox/core.py'
PRN = 'src/qnet/printing/__init__.py'
BASE = 'src/qnet/printing/base.py'
SING = 'src/qnet/utils/singleton.py'

TECH = 'deterministic simulation, seeded search: '


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), tech='', note=''):
    return dict(id=id, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mech=mech, state=state,
                observe=observe, tech=tech, note=note)


REF = ('Oracle: the outcome of the same client script alone in a pristine '
       'process (fork of a freshly imported library). ')
TRUST = ('Sampling: no exhaustiveness. Trusts CPython 3.12, sympy 1.1.1, '
         'numpy, qutip, and the fingerprint function. ')

PROPS = [
    prop('P01', 'Results do not depend on what was computed before',
         'The result of every operation (its value, its printed form, or the '
         'kind of error it raises) is the same whatever expressions the '
         'process has created, combined, simplified, matched, converted or '
         'printed before. Two expressions are equal exactly if they are '
         'built from equal parts, whenever and however they were obtained.',
         ['histories', 'programs'],
         'every finite sequence of client programs over the public algebra, '
         'conversion and printing API that precedes an operation',
         'Every test runs in one arbitrary history (the order of the suite); '
         'the instance cache, lazily computed attributes and memoised '
         'printers make each later result depend on all earlier calls, so '
         'the quantifier is over histories. The tests pin single results.',
         [CORE, 'src/qnet/algebra/core/algebraic_properties.py', SING,
          'src/qnet/algebra/core/circuit_algebra.py'],
         [('Expression.create with cache keyed by class, args and kwargs',
           CORE), ('Expression._get_instance_key / nested_tuple', CORE),
          ('Expression.__eq__/__hash__ via the instance key', CORE)],
         [('Expression._instances', 'instance cache', CORE),
          ('_hash, _free_symbols, _order_key, ...', 'lazy attributes', CORE)],
         ['return values', 'ascii/unicode/latex/srepr/tree output',
          'exceptions'],
         TECH + 'histories of client scripts against pristine-process '
         'reference runs',
         REF + TRUST + 'Numbers that compare equal but have different types '
         '(2, 2.0) are not mixed (see DESIGN.md).'),
    prop('P02', 'Caching modes and cache scopes never change a result',
         'Disabling instance caching, or using temporary instance caches for '
         'any classes, in any nesting and left normally or by any exception, '
         'never changes the value of an operation. After a scope is left, '
         'the caching mode and the cache in force before it are restored '
         'exactly: nothing created inside is shared with the outside, and '
         'nothing from the outside was shared with the inside.',
         ['histories', 'configurations', 'fault_sequences'],
         'every sequence of scope entries and exits (on any classes, normal '
         'or by exception) interleaved with client programs',
         'The tests enter one scope at a time on one or two classes; nesting, '
         'repeated classes, parent and child classes, and exits by exception '
         'form an unbounded set of histories.',
         [TOOL, CORE],
         [('no_instance_caching', TOOL), ('temporary_instance_cache', TOOL)],
         [('Expression._instances', 'instance cache per class', CORE),
          ('Expression.instance_caching', 'caching switch', CORE)],
         ['values and identity of results inside and after scopes'],
         TECH + 'scope entries/exits and injected exceptions, against '
         'pristine references and a model of the live caches',
         REF + TRUST + 'Scopes are left in LIFO order.'),
    prop('P03', 'An interrupted operation leaves no trace',
         'If an operation is cut short at any point by an asynchronous '
         'interrupt, an out-of-memory condition, a recursion error or any '
         'other exception, it either raises that exception or returns the '
         'correct result. Every later operation, the same one included, '
         'gives the result of a process in which nothing was interrupted, '
         'and every expression that existed before is unchanged.',
         ['crash_points', 'fault_sequences', 'histories'],
         'every point inside the library at which an operation can be '
         'interrupted, every exception kind, every follow-up program',
         'No existing test interrupts an operation; the points are every '
         'line, call and return in every reachable code path.',
         [CORE, TOOL, PRN, BASE, A + 'algebraic_properties.py'],
         [('instances are cached only when complete', CORE),
          ('context managers restore state in finally blocks', TOOL),
          ('print level and caches of printers', BASE)],
         [('instance cache, caching switch, printer state', 'must be '
           'unaffected by abandoned operations', CORE)],
         ['outcomes of follow-up scripts', 'fingerprints of earlier objects'],
         TECH + 'exceptions injected at seeded line/call/return points, '
         'follow-up scripts compared with pristine references',
         REF + TRUST + 'No fault while a scope is being entered or left or '
         'printing is being configured, nor inside C or third-party code.'),
    prop('P04', 'Expressions never change, and never change client data',
         'An expression, rule pattern or other result never changes its '
         'structure, equality or hash after it was returned, whatever is '
         'computed afterwards and whatever the client does to the lists, '
         'dicts, sets or arrays it passed in or received. No operation '
         'modifies a container that the client passed to it.',
         ['histories', 'inputs'],
         'every result, every later history, every overwriting of client-side '
         'containers',
         'Tests look at a result once, right after computing it, and never '
         'overwrite the containers they passed or received.',
         [CORE, A + 'matrix_algebra.py', A + 'abstract_quantum_algebra.py',
          'src/qnet/algebra/pattern_matching/__init__.py',
          'src/qnet/utils/indices.py'],
         [('operands stored as tuples; containers copied on the way in and '
           'out', CORE), ('immutable attribute access', CORE)],
         [('_operands, _kwargs, cached symbol sets', 'internal containers',
           CORE)],
         ['fingerprint and hash of kept results', 'fingerprint of passed '
          'containers'],
         TECH + 'hostile client overwriting containers between operations; '
         'kept results re-fingerprinted after every event',
         REF + TRUST + 'The array of a Matrix is its documented storage and '
         'is not overwritten.'),
    prop('P05', 'Scoped rewriting rules apply inside their scope only',
         'Inside a temporary-rules scope, for any classes, in any nesting and '
         'with any rules or simplifications added, removed or cleared, every '
         'operation gives exactly what a process permanently configured with '
         'those rules gives. When the scope is left, normally or by an '
         'exception, the rules, the simplifications and every result are '
         'exactly what they were without the scope, and changing rules '
         'affects no class that was not named.',
         ['histories', 'configurations', 'fault_sequences'],
         'every sequence of nested rule scopes, rule changes and client '
         'programs, and every way of leaving a scope',
         'Tests use a single scope with one added rule; leaks show only in '
         'later programs that happen to build the affected expressions.',
         [TOOL, CORE, A + 'algebraic_properties.py'],
         [('temporary_rules', TOOL), ('add_rule/del_rules/show_rules', CORE),
          ('match_replace, match_replace_binary', A +
           'algebraic_properties.py')],
         [('_rules, _binary_rules, simplifications, _instances',
           'per-class rule tables and caches', CORE)],
         ['values of results', 'names of the active rules'],
         TECH + 'nested rule scopes with rule edits and exceptional exits, '
         'against a model of the rule tables and pristine processes '
         'configured to the state of the model',
         REF + TRUST + 'Rules are edited inside scopes that name the class.'),
    prop('P06', 'Printing configuration is scoped and all-or-nothing',
         'A temporary printing configuration is in force exactly while its '
         'scope is active: on leaving it, normally or by an exception, in any '
         'nesting, every printing result is what it was before. A printing '
         'configuration that is rejected changes nothing, and a setting '
         'influences the output only as long as its configuration is in '
         'force.',
         ['histories', 'configurations', 'fault_sequences'],
         'every sequence of permanent and scoped configuration calls, valid '
         'and invalid, interleaved with printing',
         'Tests configure once, print, and leave; sequences of nested, '
         'failing and exceptional configuration are never combined.',
         [PRN, BASE, 'src/qnet/printing/asciiprinter.py',
          'src/qnet/printing/unicodeprinter.py',
          'src/qnet/printing/treeprinting.py'],
         [('configure_printing', PRN), ('init_printing', PRN)],
         [('printer instances, global settings, __str__/__repr__ of '
           'Expression', 'process-wide printing configuration', PRN)],
         ['str, repr, ascii, unicode, latex, srepr, tree output'],
         TECH + 'sequences of configuration calls, failing ones and '
         'exceptional scope exits included, against a model that replays the '
         'effective calls in a pristine process',
         REF + TRUST),
    prop('P07', 'Printing only observes',
         'Printing expressions, in any format, with any settings and with '
         'caller-supplied caches, never changes an expression, any later '
         'algebraic result, or any later printing. A rendering depends only '
         'on the printed expression, the settings in force and the cache '
         'passed by the caller, never on what was printed before.',
         ['histories', 'programs', 'configurations'],
         'every sequence of printing calls, formats, settings and caches',
         'Tests print each expression once with a fixed sequence; the '
         'printers keep state (settings, caches, print level) across calls.',
         [BASE, PRN, 'src/qnet/printing/latexprinter.py',
          'src/qnet/printing/sympy/__init__.py'],
         [('QnetBasePrinter.doprint / cache / settings', BASE)],
         [('printer.cache, _print_level, _settings', 'state of the shared '
           'printers', BASE)],
         ['all printing functions', 'fingerprints of printed expressions'],
         TECH + 'printing-heavy histories with caller caches and temporary '
         'settings against pristine references', REF + TRUST),
    prop('P08', 'Concurrent algebra equals sequential algebra',
         'When several threads create, combine and manipulate expressions at '
         'the same time, every thread gets exactly the results it gets when '
         'it runs alone, under every interleaving, and no thread raises an '
         'error, deadlocks or leaves anything behind that changes later '
         'results.',
         ['schedules', 'programs'],
         'every interleaving of the threads at every line and call of the '
         'library, all client programs',
         'All tests are single-threaded.',
         [CORE, SING, A + 'algebraic_properties.py'],
         [('instance cache lookups are single dictionary operations', CORE),
          ('Singleton uses setdefault', SING)],
         [('instance cache, lazy attributes, debug level', 'shared between '
           'threads', CORE)],
         ['outcomes per thread', 'outcomes after the threads ended'],
         TECH + 'cooperative threads under a seeded scheduler with '
         'preemption at every line/call, against per-thread references',
         REF + TRUST + 'Switch points are source lines and calls of qnet '
         'code; C code and third-party libraries run atomically.'),
    prop('P09', 'Concurrent printing equals sequential printing',
         'When several threads print at the same time, with different '
         'formats, settings and caches, every thread gets exactly the text '
         'it gets when it runs alone, under every interleaving, and nothing '
         'is left behind that changes later output.',
         ['schedules', 'programs', 'configurations'],
         'every interleaving of printing threads',
         'All tests are single-threaded; printers are shared objects.',
         [PRN, BASE, 'src/qnet/printing/treeprinting.py'],
         [('printing functions use per-process printer objects', PRN)],
         [('printer settings, cache and print level', 'shared', BASE)],
         ['printed text per thread', 'printed text afterwards'],
         TECH + 'cooperative printing threads under a seeded scheduler, '
         'against per-thread references',
         REF + TRUST + 'As P08.'),
    prop('P10', 'Results do not depend on hash seeds or addresses',
         'Every result, its canonical order and its printed form are the '
         'same in every process, for every value of the interpreter hash '
         'seed and every memory layout.',
         ['configurations', 'programs'],
         'every hash seed, every assignment of class and object addresses, '
         'every client program',
         'The test suite runs with one hash seed; the memory layout is not '
         'controlled at all.',
         [A + 'algebraic_properties.py', 'src/qnet/utils/ordering.py', CORE,
          A + 'hilbert_space_algebra.py'],
         [('sets are sorted with a total key before they reach a result',
           'src/qnet/utils/ordering.py')],
         [], ['fingerprints and printed text in differently seeded processes'],
         TECH + 'each script run in simulated processes with different hash '
         'seeds and class hashes (the two sources of set order), outcomes '
         'compared', TRUST),
    prop('P11', 'Expressions survive copying, pickling and restart',
         'An expression that is copied, deep-copied, or stored and loaded '
         'again in the same or in another process (with another hash seed, '
         'before or after any other work) is equal to the original, has a '
         'consistent hash, finds and is found in dictionaries, and every '
         'further operation on it gives the results of the original. '
         'Singleton objects stay unique. The same holds for the evaluated '
         'source representation.',
         ['histories', 'crash_points', 'configurations', 'programs'],
         'every expression, every process history around storing and '
         'loading, every hash seed of the two processes',
         'Tests pickle a handful of expressions within one process.',
         [CORE, SING, A + 'scalar_algebra.py',
          'src/qnet/utils/indices.py'],
         [('__reduce__ of singletons', SING),
          ('instance state is picklable', CORE)],
         [('cached hash', 'valid only in the process that computed it',
           CORE)],
         ['equality, hash and further operations after loading'],
         TECH + 'simulated process restarts with only the stored bytes '
         'surviving, in processes of other hash seed and history',
         TRUST),
    prop('P12', 'Each neutral element exists exactly once',
         'Every singleton of the algebra (identities, zeros, trivial and full '
         'space, ...) is one object per process: however and wherever it is '
         'obtained (by name, by instantiation, as the result of an '
         'operation, by copying or unpickling, in any caching scope, in any '
         'thread), it is that same object.',
         ['histories', 'schedules', 'configurations'],
         'every way of obtaining a singleton in every history, caching mode '
         'and interleaving',
         'Tests check identity in one history, single-threaded, with the '
         'default cache.',
         [SING, CORE],
         [('Singleton metaclass, singleton_object', SING)],
         [('table of singleton instances', 'one per class', SING)],
         ['identity of every singleton reachable from results'],
         TECH + 'histories, scopes, interrupts and thread interleavings; '
         'identity of every singleton contained in any result is checked',
         TRUST),
    prop('P13', 'Rendered circuit files belong to their circuit',
         'Rendering a circuit to a file either produces the complete picture '
         'of exactly that circuit at the reported (or requested) path, or '
         'raises an error; a picture that was reported before is never '
         'overwritten by rendering another circuit, under any timing, '
         'interleaving, leftover files or disk errors. No failure leaves a '
         'wrong or partial picture that is reported as success, or changes a '
         'later rendering.',
         ['histories', 'schedules', 'fault_sequences'],
         'every sequence and interleaving of renderings, clock behaviour and '
         'disk error',
         'Tests render a few circuits once.',
         [A + 'circuit_algebra.py',
          'src/qnet/visualization/circuit_pyx.py'],
         [('Circuit.render', A + 'circuit_algebra.py'),
          ('draw_circuit', 'src/qnet/visualization/circuit_pyx.py')],
         [('temporary picture files', 'on disk', A + 'circuit_algebra.py')],
         ['path reported and file contents'],
         TECH + 'simulated clock and disk with injected I/O errors; files '
         'compared with a reference rendering', TRUST),
    prop('P14', 'Loading a printing configuration file is all-or-nothing',
         'Initialising the printing system from a configuration file either '
         'applies the complete configuration described by the file, or '
         'raises an error and changes nothing, whatever the file contains '
         'and whichever disk error occurs. Options that an earlier '
         'configuration left behind do not influence the result of a '
         'reset load.',
         ['inputs', 'crash_points', 'fault_sequences', 'histories'],
         'every file content, every I/O error at every system call, every '
         'configuration history',
         'Tests load two well-formed files.',
         [PRN], [('init_printing(inifile=...)', PRN)],
         [('process-wide printing configuration', '', PRN)],
         ['all printing functions after the attempt'],
         TECH + 'simulated disk (torn, truncated, unreadable files, errors '
         'at each call), against the equivalent direct configuration',
         REF + TRUST),
    prop('P15', 'Equations keep their history, and never change',
         'An equation never changes after it was created: deriving, tagging '
         'or copying an equation leaves the original, and everything derived '
         'from it before, unchanged, including its displayed history. A '
         'derived equation shows exactly the steps that led to it.',
         ['histories', 'programs'],
         'every tree of derivation, tagging and copying steps, with failing '
         'steps and renderings in between',
         'Tests follow single straight chains of steps.',
         ['src/qnet/algebra/toolbox/equation.py'],
         [('Eq.apply / apply_mtd / copy / set_tag',
           'src/qnet/algebra/toolbox/equation.py')],
         [('_prev_lhs, _prev_rhs, _prev_tags', 'history lists',
           'src/qnet/algebra/toolbox/equation.py')],
         ['lhs, rhs, tag and rendered form of every equation in the tree'],
         TECH + 'random derivation trees with failing callbacks against an '
         'executable reference model', TRUST),
    prop('P16', 'Algebra is independent of printing configuration and logging',
         'No algebraic result (value, canonical order, kind of error) depends '
         'on the printing configuration in force, on whether the printing '
         'system is initialised, or on debug logging being switched on.',
         ['configurations', 'histories', 'programs'],
         'every printing configuration and log level in force while any '
         'client program runs',
         'The tests run algebra only with the default configuration and '
         'logging off.',
         [A + 'algebraic_properties.py', 'src/qnet/utils/ordering.py', CORE,
          'src/qnet/algebra/pattern_matching/__init__.py'],
         [('ordering keys do not use rendered strings',
           'src/qnet/utils/ordering.py')],
         [], ['fingerprints of results'],
         TECH + 'client scripts under seeded configurations and log levels '
         'against pristine references', REF + TRUST),
    prop('P17', 'Lazily produced results are independent of one another',
         'Lazily produced results (summation terms, match results, index '
         'ranges, basis states, ...) yield the same items when they are '
         'consumed in any interleaving with each other and with any other '
         'work, and abandoning one half-way affects nothing else.',
         ['schedules', 'histories', 'programs'],
         'every interleaving of partially consumed iterators and other work',
         'Tests consume every iterator at once.',
         [A + 'indexed_operations.py', 'src/qnet/utils/indices.py', CORE,
          A + 'hilbert_space_algebra.py',
          'src/qnet/algebra/pattern_matching/__init__.py'],
         [('generators keep their state in locals',
           A + 'indexed_operations.py')],
         [], ['items of each iterator'],
         TECH + 'cooperative interleaving of live iterators with other '
         'client operations', REF + TRUST),
    prop('P18', 'Failing or re-entrant user callbacks leave no trace',
         'A user-supplied callback (rule replacement, pattern condition, '
         'simplification function, element-wise function, equation step) '
         'that raises, at any of its calls, makes the operation fail with '
         'that very exception and leaves no trace, and one that itself uses '
         'the library gets correct results and does not disturb the '
         'operation that called it.',
         ['fault_sequences', 'histories', 'programs'],
         'every callback position, every call number at which it fails, '
         'every re-entrant program',
         'Tests use well-behaved callbacks.',
         [CORE, A + 'algebraic_properties.py', TOOL,
          'src/qnet/algebra/pattern_matching/__init__.py',
          A + 'matrix_algebra.py'],
         [('only the documented signal exceptions are caught', CORE)],
         [], ['exception seen by the client', 'follow-up outcomes'],
         TECH + 'faults injected at the seeded n-th call of a callback and '
         're-entrant callbacks, against references', REF + TRUST),
]

NA = [
    prop('A01', 'Automatic simplification preserves the meaning',
         'Creating an expression with automatic simplification denotes the '
         'same operator, state, super-operator, scalar or circuit as the '
         'unsimplified expression.', ['inputs'], 'all expressions',
         'Tests check examples.', [A + 'algebraic_properties.py'],
         [('simplifications', A + 'algebraic_properties.py')]),
    prop('A02', 'Sums and products have one canonical order',
         'Equal sums and equal products, assembled in any order of '
         'commuting parts, give the same expression.', ['inputs'],
         'all operand lists', 'Tests check examples.',
         ['src/qnet/utils/ordering.py'],
         [('order keys', 'src/qnet/utils/ordering.py')]),
    prop('A03', 'Taking the adjoint twice is the identity',
         'Forming the adjoint is an anti-linear involution that reverses '
         'products.', ['inputs'], 'all expressions', 'Tests check examples.',
         [A + 'operator_algebra.py'], [('adjoint', A +
                                        'operator_algebra.py')]),
    prop('A04', 'Circuit composition agrees with the SLH rules',
         'Series products, concatenations and feedback of circuits agree '
         'with the composition rules of their SLH models.', ['inputs'],
         'all circuits', 'Tests check examples.', [A + 'circuit_algebra.py'],
         [('toSLH', A + 'circuit_algebra.py')]),
    prop('A05', 'Block structures and channel permutations are consistent',
         'Decomposing a circuit into blocks and recombining it, and '
         'composing permutations, gives an equal circuit.', ['inputs'],
         'all circuits and permutations', 'Tests check examples.',
         [A + 'circuit_algebra.py', 'src/qnet/utils/permutations.py'],
         [('get_blocks', A + 'circuit_algebra.py')]),
    prop('A06', 'Derivatives and series expansions are correct',
         'Symbolic derivatives and series expansions agree with the calculus '
         'of the represented functions.', ['inputs'], 'all expressions',
         'Tests check examples.', [A + 'abstract_quantum_algebra.py'],
         [('diff', A + 'abstract_quantum_algebra.py')]),
    prop('A07', 'Indexed sums equal their written-out form',
         'An indexed sum, with any index ranges and Kronecker deltas, equals '
         'the sum of its terms.', ['inputs'], 'all indexed sums',
         'Tests check examples.', [A + 'indexed_operations.py'],
         [('IndexedSum', A + 'indexed_operations.py')]),
    prop('A08', 'Numerical conversion is a homomorphism',
         'Converting to numerical matrices commutes with sums, products and '
         'adjoints.', ['inputs'], 'all expressions', 'Tests check examples.',
         ['src/qnet/convert/to_qutip.py'],
         [('convert_to_qutip', 'src/qnet/convert/to_qutip.py')]),
    prop('A09', 'Pattern matching is sound and complete',
         'A match binds the wildcards such that substituting them into the '
         'pattern gives the matched expression.', ['inputs'],
         'all patterns and expressions', 'Tests check examples.',
         ['src/qnet/algebra/pattern_matching/__init__.py'],
         [('Pattern.match',
           'src/qnet/algebra/pattern_matching/__init__.py')]),
    prop('A10', 'Hilbert spaces form a lattice of tensor factors',
         'Tensor products, intersections and quotients of Hilbert spaces '
         'obey the laws of finite sets of local factors.', ['inputs'],
         'all Hilbert spaces', 'Tests check examples.',
         [A + 'hilbert_space_algebra.py'],
         [('ProductSpace', A + 'hilbert_space_algebra.py')]),
    prop('A11', 'Printed forms are faithful',
         'LaTeX, unicode and ASCII output is well-formed and distinguishes '
         'expressions with different meaning.', ['inputs'],
         'all expressions and settings', 'Tests check examples.',
         [BASE], [('printers', BASE)]),
]
NA_REASON = ('a pure function of its input: no schedule, clock, I/O, fault '
             'or history takes part, so deterministic simulation has nothing '
             'to vary; testing it would be input fuzzing')


def line(p):
    return {
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {
            'files': p['files'],
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in p['state']],
            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
            'observe_at': list(p['observe']), 'hook_needed': None},
    }


def main():
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NA:
            f.write(json.dumps(line(p)) + '\n')
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(
                V, 'sim', 'props', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'],
                'quick_cmd': './check %s' % p['id'],
                'thorough_cmd': './check %s --tier thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': p['tech'], 'level': 'exploration',
                'level_note': p['note'],
            })
        else:
            na.append({'property': p['id'],
                       'reason': 'check not built yet'})
    for p in NA:
        na.append({'property': p['id'], 'reason': NA_REASON})
    m = {
        'version': 1, 'setup_cmd': './setup.sh',
        'hooks': {'guard': 'none',
                  'enable': 'no hooks in /repo: all seams are installed from '
                  'outside (import hooks, sys.monitoring, patched os/time '
                  'functions in the simulated process)',
                  'source_commits': []},
        'checks': checks, 'not_applicable': na,
        'notes': 'see DESIGN.md; every check forks simulated processes from '
        'a zygote that imports qnet from /repo/src (Python: nothing to '
        'build).',
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
