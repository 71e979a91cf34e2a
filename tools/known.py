#!/usr/bin/env python3
"""Writes known_findings.json from the fix commits and the findings below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> property whose check found it
BY = {
 'the adjoint of a scaled super': 'P15',
 'adjoints and sums of all': 'P16',
 'Matrix product must not lose': 'P01',
 'Feedback instances with different': 'P01',
 'Singleton classes must not store': 'P12',
 'temporary_instance_cache and temporary_rules': 'P02',
 'comparison of Matrix objects': 'P02',
 'simplify_scalar must not drop': 'P02',
 'srepr of a LocalSpace must not': 'P01',
 'SpinSpace must not lose': 'P11',
 'properties of an Expression must not expose': 'P04',
 'Matrix must not share the array': 'P04',
 'Pattern must not share': 'P04',
 'adding or deleting rules must': 'P05',
 'CPermutation.block_perms must not': 'P04',
 'a printing configuration must be restored': 'P06',
 'an AttributeError while printing must': 'P07',
 'matching a pattern must not print': 'P06',
 'repr of a Pattern must not be': 'P06',
 'an entry of the printing cache must': 'P06',
 'the internal sort key of a scaled': 'P06',
 'ScalarValue must not delegate special': 'P11',
 'the cached hash of an expression must': 'P11',
 'copying or pickling an IdxSym must': 'P11',
 'dotprint with repeat=False must': 'P10',
 'srepr must not represent a number by': 'P11',
 'pattern matching must not swallow': 'P18',
 'an unreadable INI file': 'P14',
 'dotprint must not swallow': 'P18',
 'simplify_scalar must not swallow': 'P18',
 'substitute and evaluate_at must not': 'P18',
 'arithmetic operators must not swallow': 'P18',
 'Circuit.render must not use the same': 'P13',
 'draw_circuit must not report': 'P13',
 'debug logging must not render': 'P16',
 'a complex number with no imaginary': 'P07',
 'free_symbols of a derivative': 'P03',
 'init_algebra must discard': 'P01',
 'srepr, and thus the canonical': 'P16',
 'a sum must be in canonical order': 'P02',
 'a rendered symbolic label must': 'P16',
 '!= of expressions must be consistent': 'P01',
}
FINDINGS = json.load(open(os.path.join(V, 'tools', 'findings.json')))
BASE = 'd742a3d'


def main():
    log = subprocess.run(
        ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s',
         BASE + '..HEAD'], capture_output=True, text=True).stdout
    fixed = []
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        assert s.startswith('fix: '), s
        pid = [p for k, p in BY.items() if s[5:].startswith(k)]
        assert len(pid) == 1, s
        fixed.append('fixed: property=%s %s %s' % (pid[0], h, s[5:]))
    with open(os.path.join(V, 'known_findings.json'), 'w') as f:
        json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
        f.write('\n')


main()
