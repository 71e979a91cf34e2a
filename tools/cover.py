#!/usr/bin/env python3
"""Which lines of the library do the simulated runs reach?

usage: cover.py [--show FILE] P01 P02 ...   (SIM_SCALE applies)
Prints, per source file, the executable lines inside functions that no
simulated run of the given properties executed.
"""
import collections
import os
import shutil
import subprocess
import sys
import tempfile
import types

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/repo/src/qnet/'


def executable(path):
    """lines of code inside functions"""
    res = {}

    def rec(code, infn):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                fn = infn or (c.co_flags & 2)
                if c.co_flags & 2:
                    for a, b, l in c.co_lines():
                        if l and l != c.co_firstlineno:
                            res[l] = c.co_qualname
                rec(c, fn)
    rec(compile(open(path).read(), path, 'exec'), False)
    return res


def main():
    args = sys.argv[1:]
    show = None
    if args and args[0] == '--show':
        show = args[1]
        args = args[2:]
    d = tempfile.mkdtemp(prefix='simcover')
    env = dict(os.environ, SIM_COVER=d)
    for p in args:
        subprocess.run([os.path.join(V, 'check'), p], env=env,
                       stdout=subprocess.DEVNULL)
    hit = collections.defaultdict(set)
    for n in os.listdir(d):
        for line in set(open(os.path.join(d, n))):
            f, l = line.rsplit(':', 1)
            hit[f].add(int(l))
    shutil.rmtree(d)
    tot = got = 0
    for base, _, files in sorted(os.walk(ROOT)):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            p = os.path.join(base, f)
            ex = executable(p)
            rel = p[len(ROOT):]
            miss = sorted(set(ex) - hit[rel])
            tot += len(ex)
            got += len(ex) - len(miss)
            if ex:
                print('%4d/%4d %s' % (len(ex) - len(miss), len(ex), rel))
            if show and show in rel:
                fns = collections.OrderedDict()
                for l in miss:
                    fns.setdefault(ex[l], []).append(l)
                for k, v in fns.items():
                    print('       %s: %s' % (k, v))
    print('total %d/%d' % (got, tot))


main()
