"""Helpers shared by the properties."""
from .. import gen
from ..check import Prop, Violation, compare, first_diff, Skipped, Crash
from ..driver import digest, run_rng


def family(rng, profile=None, bases=3, siblings=3, n=None):
    """related scripts: bases, near-misses of them and unrelated ones"""
    bs = [gen.gen_script(rng, n, profile) for _ in range(bases)]
    out = list(bs)
    for _ in range(siblings):
        b = rng.choice(out)
        out.append(gen.mutate(rng, b, rng.choice([1, 1, 2])))
    return out


def check_script(ctx, step, got, ref, kind, vs, texts, script, label=''):
    """append a violation if the outcome differs from its reference"""
    bad = compare(ref['out'], got['out'])
    if bad:
        i = bad[0]
        rt = ref.get('texts')
        vs.append(Violation(kind, '%s%s' % (label, first_diff(
            ctx, script, ref['out'], got['out'], i, rt,
            got.get('texts')))))
    return bad


def without(script, *names):
    """the script with the calls of the given functions replaced"""
    return [dict(op, f='.adjoint') if op['f'] in names else op
            for op in script]
