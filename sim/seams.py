"""Seams installed before qnet is imported: everything that could make two
executions of the same simulated run differ is put under simulator control.

* class hashes: CPython hashes a class by its address, which changes from
  process to process (ASLR).  QNET hashes classes (they are part of every
  expression key), so the order of its sets depends on addresses.  We replace
  the hash of ABC classes by a salted function of the qualified name; the salt
  is part of the simulated environment, like PYTHONHASHSEED.
* locks created by qnet modules are simulator-aware (see sched.SimLock).
"""
import hashlib
import os
import sys


def install_class_hash(salt):
    from abc import ABCMeta
    cache = {}
    get = cache.get
    ident = id

    def class_hash(cls):
        h = get(ident(cls))
        if h is None:
            # qualified name plus order of definition for name clashes
            name = '%s.%s.%s' % (salt, cls.__module__, cls.__qualname__)
            h = int.from_bytes(
                hashlib.blake2b(name.encode(), digest_size=7).digest(), 'big')
            cache[ident(cls)] = h
            keep.append(cls)
        return h
    keep = []
    ABCMeta.__hash__ = class_hash


def setup_process(salt):
    sys.path[:] = [p for p in sys.path if p not in ('', '/verif/sim')]
    install_class_hash(salt)
    import warnings
    warnings.simplefilter('ignore')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    # third-party libraries first, with the real primitives
    import numpy, scipy, sympy, mpmath, qutip, attr  # noqa
    import tempfile, logging, configparser, contextlib, threading  # noqa
    from . import picsim, sched
    picsim.stub()
    sched.install_lock_seam()
    import qnet
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(qnet.__path__, 'qnet.'):
        importlib.import_module(m.name)
    warnings.simplefilter('ignore')
    if not qnet.__file__.startswith('/repo/src/'):
        raise RuntimeError('qnet imported from %s' % qnet.__file__)
    import IPython.display  # noqa  (used by Circuit.show)
    return qnet
