"""Push the repository's own tests through the emulator (concrete values)."""
import sys
sys.path.insert(0, '/verif')
from symx import boot
import unittest, json
native = '--native' in sys.argv
import scipy.optimize as so, numpy as rnp
boot.boot(not native, concrete_random=True)
if not native:
    from symx import symnp
    def wrap(n):
        real = getattr(so, n)
        def out(v):
            if isinstance(v, symnp.ndarray): return symnp._real(v)
            if isinstance(v, tuple): return tuple(out(i) for i in v)
            return v
        def fn(f):
            return None if f is None else (lambda x, *a: out(f(symnp._wrap(rnp.array(x)), *a)))
        def call(f, x0, fprime=None, **k):
            if 'fprime' in k: k['fprime'] = fn(k['fprime'])
            if fprime is not None: k['fprime'] = () if fprime == () else fn(fprime)
            if n == 'fmin': k.pop('fprime', None)
            return symnp._wrap(real(fn(f), out(x0), **k))
        return call
    for n in ('fmin_l_bfgs_b', 'fmin_bfgs', 'fmin', 'fmin_tnc'):
        boot._ScipyOptimize.impl[n] = wrap(n)
if not native:
    class _L:
        pass
mods = ['array_core_tests', 'cacher_tests', 'examples_tests', 'index_operations_tests', 'init_tests', 'lists_and_dicts_tests',
        'model_tests', 'observable_tests', 'parameterized_tests', 'pickle_tests', 'verbose_optimize_tests']
import os, tempfile
scratch = tempfile.mkdtemp()
os.chdir(scratch)
import atexit, shutil
atexit.register(shutil.rmtree, scratch, True)
res = {}
for mn in mods:
    try:
        s = unittest.defaultTestLoader.loadTestsFromName('paramz.tests.' + mn)
    except Exception as e:
        print('IMPORT', mn, repr(e)); continue
    r = unittest.TestResult()
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        s.run(r)
    print(mn, r.testsRun, 'fail', len(r.failures), 'err', len(r.errors))
    for t, tb in r.failures + r.errors:
        print('   ', t.id(), tb.strip().splitlines()[-1][:200])
        if '-v' in sys.argv:
            print(tb)
