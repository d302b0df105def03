"""Concrete replay of one input assignment against the real code on the real
numpy.  Server mode: one JSON request per line on stdin, one answer per line."""
import sys, os, json, signal, warnings, random


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout()


def patch_random(inputs):
    """np.random.* return the values the solver chose (rnd0, rnd1, ...)"""
    import numpy as np
    from .harness import DRAWS as state
    state['n'] = 0

    def nxt():
        v = inputs.get('rnd%d' % state['n'])
        state['n'] += 1
        return 0.25 if v is None else float(v)

    def arr(shape):
        if shape is None or shape == ():
            return nxt()
        out = np.empty(shape)
        f = out.reshape(-1)
        for i in range(f.size):
            f[i] = nxt()
        return out
    R = np.random
    saved = {}

    def p(n, f):
        saved[n] = getattr(R, n)
        setattr(R, n, f)
    p('normal', lambda loc=0., scale=1., size=None: arr(size))
    p('randn', lambda *s: arr(s if s else None))
    p('standard_normal', lambda size=None: arr(size))
    p('uniform', lambda low=0., high=1., size=None: arr(size))
    p('rand', lambda *s: arr(s if s else None))
    p('random', lambda size=None: arr(size))
    p('random_sample', lambda size=None: arr(size))
    return saved


def unpatch_random(saved):
    import numpy as np
    for n, f in saved.items():
        setattr(np.random, n, f)


def churn(frame, event, arg):
    """trace function that reuses freed memory at every line of paramz, so that
    reading memory that was given back shows"""
    if '/paramz/' not in frame.f_code.co_filename:
        return None
    if event == 'line':
        _churn_now()
    return churn


def _churn_now():
    import numpy as np
    junk = [np.full(n, 765432.1 + n) for n in range(1, 13) for k in range(10)]
    del junk


def run_one(req, timeout=20):
    import io
    from . import harness, boot
    m, scns = harness.load(req['property'])
    fn = [s for s in scns if s.name == req['scenario']][0].fn
    h = harness.ConcH(req['inputs'], req.get('ufs'))
    boot.restore()
    saved = patch_random(req['inputs'])
    res = {'exception': None, 'failures': [], 'observed': [], 'invalid': False, 'timeout': False}
    old = sys.stdout
    sys.stdout = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if req.get('churn'):
                sys.settrace(churn)
            fn(h, **{k: [tuple(e) if isinstance(e, list) else e for e in v] if isinstance(v, list) else v for k, v in req['params'].items()})
    except harness.ReplayInvalid as e:
        res['invalid'] = str(e)
    except _Timeout:
        res['timeout'] = True
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/paramz/' in f.filename]
        res['exception'] = '%s: %s%s' % (type(e).__name__, str(e)[:300], ' at %s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else '')
        if req.get('traceback'):
            res['tb'] = traceback.format_exc()
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = old
        unpatch_random(saved)
    res['failures'] = h.failures
    res['observed'] = h.observed
    res['steps'] = h.steps
    return res


def serve():
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = sys.stderr = open(os.devnull, 'w')
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from . import boot
    boot.boot(False)
    import numpy as np
    np.seterr(all='ignore')
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = run_one(req, req.get('timeout', 20))
        except BaseException as e:
            r = {'error': repr(e)}
        try:
            s = json.dumps(r)
        except Exception as e:
            s = json.dumps({'error': 'json %r' % e})
        out.write(s + '\n')
        out.flush()


class Client:
    def __init__(self):
        self.p = None

    def start(self):
        import subprocess
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = '0'
        self.p = subprocess.Popen([sys.executable, '-m', 'symx.replay', '--serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env)
        assert self.p.stdout.readline().strip() == 'ready'

    def ask(self, req, timeout=20):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        req = dict(req, timeout=timeout)
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {'error': 'replay process died'}
        r, _, _ = select.select([self.p.stdout], [], [], timeout + 15)
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {'timeout': True, 'failures': [], 'exception': None, 'observed': [], 'invalid': False, 'hard': True}
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            self.p = None
            return {'error': 'replay process died'}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()


def main():
    if '--serve' in sys.argv:
        serve()
        return
    path = sys.argv[-1]
    req = json.load(open(path))
    from . import boot
    boot.boot(False)
    import numpy as np
    np.seterr(all='ignore')
    req['traceback'] = True
    r = run_one(req)
    print(json.dumps(dict(r, observed=None), indent=1))
    if r.get('tb'):
        print(r['tb'])
    bad = r['failures'] or r['exception'] or r['timeout']
    print('REPRODUCED' if bad else 'not reproduced')
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
