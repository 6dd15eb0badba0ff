"""Shared kernel of the checks: cases, violations, recording, classification of exceptions."""
import contextlib, importlib, json, logging, os, signal, sys, traceback, warnings
import hashlib

REPO = os.environ.get('PARAMZ_REPO', '/repo')


def bootstrap():
    """Import paramz from the working tree under test, never from anywhere else."""
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import paramz
    where = os.path.realpath(paramz.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('paramz was imported from %s' % where)
    import numpy as np
    np.seterr(all='ignore')


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is broken."""


class Discard(Exception):
    """This case is outside of the domain of the property (counted)."""


class Rec(object):
    """What one case exercised."""
    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def mark(self, *names):
        self.labels.update(names)
        self.nontrivial = True


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class _Timeout(BaseException):
    pass


CPU_LIMIT = 60.0  # seconds of CPU time for one case; typical cases take milliseconds


def _alarm(sig, frame):
    raise _Timeout()


def from_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(mod, case, rec):
    """Run one case of a check; raises Violation or HarnessError, or returns."""
    import numpy as np
    np.random.seed(12345)
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            mod.run(case, rec)
    except (Violation, HarnessError, Discard):
        raise
    except _Timeout:
        raise Violation('the case did not finish within %d s of CPU time' % CPU_LIMIT)
    except Exception as e:
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if from_repo(e.__traceback__):
            raise Violation('unexpected %s: %s\n%s' % (type(e).__name__, e, text[-3000:]))
        # raised by numpy or the interpreter while the check worked with what the code under test returned (a missing attribute, a wrong shape)
        raise Violation('unexpected %s while using the results: %s\n%s' % (type(e).__name__, e, text[-3000:]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def load(pid):
    return importlib.import_module('pbt.checks.%s' % pid.lower())


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


# ---------------------------------------------------------------- reading values from the code under test
def arr(x, n=None, what='value'):
    """Flat float array of what the code under test gave us."""
    import numpy as np
    try:
        a = np.array(x, dtype=float).ravel()
    except Exception as e:
        raise Violation('%s is not an array of numbers: %r (%s)' % (what, type(x), e))
    if n is not None and a.size != n:
        raise Violation('%s has %d elements instead of %d' % (what, a.size, n))
    return a


def same(a, b, what):
    """Exact equality of arrays (NaN equals NaN)."""
    import numpy as np
    a = arr(a, what=what); b = np.asarray(b, dtype=float).ravel()
    if a.size != b.size:
        raise Violation('%s: %d elements instead of %d' % (what, a.size, b.size))
    if not np.array_equal(a, b, equal_nan=True):
        raise Violation('%s: %s instead of %s' % (what, a.tolist(), b.tolist()))


def close(a, b, what, rtol=1e-7, atol=1e-9):
    import numpy as np
    a = arr(a, what=what); b = np.asarray(b, dtype=float).ravel()
    if a.size != b.size:
        raise Violation('%s: %d elements instead of %d' % (what, a.size, b.size))
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        raise Violation('%s: %s instead of %s' % (what, a.tolist(), b.tolist()))


def raises(exc, f, what):
    """f must raise exc."""
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Violation('%s: raised %s (%s) instead of %s' % (what, type(e).__name__, e, exc))
    raise Violation('%s: did not raise %s' % (what, exc))
