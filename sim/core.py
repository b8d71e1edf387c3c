"""Seeds, hermetic execution and result bookkeeping shared by all checks.

One integer decides a run: VERIF_SEED plus the property id plus the run number
give the seed of a private PRNG, the PRNG builds a *plan* (plain JSON), and
executing a plan is a pure function of the plan and of the code in /repo.
Every execution happens in a freshly forked child of a process that imported
melodist but never ran any of it, so no run can see what another run left in
module-level state.
"""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'melodist') + os.sep


class HarnessError(Exception):
    """The machinery itself failed: never reported as a violation."""


def derive_seed(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(*parts):
    return random.Random(derive_seed(*parts))


def digest(obj):
    return hashlib.sha1(
        json.dumps(obj, sort_keys=True, default=repr).encode()
    ).hexdigest()[:16]


class Outcome(dict):
    """What one simulated run produced."""

    def __init__(self, **kw):
        base = dict(
            violation=None,  # None or {'class': str, 'detail': str}
            trace=[],  # event log (strings), never contains clocks or addresses
            faults={},  # fault kind -> number of times it really fired
            probes={},  # rare condition -> number of times it was hit
            steps=0,  # scheduler / fault points passed
            days=0,  # days of weather simulated
            interleavings=[],  # hashes of schedules or states reached
            nontrivial=None,  # by the rule of the property; None: a fault fired
            plan_patch=None,  # explicit choices that replace seeds on replay
        )
        base.update(kw)
        super().__init__(base)

    def fault(self, kind, n=1):
        if n:
            self['faults'][kind] = self['faults'].get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self['probes'][name] = self['probes'].get(name, 0) + n

    def log(self, *parts):
        self['trace'].append(' '.join(str(p) for p in parts))

    def fail(self, cls, detail):
        if self['violation'] is None:
            self['violation'] = {'class': cls, 'detail': str(detail)[:2000]}
            self.log('VIOLATION', cls)

    @property
    def failed(self):
        return self['violation'] is not None


class Hang(Exception):
    pass


def isolated(fn, *args, timeout=240):
    """Run fn(*args) in a forked child and return its (pickled) result.

    Exceptions of fn come back as HarnessError: everything the code under test
    may legitimately raise is turned into data by the caller of that code.
    """
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                payload = ('ok', fn(*args))
            except BaseException:
                payload = ('err', traceback.format_exc())
            blob = pickle.dumps(payload, protocol=4)
            view = memoryview(blob)
            while view:
                n = os.write(w, view)
                view = view[n:]
            code = 0
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hang = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hang:
        raise Hang('no result after %d s' % timeout)
    blob = b''.join(chunks)
    if not blob:
        raise HarnessError('child ended without a result (status %r)' % status)
    kind, value = pickle.loads(blob)
    if kind == 'err':
        raise HarnessError(value)
    return value


def quiet_child():
    """Silence the chatter of the code under test (print, warnings)."""
    import warnings

    warnings.simplefilter('ignore')
    sys.stdout = open(os.devnull, 'w')


def load_repo():
    """Import melodist from the working tree of /repo and make sure it is that."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter('ignore')
    import melodist
    import melodist.util
    import melodist.util.util

    if not os.path.realpath(melodist.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('melodist was imported from %s' % melodist.__file__)
    return melodist
