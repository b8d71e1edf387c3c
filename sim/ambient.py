"""Process environments: what a session must not depend on, and its worker.

    python -B [-O] -m sim.ambient JOB RESULT

A worker is a fresh interpreter started under one environment. It imports
melodist from the working tree and plays every program of the job in a forked
child. Forked environments (everything except hash seed, locale and -O) can
also be applied without a new interpreter.
"""
import datetime
import gc
import hashlib
import json
import os
import pickle
import random
import sys
import time
import warnings

_BASE = {
    'hash': '0', 'opt': False, 'lc': 'C.UTF-8', 'tz': 'UTC', 'random': 0, 'clock': 0, 'listing': None,
    'warnings': 'ignore', 'print': False, 'home': '/nonexistent', 'gc': True, 'cwd': 'a', 'prologue': None,
    'err': 'ignore',
}
ZONES = ('UTC', 'Pacific/Kiritimati', 'America/New_York', 'Asia/Kathmandu', 'XYZ-5:30ABC')
FRESH = ('hash', 'opt', 'lc')


def base():
    return dict(_BASE)


def generate(r, fresh):
    """An environment that differs from the base one in several respects."""
    env = base()
    pick = {
        'tz': lambda: r.choice(ZONES[1:]),
        'random': lambda: r.getrandbits(30),
        'clock': lambda: r.choice((86400, -86400 * 200, 3600 * 7, 12345678, -7)),
        'listing': lambda: r.getrandbits(16),
        'warnings': lambda: r.choice(('default', 'always', 'once')),
        'print': lambda: True,
        'home': lambda: '/root',
        'gc': lambda: False,
        'cwd': lambda: 'b',
        'err': lambda: 'warn',
    }
    if fresh:
        pick['hash'] = lambda: str(r.randint(1, 4000))
        pick['opt'] = lambda: True
        pick['lc'] = lambda: r.choice(('C', 'POSIX'))
    names = sorted(pick)
    k = r.choice((1, 3, len(names), len(names)))
    for n in r.sample(names, min(k, len(names))):
        env[n] = pick[n]()
    if fresh and r.random() < 0.8:
        env['hash'] = str(r.randint(1, 4000))
    return env


def differing(env):
    return sorted(k for k in env if env[k] != _BASE[k])


def variables(env):
    """Variables of a worker process."""
    v = {
        'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'PYTHONHASHSEED': env['hash'], 'TZ': env['tz'],
        'LC_ALL': env['lc'], 'LANG': env['lc'], 'HOME': env['home'], 'PYTHONDONTWRITEBYTECODE': '1',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
    }
    if env['lc'] != 'C.UTF-8':
        v.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    if 'VERIF_REPO' in os.environ:
        v['VERIF_REPO'] = os.environ['VERIF_REPO']
    return v


# ---------------------------------------------------------- inside a process
def _fake_clock(shift):
    """Move the wall clock of this process."""
    import pandas as pd

    for name in ('time', 'localtime', 'gmtime', 'ctime', 'strftime', 'time_ns'):
        real = getattr(time, name)
        if name == 'time':
            time.time = lambda real=real: real() + shift
        elif name == 'time_ns':
            time.time_ns = lambda real=real: real() + int(shift * 10**9)
        elif name == 'strftime':
            def fmt(f, t=None, real=real):
                return real(f, time.localtime() if t is None else t)
            time.strftime = fmt
        else:
            def conv(s=None, real=real):
                return real(time.time() if s is None else s)
            setattr(time, name, conv)
    real_dt, real_d = datetime.datetime, datetime.date

    class meta_dt(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real_dt)

    class fake_dt(real_dt, metaclass=meta_dt):
        @classmethod
        def now(cls, tz=None):
            return real_dt.now(tz) + datetime.timedelta(seconds=shift)

        @classmethod
        def utcnow(cls):
            return real_dt.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    class meta_d(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real_d)

    class fake_d(real_d, metaclass=meta_d):
        @classmethod
        def today(cls):
            return fake_dt.now().date()

    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').split('.')[0] == 'melodist':
            for k, v in list(vars(m).items()):
                if v is real_dt:
                    setattr(m, k, fake_dt)
                elif v is real_d:
                    setattr(m, k, fake_d)
    datetime.datetime, datetime.date = fake_dt, fake_d
    now, today = pd.Timestamp.now, pd.Timestamp.today
    delta = pd.Timedelta(seconds=shift)
    pd.Timestamp.now = classmethod(lambda cls, tz=None: now(tz) + delta)
    pd.Timestamp.today = classmethod(lambda cls, tz=None: today(tz) + delta)


def _shuffle_listings(seed):
    real_list, real_scan = os.listdir, os.scandir
    r = random.Random(seed)

    def listdir(path='.'):
        names = sorted(real_list(path), key=str)
        r.shuffle(names)
        return names

    class Scan:
        def __init__(self, path):
            self.it = real_scan(path)
            self.entries = sorted(self.it, key=lambda e: str(e.name))
            r.shuffle(self.entries)
            self.pos = iter(self.entries)

        def __iter__(self):
            return self.pos

        def __next__(self):
            return next(self.pos)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.it.close()

        def close(self):
            self.it.close()

    os.listdir, os.scandir = listdir, lambda path='.': Scan(path)


def apply(env, root):
    import numpy as np
    import pandas as pd

    os.environ['TZ'] = env['tz']
    time.tzset()
    random.seed(env['random'])
    warnings.simplefilter(env['warnings'])
    np.seterr(all=env['err'])
    if env['print']:
        np.set_printoptions(precision=2, threshold=5, suppress=True)
        pd.set_option('display.precision', 1)
        pd.set_option('display.max_rows', 4)
        pd.set_option('display.max_columns', 2)
    if not env['gc']:
        gc.disable()
    os.environ['HOME'] = env['home']
    cwd = os.path.join(root, 'cwd-' + env['cwd'])
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    if env['listing'] is not None:
        _shuffle_listings(env['listing'])
    if env['clock']:
        _fake_clock(env['clock'])


def _state():
    import numpy as np

    s = np.random.get_state(legacy=False)
    h = hashlib.sha1(s['state']['key'].tobytes())
    h.update(repr((s['state']['pos'], s.get('has_gauss'), s.get('gauss'))).encode())
    return h.hexdigest()


def consumes(op):
    if op['op'] == 'dis':
        return (op['var'], op['kw'].get('method')) in (('precip', 'cascade'), ('wind', 'random'))
    if op['op'] == 'fn':
        return op['name'] in ('cascade', 'cascade5') or (op['name'] == 'wind' and op['seed'] % 3 == 1)
    return False


def _perform(w, op):
    from . import direct, session
    from .child import describe
    from .props import c09, c10

    try:
        if op['op'] == 'fn':
            fn, args, kw = direct.prepare(w, op)
            return 'ok', direct.as_plain(fn(*args, **kw))
        if op['op'] == 'read':
            header, df = c09._import(op['plan'], os.path.join(w.root, op['dir']))
            return 'ok', {'header': {k: str(v) for k, v in header.items()} if header is not None else None, 'df': df}
        if op['op'] == 'export':
            import melodist

            df, meta = c10.make(op['frame'])
            path = w.path(op['file'])
            melodist.write_smet(path, df, meta, mode=op['frame']['mode'], check_nan=op['frame']['check_nan'])
            with open(path, 'rb') as f:
                return 'ok', f.read()
        value = session.run_op(w, op, lambda spec: None)
        if op['op'] == 'save':
            with open(w.path(op['file']), 'rb') as f:
                value = f.read()
        return 'ok', value
    except Exception as e:
        return 'raise', describe(e)


def play(env, program, root):
    """All results of a seeded session under an environment."""
    import numpy as np

    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    from . import session

    class World(session.World):
        def memo(self, name, op, make):
            return make()

    w = World(root)
    apply(env, root)
    from .props import c09

    for op in program['ops']:
        if op['op'] == 'read':
            d = os.path.join(root, op['dir'])
            os.makedirs(d, exist_ok=True)
            c09.build(op['plan'], d)
    if env['prologue']:
        p = World(os.path.join(root, 'cwd-a'))
        os.makedirs(p.root, exist_ok=True)
        for op in env['prologue']:
            _perform(p, op)
    np.random.seed(program['seed'])
    results = []
    for op in program['ops']:
        before = _state()
        r = _perform(w, op)
        results.append((r[0], r[1], before == _state()))
    return results


def main(job, result):
    with open(job) as f:
        job = json.load(f)
    import numpy as np

    np.random.seed(4)
    before = _state()
    from . import core

    core.load_repo()
    import melodist  # noqa: F401

    touched = before != _state()
    res = []
    for i, program in enumerate(job['programs']):
        root = os.path.join(job['root'], 'p%d' % i)
        os.makedirs(root)
        res.append(core.isolated(play, job['env'], program, root))
    with open(result, 'wb') as f:
        pickle.dump({'results': res, 'import': touched}, f)


if __name__ == '__main__':
    main(*sys.argv[1:])
