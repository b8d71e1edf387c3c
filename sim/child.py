"""What every forked simulation process does first."""
import os
import random
import sys
import traceback
import warnings

import numpy as np

from . import core, rng


def enter(seam=True):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    random.seed(0)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    if seam:
        rng.install()
        rng.use({'kind': 'uniform', 'seed': 0})


def describe(exc):
    """Where an exception came from, by the innermost melodist frame."""
    where = ''
    for f in traceback.extract_tb(exc.__traceback__):
        if f.filename.startswith(core.PKG):
            where = '%s:%s' % (os.path.basename(f.filename), f.name)
    return '%s: %s (%s)' % (type(exc).__name__, str(exc)[:300], where)


def legit(out, fn, what):
    """Run an operation that has every right to succeed."""
    try:
        return True, fn()
    except Exception as e:
        out.fail('raised', '%s: %s' % (what, describe(e)))
        return False, None
