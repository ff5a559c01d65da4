"""Base class of the property modules."""
import os
import sys
import traceback

from sim.core import Violation, list_shrinks, shrink_keys  # noqa


class Property(object):
    ID = ''
    TITLE = ''
    RUNS = {'quick': 400, 'thorough': 8000}
    WALL = {'quick': 150., 'thorough': 3000.}
    MIN_RUNS = 20
    TIMEOUT = 60.
    NEEDS_PVFACTORS = True
    RULE = ''
    REAL = ['all pvfactors modules', 'numpy', 'pandas', 'pvlib', 'shapely']
    STUBS = []
    ASSUMPTIONS = []
    TIME_NOTE = 'no timers in these operations: simulated time is the ' \
        'span of the weather series processed'

    def setup(self):
        pass

    def generate(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, sc, ctx):
        raise NotImplementedError

    def shrinks(self, sc):
        return iter(())

    def nontrivial(self, out):
        return out['n_events'] > 2

    def matches_known(self, known, sc, out):
        return False


class SutError(object):
    """An exception that left the code under test."""

    def __init__(self, exc):
        self.exc = exc
        self.name = type(exc).__name__

    def __str__(self):
        return '%s: %s' % (self.name, str(self.exc)[:300])


def attempt(fn, *a, **k):
    """Call the code under test; exceptions become values."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:  # noqa
        return SutError(e)


def where(exc):
    """Last frame inside the code under test, for messages."""
    tb = exc.__traceback__
    last = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.sep + 'pvfactors' + os.sep in fn:
            last = '%s:%d' % (fn.split(os.sep + 'pvfactors' + os.sep)[-1],
                              tb.tb_lineno)
        tb = tb.tb_next
    return last


def must(ctx, what, fn, *a, **k):
    """Call the code under test where nothing allows it to fail."""
    r = attempt(fn, *a, **k)
    if isinstance(r, SutError):
        ctx.log('raised', what, r.name)
        raise Violation('%s raised' % what, '%s at %s' % (
            r, where(r.exc)))
    return r
