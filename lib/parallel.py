"""
Runs the clusterers with several processes, over a simulated pool whose tasks complete in a generated order.
"""
import contextlib
import multiprocessing
import random
import sys

from lib.fakepool import FakePool

STATE = {'real': False}
REAL_POOL = multiprocessing.Pool


class simulated(object):
    """Puts the simulated pool in place of the real one."""

    def __init__(self, order):
        FakePool.order = staticmethod(order)

    def __enter__(self):
        import fog.clustering
        self.saved = [(m, m.Pool) for name, m in list(sys.modules.items()) if name.startswith('fog.clustering.') and hasattr(m, 'Pool')]
        for m, _ in self.saved:
            m.Pool = FakePool
        multiprocessing.Pool = FakePool

    def __exit__(self, *args):
        for m, p in self.saved:
            m.Pool = p
        multiprocessing.Pool = REAL_POOL
        return False


def shuffler(seed):
    """Seed 0 is the order of submission."""
    def order(results):
        out = list(results)
        if seed:
            random.Random(seed).shuffle(out)
        return out
    return order


@contextlib.contextmanager
def maybe(d, p=0.12, chunks=False, n=0):
    """
    Context giving options: none most of the time, else several processes. Real ones, seldom, if the simulated pool
    happens not to be used.
    """
    if not d.bool(p) or (STATE['real'] and d.int(0, 39)):
        yield {}
        return
    kw = {'processes': d.int(2, 4)}
    if chunks and d.bool(0.8):
        # There are about (n / size)^2 / 2 tasks
        kw['chunk_size'] = d.int(1, 7) + n // 40
    d.label('several processes')
    with simulated(shuffler(d.int(0, 1 << 16))):
        yield kw
    STATE['real'] = not FakePool.used
