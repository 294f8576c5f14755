"""
A stand-in for multiprocessing.Pool that runs tasks in this process and hands
results back in an order the test chooses: every completion order a real pool
could show for imap_unordered is reachable, at no cost and reproducibly.

Payloads and results go through pickle, as they would between processes.
"""
import pickle


class FakePool(object):
    used = 0
    order = None  # callable: list -> permuted list

    def __init__(self, processes=None, *args, **kwargs):
        FakePool.used += 1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def _one(self, fn, args, kwargs={}):
        fn, args, kwargs = pickle.loads(pickle.dumps((fn, tuple(args), kwargs)))
        return pickle.loads(pickle.dumps(fn(*args, **kwargs)))

    def imap(self, fn, it, chunksize=1):
        for p in it:
            yield self._one(fn, (p,))

    def map(self, fn, it, chunksize=None):
        return [self._one(fn, (p,)) for p in it]

    def starmap(self, fn, it, chunksize=None):
        return [self._one(fn, p) for p in it]

    def imap_unordered(self, fn, it, chunksize=1):
        results = [self._one(fn, (p,)) for p in list(it)]
        yield from FakePool.order(results)

    def apply(self, fn, args=(), kwds={}):
        return self._one(fn, args, kwds)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        return Result(self._one(fn, args, kwds), callback)

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return Result(self.map(fn, it), callback)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return Result(self.starmap(fn, it), callback)


class Result(object):
    def __init__(self, value, callback=None):
        self.value = value
        if callback is not None:
            callback(value)

    def get(self, timeout=None):
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True
