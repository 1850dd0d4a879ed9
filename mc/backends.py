"""A joblib backend that behaves like worker processes without starting any: every task runs on a pickled copy of its
arguments and only its (pickled) result comes back.  Order of execution is decided by `order`."""
import joblib
from joblib._parallel_backends import ParallelBackendBase
from joblib.externals.loky.backend import reduction


def roundtrip(obj):
    return reduction.loads(bytes(reduction.dumps(obj)))


class _Done:
    def __init__(self, value, error):
        self.value, self.error = value, error

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value


class IsolatedBackend(ParallelBackendBase):
    uses_threads = False
    supports_sharedmem = False
    supports_timeout = False
    supports_retrieve_callback = True
    supports_return_generator = True

    def effective_n_jobs(self, n_jobs):
        return 2

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel = parallel
        return 2

    def submit(self, func, callback=None):
        try:
            f = roundtrip(func)
            out = _Done(roundtrip(f()), None)
        except Exception as e:
            out = _Done(None, e)
        # joblib submits the next task from the callback: callbacks are run one after another, not nested
        waiting = self.__dict__.setdefault("waiting", [])
        if callback is not None:
            waiting.append((callback, out))
        if not self.__dict__.get("draining"):
            self.draining = True
            try:
                while waiting:
                    callback, result = waiting.pop(0)
                    callback(result)
            finally:
                self.draining = False
        return out

    apply_async = submit

    def retrieve_result_callback(self, out):
        return out.get()

    def get_nested_backend(self):
        from joblib._parallel_backends import SequentialBackend
        return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None


_registered = False


def isolated():
    """Context manager: tasks of joblib.Parallel run isolated from the caller's objects."""
    global _registered
    if not _registered:
        joblib.register_parallel_backend("mc_isolated", IsolatedBackend)
        _registered = True
    return joblib.parallel_config(backend="mc_isolated")
