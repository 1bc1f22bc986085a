"""Stand-in for ProcessPoolExecutor: runs the work in this process, on a
pickled copy of its arguments, as another process would see them; at once, or,
with ORDER set, one piece after another in random order."""
import asyncio
import concurrent.futures
import pickle

ORDER = None  # a random.Random
MEANWHILE = None  # called before each piece of work


class SyncExecutor(concurrent.futures.Executor):
    def __init__(self, *a, **k):
        self.waiting = []

    def submit(self, fn, *args, **kwargs):
        f = concurrent.futures.Future()
        work = (f, fn, pickle.dumps((args, kwargs)))
        try:
            loop = asyncio.get_running_loop() if ORDER is not None else None
        except RuntimeError:
            loop = None
        if loop is None:
            self.work(*work)
        else:
            self.waiting.append(work)
            loop.call_soon(self.some, loop)
        return f

    def some(self, loop):
        if self.waiting and ORDER.random() < 0.5:
            self.work(*self.waiting.pop(ORDER.randrange(len(self.waiting))))
        if self.waiting:
            loop.call_soon(self.some, loop)

    def work(self, f, fn, data):
        if not f.set_running_or_notify_cancel():
            return
        if MEANWHILE is not None:
            MEANWHILE()
        try:
            args, kwargs = pickle.loads(data)
            r = pickle.loads(pickle.dumps(fn(*args, **kwargs)))
        except Exception as e:
            f.set_exception(e)
        else:
            f.set_result(r)

    def shutdown(self, wait=True, **k):
        pass

    def __exit__(self, *a):
        return None
