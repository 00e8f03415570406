"""Time limits for analyses: an exception is raised in the analysing thread when the time is up."""
import contextlib
import ctypes
import threading


class TimeUp(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    tid = threading.get_ident()
    done = threading.Event()

    def fire():
        if not done.is_set():
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(tid), ctypes.py_object(TimeUp))
    t = threading.Timer(seconds, fire)
    t.daemon = True
    stack = threading.stack_size(0)
    t.start()
    threading.stack_size(stack)
    try:
        yield
    finally:
        done.set()
        t.cancel()
