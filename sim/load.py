"""Loads the real salabim from /repo's working tree (no byte code is written there)."""
import gc
import inspect
import os
import sys
import types
import weakref

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import salabim as sim  # noqa: E402

assert os.path.abspath(sim.__file__).startswith(os.path.abspath(REPO)), sim.__file__


class _Inspect:
    """inspect without reading source lines for every frame of the stack (speed only)"""

    def __getattr__(self, name):
        return getattr(inspect, name)

    @staticmethod
    def stack(context=0):
        frame = sys._getframe(1)
        out = []
        while frame is not None:
            out.append(inspect.FrameInfo(frame, frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name, None, None))
            frame = frame.f_back
        return out

    @staticmethod
    def getframeinfo(frame, context=0):
        if inspect.isframe(frame):
            return inspect.Traceback(frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name, None, None)
        return inspect.getframeinfo(frame, context)

    signatures = weakref.WeakKeyDictionary()

    @classmethod
    def signature(cls, obj, **kwargs):
        func = getattr(obj, "__func__", obj)
        if kwargs or type(func) is not types.FunctionType or func.__dict__:
            return inspect.signature(obj, **kwargs)
        known = cls.signatures.setdefault(func, {})
        bound = func is not obj
        if bound not in known:
            known[bound] = inspect.signature(obj)
        return known[bound]


for _m in (sim, sys.modules.get(sim.__name__ + ".salabim")):
    if _m is not None and getattr(_m, "inspect", None) is inspect:
        _m.inspect = _Inspect()
gc.collect()
gc.freeze()  # what is loaded now need not be visited by every collection
