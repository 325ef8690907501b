"""Makes every access to the shared state of an object a preemption point of the controlled scheduler.

Each method below is one traced source line before the access itself (mc.sched counts lines of this file as steps).
"""


class SpyDict(dict):
    def __getitem__(self, k):
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)

    def __contains__(self, k):
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        return dict.get(self, k, d)

    def setdefault(self, k, d=None):
        return dict.setdefault(self, k, d)

    def pop(self, *a):
        return dict.pop(self, *a)

    def update(self, *a, **k):
        dict.update(self, *a, **k)


def watch(obj):
    """Swap obj's class for one whose attribute accesses are preemption points, and its plain dicts for watched ones."""
    cls = type(obj)
    try:
        for k, v in list(vars(obj).items()):
            if type(v) is dict:
                setattr(obj, k, SpyDict(v))

        class Spy(cls):
            def __getattribute__(self, name):
                return super().__getattribute__(name)

            def __setattr__(self, name, value):
                super().__setattr__(name, value)

        Spy.__name__ = cls.__name__
        obj.__class__ = Spy
    except (TypeError, AttributeError):
        pass
    return obj
