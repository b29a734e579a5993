"""Functions which raise at a chosen call."""


class Fault(Exception):
    pass


class ArithmeticFault(FloatingPointError, ValueError):
    pass


class Stop(KeyboardInterrupt):
    """What a user causes who interrupts a calculation."""


class Faults(object):
    """guard(f) counts the calls of f; with plan = (k, when, kind) the k-th
    call raises kind, before or after it has done its work."""
    def __init__(self):
        self.plan, self.count = None, 0

    def guard(self, f):
        def guarded(*args, **kwargs):
            self.count += 1
            k, when, kind = self.plan or (None, None, None)
            if k == self.count and when == 'before':
                raise kind()
            out = f(*args, **kwargs)
            if k == self.count:
                raise kind()
            return out
        return guarded
