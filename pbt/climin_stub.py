"""A stand-in for climin, which is not installed here: the three minimizers paramz wraps, stepping in place as climin's do.
"""
import sys
import types

import numpy as np


class Minimizer(object):
    def __init__(self, wrt, fprime, **kw):
        self.wrt, self.fprime, self.n_iter, self.kw = wrt, fprime, 0, kw
        self.start()

    def start(self):
        pass

    def __iter__(self):
        while True:
            self.move()
            self.n_iter += 1
            yield {'n_iter': self.n_iter, 'args': [], 'kwargs': {}}


MADE = []           # the settings of every minimizer made


class Adadelta(Minimizer):
    def __init__(self, wrt, fprime, step_rate=1, decay=0.9, momentum=0, offset=1e-4):
        super(Adadelta, self).__init__(wrt, fprime)
        self.step_rate, self.decay, self.momentum, self.offset = step_rate, decay, momentum, offset
        MADE.append(dict(step_rate=step_rate, decay=decay, momentum=momentum, offset=offset))

    def start(self):
        self.gms, self.sms, self.step = 0., 0., 0.

    def move(self):
        d, o = self.decay, self.offset
        step1 = self.step * self.momentum * self.step_rate
        self.wrt -= step1
        g = self.fprime(self.wrt)
        self.gms = d * self.gms + (1 - d) * g**2
        step2 = np.sqrt(self.sms + o) / np.sqrt(self.gms + o) * g * self.step_rate
        self.wrt -= step2
        self.step = step1 + step2
        self.sms = d * self.sms + (1 - d) * self.step**2


class Rprop(Minimizer):
    def __init__(self, wrt, fprime, step_shrink=0.5, step_grow=1.2, min_step=1e-6, max_step=1, changes_max=0.1):
        super(Rprop, self).__init__(wrt, fprime)
        self.shrink, self.grow, self.lo, self.hi, self.most = step_shrink, step_grow, min_step, max_step, changes_max
        MADE.append(dict(step_shrink=step_shrink, step_grow=step_grow, min_step=min_step, max_step=max_step, changes_max=changes_max))

    def start(self):
        self.last, self.change = 0., 0.05

    def move(self):
        g = self.fprime(self.wrt)
        s = np.sign(g * self.last)
        self.change = np.clip(np.where(s > 0, self.change * self.grow, np.where(s < 0, self.change * self.shrink, self.change)), self.lo, min(self.hi, self.most))
        self.wrt -= self.change * np.sign(g)
        self.last = np.array(g)


class Adam(Minimizer):
    def __init__(self, wrt, fprime, step_rate=.0002, decay=1 - 1e-8, decay_mom1=0.1, decay_mom2=0.001, momentum=0, offset=1e-8):
        super(Adam, self).__init__(wrt, fprime)
        self.rate, self.d1, self.d2, self.offset = step_rate, decay_mom1, decay_mom2, offset
        MADE.append(dict(step_rate=step_rate, decay=decay, decay_mom1=decay_mom1, decay_mom2=decay_mom2, momentum=momentum, offset=offset))

    def start(self):
        self.m, self.v = 0., 0.

    def move(self):
        g = self.fprime(self.wrt)
        self.m = self.d1 * g + (1 - self.d1) * self.m
        self.v = self.d2 * g**2 + (1 - self.d2) * self.v
        t = self.n_iter + 1
        self.wrt -= self.rate * np.sqrt(1 - (1 - self.d2)**t) / (1 - (1 - self.d1)**t) * self.m / (np.sqrt(self.v) + self.offset)


def install():
    """Make `import climin` work in this process, unless climin is there."""
    try:
        import climin
        return climin
    except ImportError:
        pass
    top = types.ModuleType('climin')
    for name, cls in (('adadelta', Adadelta), ('rprop', Rprop), ('adam', Adam)):
        sub = types.ModuleType('climin.' + name)
        setattr(sub, cls.__name__, cls)
        setattr(top, name, sub)
        sys.modules['climin.' + name] = sub
    sys.modules['climin'] = top
    return top
