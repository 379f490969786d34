"""Observers of a run: the model states in use while tracing, and the log."""
import logging

import numpy as np


class States:
    """Snapshots of every distinct model state for which a velocity or discharge is evaluated, in order."""

    NAMES = ('compute_velocity', 'compute_velocity_confined', 'compute_discharge')

    def __init__(self):
        self.seen = []
        self.last = None

    def note(self, mo):
        c = mo.coef
        key = (mo.conductivity, mo.porosity, mo.thickness, mo.base, mo.xo, mo.yo, float(c[0]), float(c[1]), float(c[5]), tuple(float(w[3]) for w in mo.wells))
        if key != self.last:
            self.last = key
            self.seen.append(dict(K=mo.conductivity, n=mo.porosity, H=mo.thickness, base=mo.base, xo=mo.xo, yo=mo.yo, coef=np.array(c, dtype=float).reshape(6),
                                  wells=[[w[0], w[1], w[2], w[3]] for w in mo.wells]))

    def __enter__(self):
        from oneka.model import Model
        self.saved = {}
        for name in self.NAMES:
            f = getattr(Model, name, None)
            if f is None:
                continue
            self.saved[name] = f

            def wrapper(mo, *args, _f=f, **kwargs):
                self.note(mo)
                return _f(mo, *args, **kwargs)
            setattr(Model, name, wrapper)
        return self

    def __exit__(self, *args):
        from oneka.model import Model
        for name, f in self.saved.items():
            setattr(Model, name, f)


class Log(logging.Handler):
    """Messages of the logger 'Oneka' at INFO and above."""

    def __init__(self, level=logging.INFO):
        super().__init__(level)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def __enter__(self):
        self.logger = logging.getLogger('Oneka')
        self.level0 = self.logger.level
        self.logger.setLevel(logging.INFO)
        self.logger.addHandler(self)
        return self

    def __exit__(self, *args):
        self.logger.removeHandler(self)
        self.logger.setLevel(self.level0)
