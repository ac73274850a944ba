"""A clock the monitors control."""
import time

_real = time.time


class Clock(object):
    def __init__(self, t=1000000.0):
        self.t = t

    def __call__(self):
        return self.t

    def __enter__(self):
        time.time = self
        return self

    def __exit__(self, *a):
        time.time = _real
