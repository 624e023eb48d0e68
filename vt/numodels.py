"""Numerical models used as workloads (imported in the workers only)."""
import json
import os
import signal
import time
import numpy as np
from sympkf.model import Model
from sympkf.model.model import LinearModel, IdentityModel


class Custom(Exception):
    pass


class TwoArguments(Exception):
    """cannot be rebuilt by pickle from its args"""

    def __init__(self, a, b):
        super().__init__(f'{a} {b}')


FAULTS = {'runtime': RuntimeError, 'value': ValueError, 'floating': FloatingPointError, 'division': ZeroDivisionError,
          'overflow': OverflowError, 'key': KeyError, 'index': IndexError, 'memory': MemoryError, 'type': TypeError,
          'assertion': AssertionError, 'attribute': AttributeError, 'os': OSError, 'timeout': TimeoutError,
          'eof': EOFError, 'lookup': LookupError, 'notimplemented': NotImplementedError, 'warning': RuntimeWarning,
          'linalg': np.linalg.LinAlgError, 'stop': StopIteration, 'custom': Custom}


class Nonlinear(Model):
    """u' = -u u_x + nu u_xx + forcing(t), periodic; optional injected delays, faults and an event log"""

    def __init__(self, n=12, nu=0.1, delays=None, fail=None, log=None, fault='runtime', **kwargs):
        super().__init__(**kwargs)
        self.n, self.nu, self.delays, self.fail, self.log = n, nu, delays or {}, fail, log
        self.calls = []
        self.fault, self.home = fault, os.getpid()

    def tag(self, state):
        """members are recognised by the value carried, unchanged, by their last entry"""
        return int(round(float(state[-1])))

    def trend(self, t, state):
        member = self.tag(state)
        u = state[:-1]
        self.calls.append((t, member))
        if self.log:
            fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, (json.dumps([os.getpid(), member, float(t), time.monotonic()]) + '\n').encode())
            os.close(fd)
        if member in self.delays:
            time.sleep(self.delays[member])
        if self.fail is not None and member == self.fail[0] and t >= self.fail[1]:
            if self.fault == 'killed':
                if os.getpid() == self.home:
                    raise RuntimeError('computed by the caller')
                os.kill(os.getpid(), signal.SIGKILL)
            if self.fault == 'exit':
                if os.getpid() == self.home:
                    raise RuntimeError('computed by the caller')
                os._exit(0)
            if self.fault == 'two':
                raise TwoArguments('injected fault in member', member)
            raise FAULTS[self.fault](f'injected fault in member {member}')
        dx = 1.0
        out = np.zeros_like(state)
        out[:-1] = (-u * (np.roll(u, -1) - np.roll(u, 1)) / (2 * dx)
                    + self.nu * (np.roll(u, -1) - 2 * u + np.roll(u, 1)) / dx ** 2 + 0.1 * np.cos(t))
        return out


class Linear(LinearModel):
    """x' = A(t) x"""

    def __init__(self, A, B, **kwargs):
        super().__init__(**kwargs)
        self.A, self.B = np.asarray(A, float), np.asarray(B, float)
        self.n = len(self.A)

    def trend(self, t, x):
        return (self.A + np.sin(t) * self.B) @ x


class Poly(Model):
    """smooth nonlinear non-autonomous model on states of any shape"""

    def __init__(self, a, **kwargs):
        super().__init__(**kwargs)
        self.a = a

    def trend(self, t, x):
        a = self.a
        y = np.roll(np.ravel(x), 1).reshape(np.shape(x))
        return a[0] * x + a[1] * x * y + a[2] * y * (t if abs(t) < 100 else np.sin(t)) + a[3] * np.cos(t)


class Identity(IdentityModel):
    pass
