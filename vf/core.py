"""Core of the monitoring harness: cases, oracle bookkeeping, event counters.

A *case* is one execution of a workload under monitoring.  It is fully
determined by (property, family, seed, index).  While it runs, the workload
reports monitored events (`ev`), distinct non-trivial situations (`sig`) and
oracle decisions (`check`).
"""
from __future__ import annotations

import hashlib
import random
from collections import Counter

import numpy as np


class Violation(Exception):
    """An oracle observed the property being broken."""

    def __init__(self, mechanism: str, message: str):
        super().__init__(f'{mechanism}: {message}')
        self.mechanism = mechanism
        self.message = message


class Skip(Exception):
    """The generated case is not meaningful (counted, never an alarm)."""


class HarnessError(Exception):
    """The machinery itself is broken."""


def _h(obj) -> int:
    return int.from_bytes(
        hashlib.blake2b(str(obj).encode('utf-8', 'surrogatepass'),
                        digest_size=8).digest(), 'big')


class Case:
    def __init__(self, prop: str, family: str, seed: int, index: int,
                 tier: str):
        self.prop, self.family, self.seed = prop, family, seed
        self.index, self.tier = index, tier
        key = f'{prop}/{family}/{seed}/{index}'
        self.rng = random.Random(key)
        self.np = np.random.default_rng(_h(key) % 2**63)
        self.events: Counter = Counter()
        self.evaluations = 0
        self.sigs: set[int] = set()
        self.samples: list = []
        self.known: list[tuple[str, str]] = []
        self.trail: list[str] = []     # description of the input, for replay

    # -- events -----------------------------------------------------------
    def ev(self, kind: str, n: int = 1) -> None:
        self.events[kind] += n

    def sig(self, *obj) -> None:
        self.sigs.add(_h(obj))

    def note(self, text='', **what) -> None:
        """Remember what the case is doing (shown with a violation)."""
        text = ' '.join([str(text)] * bool(text != '')
                        + [f'{k}={v!r}' for k, v in what.items()])
        self.trail.append(text[:2000])

    def sample(self, obj) -> None:
        if len(self.samples) < 2:
            self.samples.append(str(obj)[:400])

    # -- oracle -----------------------------------------------------------
    def check(self, cond, mechanism: str, msg='') -> None:
        self.evaluations += 1
        if not cond:
            raise Violation(mechanism, msg() if callable(msg) else str(msg))

    def fail(self, mechanism: str, msg='') -> None:
        self.check(False, mechanism, msg)

    def eq(self, a, b, mechanism: str, msg='') -> None:
        self.check(a == b, mechanism, lambda: f'{msg}: {repr(a)[:700]} != {repr(b)[:700]}')

    def close(self, a, b, mechanism: str, msg='', rtol=1e-6,
              atol=1e-8) -> None:
        a, b = np.asarray(a), np.asarray(b)
        self.evaluations += 1
        if a.shape != b.shape:
            raise Violation(mechanism, f'{msg}: shape {a.shape} != {b.shape}')
        if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False):
            with np.errstate(all='ignore'):
                d = np.max(np.abs(a - b)) if a.size else 0
            raise Violation(mechanism,
                            f'{msg}: max deviation {d}\n{a!r}\n{b!r}'[:1500])

    def raises(self, exc, fn, mechanism: str, msg='') -> BaseException:
        """`fn` must raise one of `exc`."""
        self.evaluations += 1
        try:
            r = fn()
        except exc as e:
            return e
        except (Violation, Skip, HarnessError):
            raise
        except Exception as e:
            raise Violation(mechanism, f'{msg}: raised {type(e).__name__}: '
                                       f'{e} instead of {exc}') from e
        raise Violation(mechanism, f'{msg}: returned {r!r:.500} instead of '
                                   f'raising')

    def known_if(self, mechanism: str, cond, msg='') -> bool:
        """Record a deterministic probe of a listed finding: `cond` True
        means the defect is still there.  Whether it is reported as known or
        as a violation is decided against known_findings.txt."""
        self.evaluations += 1
        if cond:
            self.known.append((mechanism, str(msg)))
            return True
        return False

    def skip(self, why='') -> None:
        raise Skip(why)

    # -- small random helpers ---------------------------------------------
    def p(self, prob: float) -> bool:
        return self.rng.random() < prob

    def choice(self, xs):
        return self.rng.choice(list(xs))

    def int(self, a: int, b: int) -> int:
        return self.rng.randint(a, b)

    @property
    def thorough(self) -> bool:
        return self.tier == 'thorough'


class Family:
    def __init__(self, name, fn, quick, thorough=None, serial=False,
                 timeout=100):
        self.name, self.fn = name, fn
        self.quick = quick
        self.thorough = quick * 12 if thorough is None else thorough
        self.timeout = timeout

    def count(self, tier: str) -> int:
        return self.thorough if tier == 'thorough' else self.quick
