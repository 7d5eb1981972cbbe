"""Workloads of the other properties, watched by this property's monitors.

A guest case is run with its own generator; its own monitors are evaluated by its
own check and ignored here.  Every call of solve() and reconstruct() it makes
goes through `around`."""
import importlib

import numpy as np

from rvm import core, work

GUESTS = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C20 C21 C22 C28 C29".split()


class Proxy:
    """the package, with the two functions replaced"""

    def __init__(self, utide, solve, reconstruct):
        self._u, self.solve, self.reconstruct = utide, solve, reconstruct

    def __getattr__(self, k):
        return getattr(self._u, k)


class Full(Exception):
    """enough calls were observed"""


class Guest(core.Ctx):
    def __init__(self, host, prop, idx, around, limit):
        super().__init__(prop, "quick", host.seed, idx, 0, {})
        real = self.utide
        self.left = limit

        def call(what, fn):
            def wrapped(*a, **kw):
                if self.left <= 0:
                    raise Full
                self.left -= 1
                host._record(what, a, kw)
                return around(what, fn, a, kw)

            return wrapped

        self.utide = Proxy(real, call("solve", real.solve), call("reconstruct", real.reconstruct))

    def check(self, cond, *a, **k):
        return bool(cond)

    def close(self, *a, **k):
        return True

    def same(self, *a, **k):
        return True

    def finding(self, *a, **k):
        pass

    def raises(self, exc, what, fn):
        try:
            fn()
        except Full:
            raise
        except Exception:
            pass
        return True


def run(ctx, around, guests=GUESTS, limit=12):
    """one random guest case; what of its calls is seen is up to `around`"""
    prop = work.pick(ctx.rng, guests)
    idx = int(ctx.rng.integers(1, 10**6))
    g = Guest(ctx, prop, idx, around, limit)
    ctx.note("guest " + prop)
    state = np.random.get_state()
    try:
        importlib.import_module("rvm.props." + prop.lower()).run_case(g)
    except (Full, core.Skip):
        pass
    except Exception as e:
        # what the guest makes of its results is its own check's business
        ctx.note("guest stopped: " + type(e).__name__)
    finally:
        np.random.set_state(state)
    ctx.describe(guest=prop, guest_case=idx, **{"of_guest_" + k: v for k, v in g.sample.items()})
