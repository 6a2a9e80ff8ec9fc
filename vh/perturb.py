"""Injected delays: short sleeps at random lines of chosen modules, so that schedules are seen that plain stress hardly ever produces."""
import importlib
import os
import random
import sys
import time
import types

TOOL = 4
_sleep = time.sleep
done = [0, 0.0]  # sleeps so far in this process, seconds


def codes(module):
    """All code objects of the functions and methods a module defines, nested ones included."""
    todo, seen = [], set()
    for v in list(vars(module).values()):
        if getattr(v, "__module__", None) != module.__name__:
            continue
        if isinstance(v, type):
            todo += [f for f in vars(v).values()]
        else:
            todo.append(v)
    out = []
    for f in todo:
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        if isinstance(f, property):
            f = f.fget
        c = getattr(f, "__code__", None)
        stack = [c] if isinstance(c, types.CodeType) else []
        while stack:
            c = stack.pop()
            if c in seen:
                continue
            seen.add(c)
            out.append(c)
            stack += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return out


def enable(modules, prob=0.03, longest=0.01, budget=1.5, seed=None):
    """Each line executed in these modules sleeps with the given probability, until the budget is used up."""
    mon = sys.monitoring
    rng = random.Random(seed if seed is not None else os.urandom(8))
    done[:] = [0, 0.0]

    def line(_code, _number):
        if rng.random() < prob and done[1] < budget:
            t = rng.random() * longest
            done[0] += 1
            done[1] += t
            _sleep(t)

    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "vh-perturb")
    mon.register_callback(TOOL, mon.events.LINE, line)
    for m in modules:
        for c in codes(importlib.import_module(m)):
            mon.set_local_events(TOOL, c, mon.events.LINE)


def disable():
    if sys.monitoring.get_tool(TOOL) is not None:
        sys.monitoring.free_tool_id(TOOL)
