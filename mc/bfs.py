"""Breadth-first exploration of operation sequences on a real, mutable object.

The object cannot be forked, so every state is reached again by replaying its shortest history.
    fresh()           a new real object (plus whatever else the caller tracks)
    enabled(hist)     operations enabled after the history (deterministic, judged on the reference side)
    apply(obj, op)    executes one operation on the real object
    canon(obj)        a canonical form of everything the implementation can depend on; equal forms are merged
    check(obj, hist)  called once for each distinct state
"""
import traceback

from mc.harness import CaseTimeout, CheckError, h64


def replay(fresh, apply, hist):
    obj = fresh()
    for op in hist:
        apply(obj, op)
    return obj


def explore(fresh, enabled, apply, canon, check, depth, rec, prefix=(), seen=None):
    seen = set() if seen is None else seen
    prefix = tuple(prefix)
    frontier = [prefix]
    obj = replay(fresh, apply, prefix)
    seen.add(h64(canon(obj)))
    check(obj, prefix)
    rec.state(canon(obj))
    while frontier:
        nxt = []
        for hist in frontier:
            if len(hist) >= depth:
                continue
            for op in enabled(hist):
                rec.step()
                try:
                    obj = replay(fresh, apply, hist)
                    apply(obj, op)
                except (CaseTimeout, CheckError):
                    raise
                except Exception:
                    rec.fail(f"{op} after {list(hist)} raised\n" + traceback.format_exc(limit=-6))
                    continue
                c = canon(obj)
                k = h64(c)
                if k in seen:
                    continue
                seen.add(k)
                rec.state(c)
                rec.trace()
                check(obj, hist + (op,))
                nxt.append(hist + (op,))
        frontier = nxt
    return seen
