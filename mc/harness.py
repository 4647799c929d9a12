"""Exhaustive exploration harness.

A check module defines

    ID, TITLE
    META              dict: rule, bounds, assumptions (lists/strings that end up in the evidence)
    cases(tier)       deterministic generator of JSON-able cases: the whole bounded space, simplest first
    run_case(case, rec)   executes ONE case on the real code and compares with the reference;
                          rec.state(key)   a distinct model state / configuration reached
                          rec.step(n)      n implementation operations executed and compared (transitions)
                          rec.trace()      one complete trace of the model replayed on the implementation
                          rec.hit(tag)     counter of how often an interesting situation was exercised
                          rec.fail(msg, key=None)   the property is violated

Cases are distributed over worker processes; nothing is sampled and nothing is capped: when a run
returns without violations, every case of the generator has been executed. (A run that has already found
many violations, or one that does not terminate, ends early.)
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "240"))


MAX_FAILS = 100  # a worker that has seen this many violations ends the run (a run without violations is never cut)


class CaseTimeout(BaseException):  # not swallowed by "except Exception"
    pass


class CheckError(Exception):
    """The harness itself is wrong (not the code under test)."""


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Rec:
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 0
        self.hits = {}
        self.cases = 0
        self.nontrivial = 0
        self.fails = []
        self.nfails = 0
        self.samples = []
        self._case = None
        self._known = {}
        self.known_hits = {}
        self.stop = False  # set once violations make further exploration pointless

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def hit(self, tag, n=1):
        self.hits[tag] = self.hits.get(tag, 0) + n

    def fail(self, msg, key=None):
        """key identifies the failing input (default: the whole case) for the known-findings file"""
        key = key if key is not None else json.dumps(self._case, sort_keys=True, default=str)
        if key in self._known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        self.nfails += 1
        if len(self.fails) < 20:
            self.fails.append({"case": self._case, "message": msg, "key": key})


def load_known(prop):
    path = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {f["key"]: f["what"] for f in data.get("findings", []) if f["property"] == prop}


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(check, case, rec):
    rec._case = case
    rec.cases += 1
    before = rec.steps
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        check.run_case(case, rec)
    except CaseTimeout:
        rec.fail(f"did not terminate within {CASE_TIMEOUT} s")
        rec.stop = True
    except CheckError:
        raise
    except Exception:  # the code under test must not raise on the inputs of the property
        rec.fail("unexpected exception\n" + traceback.format_exc(limit=-8))
    finally:
        signal.alarm(0)
    if rec.steps > before:
        rec.nontrivial += 1


def _worker(check, tier, counter, stop, chunk, q, known, wid):
    rec = Rec()
    rec._known = known
    try:
        it = enumerate(check.cases(tier))
        pos = -1
        done = False
        while not done and not stop.value:
            with counter.get_lock():
                c = counter.value
                counter.value += 1
            lo, hi = c * chunk, (c + 1) * chunk
            while pos < hi - 1:
                try:
                    pos, case = next(it)
                except StopIteration:
                    done = True
                    break
                if pos >= lo:
                    if wid == 0 and len(rec.samples) < 3:
                        rec.samples.append(case)
                    elif wid == 0 and pos % 997 == 0 and len(rec.samples) < 6:
                        rec.samples.append(case)
                    run_one(check, case, rec)
                    if rec.stop or rec.nfails >= MAX_FAILS:
                        stop.value = 1
                    if stop.value:
                        done = True
                        break
        q.put(
            (
                "ok",
                dict(
                    states=rec.states,
                    steps=rec.steps,
                    traces=rec.traces,
                    hits=rec.hits,
                    cases=rec.cases,
                    nontrivial=rec.nontrivial,
                    fails=rec.fails,
                    nfails=rec.nfails,
                    samples=rec.samples,
                    known_hits=rec.known_hits,
                ),
            )
        )
    except BaseException:
        q.put(("err", traceback.format_exc()))


def main(check, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(check.ID)

    if replay:
        data = json.load(open(replay))
        rec = Rec()
        rec._known = {}
        run_one(check, data["case"], rec)
        for f in rec.fails:
            print(f["message"])
        print("replay:", "VIOLATED" if rec.fails else "holds")
        return 1 if rec.fails else 0

    nproc = int(os.environ.get("VERIF_PROCS", "0")) or max(1, min(8, os.cpu_count() or 1))
    chunk = getattr(check, "CHUNK", 4)
    if hasattr(check, "prepare"):
        check.prepare(tier)
    ctx = mp.get_context("fork")
    counter = ctx.Value("q", 0)
    stop = ctx.Value("b", 0, lock=False)
    q = ctx.Queue()
    procs = [
        ctx.Process(target=_worker, args=(check, tier, counter, stop, chunk, q, known, i), daemon=False) for i in range(nproc)
    ]
    for p in procs:
        p.start()
    total = Rec()
    errors = []
    got = 0
    while got < nproc:
        try:
            kind, res = q.get(timeout=5)
        except Exception:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead:
                errors.append(f"worker died with exit code {dead[0].exitcode}")
                break
            continue
        got += 1
        if kind == "err":
            errors.append(res)
            continue
        total.states |= res["states"]
        total.steps += res["steps"]
        total.traces += res["traces"]
        total.cases += res["cases"]
        total.nontrivial += res["nontrivial"]
        for k, v in res["hits"].items():
            total.hit(k, v)
        total.fails += res["fails"]
        total.nfails += res["nfails"]
        total.samples += res["samples"]
        for k, v in res["known_hits"].items():
            total.known_hits[k] = total.known_hits.get(k, 0) + v
    if errors:
        for p in procs:
            p.terminate()
        print("CHECK ERROR\n" + errors[0], file=sys.stderr)
        return 2
    for p in procs:
        p.join()

    if hasattr(check, "finish") and not total.nfails:  # vacuity conditions over the whole run
        check.finish(total, tier)

    meta = check.META
    wall = time.time() - t0
    cov = dict(
        states=len(total.states),
        transitions=total.steps,
        traces_validated_against_impl=total.traces,
        samples=total.samples[:6],
        cases=total.cases,
        nontrivial_cases=total.nontrivial,
        situations=dict(sorted(total.hits.items())),
        rule=meta["rule"],
        bounds=meta["bounds"][tier] if isinstance(meta["bounds"], dict) else meta["bounds"],
        exhaustive=not stop.value,
        processes=nproc,
    )
    ev = dict(
        property=check.ID,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=cov,
        assumptions=meta.get("assumptions", []),
        wall_s=round(wall, 2),
        violations=total.nfails,
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", check.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for key, n in sorted(total.known_hits.items()):
        print(f"KNOWN-FINDING: property={check.ID} {known[key]}")
    print(
        f"{check.ID} {tier}: cases={total.cases} states={len(total.states)} transitions={total.steps} "
        f"traces={total.traces} violations={total.nfails} wall={wall:.1f}s"
    )
    if total.nfails:
        rdir = os.path.join(ROOT, "replays", check.ID)
        os.makedirs(rdir, exist_ok=True)
        total.fails.sort(key=lambda f: (len(json.dumps(f["case"], default=str)), json.dumps(f["case"], default=str)))
        for i, f in enumerate(total.fails[:5]):
            path = os.path.join(rdir, f"{tier}-{i}.json")
            json.dump(dict(property=check.ID, **f), open(path, "w"), indent=1, default=str)
            if i == 0:
                print("first violation:", f["message"][:3000])
                print("case:", json.dumps(f["case"], default=str)[:2000])
            print(f"VIOLATION property={check.ID} replay={path}")
        return 1
    return 0
