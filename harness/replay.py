"""Replays the cases of one file on the library in /repo.  No semantics here."""
import json
import os
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def load_library(scratch):
    import numpy, scipy, matplotlib  # noqa: compiled caches of these are fine
    sys.dont_write_bytecode = True
    sys.pycache_prefix = scratch  # never use bytecode found in the repository
    sys.path.insert(0, REPO)
    import SciDataTool
    assert os.path.realpath(SciDataTool.__file__).startswith(os.path.realpath(REPO)), SciDataTool.__file__
    import objects
    objects.L("Data1D")


def from_library(e):
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
               for f in traceback.extract_tb(e.__traceback__))


def settle(heap, c, ans, ctx, case=None):
    """Makes a call and compares what happens with the answer: (problem or None, result)."""
    from calls import CHECKS
    got, exc = attempt(heap, c, ctx)
    if c["m"] == "read":
        return alone(case, c, got, exc, ctx), got
    if ans["k"] == "err":
        if exc is None:
            return "accepted, should be refused", got
        want = ans.get("exc")
        if want and not any(t.__name__ in want for t in type(exc).__mro__):
            return "raised %s, not %s" % (type(exc).__name__, want), got
    elif ans["k"] != "unspec":
        if exc is not None:
            tb = traceback.extract_tb(exc.__traceback__)[-1]
            return "raised %s: %s (%s:%d)" % (
                type(exc).__name__, str(exc)[:200], os.path.basename(tb.filename), tb.lineno), got
        if c["m"] not in CHECKS:
            return None, got
        try:
            return CHECKS[c["m"]](got, ans, c, heap), got
        except Hang:
            raise
        except Exception as e:  # while reading the result
            return "result cannot be read: raised %s: %s" % (type(e).__name__, str(e)[:200]), got
    return None, got


def alone(case, c, got, exc, ctx):
    """The same read on objects that were never read."""
    import objects
    heap = [objects.build(o) for o in case["objs"]]
    own, own_exc = attempt(heap, c, ctx)
    if type(exc) is not type(own_exc):
        return "%s, but %s on objects never read" % (outcome(exc), outcome(own_exc))
    if exc is None:
        d = objects.snap_diff(objects.snap(own), objects.snap(got))
        return d and "answer differs from that on objects never read: " + d


def overwrite(got):
    """Whoever asked may do anything with the arrays of the answer."""
    import numpy as np
    import objects
    if isinstance(got, (dict, list)):
        for x in got.values() if isinstance(got, dict) else got:
            if isinstance(x, np.ndarray):
                objects.scribble(x)
            elif isinstance(got, list):
                overwrite(x)
    elif type(got).__module__.startswith("SciDataTool") and type(got).__name__ != "DataDual":
        objects.scribble(got, arrays=True)


def outcome(exc):
    return "answered" if exc is None else "raised %s: %s" % (type(exc).__name__, str(exc)[:200])


def attempt(heap, c, ctx):
    from calls import CALLS
    try:
        return CALLS[c["m"]](heap, c, ctx), None
    except Hang:
        raise
    except Exception as e:
        return None, e


def run_case(case, ctx):
    """Returns (problem or None, counters)."""
    import compare
    import objects

    if "pool" in case:
        import pool
        return pool.run_case(case, ctx, describe)
    cnt = {"steps": 0, "ok": 0, "err": 0, "unspec": 0}
    watch = case.get("watch", False)
    heap = []
    for k, o in enumerate(case["objs"]):
        try:
            heap.append(objects.build(o))
        except Hang:
            raise
        except Exception as e:
            if not from_library(e):
                raise
            return "building object %d: raised %s: %s" % (k + 1, type(e).__name__, str(e)[:200]), cnt
    compare.SCALE[0] = objects.magnitude(case["objs"])
    before = [objects.snap(x) for x in heap] if watch else None
    for k, st in enumerate(case["steps"]):
        c, ans = st["call"], st["ans"]
        cnt["steps"] += 1
        kind = "ok" if c["m"] == "read" else ans["k"]
        cnt[kind] = cnt.get(kind, 0) + 1
        where = "step %d %s: " % (k + 1, describe(c))
        msg, got = settle(heap, c, ans, ctx, case)
        if msg:
            return where + (ans["tag"] + ": " if "tag" in ans else "") + msg, cnt
        if ans["k"] == "obj":
            heap.append(got)
            compare.SCALE[0] = max(compare.SCALE[0], objects.magnitude([ans["obj"]]))
            if watch:
                before.append(objects.snap(got))
        if watch and c["m"] == "scribble":
            before[c["o"] - 1] = objects.snap(heap[c["o"] - 1])
        if case.get("alone") and c.get("f") != "get_axes":  # these are the axes themselves
            overwrite(got)
        if watch:
            for j, b in enumerate(before):
                d = objects.snap_diff(b, objects.snap(heap[j]))
                if d:
                    return where + "object %d changed: %s" % (j + 1, d), cnt
    return None, cnt


def describe(c):
    try:
        from calls import render
        if "reqs" in c:
            return "%s(%s)" % (c.get("f", c["m"]), ", ".join(render(r)[0] for r in c["reqs"]))
    except Exception:
        pass
    return c["m"]


def load_case(path):
    with open(path, encoding="utf-8") as f:
        case = json.load(f)
    return json.loads(case) if isinstance(case, str) else case


def work(files, scratch, limit):
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    out = {"cases": 0, "steps": 0, "ok": 0, "err": 0, "unspec": 0, "fails": [], "harness": []}
    ctx = {"scratch": scratch}
    sys.stdout = open(os.devnull, "w")
    for path in files:
        case = load_case(path)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            msg, cnt = run_case(case, ctx)
        except Hang:
            msg, cnt = "no answer within %d s" % limit, {}
        except Exception:
            out["harness"].append({"case": case, "what": traceback.format_exc()})
            msg, cnt = None, {}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out["cases"] += 1
        for k, v in cnt.items():
            out[k] = out.get(k, 0) + v
        if msg:
            out["fails"].append({"case": case, "what": msg})
    out["fails"].sort(key=lambda f: len(json.dumps(f["case"])))
    out["nfails"] = len(out["fails"])
    out["fails"] = out["fails"][:200]
    return out


def replay(path, scratch, procs=8, limit=30):
    load_library(scratch)
    lines = [os.path.join(path, n) for n in sorted(os.listdir(path), key=lambda n: (len(n), n))]
    procs = max(1, min(procs, len(lines)))
    pids = []
    for p in range(procs):
        out = os.path.join(scratch, "replay%d.json" % p)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                d = os.path.join(scratch, "w%d" % p)
                os.makedirs(d)
                r = work(lines[p::procs], d, limit)
                with open(out, "w") as f:
                    json.dump(r, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append((pid, out))
    tot = {}
    for pid, out in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise RuntimeError("replay process failed (status %d)" % st)
        with open(out) as f:
            r = json.load(f)
        for k, v in r.items():
            tot[k] = tot[k] + v if k in tot else v
    tot["samples"] = [json.dumps(load_case(lines[k])["steps"]) for k in range(min(1, len(lines)))]
    tot["fails"].sort(key=lambda f: len(json.dumps(f["case"])))
    return tot


if __name__ == "__main__":  # replay.py FILE: one saved violation
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix="sdt-replay-")
    try:
        load_library(scratch)
        with open(sys.argv[1]) as f:
            d = json.load(f)
        import numpy as np
        np.seterr(all="ignore")
        warnings.simplefilter("ignore")
        msg, _ = run_case(d["case"], {"scratch": scratch})
        print(msg or "held")
        sys.exit(1 if msg else 0)
    finally:
        shutil.rmtree(scratch)
