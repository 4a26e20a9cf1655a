"""check <property>: enumerate the behaviours of the specification with TLC,
replay them on the library, write the evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PROCS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def error_part(text):
    if "Parsing or semantic" in text:
        return "\n".join(l for l in text.splitlines() if not l.startswith(("Parsing file", "Semantic processing")))[-3000:]
    k = text.find("Error:")
    return text[k:k + 3000] if k >= 0 else text[-3000:]


def run_tlc(module, scratch, seed, tier):
    out = os.path.join(scratch, "out-" + module)
    os.makedirs(out)
    env = dict(os.environ, SDT_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier)
    env.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss16m", "-Dfile.encoding=UTF-8",
           "-Djava.io.tmpdir=" + scratch, "-cp", JARS, "tlc2.TLC",
           "-workers", str(PROCS), "-metadir", os.path.join(scratch, "md-" + module),
           "-noGenerateSpecTE", module]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=870)
    text = p.stdout.decode("utf-8", "replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if p.returncode != 0 or "No error has been found" not in text or not m:
        raise CheckError("TLC on %s failed (%d):\n%s" % (module, p.returncode, error_part(text)))
    return out, int(m.group(1)), int(m.group(2))


def known_findings(prop):
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3).strip()))
    return res


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) % 40009
    except ValueError:
        seed = 1
    with open(os.path.join(HERE, "checks.json")) as f:
        conf = json.load(f)[prop]
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n in os.listdir(rdir):
        if n.startswith(prop + "-"):
            os.remove(os.path.join(rdir, n))
    scratch = tempfile.mkdtemp(prefix="sdt-%s-" % prop)
    try:
        from replay import replay
        tot = {"cases": 0, "steps": 0, "ok": 0, "obj": 0, "err": 0, "unspec": 0, "nfails": 0}
        states = distinct = 0
        fails, harness, samples = [], [], []
        for module in conf["modules"]:
            out, s, d = run_tlc(module, scratch, seed, tier)
            states += s
            distinct += d
            sub = os.path.join(scratch, "r-" + module)
            os.makedirs(sub)
            # a fresh process per module keeps the library state of one run out of the next
            pid_out = os.path.join(sub, "tot.json")
            code = ("import sys,json; sys.path.insert(0,%r); from replay import replay; "
                    "r=replay(%r,%r,%d,%d); json.dump(r,open(%r,'w'))"
                    % (HERE, out, sub, PROCS, conf.get("limit", 30), pid_out))
            q = subprocess.run([sys.executable, "-B", "-c", code], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=880, cwd=sub)
            if q.returncode != 0:
                raise CheckError("replay failed: " + q.stdout.decode("utf-8", "replace")[-3000:])
            with open(pid_out) as f:
                r = json.load(f)
            for k in tot:
                tot[k] += r.get(k, 0)
            fails += [dict(x, module=module) for x in r["fails"]]
            harness += r["harness"]
            samples += r["samples"]
            shutil.rmtree(out)
            if r["cases"] == 0 or sum(r.get(k, 0) for k in ("ok", "obj", "err")) == 0:
                raise CheckError("no case was decided by " + module)
        if harness:
            raise CheckError("harness error on %d cases, first:\n%s\n%s" % (
                len(harness), harness[0]["what"], json.dumps(harness[0]["case"])[:2000]))
        if os.environ.get("VERIF_DUMP"):
            with open(os.environ["VERIF_DUMP"], "w") as f:
                json.dump(fails, f)
        known = known_findings(prop)
        new = []
        hit = {}
        for x in fails:
            for rx, text in known:
                if rx.search(x["what"]):
                    hit[text] = hit.get(text, 0) + 1
                    break
            else:
                new.append(x)
        for text in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        viol = []
        for k, x in enumerate(new[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, k + 1))
            with open(path, "w") as f:
                json.dump({"property": prop, "module": x["module"], "what": x["what"], "case": x["case"]}, f, indent=1)
            viol.append((path, x["what"]))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": distinct, "transitions": states,
                "traces_validated_against_impl": tot["cases"],
                "samples": [s[:1500] for s in samples],
                "calls_replayed": tot["steps"], "calls_compared": tot["ok"] + tot["obj"] + tot["err"],
                "calls_expected_refused": tot["err"], "calls_unspecified": tot["unspec"],
                "modules": conf["modules"],
            },
            "assumptions": conf.get("assumptions", []),
            "violations": [w for _, w in viol],
            "exhaustive": False,
            "wall_s": round(time.time() - t0, 2),
        }
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d cases, %d calls (%d compared, %d unspecified), %d failing, %.1f s" % (
            prop, tot["cases"], tot["steps"], tot["ok"] + tot["obj"] + tot["err"], tot["unspec"], len(new), time.time() - t0))
        for path, what in viol:
            print(what)
        if viol:
            for path, what in viol[:3]:
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1])
    except CheckError as e:
        print("ERROR: " + str(e))
        code = 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout " + str(e.cmd)[:200])
        code = 2
    sys.exit(code)
