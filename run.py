#!/usr/bin/env python3
"""Runs one property's check: explore the TLA+ specification with TLC, replay
what it generates into the real code, and report.

  run.py <ID> [--tier quick|thorough] [--seed N]   run a check
  run.py <ID> --replay FILE                        run recorded failing cases again
  run.py setup                                     check the tools, parse the specification, build
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
REPO = "/repo"
TLA = "/opt/veriftools/tla"


class CheckError(Exception):
    """the machinery failed: neither a pass nor a violation"""


def go_env():
    env = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", "source /opt/vp/env.sh; env -0"], capture_output=True, text=True).stdout
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                env[k] = v
    env["GOFLAGS"] = "-mod=mod"
    env["CGO_ENABLED"] = "1"
    env.setdefault("GOMAXPROCS", "8")
    return env


def build(scratch, race=False):
    src = os.path.join(scratch, "harness-src")
    if not os.path.exists(src):
        shutil.copytree(os.path.join(ROOT, "harness"), src)
    out = os.path.join(scratch, "harness-race" if race else "harness")
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    r = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
    if r.returncode:
        raise CheckError("harness does not build:\n" + r.stdout + r.stderr)
    return out


def classpath():
    jars = [os.path.join(TLA, "tla2tools.jar")] + sorted(glob.glob(os.path.join(TLA, "*ommunity*deps*.jar")))
    return ":".join(jars)


def tlaval(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tlaval(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tlaval(x) for x in v) + ">>"
    raise CheckError("cannot write %r in a cfg" % (v,))


def run_tlc(job, scratch, seed):
    """one TLC run; returns its statistics"""
    d = os.path.join(scratch, job["name"])
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(ROOT, "spec", "*.tla")):
        shutil.copy(f, d)
    out = os.path.join(d, "cases.ndjson")
    consts = dict(job.get("consts", {}))
    if job.get("emits", True):
        consts["OutFile"] = out
    cfg = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS"]
    cfg += ["  %s <- %s" % (k, v[3:]) if isinstance(v, str) and v.startswith("<- ") else "  %s = %s" % (k, tlaval(v)) for k, v in consts.items()]
    for kw, key in (("INVARIANT", "inv"), ("PROPERTY", "prop"), ("CONSTRAINT", "constraint")):
        if job.get(key):
            cfg.append(kw + " " + " ".join(job[key]))
    if job.get("view"):
        cfg.append("VIEW " + job["view"])
    if job.get("post"):
        cfg.append("POSTCONDITION " + job["post"])
    open(os.path.join(d, "run.cfg"), "w").write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx%s" % job.get("mem", "3g"), "-Xss64m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + d,
           "-cp", classpath(), "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "md"),
           "-noGenerateSpecTE"]
    if job.get("sim"):
        cmd += ["-simulate", "num=%d" % job["sim"], "-depth", str(job["depth"]), "-seed", str(seed), "-workers", "1"]
    else:
        cmd += ["-workers", str(job.get("workers", 4)), "-seed", str(seed), "-fp", "1"]
    cmd.append(job["module"] + ".tla")
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=job.get("timeout", 3000))
    except subprocess.TimeoutExpired:
        raise CheckError("TLC job %s timed out" % job["name"])
    txt = r.stdout
    if r.returncode != 0 or "Error:" in txt:
        i = txt.find("Error:")
        raise CheckError("TLC job %s failed (%d):\n%s\n%s" % (job["name"], r.returncode, txt[i:i + 3000], r.stderr[-500:]))
    st = {"job": job["name"], "module": job["module"], "mode": "simulate" if job.get("sim") else "exhaustive",
          "consts": {k: tlaval(v) for k, v in job.get("consts", {}).items()}, "states": 0, "distinct": 0, "traces": 0,
          "wall_s": round(time.time() - t0, 1)}
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", txt)
    if m:
        st["states"], st["distinct"] = (int(x.replace(",", "")) for x in m.groups())
    elif not job.get("sim"):
        raise CheckError("TLC job %s did not finish its state space:\n%s" % (job["name"], txt[-1500:]))
    m = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces", txt)
    if m:
        st["states"], st["traces"] = (int(x.replace(",", "")) for x in m[-1])
        st["distinct"] = st["states"]
    m = re.search(r"The number of states generated: ([\d,]+)", txt)
    if m:
        st["states"] = int(m.group(1).replace(",", ""))
    return st, out


def run_job(job, scratch, seed, binary):
    """a TLC run, and for a job with traces a second one over what the code makes of the first's cases"""
    st, out = run_tlc(job, scratch, seed) if job["module"] else ({}, job["source"])
    if not job.get("trace"):
        return [(job, st, out)]
    t = job["trace"]
    traces = os.path.join(scratch, job["name"] + ".traces")
    r = subprocess.run([binary.result(), "record", t["what"], out, traces, str(t["n"])], capture_output=True, text=True, errors="replace", timeout=900, env=go_env())
    if r.returncode != 0:
        raise CheckError("recording for job %s: %s" % (job["name"], r.stderr[-1500:]))
    second = dict(name=job["name"] + "-trace", module=t["module"], consts=dict(TraceFile=traces, Lanes=4), inv=t["inv"], prop=t["prop"], workers=4, min=t["min"])
    return ([(job, st, out)] if job["module"] else []) + [(second,) + run_tlc(second, scratch, seed)]


def apply_filter(path, keep):
    tmp = path + ".f"
    n = 0
    with open(path) as f, open(tmp, "w") as g:
        for l in f:
            if keep(l):
                g.write(l)
                n += 1
    os.replace(tmp, path)
    return n


def run_harness(binary, cases, scratch, extra=(), timeout=3000, env=None):
    out = tempfile.mktemp(prefix="res-", suffix=".json", dir=scratch)
    cmd = [binary, "-cases", cases, "-out", out, "-scratch", scratch] + list(extra)
    e = go_env()
    e["TZ"] = "UTC"
    e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s/race" % scratch
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=scratch, errors="replace")
    except subprocess.TimeoutExpired:
        return None, -9, "timeout"
    if r.returncode == 0 and os.path.exists(out):
        return json.load(open(out)), 0, r.stderr
    return None, r.returncode, r.stderr


def replay_all(binary, cases, scratch, extra=(), env=None):
    """run all cases; a run that dies is narrowed down to the case that kills it"""
    res, rc, err = run_harness(binary, cases, scratch, extra, env=env)
    if res is not None:
        return res
    if rc == 3:
        raise CheckError("harness: " + err[-2000:])
    prog = os.path.join(scratch, "progress")
    skip, total, lists = 0, None, []
    for _ in range(3):
        res, rc, err = run_harness(binary, cases, scratch, list(extra) + ["-progress", prog, "-skip", str(skip)], env=env)
        if res is not None:
            break
        idx = int(open(prog).read())
        r1, rc1, err1 = run_harness(binary, cases, scratch, list(extra) + ["-only", str(idx)], timeout=300, env=env)
        if r1 is not None:
            raise CheckError("harness died (%d) but not on case %d alone: %s" % (rc, idx, err[-1500:]))
        line = open(cases).read().split("\n")[idx]
        key = json.loads(line).get("key") or "crash:%d" % idx
        m = re.search(r"(fatal error|panic|runtime): .*", err1)
        lists.append({"idx": idx, "key": key, "class": "crash", "msg": "the process dies: " + (m.group(0) if m else err1[-200:])})
        skip = idx + 1
    if res is None:
        res = {"cases": skip, "distinct": skip, "execs": skip, "kinds": {}, "labels": {}, "mismatches": 0, "list": []}
    res["list"] = lists + (res["list"] or [])
    res["mismatches"] += len(lists)
    return res


def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def check(pid, tier, seed):
    from checks import CHECKS
    spec = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
    os.chmod(scratch, 0o755)
    try:
        return _check(pid, spec, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(pid, spec, tier, seed, scratch, t0):
    race = spec.get("race", False)
    jobs = spec["jobs"](tier)
    with ThreadPoolExecutor(max_workers=spec.get("parallel", 6)) as ex:
        fb = ex.submit(build, scratch, race)
        futs = [ex.submit(run_job, j, scratch, seed * 1000 + i + 1, fb) for i, j in enumerate(jobs)]
        binary = fb.result()
        stats = [x for f in futs for x in f.result()]
    known = known_findings(pid)
    hits, viol, samples, errors, unrepeated = {}, [], [], [], []
    cov = {"cases": 0, "distinct": 0, "execs": 0, "kinds": {}, "labels": {}}
    perjob = []
    for j, st, cases in stats:
        perjob.append(st)
        if not j.get("emits", True):
            continue
        if not os.path.exists(cases):
            raise CheckError("job %s generated nothing" % j["name"])
        if j.get("keep"):
            apply_filter(cases, j["keep"])
        res = replay_all(binary, cases, scratch, j.get("extra", ()) , env=j.get("env"))
        st["cases"], st["distinct_cases"], st["executions"] = res["cases"], res["distinct"], res["execs"]
        if res["cases"] < j.get("min", 1):
            raise CheckError("job %s generated %d cases, fewer than the %d it must" % (j["name"], res["cases"], j.get("min", 1)))
        for k in ("cases", "distinct", "execs"):
            cov[k] += res[k]
        for k in ("kinds", "labels"):
            for a, n in res[k].items():
                cov[k][a] = cov[k].get(a, 0) + n
        lines = again = None
        bad = res["list"] or []
        # one representative per class of message is confirmed alone, in a fresh process
        groups = {}
        for m in bad:
            if m["key"] in known:
                hits[m["key"]] = m
                continue
            g = (m["class"], re.sub(r"[0-9]+", "#", m["msg"])[:100])
            groups.setdefault(g, []).append(m)
        for g, ms in list(groups.items())[:25]:
            m = ms[0]
            if m["class"] == "crash" or m["idx"] < 0:
                ok = True
            else:
                ok = False
                for _ in range(j.get("confirm", 1)):
                    r1, rc1, err1 = run_harness(binary, cases, scratch, list(j.get("extra", ())) + ["-only", str(m["idx"])],
                                                timeout=600, env=j.get("env"))
                    if r1 is None and rc1 == 3:
                        raise CheckError("harness: " + err1[-1000:])
                    if r1 is None or r1["mismatches"] > 0:
                        ok = True
                        break
            if not ok and j.get("unrepeated"):
                unrepeated.append(m["msg"][:300])
                continue
            if not ok:
                # it may take the cases that run before or beside it: the same kind of failure in a second run of them all
                if again is None:
                    again = {x["class"] for x in (replay_all(binary, cases, scratch, j.get("extra", ()), env=j.get("env"))["list"] or []) if x["key"] not in known}
                ok = m["class"] in again
            if not ok:
                errors.append("case %s of job %s failed once (%s) but not when run alone" % (m["idx"], j["name"], m["msg"]))
                continue
            if lines is None:
                lines = open(cases).read().split("\n")
            case = json.loads(lines[m["idx"]]) if m["idx"] >= 0 else {}
            viol.append({"job": j["name"], "count": len(ms), "class": m["class"], "key": m["key"], "msg": m["msg"],
                         "got": m.get("got"), "case": case})
        with open(cases) as f:
            ls = []
            for i, l in enumerate(f):
                if i < 3:
                    ls.append(l[:600].rstrip("\n"))
            samples += ls[-1:]
        os.remove(cases)
    for m in unrepeated:
        print("  not repeated, see the job's definition: " + m)
    if errors and not viol:
        raise CheckError("\n".join(errors))
    for k, what in known.items():
        # a listed finding is announced whether or not this run happened to reach it
        print("KNOWN-FINDING: property=%s %s (key=%s%s)" % (pid, what, k, "" if k in hits else "; not reached by this run"))
    replay = ""
    if viol:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        replay = os.path.join(ROOT, "replay", "%s.ndjson" % pid)
        with open(replay, "w") as f:
            for x in viol:
                f.write(json.dumps(x["case"]) + "\n")
        for x in viol[:12]:
            print("  [%s] %s  (job %s, %d alike, key=%s)%s" % (x["class"], x["msg"][:900], x["job"], x["count"], x["key"],
                  " at " + str(x["got"])[:400] if x["class"] == "panic" else ""))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": sum(s["distinct"] for s in perjob), "transitions": sum(s["states"] for s in perjob),
                       "traces_validated_against_impl": cov["cases"],
                       "evaluations": cov["execs"], "distinct_nontrivial": cov["distinct"],
                       "rule": spec["rule"], "jobs": perjob, "kinds": cov["kinds"],
                       "labels": dict(sorted(cov["labels"].items())[:400]), "labels_seen": len(cov["labels"]),
                       "exhaustive": all(s["mode"] == "exhaustive" for s in perjob), "samples": samples[:6],
                       "known_findings_reached": sorted(hits), "not_repeated": unrepeated},
          "assumptions": spec["assume"], "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d distinct states, %d behaviours replayed (%d executions of the real code), %d violations, %.0f s" % (
        pid, tier, ev["coverage"]["states"], cov["cases"], cov["execs"], len(viol), time.time() - t0))
    return 1 if viol else 0


def replay(pid, path):
    from checks import CHECKS
    scratch = tempfile.mkdtemp(prefix="verif-replay-", dir="/tmp")
    os.chmod(scratch, 0o755)
    try:
        b = build(scratch, CHECKS[pid].get("race", False))
        res = replay_all(b, path, scratch)
        for m in res["list"] or []:
            print(json.dumps(m)[:2000])
        if res["mismatches"]:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("replayed %d cases, all as specified" % res["cases"])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = tempfile.mkdtemp(prefix="verif-setup-", dir="/tmp")
    try:
        build(scratch)
        mods = sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla")))
        for m in mods:
            r = subprocess.run(["java", "-cp", classpath(), "tla2sany.SANY", os.path.basename(m)],
                               cwd=os.path.join(ROOT, "spec"), capture_output=True, text=True)
            if r.returncode or "*** Errors" in r.stdout:
                print(r.stdout[-2000:])
                return 2
        print("setup ok: %d specification modules, harness builds" % len(mods))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.id == "setup":
            return setup()
        if a.replay:
            return replay(a.id, os.path.abspath(a.replay))
        return check(a.id, a.tier, a.seed)
    except CheckError as e:
        print("ERROR (no verdict): %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
