#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--case N] : decide one property.

Rebuilds the code under test from /repo's working tree (sanitizer-instrumented), runs the
property's workload in worker processes, collects what the monitors observed, and prints
  VIOLATION property=<id> replay=<path>      (exit 1)   for every unlisted violation class
  KNOWN-FINDING: property=<id> <text>        (exit 0)   for violations listed in known-findings.json
Exit 2: the machinery itself failed (build error, harness error, nothing observed).
"""
import argparse, concurrent.futures as cf, json, os, re, signal, subprocess, sys, tempfile, threading, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild
from props import PROPS

VERIF = vbuild.VERIF
KNOWN = os.path.join(VERIF, "known-findings.json")
CASE_TIMEOUT = 40


def env_for(variant, scratch):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
                         "hard_rss_limit_mb=4000:detect_stack_use_after_return=0:handle_abort=1:"
                         "detect_container_overflow=0:symbolize=1:external_symbolizer_path=" +
                         os.path.join(vbuild.LLVM, "bin", "llvm-symbolizer"))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77"
    e["TMPDIR"] = scratch
    e["HOME"] = scratch
    e["LC_ALL"] = "C.UTF-8"
    return e


def repo_frame(err):
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", err):
        if m.group(2).startswith(vbuild.REPO):
            fn = re.sub(r"<.*", "", m.group(1)).split("(")[0]
            return "%s@%s" % (fn, os.path.relpath(m.group(2), vbuild.REPO))
    return "?"


def classify(rc, err):
    m = re.search(r"(\S+?):(\d+): (.*?): Assertion `(.*?)' failed", err)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), m.group(4)[:160])
    m = re.search(r"(\S+?):(\d+): runtime error: (.*)", err)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1).split(":")[0]), re.sub(r"\d+", "N", m.group(3))[:120])
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m and m.group(1) != "ABRT":
        return "asan:%s:%s" % (m.group(1), repo_frame(err))
    m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(", err)
    if m:
        return "tsan:%s:%s" % (m.group(1), repo_frame(err))
    if "hard rss limit" in err:
        return "oom"
    m = re.search(r"terminate called.*?what\(\):\s*(.*)", err, re.S)
    if m:
        return "terminate:" + m.group(1).splitlines()[0][:120]
    if "terminate called" in err:
        return "terminate:" + repo_frame(err)
    m = re.search(r"LLVM ERROR: (.*)", err)
    if m:
        return "llvm-error:" + m.group(1)[:120]
    m = re.search(r"(UNREACHABLE executed.*)", err)
    if m:
        return "unreachable:" + re.sub(r"/\S+/", "", m.group(1))[:120]
    return "crash:rc=%s:%s" % (rc, repo_frame(err))


HANGS = {"n": 0}  # confirmed hangs/ooms of this run: they are slow to observe, so give up after a few


class Worker:
    """Runs cases [a,b) of a harness, surviving crashes and hangs of individual cases."""

    def __init__(self, exe, part, seed, tier, scratch, deadline):
        self.exe, self.part, self.seed, self.tier = exe, part, seed, tier
        self.scratch, self.deadline = scratch, deadline
        self.recs, self.viol, self.problems = [], [], []
        self.cases = 0

    def one(self, a, b, tmo):
        d = tempfile.mkdtemp(dir=self.scratch)
        out = os.path.join(d, "out.jsonl")
        errp = os.path.join(d, "err")
        cmd = [self.exe, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--out", out,
               "--dir", d] + list(self.part.get("args", []))
        if self.tier == "thorough":
            cmd.append("--thorough")
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, cwd=d,
                                 env=env_for(self.part.get("variant", "asan"), d), start_new_session=True)
            last, lastsz, hung = time.time(), -1, False
            while True:
                try:
                    p.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    sz = os.path.getsize(out)
                except OSError:
                    sz = 0
                if sz != lastsz:
                    lastsz, last = sz, time.time()
                elif time.time() - last > tmo:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        err = open(errp, "r", errors="replace").read()
        if len(err) > 400000:
            err = err[:100000] + "\n...\n" + err[-300000:]
        recs = []
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        subprocess.run(["/bin/rm", "-rf", "--", d])
        return p.returncode, hung, recs, err

    def run(self, a, b):
        cur, crashes = a, 0
        while cur < b:
            if time.time() > self.deadline:
                self.problems.append("budget")
                return
            tmo = self.part.get("case_timeout", CASE_TIMEOUT)
            if HANGS["n"] >= 6:
                self.problems.append("abandoned after several hangs")
                return
            rc, hung, recs, err = self.one(cur, b, tmo)
            starts = [r["case"] for r in recs if r["t"] == "start"]
            self.viol += [r for r in recs if r["t"] == "viol"]
            ends = [r for r in recs if r["t"] == "end"]
            self.recs += ends
            if rc == 0 and ends:
                self.cases += len(starts)
                return
            if rc == 3 or not starts:
                self.problems.append("harness error rc=%s: %s" % (rc, err[-1500:]))
                return
            bad = starts[-1]
            self.cases += len(starts)
            key = "hang" if hung else classify(rc, err)
            if hung or key == "oom":
                rc2, hung2, recs2, err2 = self.one(bad, bad + 1, 2 * tmo)
                k2 = "hang" if hung2 else ("" if rc2 == 0 else classify(rc2, err2))
                if k2 == "":
                    self.problems.append("inconclusive: case %d %s once" % (bad, key))
                    key = None
                else:
                    key = k2
                    HANGS["n"] += k2 in ("hang", "oom")
            if key:
                self.viol.append({"t": "viol", "case": bad, "key": key, "detail": err[-6000:] if not hung else "no progress",
                                  "artifact": next((r.get("x", "") for r in recs if r["t"] == "note" and r["case"] == bad), "")})
            # the counters of the cases before the crash are lost with the process: rerun them
            if bad > cur:
                rc3, h3, recs3, _ = self.one(cur, bad, tmo)
                self.recs += [r for r in recs3 if r["t"] == "end"]
            cur = bad + 1
            crashes += 1
            if crashes > 25:
                self.problems.append("too many crashes, chunk abandoned")
                return


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int)
    ap.add_argument("--part")
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    t0 = time.time()
    cfg = PROPS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    budget = cfg.get("budget", {}).get(tier, 700 if tier == "quick" else 3 * 3600)
    scratch_root = os.path.join(vbuild.BUILD, "run")
    os.makedirs(scratch_root, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=a.prop + "-", dir=scratch_root)
    try:
        rc = run(a, cfg, tier, budget, scratch, t0)
    finally:
        subprocess.run(["/bin/rm", "-rf", "--", scratch])
    sys.exit(rc)


def run(a, cfg, tier, budget, scratch, t0):
    exes, bi = {}, {}
    try:
        for part in cfg["parts"]:
            if a.part and part["harness"] != a.part:
                continue
            v = part.get("variant", "asan")
            exe, info = vbuild.build(part["harness"], v, srcs=part.get("srcs"), uselib=part.get("lib", True),
                                     defs=part.get("defs", []), name=part.get("name"))
            exes[part.get("name", part["harness"])] = exe
            bi[part.get("name", part["harness"]) + "/" + v] = info
    except vbuild.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    deadline = t0 + budget
    known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == a.prop] if os.path.exists(KNOWN) else []
    ev = {"evaluations": 0, "counters": {}, "cases": 0, "parts": {}}
    distinct, samples, viols, problems = set(), [], [], []
    for part in cfg["parts"]:
        name = part.get("name", part["harness"])
        if name not in exes:
            continue
        ncases = a.cases or part["cases"][0 if tier == "quick" else 1]
        if a.case is not None:
            chunks = [(a.case, a.case + 1)]
        else:
            ch = part.get("chunk", max(1, min(2000, ncases // (4 * vbuild.JOBS) or 1)))
            chunks = [(i, min(i + ch, ncases)) for i in range(0, ncases, ch)]
        pe = {"cases": 0, "evaluations": 0}

        def go(c):
            w = Worker(exes[name], part, a.seed, tier, scratch, deadline)
            if time.time() > deadline:
                w.problems.append("budget")
                return w
            w.run(*c)
            return w
        nv = 0
        with cf.ThreadPoolExecutor(part.get("jobs", vbuild.JOBS)) as ex:
            for w in ex.map(go, chunks):
                for r in w.recs:
                    ev["evaluations"] += r["evaluations"]
                    pe["evaluations"] += r["evaluations"]
                    for k, n in r["counters"].items():
                        ev["counters"][k] = ev["counters"].get(k, 0) + n
                    distinct.update((name, x) for x in r["distinct"])
                    if len(samples) < 4:
                        samples += r["samples"][:2]
                for v in w.viol:
                    v["part"] = name
                    viols.append(v)
                pe["cases"] += w.cases
                problems += w.problems
        ev["cases"] += pe["cases"]
        ev["parts"][name] = pe

    # verdicts
    rdir = os.path.join(vbuild.BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    byclass = {}
    for v in viols:
        byclass.setdefault((v["part"], v["key"]), []).append(v)
    nviol, seen_known = 0, {}
    for (part, key), vs in sorted(byclass.items()):
        rest = []
        for v in vs:
            kf = next((k for k in known if re.fullmatch(k["key"], key) and
                       re.search(k.get("detail", ""), v["detail"], re.S) and
                       (not k.get("artifact") or re.search(k["artifact"], v.get("artifact", ""), re.S))), None)
            if kf:
                seen_known[kf["id"]] = seen_known.get(kf["id"], 0) + 1
            else:
                rest.append(v)
        if rest:
            nviol += 1
            v = rest[0]
            rp = os.path.join(rdir, "%s-%s.json" % (a.prop, hashlib.sha256((part + key).encode()).hexdigest()[:10]))
            json.dump({"property": a.prop, "harness": part, "seed": a.seed, "tier": tier, "case": v["case"], "key": key,
                       "count": len(rest), "cases": [x["case"] for x in rest][:50], "detail": v["detail"],
                       "artifact": v.get("artifact", ""),
                       "rerun": "python3 tools/check.py %s --part %s --seed %d --case %d --tier %s" % (a.prop, part, a.seed, v["case"], tier)},
                      open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
            print("  [%s] %s (x%d, first case %d): %s" % (part, key, len(rest), v["case"], v["detail"][-700:] if "assert" in key or "asan" in key else v["detail"][:700]))
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (a.prop, k["text"], " (seen %dx in this run)" % seen_known[k["id"]] if k["id"] in seen_known else ""))
    hard = [p for p in problems if p.startswith("harness error")]
    nbudget = problems.count("budget")
    cov = {"evaluations": ev["evaluations"], "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
           "samples": samples[:4], "cases": ev["cases"], "observed": ev["counters"], "parts": ev["parts"],
           "build": bi, "chunks_skipped_by_budget": nbudget,
           "inconclusive": [p for p in problems if p.startswith("inconclusive")][:20],
           "known_findings_seen": seen_known}
    evd = {"property": a.prop, "tier": tier, "seed": a.seed, "level": cfg.get("level", "exploration"), "coverage": cov,
           "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", a.prop + ".json")
    if a.case is None:
        json.dump(evd, open(ep + ".tmp", "w"), indent=1)
        os.replace(ep + ".tmp", ep)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d violation classes, %.1fs %s" %
          (a.prop, tier, a.seed, ev["cases"], ev["evaluations"], len(distinct), nviol, time.time() - t0,
           json.dumps(ev["counters"])[:1500]))
    if nviol:
        return 1
    if hard:
        print("ERROR: " + hard[0])
        return 2
    if a.case is None:
        need = cfg.get("need", {})
        if ev["evaluations"] == 0 or len(distinct) < cfg.get("min_distinct", 2):
            print("ERROR: nothing observed")
            return 2
        for k, n in need.items():
            if ev["counters"].get(k, 0) < n:
                print("ERROR: observed too little: counter %s = %d < %d" % (k, ev["counters"].get(k, 0), n))
                return 2
    return 0


if __name__ == "__main__":
    main()
