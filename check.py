#!/usr/bin/env python3
"""Runs the property checks: check.py <ID> [--tier quick|thorough] [--replay FILE]

The thorough tier then also drives each test with Go's coverage-guided fuzzer.

Builds harness/<id> against the library's working tree (/repo, or $VERIF_REPO), runs its
generated-case tests in parallel shards with seeds derived from VERIF_SEED, merges the measured
statistics into evidence/<ID>.json. Exit 0: held on everything explored; 1 with a VIOLATION line:
broken (the shrunk case is in the replay file); anything else: an error of the check.
"""
import base64, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = "github.com/rossmerr/graphblas"


def goenv():
    e = dict(os.environ)
    p = e.get("PATH", "")
    if os.path.isdir("/opt/veriftools/go1.27.3/bin"):
        p = "/opt/veriftools/go1.27.3/bin:" + p
    e.update(PATH=p, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local",
             GOWORK="off", HOME=e.get("HOME") or "/root", CGO_ENABLED="1")
    return e


def build(pid, race, scratch, fuzz=False):
    mod = os.path.join(scratch, "go.mod")
    txt = open(os.path.join(VERIF, "harness/go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(txt)
    shutil.copy(os.path.join(VERIF, "harness/go.sum"), os.path.join(scratch, "go.sum"))
    out = os.path.join(scratch, "t-race.test" if race else "t-fuzz.test" if fuzz else "t.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + mod, "-o", out]
    if race:
        cmd.append("-race")
    if fuzz:
        cmd.append("-fuzz=FuzzCase")
    cmd.append("./" + pid.lower())
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=goenv(), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        sys.stderr.write(r.stdout + r.stderr)
        print("ERROR: the check does not build")
        sys.exit(3)
    return out


def seed_for(seed, pid, test, shard):
    h = hashlib.sha256(f"{seed}/{pid}/{test}/{shard}".encode()).digest()
    return (int.from_bytes(h[:8], "big") >> 2) | 1


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_job(job, scratch, extra_env=None, failfile=None, deadline=None):
    """One shard of one test. Returns a dict with rc, out, dir."""
    d = tempfile.mkdtemp(prefix=f"{job['test']}-{job['shard']}-", dir=scratch)
    env = dict(os.environ)
    env.pop("GOFLAGS", None)
    env.update(VH_OUT=d, GOMAXPROCS=str(job["procs"]), GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
    if job["deep"]:
        env["VH_DEEP"] = "1"
    env.update(extra_env or {})
    cmd = [job["bin"], "-test.run", f"^{job['test']}$", "-test.timeout=0", f"-rapid.seed={job['seed']}",
           f"-rapid.checks={job['checks']}", "-rapid.shrinktime=15s"]
    if failfile:
        cmd += [f"-rapid.failfile={failfile}"]
    t0 = time.time()
    with open(os.path.join(d, "out.txt"), "wb") as f:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits)
        try:
            rc = p.wait(timeout=max(5, deadline - time.time()) if deadline else None)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    out = open(os.path.join(d, "out.txt"), errors="replace").read()
    return dict(job=job, rc=rc, out=out, dir=d, wall=time.time() - t0)


def splitmix(seed):
    m = (1 << 64) - 1
    while True:
        seed = (seed + 0x9e3779b97f4a7c15) & m
        z = seed
        z = ((z ^ z >> 30) * 0xbf58476d1ce4e5b9) & m
        z = ((z ^ z >> 27) * 0x94d049bb133111eb) & m
        yield z ^ z >> 31


def failfile_of(corpus_file, path):
    """Turns an input of the fuzzer into a fail file of rapid: the words of vh.FuzzWords."""
    m = re.search(r'\[\]byte\((".*")\)', open(corpus_file, errors="replace").read(), re.S)
    b = go_unquote(m.group(1))[:1 << 14]
    words = [(b[i] | b[i + 1] << 8) * 0x0001000100010001 for i in range(0, len(b) - 1, 2)]
    g = splitmix(42)
    words += [next(g) for _ in range(3000)]
    with open(path, "w") as f:
        f.write("v0.4.8#1\n" + "\n".join("0x%x" % w for w in words))


def go_unquote(q):
    """The bytes of a quoted Go string literal."""
    out, i, q = bytearray(), 0, q[1:-1]
    esc = dict(a=7, b=8, f=12, n=10, r=13, t=9, v=11)
    esc.update({"\\": 92, '"': 34, "'": 39})
    while i < len(q):
        if q[i] != "\\":
            out += q[i].encode()
            i += 1
            continue
        c = q[i + 1]
        if c == "x":
            out.append(int(q[i + 2:i + 4], 16))
            i += 4
        elif c in "uU":
            n = 4 if c == "u" else 8
            out += chr(int(q[i + 2:i + 2 + n], 16)).encode()
            i += 2 + n
        elif c in "01234567":
            out.append(int(q[i + 1:i + 4], 8))
            i += 4
        else:
            out.append(esc[c])
            i += 2
    return bytes(out)


def run_fuzz(job, scratch, seconds, deadline):
    """Coverage-guided fuzzing of one test. A failing input is run again as a case of the test,
    and what that run shows is the verdict. Returns (result or None, cases, hashes, note)."""
    d = tempfile.mkdtemp(prefix=f"fuzz-{job['test']}-", dir=scratch)
    env = dict(os.environ)
    env.pop("GOFLAGS", None)
    env.update(VH_OUT=d, VH_FUZZ=job["test"], VH_FUZZSEED=str(job["seed"]), GOMAXPROCS="2", GOTRACEBACK="all")
    if job["deep"]:
        env["VH_DEEP"] = "1"
    cmd = [job["fuzzbin"], "-test.run=^$", "-test.fuzz=^FuzzCase$", f"-test.fuzztime={seconds}s", "-test.timeout=0",
           "-test.fuzzminimizetime=20x", f"-test.fuzzcachedir={d}/cache", "-test.parallel=8"]
    with open(os.path.join(d, "out.txt"), "wb") as f:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits)
        try:
            rc = p.wait(timeout=max(5, min(deadline - time.time(), seconds * 2 + 200)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    out = open(os.path.join(d, "out.txt"), errors="replace").read()
    bad = sorted(glob.glob(os.path.join(d, "testdata/fuzz/FuzzCase/*")))
    shutil.rmtree(os.path.join(d, "cache"), ignore_errors=True)
    if rc == 0 or not bad:
        # no failing input: what ended it otherwise (memory, time) says nothing about the library
        return None, d, "" if rc == 0 else f"the fuzzer ended with {rc} and no failing input"
    ff = os.path.join(scratch, f"fuzz-{job['test']}.fail")
    failfile_of(bad[-1], ff)
    for _ in range(10):
        r = run_job(dict(job, checks=1), scratch, failfile=ff, deadline=time.time() + 300)
        if classify(r)[0] == "violation":
            if not r["job"]["race"] and "hang" not in classify(r)[1]:
                run_job(dict(job, checks=1), scratch, extra_env=dict(VH_SHRINK=ff), deadline=time.time() + 90)
                r2 = run_job(dict(job, checks=1), scratch, failfile=ff, deadline=time.time() + 300)
                r = r2 if classify(r2)[0] == "violation" else r
            r["failfile"] = ff
            return r, d, ""
    return None, d, "an input failed once under the fuzzer and not again: " + " ".join(out[-600:].split())


def classify(r):
    """ok, violation (with a reason) or error."""
    rc, out = r["rc"], r["out"]
    if rc == 0:
        return "ok", ""
    if rc == "timeout":
        return "error", "did not finish in its time"
    if rc == 77 and "HANG:" in out:
        return "violation", "hang: " + out.split("HANG:", 1)[1].split("\n", 1)[0].strip()
    if rc == 66 or "WARNING: DATA RACE" in out:
        rep = out[out.find("WARNING: DATA RACE"):]
        if LIB in rep:
            return "violation", "data race"
        return "error", "data race outside the library"
    if re.search(r"\[rapid\] panic after \d+ tests?: vh: ", out):
        return "error", "the harness failed"
    if "VH-VIOLATION" in out:
        return "violation", out.split("VH-VIOLATION", 1)[1].split("\n", 1)[0].strip(" :")
    if re.search(r"\[rapid\] (failed|panic) after", out) or "[rapid] flaky test" in out:
        return "violation", "generated case fails"
    if re.search(r"^(panic|fatal error|runtime): ", out, re.M) and LIB in out and isinstance(rc, int) and rc > 0:
        if "out of memory" in out or "cannot allocate" in out:
            return "error", "out of memory"
        return "violation", "the process crashed: " + re.search(r"^(?:panic|fatal error|runtime): (.*)$", out, re.M).group(1)
    return "error", f"status {rc}"


def save_replay(pid, r, why, seed, tier):
    dst = os.path.join(VERIF, "replays", pid)
    os.makedirs(dst, exist_ok=True)
    job = r["job"]
    ff = sorted(glob.glob(os.path.join(r["dir"], "testdata/rapid/**/*.fail"), recursive=True))
    if r.get("failfile"):
        ff = [r["failfile"]]
    case = ""
    cp = os.path.join(r["dir"], "case.txt")
    if os.path.exists(cp):
        case = open(cp, errors="replace").read()
    rec = dict(property=pid, test=job["test"], race=job["race"], why=why, case=case, verif_seed=seed, tier=tier,
               rapid_seed=job["seed"], rapid_checks=job["checks"], procs=job["procs"], deep=job["deep"],
               failfile=base64.b64encode(open(ff[-1], "rb").read()).decode() if ff else None,
               failfile_name=os.path.basename(ff[-1]) if ff else None,
               output=r["out"][-8000:])
    path = os.path.join(dst, f"{job['test']}-{tier}-{seed}.json")
    json.dump(rec, open(path, "w"), indent=1)
    return path, rec


def replay(path):
    rec = json.load(open(path))
    pid = rec["property"]
    scratch = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        b = build(pid, rec["race"], scratch)
        job = dict(test=rec["test"], shard=0, seed=rec["rapid_seed"], checks=rec["rapid_checks"], bin=b,
                   race=rec["race"], procs=rec["procs"], deep=rec["deep"])
        ff = None
        if rec.get("failfile"):
            ff = os.path.join(scratch, rec["failfile_name"])
            open(ff, "wb").write(base64.b64decode(rec["failfile"]))
            job["checks"] = 1
        r = run_job(job, scratch, failfile=ff)
        k, why = classify(r)
        print(r["out"][-6000:])
        if k == "violation":
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        print("not reproduced" if k == "ok" else "ERROR: " + why)
        return 0 if k == "ok" else 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    conf = CHECKS[pid]
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 3 * 3600)
    fuzz_s = int(os.environ.get("VERIF_FUZZ_SECONDS", "90" if tier == "thorough" else "0"))
    scratch = tempfile.mkdtemp(prefix=f"vh-{pid}-")
    try:
        bins = {}
        jobs = []
        for t in conf["tests"]:
            name, n = t["name"], t["quick"]
            if only and name != only:
                continue
            if tier == "thorough":
                n = t.get("thorough", n * 25)
            n = int(os.environ.get("VERIF_CHECKS", n))  # for trying the fuzzer alone
            race = t.get("race", False)
            if race not in bins:
                bins[race] = build(pid, race, scratch)
            for sh in range(t.get("shards", 8)):
                jobs.append(dict(test=name, shard=sh, checks=n, seed=seed_for(seed, pid, name, sh), bin=bins[race],
                                 race=race, procs=t.get("procs", 2), deep=tier == "thorough", once=t.get("once", False)))
        bt = time.time() - t0
        results, stop = [], False
        with cf.ThreadPoolExecutor(max_workers=conf.get("workers", 8)) as ex:
            futs = [ex.submit(lambda j: None if stop else run_job(j, scratch, deadline=deadline), j) for j in jobs]
            for f in cf.as_completed(futs):
                r = f.result()
                if r is None:
                    continue
                results.append(r)
                if classify(r)[0] != "ok":
                    stop = True
        results.sort(key=lambda r: (r["job"]["test"], r["job"]["shard"]))
        fuzzdirs, notes = [], []
        if fuzz_s and not stop:
            fb = None
            for j in jobs:
                if j["shard"] or j["race"] or j["test"] in conf.get("nofuzz", ()):
                    continue
                fb = fb or build(pid, False, scratch, fuzz=True)
                r, d, note = run_fuzz(dict(j, fuzzbin=fb), scratch, fuzz_s, deadline)
                fuzzdirs.append((j["test"], d))
                if note:
                    notes.append(f"{j['test']}: {note}")
                if r:
                    results.append(r)
                    break
        # evidence
        ev = non = 0
        classes, extra, samples, hashes, per = {}, {}, [], set(), {}
        parts = [(r["job"]["test"], "", os.path.join(r["dir"], "stats.json")) for r in results]
        parts += [(t, "fuzz ", p) for t, d in fuzzdirs for p in sorted(glob.glob(os.path.join(d, "stats-*.json")))]
        for test, kind, sp in parts:
            if not os.path.exists(sp):
                continue
            s = json.load(open(sp))
            ev += s["evaluations"]
            non += s["nontrivial"]
            per[kind + test] = per.get(kind + test, 0) + s["evaluations"]
            for k, v in (s["classes"] or {}).items():
                classes[k] = classes.get(k, 0) + v
            for k, v in (s["extra"] or {}).items():
                extra[k] = extra.get(k, 0) + v
            for x in (s["samples"] or [])[:1 if len(samples) < 10 else 0]:
                samples.append(kind + test + ": " + x)
            b = open(os.path.join(os.path.dirname(sp), "hashes" + os.path.basename(sp)[5:-5] + ".bin"), "rb").read()
            hashes.update((test, b[i:i + 8]) for i in range(0, len(b), 8))
        bad = [(r,) + classify(r) for r in results]
        viol = [x for x in bad if x[1] == "violation"]
        errs = [x for x in bad if x[1] == "error"]
        cov = dict(evaluations=ev, distinct_nontrivial=len(hashes), rule=conf["rule"], samples=samples,
                   per_test=per, classes=dict(sorted(classes.items())))
        if notes:
            cov["notes"] = notes
        if extra:
            cov["measured"] = dict(sorted(extra.items()))
        evid = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                    assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ep = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence", pid + ".json"))
        json.dump(evid, open(ep, "w"), indent=1)
        for k in known_findings(pid):
            print(f"KNOWN-FINDING: property={pid} {k}")
        if viol:
            viol.sort(key=lambda x: ("hang" in x[2], len(x[0]["out"])))
            r, _, why = viol[0]
            path, rec = save_replay(pid, r, why, seed, tier)
            again = "not tried"
            if rec["failfile"]:
                ff = os.path.join(scratch, rec["failfile_name"])
                open(ff, "wb").write(base64.b64decode(rec["failfile"]))
                r2 = run_job(dict(r["job"], checks=1), scratch, failfile=ff, deadline=time.time() + 60)
                again = "reproduced" if classify(r2)[0] == "violation" else "not reproduced"
            rec["replayed"] = again
            json.dump(rec, open(path, "w"), indent=1)
            print(f"{why} in {r['job']['test']} (replay: {again})")
            txt = [l for l in r["out"].splitlines() if l.strip()]
            key = [l for l in txt if "case:" in l or "[rapid] f" in l or "[rapid] p" in l or "VH-VIOLATION" in l or "_test.go" in l or ".go:" in l]
            print("\n".join(x[:600] for x in (key or txt)[:14]))
            print(f"VIOLATION property={pid} replay={os.path.relpath(path, VERIF)}")
            sys.exit(1)
        if errs:
            r, _, why = errs[0]
            print(r["out"][-3000:])
            print(f"ERROR: {pid} {r['job']['test']}: {why}")
            sys.exit(3)
        if not ev:
            print("ERROR: nothing was evaluated")
            sys.exit(3)
        print(f"{pid} held: {ev} cases, {len(hashes)} distinct non-trivial, build {bt:.1f}s, total {time.time()-t0:.1f}s")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
