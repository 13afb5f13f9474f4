#!/usr/bin/env python3
"""Run the check of one property: run.py <property> [quick|thorough] [--case NAME] [-v]

Builds the monitor from /repo's working tree, runs it, writes
evidence/<property>.json, and exits 0 (held on everything explored), 1 (with a
VIOLATION line) or 2 (no answer: build failure, harness error, inconclusive).
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LEVELS = {}
RACE = {"P17"}
DAEMON = {"P24", "P26"}
LIMIT = {"quick": 800, "thorough": 3600 * 4}


def env():
    e = dict(os.environ)
    goroot = "/opt/vp/go1.18.10"
    e.update(HOME="/root", GOROOT=goroot,
             PATH=goroot + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=readonly", GOPROXY="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=cache())
    e.pop("GORACE", None)
    return e


def cache():
    """A build cache of our own, seeded from the sandbox's."""
    d = os.path.join(VERIF, ".cache", "gocache")
    if not os.path.isdir(d):
        os.makedirs(os.path.dirname(d), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="gc", dir=os.path.dirname(d))
        src = "/opt/vp/gocache"
        if os.path.isdir(src):
            subprocess.run(["cp", "-a", src + "/.", tmp], check=False)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def overlay(scratch, inpkg="inpkg"):
    rep = {}
    for f in glob.glob(os.path.join(VERIF, "harness/mon/*.go")):
        rep[f"{REPO}/internal/verifmon/{os.path.basename(f)}"] = f
    for f in glob.glob(os.path.join(VERIF, "harness", inpkg, "*/*.go")):
        pkg = os.path.basename(os.path.dirname(f)).replace("__", "/")
        rep[f"{REPO}/{pkg}/{os.path.basename(f)}"] = f
    p = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p


def build(scratch, race, tags=""):
    out = os.path.join(scratch, "mon-race" if race else "mon")
    # Where the in-package hooks do not compile, stand-ins that do nothing are
    # used, and what needs the hooks is left out.
    for inpkg in ("inpkg", "inpkg_stub"):
        cmd = ["go", "build", "-overlay", overlay(scratch, inpkg), "-o", out]
        if race:
            cmd.append("-race")
        if tags:
            cmd += ["-tags", tags]
        cmd.append("./internal/verifmon")
        r = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not r.returncode:
            break
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: the monitor does not build against this tree")
        sys.exit(2)
    return out


def build_daemon(scratch):
    """The repository's own binary."""
    out = os.path.join(scratch, "storetheindex")
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: the daemon does not build")
        sys.exit(2)
    return out


PKG = "github.com/filecoin-project/storetheindex/"


def crash_info(err):
    """Classify a Go crash: (key, text) for a crash, None if there is none."""
    m = re.search(r"^(panic: |fatal error: |SIGSEGV|unexpected fault)", err, re.M)
    if not m:
        return None
    text = err[m.start():]
    if "verifmon harness:" in text.split("\n", 1)[0]:
        return ("harness", text)
    # First repository frame of the crashing goroutine.
    first = text.split("\n\ngoroutine ", 2)
    body = first[0] + ("\n" + first[1] if len(first) > 1 else "")
    frames = re.findall(r"^(\S+?)\((?:[^()]|\([^()]*\))*\)$", body, re.M)
    for f in frames:
        if f.startswith(PKG) and "/internal/verifmon" not in f:
            return ("crash:" + f[len(PKG):], text)
    if any("verifmon" in f or f.startswith("main.") for f in frames):
        return ("harness", text)
    return ("crash:" + (frames[0] if frames else "unknown"), text)


def stdlib(f):
    return "." not in f.split("/")[0] if "/" in f else f.split(".")[0] not in ("main",)


def races(logdir):
    """Deduplicated race reports that involve repository code."""
    out = {}
    total = 0
    for f in sorted(glob.glob(os.path.join(logdir, "race.*"))):
        for blk in open(f, errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in blk:
                continue
            total += 1
            # Only the two access stacks decide whose race it is, and only
            # by their innermost frame outside the standard library: what
            # happens inside a dependency is the dependency's.
            acc = re.split(r"\n\nGoroutine ", blk)[0]
            stacks = re.split(r"\n\n", acc)
            keys = []
            repo = False
            for s in stacks[:2]:
                fr = [x for x in re.findall(r"^  (\S+)\(\)$", s, re.M) if not stdlib(x)]
                f = fr[0] if fr else "?"
                if f.startswith(PKG) and "verifmon" not in f:
                    repo = True
                keys.append(f[len(PKG):] if f.startswith(PKG) else f)
            if repo:
                k = "race:" + "|".join(sorted(keys))
                out.setdefault(k, blk.strip())
    return out, total


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default="")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--log", default="panic")
    a = ap.parse_args()
    t0 = time.time()
    levels = {c["property"]: c["level"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    scratch = tempfile.mkdtemp(prefix="verif-" + a.prop + "-")
    code = 2
    try:
        code = check(a, scratch, levels.get(a.prop, "exploration"), t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def check(a, scratch, level, t0):
    prop = a.prop
    race = prop in RACE
    binary = build(scratch, race)
    tbuild = time.time() - t0
    work = os.path.join(scratch, "work")
    os.mkdir(work)
    out = os.path.join(scratch, "result.json")
    cmd = [binary, "-prop", prop, "-tier", a.tier, "-seed", str(a.seed), "-out", out, "-scratch", work, "-log", a.log]
    if a.case:
        cmd += ["-case", a.case]
    if a.v:
        cmd += ["-v"]
    e = env()
    e["TMPDIR"] = work
    e["GOTRACEBACK"] = "all"
    e["VERIFMON_GOENV"] = json.dumps({k: e[k] for k in ("GOROOT", "GOCACHE", "PATH")})
    e["VERIFMON_REPO"] = REPO
    if prop in DAEMON:
        e["VERIFMON_DAEMON"] = build_daemon(scratch)
    if race:
        e["GORACE"] = f"halt_on_error=0 exitcode=0 log_path={scratch}/race history_size=3"
    errf = open(os.path.join(scratch, "stderr"), "w+", errors="replace")
    p = subprocess.Popen(cmd, cwd=work, env=e, stdout=None if a.v else open(os.path.join(scratch, "stdout"), "w"),
                         stderr=errf, start_new_session=True)
    timed_out = False
    try:
        p.wait(timeout=LIMIT.get(a.tier, 800))
    except subprocess.TimeoutExpired:
        timed_out = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    errf.seek(0)
    err = errf.read()
    if a.v and a.log != "panic":
        sys.stdout.write(err)
    res = {}
    if os.path.exists(out):
        res = json.load(open(out))
    viols = list(res.get("violations") or [])
    problems = list(res.get("inconclusive") or [])
    extra = {}
    if race:
        rr, total = races(scratch)
        extra["race_reports_total"] = total
        extra["race_reports_repo"] = len(rr)
        for k, blk in rr.items():
            viols.append({"key": k, "case": "", "detail": blk[:4000]})
    if timed_out:
        problems.append("the monitor did not finish in time")
    elif p.returncode != 0:
        ci = crash_info(err)
        if ci is None:
            problems.append(f"the monitor ended with status {p.returncode}: {err[-1500:]}")
        elif ci[0] == "harness":
            problems.append("harness error: " + ci[1][:3000])
        else:
            viols.append({"key": ci[0], "case": "", "detail": ci[1][:6000]})
    elif not res.get("complete"):
        problems.append("the monitor did not complete")
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for k in json.load(open(kf)).get("findings", []):
            if k["property"] == prop:
                known[k["key"]] = k
    fresh = [v for v in viols if v["key"] not in known]
    seen_known = {v["key"]: v for v in viols if v["key"] in known}
    cov = {"evaluations": int(res.get("evaluations", 0)), "distinct_nontrivial": int(res.get("distinct", 0)),
           "rule": res.get("rule", ""), "samples": res.get("samples") or [], "observed": res.get("counters") or {},
           "known_findings_seen": sorted(seen_known), "build_s": round(tbuild, 1)}
    cov.update(extra)
    if not cov["samples"]:
        cov["samples"] = ["(none recorded)"]
    if problems:
        cov["inconclusive"] = problems[:10]
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": res.get("assumptions") or [], "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    if not a.case:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    print(f"{prop} {a.tier}: evaluations={cov['evaluations']} distinct={cov['distinct_nontrivial']} "
          f"cases={cov['observed'].get('cases')} wall={ev['wall_s']}s")
    if fresh:
        rp = os.path.join(VERIF, "evidence", "replay", prop + ".json")
        v = fresh[0]
        rc = f"cd {VERIF} && python3 run.py {prop} {a.tier} --seed {a.seed}" + (f" --case '{v['case']}'" if v["case"] else "")
        json.dump({"property": prop, "seed": a.seed, "tier": a.tier, "replay_cmd": rc, "violations": fresh}, open(rp, "w"), indent=1)
        for v in fresh[:5]:
            print(f"--- {v['key']} case={v['case']}\n{v['detail'][:3000]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if problems:
        for x in problems[:5]:
            print("INCONCLUSIVE:", x)
        return 2
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        print("INCONCLUSIVE: the monitors observed nothing")
        return 2
    return 0


if __name__ == "__main__":
    main()
