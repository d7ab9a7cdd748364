#!/usr/bin/env python3
"""Builds the harness from /repo's working tree, runs one property's monitor, writes its evidence.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself could not decide.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
MOD = "github.com/levilutz/basiccoin"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # property -> {main, race, timeout, level, rule, assumptions}


def env():
    e = dict(os.environ)
    for g in ("/opt/veriftools/go1.27.3",):
        if os.access(g + "/bin/go", os.X_OK):
            e["GOROOT"] = g
            e["PATH"] = g + "/bin:" + e["PATH"]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOENV="off",
             GOFLAGS="-buildvcs=false -mod=mod")
    e.setdefault("HOME", "/root")
    e.pop("GOCACHE", None)
    return e


def overlay(tmp):
    rep = {}
    root = os.path.join(VERIF, "harness")
    for d, _, files in os.walk(root):
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                rep[os.path.join(REPO, "internal/verifx", os.path.relpath(p, root))] = p
    path = os.path.join(tmp, "overlay.json")
    with open(path, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return path


def modfile(tmp):
    # a private copy of go.mod, plus the cached porcupine module for the linearizability checker
    src = open(os.path.join(REPO, "go.mod")).read()
    path = os.path.join(tmp, "go.mod")
    open(path, "w").write(src + "\nrequire github.com/anishathalye/porcupine v1.3.1\n")
    s = os.path.join(REPO, "go.sum")
    open(os.path.join(tmp, "go.sum"), "w").write(
        (open(s).read() if os.path.exists(s) else "") + open(os.path.join(VERIF, "tools/porcupine.sum")).read())
    return path


def build(tmp, spec, e):
    """Build the needed binaries; returns dict name->path. Raises RuntimeError on failure."""
    out = {}
    ov, mf = overlay(tmp), modfile(tmp)
    jobs = []
    race = ["-race"] if spec.get("race") else []
    ee = dict(e)
    ee["CGO_ENABLED"] = "1" if race else "0"
    main = spec["main"]
    out["main"] = os.path.join(tmp, main)
    jobs.append((["go", "build", "-overlay", ov, "-modfile", mf] + race + ["-o", out["main"], "./internal/verifx/" + main], ee))
    e0 = dict(e)
    e0["CGO_ENABLED"] = "0"
    for b in spec.get("bins", []):
        out[b] = os.path.join(tmp, b)
        jobs.append((["go", "build"] + race + ["-o", out[b], "./cmd/" + b], ee if race else e0))
    for cmd, je in jobs:
        r = subprocess.run(cmd, cwd=REPO, env=je, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("build failed: %s\n%s%s" % (" ".join(cmd), r.stdout, r.stderr))
    return out


def repo_crash(text):
    """If the process died of a Go panic/fatal error whose innermost module frame is repository code, describe it."""
    m = re.search(r"^(panic: |fatal error: |unexpected fault address|runtime: out of memory|SIGSEGV)", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    head = tail.split("\n", 1)[0]
    if "out of memory" in head or "fatal error" in head:
        # the guilty goroutine is the first one dumped
        pass
    for line in tail.split("\n"):
        mm = re.match(r"^(" + re.escape(MOD) + r"/\S+?)\(", line)
        if mm:
            fn = mm.group(1)
            if "/internal/verifx/" in fn:
                return None
            return "%s in %s" % (head, fn[len(MOD) + 1:])
        mm = re.match(r"^main\.(\S+)\(", line)
        if mm:
            return None
    return None


def race_reports(tmp):
    import glob
    out = {}
    for f in glob.glob(os.path.join(tmp, "race.log*")):
        for blk in open(f, errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in blk:
                continue
            # innermost module frame of each of the two accesses
            parts = re.split(r"^(?:Previous |Write|Read|Atomic)", blk, flags=re.M)
            acc = re.findall(r"((?:Previous )?(?:[Ww]rite|[Rr]ead|atomic \w+)) at 0x[0-9a-f]+ by[^\n]*\n((?:  .*\n)+)", blk)
            frames = []
            repo = False
            for kind, stack in acc:
                # the program's own main package is repository code, the harness's is not
                stack = re.sub(r"^  main\.(\S+\(.*\)\n +\S*/cmd/(\w+)/)", r"  " + MOD + r"/cmd/\2.\1", stack, flags=re.M)
                fs = re.findall(r"^  (\S+)\(.*\)$", stack, re.M)
                mod = [x for x in fs if x.startswith(MOD) or x.startswith("main.")]
                f0 = mod[0] if mod else (fs[0] if fs else "?")
                if f0.startswith(MOD) and "/verifx/" not in f0:
                    repo = True
                    frames.append(f0[len(MOD) + 1:])
                else:
                    frames.append("harness:" + f0)
            key = " <-> ".join(sorted(set(frames)))
            out.setdefault(key, {"repo": repo and not any(x.startswith("harness:") for x in frames), "text": blk, "n": 0})
            out[key]["n"] += 1
    return out


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    case = None
    if "--case" in sys.argv:
        case = sys.argv[sys.argv.index("--case") + 1]
    t0 = time.time()
    # another tree than /repo (a scratch copy) leaves the evidence of /repo alone
    ev_dir = os.path.join(VERIF, "evidence") if REPO == "/repo" else "/tmp/vx-evidence"
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(ev_dir, "replay")):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(ev_dir, "replay", f))
    tmp = tempfile.mkdtemp(prefix="vx_%s_" % prop)
    os.chmod(tmp, 0o755)
    child = {"p": None}

    def stop(*_):
        if child["p"]:
            try:
                os.killpg(child["p"].pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(2)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    code = 2
    try:
        code = run(prop, spec, seed, tier, case, tmp, ev_dir, t0, child)
    finally:
        if child["p"]:
            try:
                os.killpg(child["p"].pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(prop, spec, seed, tier, case, tmp, ev_dir, t0, child):
    e = env()
    try:
        bins = build(tmp, spec, e)
    except RuntimeError as x:
        print("ERROR property=%s %s" % (prop, x))
        return 2
    tb = time.time() - t0
    res_path = os.path.join(tmp, "result.json")
    work = os.path.join(tmp, "work")
    os.makedirs(work)
    os.chmod(work, 0o777)
    w = dict(e)
    w.update(VX_PROP=prop, VX_SEED=str(seed), VX_TIER=tier, VX_OUT=res_path, VX_WORK=work, VX_VERIF=VERIF, VX_BIN=tmp)
    if case is not None:
        w["VX_CASE"] = case
    if spec.get("race"):
        w["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(tmp, "race.log")
    if spec.get("memlimit"):
        w["GOMEMLIMIT"] = spec["memlimit"]
    w["GOTRACEBACK"] = "all"
    log = open(os.path.join(tmp, "out.log"), "wb")
    timeout = spec.get("timeout", 400) if tier == "quick" else spec.get("timeout_thorough", 3600)
    if os.environ.get("VX_NOTIMEOUT"):
        timeout = 100000
    p = subprocess.Popen([bins["main"], prop], stdout=log, stderr=subprocess.STDOUT, env=w, cwd=work, start_new_session=True)
    child["p"] = p
    timed_out = False
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        os.kill(p.pid, signal.SIGQUIT)
        time.sleep(2)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        rc = p.wait()
    log.close()
    text = open(log.name, errors="replace").read()
    if os.environ.get("VX_LOG"):
        shutil.copy(log.name, os.environ["VX_LOG"])
    res = None
    if os.path.exists(res_path):
        try:
            res = json.load(open(res_path))
        except ValueError:
            res = None
    res = res or {}
    viol = list(res.get("violations") or [])
    errors = list(res.get("errors") or [])
    inconclusive = list(res.get("inconclusive") or [])
    cov = dict(res.get("coverage") or {})
    races = {}
    if spec.get("race"):
        races = race_reports(tmp)
        cov["race_reports"] = len(races)
        for k, v in sorted(races.items()):
            if v["repo"]:
                viol.append({"key": "race:" + k, "msg": "data race " + k, "detail": v["text"][:6000]})
            else:
                errors.append("race report not attributable to the repository alone: " + k + "\n" + v["text"][:1500])
    if not res.get("done") and not (viol and not timed_out):
        c = repo_crash(text)
        if c:
            viol.append({"key": "crash", "msg": "the code under test crashed the process: " + c, "detail": text[-6000:]})
        elif timed_out:
            errors.append("watchdog: no result after %ds" % timeout)
        else:
            errors.append("worker exited %s without a result" % rc)
    known = load_known()
    found, real = [], []
    for v in viol:
        k = next((x for x in known if x["property"] == prop and x["key"] == v.get("key")), None)
        if k:
            if k["key"] not in [f["key"] for f in found]:
                found.append(k)
        else:
            real.append(v)
    for k in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # evidence
    cov.setdefault("evaluations", 0)
    cov.setdefault("distinct_nontrivial", 0)
    cov["rule"] = spec["rule"]
    cov.setdefault("samples", [])
    cov["build_s"] = round(tb, 2)
    cov["known_findings_reproduced"] = [k["key"] for k in found]
    cov["inconclusive"] = inconclusive[:20]
    wall = time.time() - t0
    rec = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": spec.get("level", "exploration"),
           "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(real)}
    if case is None:
        tmpf = os.path.join(ev_dir, ".%s.tmp" % prop)
        json.dump(rec, open(tmpf, "w"), indent=1)
        os.replace(tmpf, os.path.join(ev_dir, prop + ".json"))
    if real:
        seen = set()
        shown = 0
        for v in real:
            k = v.get("key", "") + v.get("msg", "")[:40]
            if k in seen and shown >= 3:
                continue
            seen.add(k)
            rp = os.path.join(ev_dir, "replay", "%s-%d.json" % (prop, shown))
            json.dump({"property": prop, "seed": seed, "tier": tier, "replay_cmd": "VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s%s" % (
                seed, tier, prop, " --case %s" % v["case"] if v.get("case") else ""), **v}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  " + v.get("msg", "")[:1000])
            shown += 1
            if shown >= 8:
                break
        return 1
    if errors:
        for x in errors[:10]:
            print("ERROR property=%s %s" % (prop, x[:3000]))
        if not res.get("done"):
            print(text[-4000:])
        return 2
    if cov["evaluations"] <= 0 or cov["distinct_nontrivial"] <= 0:
        print("ERROR property=%s the run observed nothing" % prop)
        return 2
    if res.get("undecided"):
        print("ERROR property=%s inconclusive: %s" % (prop, "; ".join(inconclusive[:5])))
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], wall, tb))
    return 0


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return out


if __name__ == "__main__":
    main()
