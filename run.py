#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py C01 [--tier quick|thorough] [--case N]

Builds the harness against the current tree of /repo in a scratch directory, runs it, judges what the monitors, the
runtime and the race detector reported, and writes evidence/<id>.json.
Exit 0: held. 1: violated (VIOLATION line). 2: no verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/yahoojapan/athenz-authorizer/v5"

# builds: plain = the code as it is; perturb = schedule perturbation between statements; race = that and the race detector;
# race-log = the same with the logger on, whose locks order (and so hide) some accesses but whose arguments are read
MODES = {"C01": ["perturb"], "C05": ["perturb"], "C09": ["perturb"], "C13": ["perturb"], "C14": ["perturb"],
         "C19": ["race", "race-log"], "C24": ["perturb"]}

ASSUME = [
    "the third-party libraries (gache, glg, golang-jwt, jwx, zmssvctoken) are part of the system as built, and are not judged on their own",
    "kpango/fastime is replaced by a clone which reads time.Now at every call, so that virtual time drives the code under test; the real one reads a clock refreshed every few milliseconds",
]

def env():
    e = dict(os.environ)
    f = "/opt/vp/env.sh"
    if os.path.exists(f):
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % f], capture_output=True, env=e).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                e[k.decode()] = v.decode()
    e["GOFLAGS"] = "-mod=mod"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    e["GOWORK"] = "off"
    e.pop("GORACE", None)
    return e

class Inconclusive(Exception):
    pass

def build(mode, scratch, e):
    mode = mode.split("-")[0]
    binary = os.path.join(scratch, mode + ".test")
    if os.path.exists(binary):
        return binary
    h = os.path.join(scratch, "h")
    if not os.path.exists(h):
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        if REPO != "/repo":
            p = os.path.join(h, "go.mod")
            s = open(p).read().replace("=> /repo", "=> " + REPO)
            open(p, "w").write(s)
    cmd = ["go", "test", "-c", "-o", os.path.join(scratch, mode + ".test")]
    if mode in ("perturb", "race"):
        ov = os.path.join(scratch, "ov")
        if not os.path.exists(ov):
            os.mkdir(ov)
            p = subprocess.run(["go", "run", "./instr", REPO, ov], cwd=h, env=e, capture_output=True, text=True)
            if p.returncode != 0:
                raise Inconclusive("instrumentation failed:\n" + p.stdout + p.stderr)
        cmd += ["-overlay", os.path.join(ov, "overlay.json")]
    if mode == "race":
        cmd += ["-race"]
    p = subprocess.run(cmd + ["."], cwd=h, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        raise Inconclusive("build failed:\n" + p.stdout + p.stderr)
    return os.path.join(scratch, mode + ".test")

GOR = re.compile(r"^goroutine \d+ .*\[.*\]:$", re.M)

def frames(stack):
    return [l for l in stack.splitlines() if l and not l.startswith(("\t", " ", "goroutine "))]

def blame(stack):
    """the owner of the innermost frame which is ours or the repository's"""
    for l in frames(stack):
        if l.startswith("created by"):
            continue
        if MOD in l:
            return "repo"
        if l.startswith("verifharness"):
            return "harness"
    if MOD in stack:
        return "created"
    # a goroutine of a library: the harness starts none of its own
    return "library" if "github.com/" in stack and "verifharness" not in stack else ""

def crash_verdict(text, prop=""):
    """(class, detail) of a crash caused by the code under test, or None"""
    m = re.search(r"^(panic: .*|fatal error: .*|SIG[A-Z]+: .*)$", text, re.M)
    if not m:
        return None
    head, rest = m.group(1), text[m.start():]
    stacks = GOR.split(rest)[1:]
    heads = GOR.findall(rest)
    if not stacks:
        return None
    if "deadlock" in head or "stalled" in head:
        for s in stacks:
            if blame(s) in ("repo", "created"):
                return ("hang", head + "\n" + rest[:8000])
        if prop in ("C16", "C23") and not any(blame(s) == "harness" for s in stacks[1:]) and "github.com/" in "".join(stacks[1:]):
            # only libraries the repository uses are still at work after the context was cancelled
            return ("not stopped", head + "\n" + rest[:8000])
        return None
    b = blame(stacks[0])
    if b in ("repo", "created", "library"):
        return ("crash", head + "\n" + rest[:8000])
    return None

def run_mode(prop, mode, binary, scratch, e, tier, seed, case):
    out = os.path.join(scratch, mode + ".json")
    racelog = os.path.join(scratch, "racelog")
    e = dict(e, VERIF_PROP=prop, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_OUT=out)
    if case is not None:
        e["VERIF_CASE"] = str(case)
    if mode != "plain":
        e["VERIF_PERTURB"] = "1"
    if mode == "race-log":
        e["VERIF_LOGGING"] = "1"
    if mode.startswith("race"):
        e["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + racelog
    limit = 780 if tier == "quick" else 7200
    log = os.path.join(scratch, mode + ".log")
    with open(log, "wb") as f:
        p = subprocess.Popen([binary, "-test.run", "^TestCheck$", "-test.timeout", "0"], stdout=f, stderr=subprocess.STDOUT, env=e, cwd=scratch)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Inconclusive("the run did not end in %d s" % limit)
    text = open(log, errors="replace").read()
    res, viols = None, []
    if os.path.exists(out):
        res = json.load(open(out))
        viols = list(res["violations"] or [])
    races = harness_races = 0
    for fn in sorted(os.listdir(scratch)):
        if not fn.startswith("racelog."):
            continue
        for blk in open(os.path.join(scratch, fn), errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in blk:
                continue
            if MOD in blk:
                races += 1
                if races <= 10:
                    viols.append({"class": "data race", "case": -1, "detail": blk.strip()[:6000]})
            else:
                harness_races += 1
                print(blk[:3000], file=sys.stderr)
    if res is None:
        v = crash_verdict(text, prop)
        if v:
            viols.append({"class": v[0], "case": -1, "detail": v[1]})
        elif not viols:
            raise Inconclusive("the run ended with code %s and no result:\n%s" % (rc, text[-6000:]))
    elif rc != 0 and not viols:
        raise Inconclusive("the run ended with code %s:\n%s" % (rc, text[-6000:]))
    if harness_races and not viols:
        raise Inconclusive("data race without a frame of the repository")
    return res, viols

def known(prop):
    fs = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        # KNOWN property=<id> class=<class> match=<regexp> :: <what fails>
        m = re.match(r"KNOWN property=(\S+) class=(.*?) match=(.*?) :: (.*)$", l.strip())
        if m and m.group(1) == prop:
            fs.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    return fs

def setup():
    """everything is built from the tree by each check; this says early if that cannot work"""
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        build("plain", scratch, env())
    except Inconclusive as x:
        print(x)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("setup: ok")
    return 0

def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    if prop == "setup":
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    case = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--case":
            case = int(args.pop(0))
        else:
            sys.exit("unknown argument " + a)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    e = env()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    results, viols = [], []
    try:
        for mode in MODES.get(prop, ["plain"]):
            b = build(mode, scratch, e)
            res, v = run_mode(prop, mode, b, scratch, e, tier, seed, case)
            results.append((mode, res))
            viols += [dict(x, build=mode) for x in v]
            if v:
                break
    except Inconclusive as x:
        print("NO VERDICT property=%s: %s" % (prop, x))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    fresh, seen = [], set()
    fs = known(prop)
    for v in viols:
        for cls, rx, what in fs:
            if cls == v["class"] and rx.search(v["detail"]):
                if what not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (prop, what))
                    seen.add(what)
                break
        else:
            fresh.append(v)

    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES.get(prop, "see DESIGN.md"), "samples": [], "observed": {}, "builds": []},
          "assumptions": ASSUME, "wall_s": round(time.time() - start, 2), "violations": len(fresh)}
    cov = ev["coverage"]
    dead = []
    for mode, res in results:
        cov["builds"].append(mode)
        if res:
            cov["evaluations"] += res["evaluations"]
            cov["distinct_nontrivial"] += res["distinct_nontrivial"]
            cov["samples"] += res["samples"] or []
            for k, n in res["observed"].items():
                cov["observed"][k] = cov["observed"].get(k, 0) + n
            dead += res["inconclusive"] or []
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    if fresh:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        classes = {}
        for v in fresh:
            classes.setdefault(v["class"], v)
        for n, (c, v) in enumerate(classes.items()):
            path = os.path.join(d, "%s-%s-%d.json" % (prop, seed, n))
            json.dump(dict(v, property=prop, seed=seed, tier=tier,
                           replay="VERIF_SEED=%d python3 %s/run.py %s --tier %s%s" % (seed, VERIF, prop, tier, "" if v["case"] < 0 else " --case %d" % v["case"])),
                      open(path, "w"), indent=1)
            print("%s: %s" % (c, v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if dead or not cov["evaluations"]:
        print("NO VERDICT property=%s: %s" % (prop, "; ".join(dead) or "nothing was observed"))
        return 2
    print("held: property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0

RULES = json.load(open(os.path.join(VERIF, "rules.json")))

if __name__ == "__main__":
    sys.exit(main())
