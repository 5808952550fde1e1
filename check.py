#!/usr/bin/env python3
"""Driver: builds a harness from /repo's working tree, runs it, writes the
evidence file and reports.   check.py PROP [--tier quick|thorough]
                             check.py --setup
                             check.py --replay FILE
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(HERE, "mc")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
sys.path.insert(0, os.path.join(HERE, "tools"))
from engines import PROPS, ENGINES, NUM_MEANING  # noqa: E402

CPUS = os.cpu_count() or 8
BASE = ["-g", "-std=c++17", "-w", "-D__LOCK_FREE__", "-DMB_ENABLE_TRAVERSAL_LIMIT",
        "-I%s/src" % REPO, "-I%s/src/util" % REPO, "-I%s" % MC]


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def lib_sources():
    s = []
    for d in ("src", "src/util", "src/detail"):
        s += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    return [x for x in s if not x.endswith("lb_range_cache_shared.cpp")]


def header_key():
    h = hashlib.sha1()
    for d in ("src", "src/util", "src/detail", "binaries"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.h"))):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(MC, "*.h"))):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def build(engine):
    e = ENGINES[engine]
    os.makedirs(BUILD, exist_ok=True)
    hk = header_key()
    jobs = []
    objs = []

    deps = b"".join(open(os.path.join(REPO, d), "rb").read() for d in e.get("deps", []))

    def add(src, flags, cc):
        key = hashlib.sha1((hk + cc + " ".join(flags) + src).encode() + deps + open(src, "rb").read()).hexdigest()[:20]
        o = os.path.join(BUILD, "%s.%s.o" % (os.path.basename(src), key))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, o, flags, cc))
    for s in (e["lib_select"](lib_sources()) if "lib_select" in e else lib_sources() if e.get("lib", True) else []):
        add(s, BASE + e.get("lib_flags", ["-O2"]), e.get("lib_cc", "g++"))
    for s in e.get("repo_sources", []):
        add(os.path.join(REPO, s), BASE + e.get("lib_flags", ["-O2"]) + ["-I%s/binaries" % REPO], e.get("lib_cc", "g++"))
    for s in e["sources"]:
        add(os.path.join(MC, s), BASE + e.get("flags", ["-O2"]) + ["-I%s/binaries" % REPO], e.get("cc", "g++"))

    def comp(j):
        src, o, flags, cc = j
        t = o + ".%d.tmp" % os.getpid()
        r = sh(cc.split() + flags + ["-c", src, "-o", t])
        if r.returncode == 0:
            os.rename(t, o)
        return r
    with ThreadPoolExecutor(CPUS) as ex:
        for j, r in zip(jobs, ex.map(comp, jobs)):
            if r.returncode != 0:
                print("build failed: %s\n%s" % (j[0], r.stdout[-6000:]))
                sys.exit(2)
    key = hashlib.sha1(" ".join(objs + e.get("ldflags", [])).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s.%s" % (engine, key))
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = sh([e.get("cc", "g++")] + objs + ["-o", t] + e.get("ldflags", ["-lpthread", "-ljemalloc"]))
        if r.returncode != 0:
            print("link failed: %s\n%s" % (engine, r.stdout[-6000:]))
            sys.exit(2)
        os.rename(t, exe)
    return exe


def prune_build():
    """Keep the build directory small: drop objects not used for a long time."""
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
        tot = sum(os.path.getsize(f) for f in fs if os.path.isfile(f))
        if tot > 1500 * 1000 * 1000:
            for f in sorted((f for f in fs if os.path.isfile(f)), key=os.path.getatime)[: len(fs) // 2]:
                os.unlink(f)
    except OSError:
        pass


def scratch_dir():
    for base in ("/dev/shm", os.path.join(HERE, "out")):
        try:
            os.makedirs(base, exist_ok=True)
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 600 * 1000 * 1000:
                continue
            return tempfile.mkdtemp(prefix="mcv.", dir=base)
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="mcv.")


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def matches(k, v):
    return (v["kind"] == k["kind"] or re.fullmatch(k["kind"], v["kind"])) and \
        (not k.get("replay") or re.search(k["replay"], v["replay"])) and \
        (not k.get("msg") or re.search(k["msg"], v["msg"]))


def run_harness(exe, prop, tier, scratch, extra, budget, hard):
    out = os.path.join(scratch, "result.json")
    cmd = [exe, "--prop=" + prop, "--tier=" + tier, "--scratch=" + scratch, "--out=" + out,
           "--jobs=%d" % CPUS, "--budget=%d" % budget] + extra
    logp = os.path.join(scratch, "log")
    with open(logp, "w") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=hard)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
    if not os.path.exists(out):
        tail = open(logp, errors="replace").read()[-3000:]
        print("harness gave no result (exit %s)\n%s" % (rc, tail))
        return None
    return json.load(open(out))


def merge(a, b):
    if a is None:
        return b
    for k, v in b["num"].items():
        if k in ("cut",):
            a["num"][k] = max(a["num"].get(k, 0), v)
        else:
            a["num"][k] = a["num"].get(k, 0) + v
    a["str"].update(b["str"])
    for k in ("notes", "samples", "unconfirmed", "violations"):
        a[k] += b[k]
    return a


def main():
    av = sys.argv[1:]
    if av and av[0] == "--setup":
        t = time.time()
        for e in ENGINES:
            build(e)
            print("built %s (%.1fs)" % (e, time.time() - t), flush=True)
        return 0
    if av and av[0] == "--exe":
        print(build(av[1]))
        return 0
    replay = None
    if av and av[0] == "--replay":
        replay = json.load(open(av[1]))
        prop = replay["property"]
        tier = replay["tier"]
    else:
        prop = av[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in av:
            tier = av[av.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[prop]
    prune_build()
    total = None
    stages = P["stages"] if not replay else [s for s in P["stages"] if s["engine"] == replay["engine"]][:1]
    budget_all = P.get("budget", {}).get(tier, 420 if tier == "quick" else 840)
    if tier == "thorough" and os.environ.get("MC_BUDGET"):
        budget_all = int(os.environ["MC_BUDGET"])
    broken = False
    for st in stages:
        exe = build(st["engine"])
        scratch = scratch_dir()
        try:
            left = budget_all - (time.time() - t0)
            share = max(20, left * st.get("share", 1.0))
            extra = list(st.get("args", []))
            if replay:
                extra = replay["args"] + ["--replay=" + replay["replay"]]
            r = run_harness(exe, prop, tier, scratch, extra, share, share + 90)
            if r is None:
                broken = True
                continue
            for v in r["violations"]:
                v["engine"] = st["engine"]
                v["args"] = list(st.get("args", []))
            for k in [k for k in r["num"] if k in ("wall",)]:
                del r["num"][k]
            if len(stages) > 1:
                for k in list(r["num"]):
                    if k not in NUM_MEANING and k != "cut":
                        r["num"][st.get("label", st["engine"]) + "." + k] = r["num"].pop(k)
            total = merge(total, r)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if total is None:
        return 2
    known = known_findings(prop)
    os.makedirs(OUT, exist_ok=True)
    fresh = []
    kf_hit = set()
    for v in total["violations"]:
        ks = [i for i, k in enumerate(known) if matches(k, v)]
        if ks:
            kf_hit.update(ks)
        else:
            fresh.append(v)
    if replay:
        for v in total["violations"]:
            print("REPRODUCED %s: %s" % (v["kind"], v["msg"]))
        print("violations on replay: %d" % len(total["violations"]))
        return 1 if total["violations"] else 0
    # evidence
    lvl = P["level"]
    n = total["num"]
    cov = {"samples": (total["samples"] or ["none"])[:24], "exhaustive": not n.get("cut") and not n.get("queries_cut"), "bounds": P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"]}
    for k, val in n.items():
        if k == "cut":
            continue
        cov[P.get("rename", {}).get(k, k)] = int(val)
    for k, parts in P.get("sum", {}).items():
        cov[k] = sum(int(n.get(x, 0)) for x in parts)
    if "rule" in P:
        cov["rule"] = P["rule"]
    if total["notes"]:
        cov["notes"] = total["notes"]
    if total["unconfirmed"]:
        cov["unconfirmed"] = total["unconfirmed"][:10]
    if n.get("cut"):
        cov["cut"] = "time budget reached: the exploration order is simplest first, what was executed is counted above"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for i, k in enumerate(known):
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if i in kf_hit else " (not reached by this run)"))
    for i, v in enumerate(fresh[:8]):
        rp = os.path.join(OUT, "%s-%s-%d.json" % (prop, tier, i))
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "engine": v["engine"], "args": v["args"], "kind": v["kind"],
                       "msg": v["msg"], "replay": v["replay"], "rerun": "python3 /verif/check.py --replay " + rp}, f, indent=1)
        print("  %s: %s" % (v["kind"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    print("%s %s: %s (%.1fs) %s" % (prop, tier, "VIOLATED" if fresh else "held", time.time() - t0,
                                   " ".join("%s=%d" % (k, x) for k, x in sorted(n.items()))))
    if fresh:
        return 1
    return 2 if broken else 0


if __name__ == "__main__":
    sys.exit(main())
