#!/usr/bin/env python3
"""run.py ID [quick|thorough]  - build from /repo, explore, confirm by replay, report, write evidence.
   run.py --replay FILE        - replay a recorded violation
   run.py --build              - setup: build the libraries only
Exit 0: held (or only known findings).  Exit 1: VIOLATION line printed.  Exit 2: error of the check."""
import glob, json, os, subprocess, sys, time, hashlib, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "bin"))
from checks import CHECKS, LINK
BUILD = os.path.join(HERE, ".build")
KNOWN = os.path.join(HERE, "known-findings.jsonl")
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")

def die(msg):
    print("check error: " + msg, file=sys.stderr); sys.exit(2)

def build_lib(variant):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(HERE, "bin", "build_lib.sh"), variant], stdin=subprocess.DEVNULL)
        if r.returncode: die("building libsrcml (%s) failed" % variant)

def build_harness(h):
    v = h.get("variant", "plain")
    build_lib(v)
    exe = os.path.join(BUILD, h["name"] + "-" + v)
    san = {"plain": [], "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"]}[v]
    srcs = [os.path.join(HERE, "harness", s) for s in h["src"]]
    objs = []
    procs = []
    # /repo sources compiled into the harness (client code)
    repo = [f for s in h.get("repo_src", []) for f in sorted(glob.glob("/repo/" + s)) or ["/repo/" + s] if os.path.basename(f) not in h.get("repo_skip", [])]
    for i, s in enumerate(srcs + repo):
        o = exe + ".%d.o" % i
        cmd = ["g++", "-std=gnu++17", "-O1", "-g", "-w", "-include", "algorithm", "-DVERIF_DIR=\"" + HERE + "\"", "-I" + os.path.join(HERE, "lib")] + san + h.get("cflags", []) + \
              ["-I" + os.path.join(HERE, d) for d in h.get("inc", [])] + ["-I/repo/src/libsrcml", "-I/repo/src/parser", "-I/repo/src/client",
              "-I" + os.path.join(BUILD, v, "parser"), "-I/usr/include/libxml2", "-c", s, "-o", o]
        procs.append((s, subprocess.Popen(cmd, stdin=subprocess.DEVNULL))); objs.append(o)
    for s, p in procs:
        if p.wait(): die("compiling %s failed" % s)
    cmd = ["g++", "-o", exe] + san + objs + [os.path.join(BUILD, v, "libsrcml_v.a")] + h.get("link", []) + LINK
    if subprocess.run(cmd, stdin=subprocess.DEVNULL).returncode: die("linking failed")
    return exe

def load_known(prop):
    k = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop: k.append(d)
    return k

def replay(exe, scenario, choices, tier, env, opts):
    try:
        r = subprocess.run([exe, "--tier", tier, "--replay", scenario + ":" + choices] + opts, capture_output=True, text=True, errors="replace",
                           stdin=subprocess.DEVNULL, env=env, timeout=400)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 1, "VIOLATED sig=hang (timeout)\n"

def main():
    if sys.argv[1] == "--build":
        for v in ("plain",): build_lib(v)
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        h = next(h for h in CHECKS[d["property"]]["harness"] if h["name"] == d["harness"])
        exe = build_harness(h)
        rc, out = replay(exe, d["scenario"], d["choices"], d["tier"], dict(ENV, **h.get("env", {})), h.get("args", []))
        print(out)
        return rc
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    c = CHECKS[prop]
    known = load_known(prop)
    kf = os.path.join(BUILD, prop + ".known")
    os.makedirs(BUILD, exist_ok=True)
    def je(s):
        o = ""
        for ch in s:
            c = ord(ch)
            o += {34: '\\"', 92: '\\\\', 10: '\\n', 9: '\\t', 13: '\\r'}.get(c) or ("\\u%04x" % c if c < 0x20 or c >= 0x7f else ch)
        return o
    with open(kf, "w") as f:
        for d in known: f.write(je(d["scenario"]) + "\t" + je(d["sig"]) + "\t" + je(d["note"]) + "\n")
    scen, viol, kn, samples = [], [], [], []
    total = {"quick": float(c.get("quick_s", 420)), "thorough": float(c.get("thorough_s", 3600))}[tier]
    for h in c["harness"]:
        exe = build_harness(h)
        out = os.path.join(BUILD, h["name"] + ".out")
        left = max(30.0, total - (time.time() - t0)) if tier == "quick" else max(60.0, total - (time.time() - t0))
        env = dict(ENV, **h.get("env", {}))
        cmd = [exe, "--tier", tier, "--out", out, "--max-found", str(h.get("max_found", 10)), "--deadline", str(left), "--known", kf] + h.get("args", [])
        errlog = open(os.path.join(BUILD, h["name"] + ".err"), "w")
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, env=env, stderr=errlog, stdout=errlog)
        if r.returncode:
            sys.stderr.write(open(errlog.name, errors="replace").read()[-3000:])
            die("%s ended with %d" % (h["name"], r.returncode))
        for line in open(out, errors="replace"):
            d = json.loads(line)
            if d["type"] == "scenario": d["harness"] = h["name"]; scen.append(d)
            elif d["type"] == "sample": samples.append({"scenario": d["scenario"], "case": d["note"]})
            elif d["type"] == "known": kn.append(d)
            elif d["type"] == "violation":
                d["harness"] = h["name"]; d["exe"] = exe; d["args"] = h.get("args", []); d["env"] = env
                viol.append(d)
    # confirm by replay (alone); only confirmed ones are reported
    confirmed, seen_sig, unconf = [], {}, 0
    viol.sort(key=lambda d: (len(d["choices"].split(",")), len(d["choices"]), d["choices"]))
    for d in viol:
        key = (d["scenario"], d["sig"])
        if seen_sig.get(key, 0) >= 1: continue
        rc, txt = replay(d["exe"], d["scenario"], d["choices"], tier, d["env"], d["args"])
        if rc == 1:
            seen_sig[key] = seen_sig.get(key, 0) + 1
            name = hashlib.sha1((d["scenario"] + d["sig"] + d["choices"]).encode()).hexdigest()[:10]
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, name))
            json.dump({"property": prop, "harness": d["harness"], "scenario": d["scenario"], "choices": d["choices"], "tier": tier,
                       "sig": d["sig"], "msg": d["msg"], "note": d["note"], "how": "python3 run.py --replay " + path, "trace": txt[-8000:]}, open(path, "w"), indent=1)
            confirmed.append((d, path))
        elif rc == 0:
            unconf += 1
            print("unconfirmed (did not repeat when replayed alone): %s %s %s" % (d["scenario"], d["sig"], d["note"]), file=sys.stderr)
        else: die("replay of %s:%s failed:\n%s" % (d["scenario"], d["choices"], txt))
        if len(confirmed) >= 8: break
    wall = time.time() - t0
    tot = lambda k: sum(s[k] for s in scen)
    # one case written out per scenario at least
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("validated"),
                       "executions": tot("executions"), "pruned": tot("pruned"),
                       "exhaustive": all(s["complete"] for s in scen) and not viol, "samples": samples[:40],
                       "scenarios": [{k: s[k] for k in ("name", "executions", "transitions", "states", "validated", "maxdepth", "complete", "wall", "bounds")} for s in scen][:200],
                       "known_findings_seen": len(kn)},
          "assumptions": c.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and ev["coverage"]["scenarios"]:
        ev["coverage"]["scenarios"] = ev["coverage"]["scenarios"][:len(ev["coverage"]["scenarios"]) // 2]; ev["coverage"]["samples"] = ev["coverage"]["samples"][:10]
        txt = json.dumps(ev, indent=1)
    open(os.path.join(HERE, "evidence", prop + ".json"), "w").write(txt + "\n")
    for d in known:
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (prop, d["note"], d["sig"], d.get("what", "")))
    for d, path in confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (d["scenario"], d["sig"]))
        print("  case: " + d["note"][:600])
        print("  " + d["msg"][:600].replace("\n", "\n  "))
    print("%s %s: %d scenarios, %d executions, %d states, %d transitions, %d traces validated, complete=%s, %.1f s" % (
        prop, tier, len(scen), tot("executions"), tot("states"), tot("transitions"), tot("validated"), all(s["complete"] for s in scen), wall))
    for s in scen:
        if not s["complete"]: print("  incomplete: %s (%d executions)" % (s["name"], s["executions"]))
    return 1 if confirmed else 0

sys.exit(main())
