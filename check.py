#!/usr/bin/env python3
"""Driver: check.py <ID> [quick|thorough] [--replay FILE]

Builds the harness of a property from /repo's current working tree (go test -c
with an overlay: nothing is written in /repo), runs it sharded over the cores,
merges the coverage and writes /verif/evidence/<ID>.json.

exit 0: the property held on everything explored (known findings are printed)
exit 1: VIOLATION property=<ID> replay=<path>
exit 2: the check itself could not run
"""
import array, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
MODULE = "github.com/benoitkugler/textprocessing"
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))

PROPS = json.load(open(os.path.join(VERIF, "harness", "props.json")))


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GOFLAGS_EXTRA="")
    for k in ("LANGUAGE", "LC_ALL", "LC_CTYPE", "LANG", "FC_LANG", "XDG_CONFIG_HOME", "XDG_DATA_HOME"):
        e.pop(k, None)
    return e


def overlay(part, work):
    """overlay file: adds the harness files, hides the package's own tests"""
    pkg = part["pkg"]
    pdir = os.path.join(REPO, pkg)
    rep = {}
    for f in os.listdir(pdir):
        if f.endswith("_test.go"):
            rep[os.path.join(pdir, f)] = ""
    gopkg = part.get("package", os.path.basename(pkg))
    files = ["mc/mc.go.txt"] + part["files"]
    for f in files:
        src = open(os.path.join(H, f)).read().replace("package PKG", "package " + gopkg, 1)
        name = "zz_verif_" + os.path.basename(f).replace(".go.txt", "").replace(".go", "") + "_test.go"
        dst = os.path.join(work, gopkg + "_" + name)
        open(dst, "w").write(src)
        rep[os.path.join(pdir, name)] = dst
    path = os.path.join(work, gopkg + "_overlay.json")
    json.dump({"Replace": rep}, open(path, "w"))
    return path


def build(part, work, i):
    ov = overlay(part, work)
    out = os.path.join(work, "bin%d" % i)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    if part.get("tags"):
        cmd += ["-tags", part["tags"]]
    cmd += ["./" + part["pkg"]]
    p = subprocess.run(cmd, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print("BUILD-ERROR", part["pkg"])
        print(p.stdout[-4000:])
        sys.exit(2)
    return out


def run_env(part, tier, work, **kw):
    e = env()
    e["VERIF_TIER"] = tier
    e["VERIF_WORK"] = work
    e["VERIF_DIR"] = VERIF
    e["VERIF_REPO"] = REPO
    e["GOMAXPROCS"] = "2"
    e["HOME"] = work
    e["TMPDIR"] = work
    for k, v in part.get("env", {}).items():
        e[k] = v
    for k, v in kw.items():
        e[k] = str(v)
    return e


def replay_once(part, binp, tier, work, viol, timeout=300):
    rp = os.path.join(work, "replay.json")
    json.dump(viol, open(rp, "w"))
    out = os.path.join(work, "replay_out.json")
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run([binp, "-test.run", "^%s$" % part["test"], "-test.timeout", "0"], cwd=os.path.join(REPO, part["pkg"]),
                           env=run_env(part, tier, work, VERIF_REPLAY=rp, VERIF_OUT=out),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"kind": "hang", "msg": "the replay does not terminate", "log": []}
    if os.path.exists(out):
        r = json.load(open(out))
        return r.get("violation")
    if p.returncode == 4:
        return None
    tail = p.stdout[:3000]
    return {"kind": "crash", "msg": "fatal crash of the process: " + tail, "log": []}


def read_journal(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 260:
        return None
    n = struct.unpack("<I", b[:4])[0]
    space = b[4:260].split(b"\0")[0].decode()
    return {"space": space, "choices": [struct.unpack("<H", b[260 + 2 * i:262 + 2 * i])[0] for i in range(n)], "msg": "", "log": [], "kind": "crash"}


def load_known(pid):
    """known findings: (regular expression over the message)"""
    res = []
    path = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(path):
        for k in json.load(open(path)):
            if k["property"] == pid and k.get("status") == "open":
                res.append(k)
    return res


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    replay_file = None
    if "--replay" in sys.argv:
        replay_file = sys.argv[sys.argv.index("--replay") + 1]
        args = [a for a in args if a != replay_file]
        tier = args[1] if len(args) > 1 else "quick"
    spec = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    os.makedirs(os.path.join(evid, "replays"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    rc = 2
    try:
        rc = check(pid, spec, tier, seed, start, evid, work, replay_file)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, spec, tier, seed, start, evid, work, replay_file):
    parts = spec["parts"]
    bins = []
    for i, part in enumerate(parts):
        bins.append(build(part, work, i))
    build_s = time.time() - start

    if replay_file:
        rec = json.load(open(replay_file))
        part = parts[rec["part"]]
        v = replay_once(part, bins[rec["part"]], tier if tier else rec.get("tier", "quick"), work, rec["violation"])
        if v:
            print(v["msg"])
            for l in v.get("log") or []:
                print("   ", l)
            print("VIOLATION property=%s replay=%s" % (pid, replay_file))
            return 1
        print("the recorded case does not violate the property")
        return 0

    total_budget = 700 if tier == "thorough" else 480
    spaces, notes, violation, vpart = {}, [], None, None
    states_total = 0
    known = load_known(pid)
    known_hit = {}
    only = os.environ.get("VERIF_SPACE")
    for i, part in enumerate(parts):
        share = (total_budget - (time.time() - start)) / (len(parts) - i)
        share = max(20, share)
        procs = []
        for s in range(SHARDS):
            out = os.path.join(work, "out_%d_%d.json" % (i, s))
            e = run_env(part, tier, work, VERIF_SHARD="%d/%d" % (s, SHARDS), VERIF_OUT=out, VERIF_BUDGET=int(share), VERIF_JOURNAL=os.path.join(work, "j_%d_%d" % (i, s)))
            wd = os.path.join(work, "cwd_%d_%d" % (i, s))
            os.makedirs(wd)
            e["VERIF_WORK"] = wd
            log = open(os.path.join(work, "log_%d_%d" % (i, s)), "w")
            p = subprocess.Popen([bins[i], "-test.run", "^%s$" % part["test"], "-test.timeout", "0"], cwd=os.path.join(REPO, part["pkg"]), env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((s, p, out))
        hard = time.time() + share + 150
        cands = []
        pending = list(procs)
        while pending:
            for it in list(pending):
                s, p, out = it
                r = p.poll()
                if r is None:
                    continue
                pending.remove(it)
                if os.path.exists(out):
                    res = json.load(open(out))
                    if res.get("violation"):
                        cands.append((s, res["violation"]))
                    for sp in res["spaces"] or []:
                        a = spaces.setdefault(sp["name"], {"executions": 0, "skipped": 0, "operations": 0, "choice_points": 0, "max_depth": 0, "exhaustive": True, "deviation_bound": sp["deviation_bound"], "samples": [], "shards": 0})
                        for k in ("executions", "skipped", "operations", "choice_points"):
                            a[k] += sp[k]
                        a["max_depth"] = max(a["max_depth"], sp["max_depth"])
                        a["exhaustive"] = a["exhaustive"] and sp["exhaustive"]
                        a["samples"] += sp["samples"] or []
                        a["shards"] += 1
                    for n in res.get("notes") or []:
                        if n not in notes:
                            notes.append(n)
                elif r == 4:
                    print(open(os.path.join(work, "log_%d_%d" % (i, s))).read()[-3000:])
                    print("HARNESS-ERROR in", part["pkg"])
                    return 2
                else:
                    v = read_journal(os.path.join(work, "j_%d_%d" % (i, s)))
                    logtxt = open(os.path.join(work, "log_%d_%d" % (i, s)), errors="replace").read()
                    if v is None:
                        print(logtxt[-3000:])
                        print("HARNESS-ERROR: a shard ended with status", r)
                        return 2
                    v["msg"] = "fatal crash: " + logtxt[:1500]
                    cands.append((s, v))
            if cands and pending:
                # a violation is enough: stop the other shards
                time.sleep(0.3)
                for s, p, out in pending:
                    if p.poll() is None:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        p.wait()
                pending = [it for it in pending if os.path.exists(it[2])]
            if time.time() > hard:
                for s, p, out in pending:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                print("note: shards stopped at the hard deadline")
                for a in spaces.values():
                    a["exhaustive"] = False
                spaces.setdefault("hard-deadline", {"executions": 0, "skipped": 0, "operations": 0, "choice_points": 0, "max_depth": 0, "exhaustive": False, "deviation_bound": -1, "samples": [], "shards": 0})
                break
            time.sleep(0.05)
        # confirm
        cands.sort(key=lambda c: (len(c[1]["choices"]), c[1]["choices"]))
        for s, v in cands[:8]:
            conf = None
            for _ in range(5):
                conf = replay_once(part, bins[i], tier, work, v)
                if conf:
                    break
            if conf:
                v = dict(v, msg=conf["msg"], log=conf.get("log") or v.get("log") or [], kind=conf.get("kind", v["kind"]))
                violation, vpart = v, i
                break
            # depends on the executions before it in the same process: rerun the shard
            if v["kind"] == "failure":
                out = os.path.join(work, "again.json")
                e = run_env(part, tier, work, VERIF_SHARD="%d/%d" % (s, SHARDS), VERIF_OUT=out, VERIF_BUDGET=300)
                if os.path.exists(out):
                    os.unlink(out)
                try:
                    subprocess.run([bins[i], "-test.run", "^%s$" % part["test"], "-test.timeout", "0"], cwd=os.path.join(REPO, part["pkg"]), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
                except subprocess.TimeoutExpired:
                    continue
                if os.path.exists(out):
                    w = json.load(open(out)).get("violation")
                    if w and w["space"] == v["space"]:
                        w["msg"] += "  [depends on the history of the process: shard %d/%d]" % (s, SHARDS)
                        w["shard"] = s
                        violation, vpart = w, i
                        break
            print("note: an unconfirmed failure was discarded:", v["space"], v["choices"], v["msg"][:300])
        # states
        keys = array.array("Q")
        for s in range(SHARDS):
            sp = os.path.join(work, "out_%d_%d.json.states" % (i, s))
            if os.path.exists(sp):
                with open(sp, "rb") as f:
                    keys.frombytes(f.read())
                os.unlink(sp)
        states_total += len(set(keys))
        if violation:
            break

    wall = time.time() - start
    execs = sum(a["executions"] for a in spaces.values())
    ops = sum(a["operations"] for a in spaces.values())
    points = sum(a["choice_points"] for a in spaces.values())
    samples = []
    for n, a in spaces.items():
        for s in a.pop("samples")[:3]:
            samples.append(n + ": " + s)
        a.pop("shards")
    exhaustive = bool(spaces) and all(a["exhaustive"] for a in spaces.values())
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": states_total, "transitions": points, "traces_validated_against_impl": execs, "operations_applied": ops,
            "samples": samples[:24], "exhaustive": exhaustive,
            "spaces": spaces, "notes": notes, "build_s": round(build_s, 2),
            "explanation": "states: distinct fingerprints of observed implementation states/outcomes; transitions: choices taken along the explored executions; operations_applied: calls of the real code under test; traces: complete executions of the real code compared step by step with the reference model",
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    if not only:
        json.dump(ev, open(os.path.join(evid, pid + ".json"), "w"), indent=1)
    for n, a in spaces.items():
        print("  %-34s executions=%d ops=%d points=%d skipped=%d exhaustive=%s" % (n, a["executions"], a["operations"], a["choice_points"], a["skipped"], a["exhaustive"]))
    print("%s %s: %d executions, %d transitions, %d states, exhaustive=%s, %.1fs (build %.1fs)" % (pid, tier, execs, ops, states_total, exhaustive, wall, build_s))
    if violation:
        rp = os.path.join(evid, "replays", "%s.json" % pid)
        json.dump({"property": pid, "part": vpart, "tier": tier, "violation": violation}, open(rp, "w"), indent=1)
        print("space %s choices %s" % (violation["space"], violation["choices"]))
        print(violation["msg"][:3000])
        for l in (violation.get("log") or [])[:60]:
            print("   ", l)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    main()
