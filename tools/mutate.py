#!/usr/bin/env python3
"""mutate.py OUT.jsonl WORKERS COUNT [ID...]: finds changes which the checks miss. For each property, makes
small changes (one operator, constant, or statement) in the functions its statement is anchored in, in a
scratch copy; runs the quick check of the property; for those which are missed runs the stable tests.
Writes one line per mutant: caught, missed, tests (missed by the check but not by the tests), error."""
import hashlib, json, multiprocessing, os, random, re, shutil, subprocess, sys
OUT, WORKERS, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
IDS = sys.argv[4:]
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def props():
    for l in open("/verif/properties.jsonl"):
        p = json.loads(l)
        if not IDS or p["id"] in IDS:
            yield p
def props_all():
    return [json.loads(l) for l in open("/verif/properties.jsonl")]
def funcs(path):
    "name -> (first, last) line numbers"
    out, cur = {}, None
    for i, l in enumerate(open(path).read().split("\n")):
        m = re.match(r"func (?:\([^)]*\) )?(\w+)", l)
        if m and not l.rstrip().endswith("}"):
            cur = (m.group(1), i)
        if l == "}" and cur:
            out.setdefault(cur[0], []).append((cur[1], i)); cur = None
    return out
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+1\b", ""), (r"-1\b", ""), (r" \+= ", " -= "), (r" -= ", " += "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"),
       (r"\bmaxG\(", "minG("), (r"\bminG\(", "maxG("), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r" - ", " + "), (r" \+ ", " - "), (r" / 2", ""), (r"!(?=\w)", "")]
def mutants(p):
    out = []
    mech = p["anchors"].get("mechanism") or []
    low = p["id"] <= "C16"
    if low: mech = [{"name": "*", "where": f} for f in p["anchors"]["files"]]
    for m in mech:
        m = m if isinstance(m, dict) else {"what": m[0], "file": m[1]}
        file = m.get("where")
        names = re.findall(r"\w+", m.get("name", ""))
        path = "/repo/" + file if file else None
        if not path or not os.path.exists(path): continue
        lines = open(path).read().split("\n")
        for n, spans in funcs(path).items():
            if n not in names and not low: continue
            over = bool(re.match(r"handle(Allow|Words|Sent|Hyph)|breakAttrs|posFromOffset|removeBreaks|pango_attr_break|getItemsLogAttrs|.*ogAttrs", n))
            if p["id"] in ("C07", "C08") and over != (p["id"] == "C08"): continue
            if re.match(r"String|show|Write|write|Dump", n): continue
            for a, b in spans:
                skip = 0
                for i in range(a + 1, b):
                    l = lines[i]
                    if "debugMode" in l: skip = len(l) - len(l.lstrip("\t")) + 1
                    if skip:
                        if len(l) - len(l.lstrip("\t")) < skip and l.strip() == "}": skip = 0
                        continue
                    s = l.strip()
                    if not s or s.startswith(("//", "*", "/*", "panic", "assert", "fmt.P", "log.", "return fmt", "case 0x")): continue
                    code = l.split("//")[0]
                    for r, n2 in OPS:
                        for mm in re.finditer(r, code):
                            if '"' in code[:mm.start()] and code[:mm.start()].count('"') % 2: continue
                            out.append((file, i, l, code[:mm.start()] + re.sub(r, n2, mm.group(0)) + code[mm.end():]))
                    if re.match(r"[\w.\[\]*]+(\(.*\)| (\+|-|\||&)?= .*)$", s) and not s.endswith(("{", "(")):
                        out.append((file, i, l, "_ = 0"))
    seen = {}
    for m in out: seen[m] = 1
    return list(seen)
def stable(repo, pkg):
    pk = {}
    for t in BASE:
        q, n = t.rsplit("/", 1); pk.setdefault(q, []).append(n)
    for q, l in pk.items():
        r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-run", "^(%s)$" % "|".join(l), q], cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode: return False
    return True
def work(w, jobs, lock):
    d = "/tmp/mw/%d" % w
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    repo, ver = d + "/repo", d + "/verif"
    subprocess.run(["cp", "-a", "/repo", repo]); os.makedirs(ver)
    for f in ("check.py", "check.sh", "harness", "tools", "properties.jsonl", "MANIFEST.json"):
        subprocess.run(["cp", "-a", "/verif/" + f, ver])
    while True:
        try: pid, (file, i, old, new) = jobs.get(timeout=5)
        except Exception: return
        path = repo + "/" + file
        src = open(path).read(); lines = src.split("\n")
        if lines[i] != old: continue
        lines[i] = new
        res = "error"
        try:
            open(path, "w").write("\n".join(lines))
            r = subprocess.run(["go", "build", "./..."], cwd=repo, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: res = "nobuild"
            else:
                r = subprocess.run(["./check.sh", pid, "quick"], cwd=ver, env=dict(ENV, VERIF_REPO=repo, VERIF_SHARDS=str(max(2, 10 // WORKERS)), VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1000)
                res = "caught" if r.returncode == 1 and "VIOLATION property=" + pid in r.stdout else "rc%d" % r.returncode if r.returncode else "missed" if stable(repo, file) else "tests"
                if res == "missed":
                    for q in props_all():
                        if q["id"] != pid and file in q["anchors"]["files"]:
                            r = subprocess.run(["./check.sh", q["id"], "quick"], cwd=ver, env=dict(ENV, VERIF_REPO=repo, VERIF_SHARDS=str(max(2, 10 // WORKERS)), VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1000)
                            if r.returncode == 1: res = "by " + q["id"]; break
        except Exception as e: res = "error %s" % type(e).__name__
        open(path, "w").write(src)
        with lock:
            open(OUT, "a").write(json.dumps({"id": pid, "res": res, "file": file, "line": i + 1, "old": old.strip(), "new": new.strip()}) + "\n")
if __name__ == "__main__":
    jobs, lock = multiprocessing.Queue(), multiprocessing.Lock()
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            o = json.loads(l); done.add((o["id"], o["file"], o["line"], o["new"]))
    todo = []
    for p in props():
        ms = mutants(p)
        random.Random(p["id"]).shuffle(ms)
        print(p["id"], len(ms))
        todo += [(k, p["id"], m) for k, m in enumerate(ms[:COUNT]) if (p["id"], m[0], m[1] + 1, m[3].strip()) not in done]
    for k, pid, m in sorted(todo, key=lambda t: t[0]): jobs.put((pid, m))
    ws = [multiprocessing.Process(target=work, args=(w, jobs, lock)) for w in range(WORKERS)]
    for w in ws: w.start()
    for w in ws: w.join()
    shutil.rmtree("/tmp/mw", ignore_errors=True)
