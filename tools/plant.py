#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py make [-j N] ID...   (from tools/bugs/*.py, writes seeded/ID)
                                    plant.py check [-j N] [-p PROPS] [-seed S] ID...  (seeded/ID against the checks)
Works in copies of /repo under /tmp, never in /repo itself."""
import sys, os, json, subprocess, shutil, glob, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")
BUGS = {}

def bug(id, prop, edits, needs, breaks, main, race=False):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, race=race)

def sh(cmd, cwd=None, timeout=900, env=ENV):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT"

DEMO = '''#!/bin/bash
# run in /repo after the build; exit 0: the property holds here, other: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build RACE-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 2
timeout 120 "$tmp/demo" || exit 1
'''

def folder(id):
    # x-...: changes of lines which the commits "fix:" added; they do not count as planted bugs
    return f"{ROOT}/tools/extra/{id}" if id.startswith("x-") else f"{ROOT}/seeded/{id}"

def copyrepo(id):
    d = f"/tmp/plant/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d

def tests(d):
    log = d + ".log"; env = dict(ENV, GOCONVEY_REPORTER="json", HOME="/root")
    sh(f"go test -json -vet=off -count=1 -timeout 3m ./... > {log}; python3 /opt/vp/convey.py {log} > {log}.s; python3 /opt/vp/results.py {d}.out gojson:{log} lines:{log}.s", cwd=d, env=env)
    o = json.load(open(d + ".out"))
    B = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    s = set()
    for k in ("passed", "pass", "stable", "tests"):
        if k in o: s = set(o[k])
    for f in (log, log + ".s", d + ".out"):
        os.remove(f)
    return sorted(B - s)

def make(b):
    d = copyrepo(b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(old) != 1: return b["id"], f"edit of {f} matches {s.count(old)} times: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        rc, o = sh("gofmt -l *.go beta internal; go build ./... && go vet -unsafeptr=false . ", cwd=d)
        if rc or o.strip(): 
            if rc: return b["id"], "BUILD " + o[-500:]
        out = folder(b["id"])
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(sh("git diff", cwd=d)[1])
        open(out + "/main.go", "w").write(b["main"])
        open(out + "/demo.sh", "w").write(DEMO.replace("RACE", "-race " if b["race"] else ""))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        miss = tests(d)
        r0, o0 = sh(out + "/demo.sh", cwd="/repo", timeout=300)
        r1, o1 = sh(out + "/demo.sh", cwd=d, timeout=300)
        ok = not miss and r0 == 0 and r1 not in (0, 2)
        msg = "" if ok else f"BAD tests missing={miss[:4]} ({len(miss)}) clean={r0} {o0[-300:]!r} patched={r1} {o1[-300:]!r}"
        if not ok: shutil.rmtree(out)
        return b["id"], msg or "confirmed " + o1.strip()[-120:]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(id, props=None, seed=1):
    m = json.load(open(folder(id) + "/meta.json"))
    props = props or [m["property"]]
    d = copyrepo(id)
    h = d + ".h"; shutil.rmtree(h, ignore_errors=True)
    try:
        rc, o = sh(f"git apply {folder(id)}/patch.diff", cwd=d)
        if rc: return id, "does not apply " + o
        shutil.copytree(ROOT + "/harness", h)
        g = open(h + "/go.mod").read().replace("/repo", d); open(h + "/go.mod", "w").write(g)
        os.makedirs(h + "/v/evidence"); 
        if os.path.isdir(ROOT + "/regress"): shutil.copytree(ROOT + "/regress", h + "/v/regress")
        for f in ("known_findings.txt",): shutil.copy(f"{ROOT}/{f}", h + "/v/")
        res = []
        for p in props:
            rc, o = sh(f"go build {'-race' if p == 'P22' else ''} -o bin . ", cwd=h)
            if rc: return id, "harness build " + o[-500:]
            rc, o = sh(f"timeout 900 ./bin -mode check -id {p} -tier quick -seed {seed} -dir {h}/v", cwd=h)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            detail = ""
            if rc == 1 and v:
                detail = " ".join(x for x in o.splitlines() if not x.startswith("VIOLATION"))[:200]
            res.append(f"{p}:{'CAUGHT' if rc == 1 and v and p in v[0] else 'missed' if rc == 0 else 'rc%d' % rc + o[-300:]} {detail}")
        return id, " | ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(h, ignore_errors=True)

def main():
    a = sys.argv[1:]; mode = a.pop(0); j = 4; props = None; seed = 1
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-j": j = int(a.pop(0))
        if o == "-p": props = a.pop(0).split(",")
        if o == "-seed": seed = int(a.pop(0))
    for f in sorted(glob.glob(ROOT + "/tools/bugs/*.py")):
        exec(compile(open(f).read(), f, "exec"), globals())
    ids = a
    if not ids:
        ids = sorted(os.listdir(ROOT + "/seeded") + os.listdir(ROOT + "/tools/extra")) if mode == "check" else [i for i in sorted(BUGS) if not os.path.exists(folder(i) + "/meta.json")]
    with cf.ThreadPoolExecutor(j) as ex:
        fs = [ex.submit(make, BUGS[i]) if mode == "make" else ex.submit(check, i, props, seed) for i in ids]
        for f in cf.as_completed(fs):
            id, msg = f.result()
            print(id, msg, flush=True)
            if mode == "check":
                with lock:
                    r = json.load(open(RES)) if os.path.exists(RES) else {}
                    for x in msg.split(" | "):
                        p, _, what = x.partition(":")
                        r.setdefault(id, {})[p] = "caught" if what.startswith("CAUGHT") else "missed" if what.startswith("missed") else what[:60]
                    json.dump(r, open(RES, "w"), indent=1, sort_keys=True)

def table():
    r = json.load(open(RES)); out = ["| change | property | needs | quick check |", "|---|---|---|---|"]
    for id in sorted(os.listdir(ROOT + "/seeded") + os.listdir(ROOT + "/tools/extra")):
        m = json.load(open(folder(id) + "/meta.json"))
        out.append(f"| {id} | {m['property']} | {m['needs'].replace('|', '/')} | " + ", ".join(f"{p} {x}" for p, x in sorted(r.get(id, {}).items())) + " |")
    s = open(ROOT + "/DESIGN.md").read()
    a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
    open(ROOT + "/DESIGN.md", "w").write(s[:a] + "<!-- table -->\n" + "\n".join(out) + "\n" + s[b:])

import threading
lock = threading.Lock()
RES = ROOT + "/tools/results.json"
if sys.argv[1] == "table": table()
else: main()
