#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each planted bug.
usage: seed.py write [id...]   regenerate patch.diff, demo.sh, demo_test.go, meta.json
       seed.py check [id...]   demo passes clean / fails patched, builds, which checks fire
       seed.py tests [id...]   stable tests pass with the patch (slow)"""
import sys, os, glob, subprocess, shutil, tempfile, json, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
SE = {}
def S(id, prop, needs, breaks, edits, pkg, test, imports=(), race=False, timeout=60):
    assert id not in SE, id
    SE[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, pkg=pkg, test=test, imports=imports, race=race, timeout=timeout)
for fn in sorted(glob.glob(here + "/seeds/*.py")):
    exec(compile(open(fn).read(), fn, "exec"))
env = dict(os.environ)
for l in subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env"], text=True).splitlines():
    if "=" in l:
        k, v = l.split("=", 1); env[k] = v
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property's demonstration passes
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkgdir)szz_demo_test.go" "$d/demo_test.go" > "$t/o.json"
export TMPDIR=$t
timeout %(kill)d go test %(race)s-overlay "$t/o.json" -vet=off -count=1 -timeout %(timeout)ds -run '^TestZZDemo$' ./%(pkgdir)s
'''
def scratch():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    subprocess.check_call("git -C /repo ls-files -z | (cd /repo && xargs -0 cp --parents -t %s)" % d, shell=True)
    return d
def write(id):
    s = SE[id]; d = scratch(); out = root + "/seeded/" + id
    try:
        subprocess.check_call("git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x", cwd=d, shell=True)
        for e in s["edits"]:
            f, old, new = e[:3]; n = e[3] if len(e) > 3 else 0
            p = os.path.join(d, f); t = open(p).read(); parts = t.split(old)
            assert len(parts) >= n + 2, (id, "not found", old)
            assert len(e) > 3 or len(parts) == 2, (id, "ambiguous", old)
            open(p, "w").write(old.join(parts[:n+1]) + new + old.join(parts[n+1:]))
        files = sorted({e[0] for e in s["edits"]})
        subprocess.check_call(["gofmt", "-l"] + files, cwd=d, env=env)
        diff = subprocess.check_output(["git", "diff"], cwd=d, text=True)
        assert diff, id
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        pkg = s["pkg"]
        body = s["test"]
        gopkg = {"": "common"}.get(pkg, os.path.basename(pkg))
        src = "package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (gopkg, "".join('\t"%s"\n' % i for i in sorted(set(s["imports"]) | {"testing"})), body.split("//---TOP---")[0].strip("\n"))
        if "//---TOP---" in body: src += "\n" + body.split("//---TOP---")[1].strip("\n") + "\n"
        open(out + "/demo_test.go", "w").write(src)
        subprocess.check_call(["gofmt", "-w", out + "/demo_test.go"], env=env)
        open(out + "/demo.sh", "w").write(DEMO % dict(pkgdir=pkg + "/" if pkg else "", race="-race " if s["race"] else "", timeout=s["timeout"], kill=s["timeout"]+120))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)
def check(id):
    d = scratch(); src = root + "/seeded/" + id; r = []
    try:
        a = subprocess.run(["bash", src + "/demo.sh"], cwd=d, env=env, capture_output=True, text=True)
        r.append("clean=%d" % a.returncode)
        if a.returncode: r.append((a.stdout + a.stderr)[-400:])
        subprocess.check_call(["git", "init", "-q"], cwd=d)
        subprocess.check_call(["git", "apply", src + "/patch.diff"], cwd=d)
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        r.append("build=%d" % b.returncode + (b.stderr[:300] if b.returncode else ""))
        a = subprocess.run(["bash", src + "/demo.sh"], cwd=d, env=env, capture_output=True, text=True)
        r.append("patched=%d" % a.returncode)
        msg = [l.strip() for l in (a.stdout + a.stderr).splitlines() if "demo_test.go" in l or "panic" in l or "RACE" in l or "DEADLOCK" in l.upper()][:1]
        if a.returncode == 0 or "build failed" in a.stdout: msg = [(a.stdout + a.stderr)[-600:]]
        vd = d + "/.vv"; os.makedirs(vd); shutil.copy(root + "/known_findings.txt", vd)
        v = subprocess.run([os.environ.get("VSTAT", "/tmp/vstat2"), "-repo", d, "-verif", vd, "all"], env=env, capture_output=True, text=True)
        fired = sorted({l.split("property=")[1].split()[0] for l in v.stdout.splitlines() if l.startswith("VIOLATION")})
        ok = SE[id]["prop"] in fired if id in SE else None
        CAUGHT[id] = " ".join(fired) or "(missed)"
        r.append("%s fired=%s" % ("CAUGHT" if ok else "MISSED", ",".join(fired)))
        return id, " ".join(r) + "   " + " ".join(msg)[:150]
    finally:
        shutil.rmtree(d)
CAUGHT = {}
BASE = json.load(open("/opt/vp/BASELINE.json"))
def tests(id):
    d = scratch(); src = root + "/seeded/" + id
    try:
        subprocess.check_call(["git", "init", "-q"], cwd=d)
        subprocess.check_call(["git", "apply", src + "/patch.diff"], cwd=d)
        shutil.rmtree("/root/temp/dvppdata/ldb", ignore_errors=True)
        log = d + "/.zzlog"
        with open(log, "w") as f:
            subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd=d, env=env, stdout=f, stderr=subprocess.DEVNULL)
        subprocess.run(["python3", "/opt/vp/results.py", d + "/out.json", "gojson:" + log], check=False, capture_output=True)
        o = json.load(open(d + "/out.json"))
        def names(x, k): 
            v = x.get(k, []); return set(v if isinstance(v, list) else v.keys())
        want = passing(BASE); got = passing(o)
        miss = sorted(want - got)
        return id, "tests %d/%d%s" % (len(want & got), len(want), " MISSING " + " ".join(miss[:5]) if miss else "")
    finally:
        shutil.rmtree(d)
def passing(x):
    for k in ("passed", "pass", "stable", "tests"):
        if k in x:
            v = x[k]
            if isinstance(v, dict): return {n for n, r in v.items() if r in (True, "pass", "passed", 1)}
            return set(v)
    raise SystemExit("unknown results format: %s" % list(x)[:5])
ids = [i for i in SE if not sys.argv[2:] or any(a in i for a in sys.argv[2:])]
if sys.argv[1] == "write":
    for i in ids: write(i)
elif sys.argv[1] == "check":
    with cf.ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(check, ids): print(i, r, flush=True)
    cf_ = here + "/design/caught.txt"
    if os.path.exists(cf_):
        for l in open(cf_):
            a = l.split(None, 1)
            if len(a) == 2 and a[0] in SE: CAUGHT.setdefault(a[0], a[1].strip())
    open(cf_, "w").write("".join("%s %s\n" % kv for kv in sorted(CAUGHT.items())))
else:
    for i in ids: print(*tests(i), flush=True)
