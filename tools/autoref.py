#!/usr/bin/env python3
"""Development aid: mechanical behaviour-preserving rewrites of the whole repository
(analyzer/autoref), one kind at a time on a scratch copy; every check has to stay quiet.
usage: autoref.py [-j N] [-only RE] [-skip RE] [-keep] [kind...]   (TEST=1 also runs the stable tests)"""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
args = sys.argv[1:]; j = 4; extra = []; keep = False
while args and args[0].startswith("-"):
    if args[0] == "-j": j = int(args[1]); args = args[2:]
    elif args[0] == "-keep": keep = True; args = args[1:]
    else: extra += args[:2]; args = args[2:]
benv = dict(os.environ, GOFLAGS="-mod=vendor", GOTOOLCHAIN="local")
subprocess.check_call(["go", "build", "-o", "/tmp/autoref", "./autoref"], cwd=root + "/analyzer", env=benv)
kinds = args or subprocess.check_output(["/tmp/autoref", "-list"], text=True).split()
exe = os.environ.get("VSTAT", "/tmp/vstat2")
env = dict(os.environ)
for l in subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env"], text=True).splitlines():
    if "=" in l:
        k, v = l.split("=", 1); env[k] = v
def one(k):
    d = tempfile.mkdtemp(prefix="aref.%s." % k, dir="/tmp")
    try:
        subprocess.check_call("git -C /repo ls-files -z | (cd /repo && xargs -0 cp --parents -t %s)" % d, shell=True)
        for kk in k.split("+"):
            r = subprocess.run(["/tmp/autoref", "-dir", d, "-kind", kk] + extra, env=env, capture_output=True, text=True)
            if r.returncode: return k, "AUTOREF " + r.stdout[-800:] + r.stderr[-800:]
        n = r.stdout.strip()
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: return k, "NO-BUILD " + n + "\n" + b.stderr[:1500]
        if os.environ.get("TEST"):
            log = d + "/.zzlog"
            with open(log, "w") as f:
                subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd=d, env=env, stdout=f, stderr=subprocess.DEVNULL)
            import json
            subprocess.run(["python3", "/opt/vp/results.py", d + "/out.json", "gojson:" + log], check=False, capture_output=True)
            want = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open(d + "/out.json"))
            def passing(x):
                for kk in ("passed", "pass", "stable", "tests"):
                    if kk in x:
                        v = x[kk]
                        return {a for a, rr in v.items() if rr in (True, "pass", "passed", 1)} if isinstance(v, dict) else set(v)
            miss = sorted(passing(want) - passing(got))
            n += " tests-missing=%d %s" % (len(miss), miss[:6])
            os.remove(d + "/out.json")
        vd = d + "/.vv"; os.makedirs(vd); shutil.copy(root + "/known_findings.txt", vd)
        r = subprocess.run(["timeout", "-s", "QUIT", os.environ.get("TMO", "300"), exe, "-repo", d, "-verif", vd, "all"], env=env, capture_output=True, text=True)
        heads = [x.replace(d, "") for x in r.stdout.splitlines() if " :: " in x or "VIOLATION" in x]
        return k, "%s rc=%d" % (n, r.returncode) + ("" if r.returncode in (0, 1) else r.stdout[-300:] + r.stderr[-1500:]) + "".join("\n    " + h for h in heads)
    finally:
        if keep: print("kept", d)
        else: shutil.rmtree(d)
with cf.ThreadPoolExecutor(j) as ex:
    for k, r in ex.map(one, kinds): print("==", k, r, flush=True)
