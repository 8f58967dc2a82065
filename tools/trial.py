#!/usr/bin/env python3
"""Development tool: applies patches to scratch copies of /repo and reports, per patch, whether it builds, whether the stable
tests still pass (--tests), what its demo does (--demo), and which checks report a violation.
usage: trial.py [--tests] [--demo] [--all|--checks C01,C02] PATCH_OR_SEED_DIR..."""
import json, os, re, shutil, subprocess, sys, queue, threading, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("TRIAL_ROOT", "/tmp/trial")
N = int(os.environ.get("TRIAL_WORKERS", "4"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def sh(cmd, cwd=None, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout


def worker(i):
    w = "%s/w%d" % (ROOT, i)
    if not os.path.isdir(w + "/repo/.git"):
        os.makedirs(w, exist_ok=True)
        sh(["cp", "-a", "/repo", w + "/repo"])
    if not os.path.isdir(w + "/tgt"):
        os.makedirs(w + "/tgt")
        for d in ("deps", "driver"):
            if os.path.isdir(V + "/target/" + d):
                sh(["cp", "-a", V + "/target/" + d, w + "/tgt/" + d])
    r = w + "/repo"
    sh("git checkout -q -- . && git clean -fdq -e target && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", r)
    return w


def tests(w):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("tests") or base.get("passed") or [])
    r = w + "/repo"
    rc, o1 = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], r, ENV)
    cw = w + "/cw"
    os.makedirs(cw, exist_ok=True)
    for n in ("cw-tests", "packages", "contracts"):
        if not os.path.islink(cw + "/" + n):
            os.symlink(r + "/" + n, cw + "/" + n)
    open(cw + "/Cargo.toml", "w").write('[workspace]\nmembers = ["cw-tests"]\nresolver = "1"\n')
    shutil.copy(r + "/Cargo.lock", cw + "/Cargo.lock")
    rc2, o2 = sh(["cargo", "test", "--manifest-path", cw + "/Cargo.toml", "-p", "tests", "--target-dir", r + "/target/cw-tests",
                  "--no-fail-fast", "--offline", "--", "--test-threads", "8"], cw, ENV)
    o = o1 + o2
    if "error: could not compile" in o or re.search(r"^error(\[|:)", o, re.M) and "test result" not in o:
        return "BUILD FAILS\n" + "\n".join(l for l in o.splitlines() if l.startswith("error"))[:1500]
    ok = len(re.findall(r"^test .* \.\.\. ok$", o, re.M))
    bad = re.findall(r"^test (.*) \.\.\. FAILED$", o, re.M)
    return "tests ok=%d failed=%s" % (ok, bad)


def demo(w, d):
    dd = w + "/demo"
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    # demos run with /repo as cwd; here the copy stands in for it
    rc, o = sh(["bash", dd + "/demo.sh"], w + "/repo", dict(ENV, DEMO_TARGET=w + "/demo-tgt"))
    return rc, o


def one(w, p, opts):
    r = w + "/repo"
    out = []
    d = p if os.path.isdir(p) else None
    patch = os.path.abspath(p + "/patch.diff" if d else p)
    if d and opts["demo"]:
        rc, o = demo(w, d)
        out.append("demo unchanged: rc=%d%s" % (rc, "" if rc == 0 else "\n" + o[-1500:]))
    rc, o = sh(["git", "apply", "--whitespace=nowarn", patch], r)
    if rc:
        return "APPLY FAILS " + o
    if opts["tests"]:
        out.append(tests(w))
    if d and opts["demo"]:
        rc, o = demo(w, d)
        out.append("demo patched: rc=%d %s" % (rc, "" if rc else "NOT DETECTED\n" + o[-1500:]))
        if rc:
            out.append("   " + " | ".join([l for l in o.splitlines() if "panicked" in l or "assert" in l or l.startswith("error")][:4])[:400])
    if opts["checks"] is not None:
        env = dict(os.environ, VERIF_REPO=r, VERIF_TGT=w + "/tgt", WIT="300")
        rc, o = sh(["python3", V + "/engine/dump.py"], V, env)
        if rc:
            return "\n".join(out + ["DUMP FAILS " + o[-1500:]])
        ids = opts["checks"]
        if opts["all"]:
            t = open(patch).read()
            if "packages/" not in t and "Cargo" not in t:
                R = {"halo-pair": (*range(1, 16), 45, 46, 47, 51), "halo-factory": (*range(16, 25), 49), "halo-router": (25, 26, 27, 28, 29, 31, 32), "halo-token": (34, 35)}
                ids = ["C%02d" % i for n in R if "contracts/%s/" % n in t for i in R[n]] + ["C30", "C33", "C42", "C43", "C44", "C48", "C50", "C52", "C53", "C54", "C55", "C56"]
        if not ids and d:
            ids = [json.load(open(d + "/meta.json"))["property"]]
        if not ids and re.match(r"C\d\d_", os.path.basename(p)):
            ids = [os.path.basename(p)[:3]]
        caught = []
        for i in ids:
            rc, o = sh(["python3", V + "/check.py", i, "--no-dump"], V, env)
            if rc:
                caught.append(i)
                ls = o.splitlines()
                k = [j for j, l in enumerate(ls) if l.startswith("VIOLATION")]
                out.append("%s:%s" % (i, " || ".join(" ".join(ls[j + 1:j + 4])[:opts["w"]] for j in k[:opts["n"]]) if k else " rc=%d %s" % (rc, o[-300:])))
        out.append("CAUGHT BY " + (" ".join(caught) or "none") + " of " + (" ".join(ids) if len(ids) < 6 else str(len(ids))))
    return "\n".join(out)


def main():
    a = sys.argv[1:]
    opts = {"all": "--all" in a and "--every" not in a, "tests": "--tests" in a, "demo": "--demo" in a, "checks": [], "w": 300, "n": 1}
    if "--nochecks" in a:
        opts["checks"] = None
    if "--all" in a:
        opts["checks"] = ["C%02d" % i for i in range(1, 57)]
    if "--checks" in a:
        i = a.index("--checks")
        opts["checks"] = a[i + 1].split(",")
        del a[i:i + 2]
    if "--long" in a:
        opts["w"], opts["n"] = 1500, 3
    ps = [x.rstrip("/") for x in a if not x.startswith("--")]
    q = queue.Queue()
    for p in ps:
        q.put(p)
    lock = threading.Lock()

    def run(i):
        while True:
            try:
                p = q.get_nowait()
            except queue.Empty:
                return
            w = worker(i)
            try:
                o = one(w, p, opts)
            except Exception as e:
                o = "TRIAL ERROR %r" % e
            with lock:
                print("=== %s\n%s" % (p, o), flush=True)
    ts = [threading.Thread(target=run, args=(i,)) for i in range(min(N, len(ps)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
