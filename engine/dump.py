"""Build the MIR-dumping driver and dump the MIR of /repo's workspace crates (current working tree)."""
import os, subprocess, sys, glob, shutil, fcntl, json, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TGT = os.environ.get("VERIF_TGT") or os.path.join(VERIF, "target")
CRATES = ["halo_factory", "halo_pair", "halo_router", "halo_token", "haloswap", "bignumber"]


def _nightly():
    home = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup"))
    c = []
    for h in (home, "/root/.rustup"):
        # the toolchain that carries the compiler's own crates (rustc-dev)
        c += [p for p in sorted(glob.glob(os.path.join(h, "toolchains", "nightly-*", "bin", "rustc")), key=len)
              if glob.glob(os.path.join(os.path.dirname(os.path.dirname(p)), "lib", "rustlib", "*", "lib",
                                        "librustc_driver-*"))]
    if not c:
        raise RuntimeError("nightly toolchain not found")
    return os.path.dirname(os.path.dirname(c[0]))


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    tc = _nightly()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC=os.path.join(tc, "bin", "rustc"))
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    rc, out = _run([os.path.join(tc, "bin", "cargo"), "build", "--offline", "--target-dir", os.path.join(TGT, "driver")],
                   env, os.path.join(VERIF, "driver"))
    if rc != 0:
        raise RuntimeError("driver build failed:\n" + out[-4000:])
    return os.path.join(TGT, "driver", "debug", "mirdump")


def dump(outdir=None):
    """Returns (dir, cargo output). The workspace crates are always re-analysed."""
    os.makedirs(TGT, exist_ok=True)
    lock = open(os.path.join(TGT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        drv = build_driver()
        tc = _nightly()
        deps = os.path.join(TGT, "deps")
        outdir = outdir or os.path.join(TGT, "mir")
        if os.path.isdir(outdir):
            shutil.rmtree(outdir)
        os.makedirs(outdir)
        # cargo's freshness cache must never skip the analysis of a workspace crate
        for c in CRATES:
            for pat in {c, c.replace("_", "-")}:
                for sub in (".fingerprint", "build"):
                    for p in glob.glob(os.path.join(deps, "debug", sub, pat)) + glob.glob(
                            os.path.join(deps, "debug", sub, pat + "-*")):
                        shutil.rmtree(p, ignore_errors=True)
        env = dict(os.environ)
        for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        env.update(
            CARGO_NET_OFFLINE="true",
            CARGO_INCREMENTAL="0",
            MIRDUMP_RUSTC=os.path.join(tc, "bin", "rustc"),
            RUSTC=os.path.join(VERIF, "driver", "rustc-shim"),
            RUSTC_WORKSPACE_WRAPPER=drv,
            MIRDUMP_DIR=outdir,
            MIRDUMP_CRATES=",".join(CRATES),
            LD_LIBRARY_PATH=os.path.join(tc, "lib"),
            RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off --cap-lints=warn",
        )
        rc, out = _run([os.path.join(tc, "bin", "cargo"), "check", "--workspace", "--lib", "--offline", "--locked",
                        "--target-dir", deps], env, REPO)
        if rc != 0:
            raise RuntimeError("cargo check of the repository failed:\n" + out[-6000:])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(outdir, c + ".json"))]
        if missing:
            raise RuntimeError("no MIR dump for " + ", ".join(missing) + "\n" + out[-3000:])
        return outdir, out
    finally:
        lock.close()


if __name__ == "__main__":
    import time
    t = time.time()
    d, out = dump()
    print(out[-500:] if "-v" in sys.argv else "", d, "%.1fs" % (time.time() - t))
