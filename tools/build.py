#!/usr/bin/env python3
"""Builds what a check needs, from /repo's current working tree, below /verif/build.

build.py all        everything (the setup command)
build.py C06 ...    what these properties need

Every target has a stamp: a hash over the sources it is made of. A target whose stamp is current is left alone;
otherwise the fingerprints of the crates that may have changed are removed (time stamps are not trusted) and cargo
builds again.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIBS = os.path.join(BUILD, "libs")
H = os.path.join(VERIF, "harness")
NIGHTLY = "+nightly"

env0 = dict(os.environ)
for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    env0.pop(k, None)
env0.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")


def files(*roots):
    for r in roots:
        if os.path.isfile(r):
            yield r
            continue
        for d, ds, fs in sorted(os.walk(r)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                yield os.path.join(d, f)


def digest(extra, *roots):
    h = hashlib.sha256(extra.encode())
    for f in files(*roots):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as g:
            h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()


REPO_SRC = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")]
VARIANT_SRC = REPO_SRC + [os.path.join(H, "variant"), os.path.join(H, "vcore")]
DRIVER_SRC = [os.path.join(H, "driver"), os.path.join(H, "vcore"), os.path.join(H, "proptest")]
HOST = "x86_64-unknown-linux-gnu"
I686 = "i686-unknown-linux-gnu"


def cargo(args, cwd, env=None, toolchain=None):
    e = dict(env0)
    e.update(env or {})
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + args
    r = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError(f"{' '.join(cmd)} failed:\n{r.stdout[-6000:]}")


def forget(target, crates):
    for c in crates:
        for pat in (f"{target}/*/.fingerprint/{c}-*", f"{target}/*/*/.fingerprint/{c}-*"):
            for p in glob.glob(pat):
                shutil.rmtree(p, ignore_errors=True)


def forget_changed(target):
    """After a change in /repo only: the support crate stays."""
    note = os.path.join(target, "vcore.digest")
    d = digest("", os.path.join(H, "vcore"))
    old = open(note).read() if os.path.exists(note) else ""
    forget(target, ["jpeg-encoder", "variant"] + (["vcore"] if d != old else []))
    os.makedirs(target, exist_ok=True)
    with open(note, "w") as f:
        f.write(d)


def install(src, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = dst + ".new"
    shutil.copy2(src, tmp)
    os.replace(tmp, dst)


def built(name, key, outputs, make):
    """make() unless the stamp says the outputs are current."""
    stamp = os.path.join(BUILD, "stamps", name)
    try:
        if open(stamp).read() == key and all(os.path.exists(o) for o in outputs):
            return
    except OSError:
        pass
    make()
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    with open(stamp, "w") as f:
        f.write(key)


def native(name, features, profile):
    def go():
        t = os.path.join(BUILD, "t", name)
        lib = os.path.join(LIBS, name, "libvariant.so")
        wrk = os.path.join(LIBS, name, "worker")
        std = "std" in features or "simd" in features
        worker = std and profile == "release" and "count" not in features

        def make():
            forget_changed(t)
            a = ["build", "--offline", "--profile", profile, "--target-dir", t, "--lib"]
            if worker:
                a += ["--bin", "worker"]
            if features:
                a += ["--features", features]
            cargo(a, os.path.join(H, "variant"))
            install(os.path.join(t, profile, "libvariant.so"), lib)
            if worker:
                install(os.path.join(t, profile, "worker"), wrk)

        built(name, digest(f"{features} {profile}", *VARIANT_SRC), [lib] + ([wrk] if worker else []), make)

    return go


def coverage(name, features):
    def go():
        t = os.path.join(BUILD, "t", name)
        lib = os.path.join(LIBS, name, "libvariant.so")
        cov = os.path.join(H, "variant", "cov")

        def make():
            forget_changed(t)
            os.makedirs(t, exist_ok=True)
            rt = os.path.join(t, "covrt.o")
            subprocess.run(["gcc", "-O2", "-fPIC", "-c", os.path.join(cov, "covrt.c"), "-o", rt], check=True)
            cargo(
                ["build", "--offline", "--profile", "cov", "--target-dir", t, "--lib", "--features", features],
                os.path.join(H, "variant"),
                {"RUSTC_WRAPPER": os.path.join(cov, "rustc.sh"), "COVRT": rt},
            )
            install(os.path.join(t, "cov", "libvariant.so"), lib)

        built(name, digest(features, *VARIANT_SRC), [lib], make)

    return go


def asan(name, features, profile="release"):
    def go():
        t = os.path.join(BUILD, "t", name)
        wrk = os.path.join(LIBS, name, "worker")
        # release semantics (an overflow panic would hide the access behind it) plus the standard library's own
        # checks of unsafe preconditions
        flags = "-Zsanitizer=address -Zub-checks=yes -Cforce-frame-pointers=yes"

        def make():
            forget_changed(t)
            cargo(
                ["build", "--offline", "--profile", profile, "--target", HOST, "--target-dir", t, "--bin", "worker", "--features", features],
                os.path.join(H, "variant"),
                {"RUSTFLAGS": flags},
                NIGHTLY,
            )
            install(os.path.join(t, HOST, profile, "worker"), wrk)

        built(name, digest(flags + features + profile, *VARIANT_SRC), [wrk], make)

    return go


def tsan(name, features):
    # the standard library has to be instrumented as well
    def go():
        t = os.path.join(BUILD, "t", name)
        wrk = os.path.join(LIBS, name, "worker")
        flags = "-Zsanitizer=thread -Cforce-frame-pointers=yes -Copt-level=1"

        def make():
            forget_changed(t)
            cargo(
                ["build", "--offline", "-Zbuild-std=std,panic_unwind", "--release", "--target", HOST, "--target-dir", t, "--bin", "worker",
                 "--features", features],
                os.path.join(H, "variant"),
                {"RUSTFLAGS": flags},
                NIGHTLY,
            )
            install(os.path.join(t, HOST, "release", "worker"), wrk)

        built(name, digest(flags + features, *VARIANT_SRC), [wrk], make)

    return go


def override(name, features):
    # a standard library whose feature detection can be told (RUST_STD_DETECT_UNSTABLE) to miss a feature
    def go():
        t = os.path.join(BUILD, "t", name)
        wrk = os.path.join(LIBS, name, "worker")
        flags = '--cfg feature="std_detect_env_override"'

        def make():
            forget_changed(t)
            cargo(
                ["build", "--offline", "-Zbuild-std=std,panic_unwind", "--release", "--target", HOST, "--target-dir", t, "--bin", "worker",
                 "--features", features],
                os.path.join(H, "variant"),
                {"RUSTFLAGS": flags},
                NIGHTLY,
            )
            install(os.path.join(t, HOST, "release", "worker"), wrk)

        built(name, digest(flags + features, *VARIANT_SRC), [wrk], make)

    return go


def i686(name, features):
    return lambda: i686_build(name, features)


def i686_build(name, features):
    t = os.path.join(BUILD, "t", name)
    wrk = os.path.join(LIBS, name, "worker")
    link = os.path.join(H, "variant", "link32")

    def make():
        forget_changed(t)
        os.makedirs(t, exist_ok=True)
        start = os.path.join(t, "start.o")
        subprocess.run(["as", "--32", os.path.join(link, "start.s"), "-o", start], check=True)
        cargo(
            ["build", "--offline", "-Zbuild-std=std,panic_unwind", "--release", "--target", I686, "--target-dir", t,
             "--bin", "worker", "--features", features],
            os.path.join(H, "variant"),
            {
                "LD32_START": start,
                "CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER": os.path.join(link, "ld32.sh"),
                "RUSTFLAGS": "-C relocation-model=static",
            },
            NIGHTLY,
        )
        install(os.path.join(t, I686, "release", "worker"), wrk)

    built(name, digest(features, *VARIANT_SRC), [wrk], make)


def miri(name, triple, features, flags):
    """Compiles for the interpreter; the run with empty input also proves that it starts."""

    def go():
        t = os.path.join(BUILD, "t", name)
        sysroot = os.path.join(BUILD, "miri-sysroot")
        e = {"MIRI_SYSROOT": sysroot, "RUSTFLAGS": flags, "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"}
        ok = os.path.join(t, "ok")

        def make():
            if not os.path.isdir(os.path.join(sysroot, "lib/rustlib", triple, "lib")):
                e0 = {"MIRI_SYSROOT": sysroot}
                with lock("miri-sysroot"):
                    cargo(["miri", "setup", "--target", triple], H, e0, NIGHTLY)
            forget_changed(t)
            cargo(
                ["miri", "run", "--offline", "--target", triple, "--target-dir", t, "--bin", "worker", "--features", features],
                os.path.join(H, "variant"), e, NIGHTLY)
            open(ok, "w").close()

        built(name, digest(flags + features, *VARIANT_SRC), [ok], make)

    return go


class lock:
    def __init__(self, n):
        self.p = os.path.join(BUILD, n + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def giant():
    t = os.path.join(BUILD, "t", "giant")
    out = os.path.join(LIBS, "giant")

    def make():
        forget_changed(t)
        cargo(["build", "--offline", "--profile", "giant", "--target-dir", t, "--bin", "giant", "--features", "simd"], os.path.join(H, "variant"))
        install(os.path.join(t, "giant", "giant"), out)

    built("giant", digest("", *VARIANT_SRC), [out], make)


def driver():
    t = os.path.join(BUILD, "t", "driver")
    out = os.path.join(BUILD, "driver")

    def make():
        forget(t, ["driver", "vcore", "proptest"])
        cargo(["build", "--offline", "--release", "--target-dir", t], os.path.join(H, "driver"))
        install(os.path.join(t, "release", "driver"), out)

    built("driver", digest("", *DRIVER_SRC), [out], make)


def shim():
    src = os.path.join(H, "driver", "shim.c")
    out = os.path.join(LIBS, "ljshim.so")

    def make():
        os.makedirs(LIBS, exist_ok=True)
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", src, "-o", out, "-ldl"], check=True)

    built("shim", digest("", src), [out], make)


TARGETS = {
    "driver": driver,
    "shim": shim,
    "scalar-release": native("scalar-release", "std,sinks", "release"),
    "scalar-checked": native("scalar-checked", "std,sinks", "checked"),
    "simd-release": native("simd-release", "simd,sinks", "release"),
    "simd-checked": native("simd-checked", "simd,sinks", "checked"),
    "nostd-release": native("nostd-release", "", "release"),
    "count-scalar": native("count-scalar", "std,count", "release"),
    "count-simd": native("count-simd", "simd,count", "release"),
    "count-nostd": native("count-nostd", "count", "release"),
    "cov-scalar": coverage("cov-scalar", "std,sinks,cov"),
    "cov-simd": coverage("cov-simd", "simd,sinks,cov"),
    "i686": i686("i686", "std,sinks"),
    "i686-simd": i686("i686-simd", "simd,sinks"),
    "asan-simd": asan("asan-simd", "simd,sinks"),
    "asan-scalar": asan("asan-scalar", "std,sinks"),
    # every access of the source is still there
    "asan-plain": asan("asan-plain", "simd,sinks", "plain"),
    "tsan-simd": tsan("tsan-simd", "simd,sinks"),
    "tsan-scalar": tsan("tsan-scalar", "std,sinks"),
    "noavx-simd": override("noavx-simd", "simd,sinks"),
    "giant": giant,
    "miri-x86": miri("miri-x86", HOST, "simd", "-Ctarget-feature=+avx2"),
    "miri-s390x": miri("miri-s390x", "s390x-unknown-linux-gnu", "std", ""),
}
BASE = ["driver", "shim", "scalar-release", "scalar-checked", "simd-release", "simd-checked", "nostd-release", "cov-scalar", "cov-simd"]
NEEDS = {
    "C04": BASE + ["giant"],
    "C05": BASE + ["i686"],
    "C06": BASE + ["i686", "i686-simd", "noavx-simd", "miri-s390x"],
    "C22": BASE + ["count-scalar", "count-simd", "count-nostd"],
    "C07": BASE + ["asan-simd", "asan-scalar", "asan-plain", "miri-x86", "tsan-simd", "tsan-scalar"],
    "C19": BASE + ["tsan-simd", "tsan-scalar"],
}


def main():
    want = []
    for a in sys.argv[1:]:
        for t in list(TARGETS) if a == "all" else [a] if a in TARGETS else NEEDS.get(a, BASE):
            if t not in want:
                want.append(t)
    os.makedirs(LIBS, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "stamps"), exist_ok=True)
    with lock("build"):
        with ThreadPoolExecutor(12) as ex:
            jobs = [(t, ex.submit(TARGETS[t])) for t in want]
            bad = 0
            for t, j in jobs:
                try:
                    j.result()
                except Exception as e:
                    bad = 1
                    print(f"HARNESS ERROR: building {t}: {e}", file=sys.stderr)
    sys.exit(2 if bad else 0)


main()
