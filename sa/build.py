"""Compile the analysis driver and dump the typed intermediate representation of /repo's current source."""
import fcntl
import os
import shutil
import subprocess

REPO = os.environ.get("OPTSA_REPO", "/repo")
TOOLCHAIN = "+nightly"
CRATES = ("optlib", "optlib-testfunc")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0:
        raise BuildError("%s failed (%d)\n%s" % (" ".join(cmd), p.returncode, out[-6000:]))
    return out


def driver(here):
    b = os.path.join(here, "build")
    os.makedirs(b, exist_ok=True)
    src = os.path.join(here, "driver", "main.rs")
    exe = os.path.join(b, "driver")
    stamp = os.path.join(b, "driver.src")
    text = open(src).read()
    ver = sh(["rustc", TOOLCHAIN, "-vV"])
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == ver + text):
        tmp = exe + ".%d" % os.getpid()
        sh(["rustc", TOOLCHAIN, "-O", "--cap-lints=allow", src, "-o", tmp])
        os.replace(tmp, exe)
        open(stamp, "w").write(ver + text)
    return exe


def dump(here, repo=None):
    """directory with one JSON file per library crate of the workspace"""
    repo = repo or REPO
    b = os.path.join(here, "build")
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe = driver(here)
        out = os.path.join(b, "ir")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        root = sh(["rustc", TOOLCHAIN, "--print", "sysroot"]).strip().splitlines()[-1]
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        env.pop("RUSTC_WRAPPER", None)
        env["CARGO_TARGET_DIR"] = os.path.join(b, "target")
        env["CARGO_INCREMENTAL"] = "0"
        env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"     # what must hold must hold in release builds too
        env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
        env["LD_LIBRARY_PATH"] = root + "/lib:" + env.get("LD_LIBRARY_PATH", "")
        cargo = ["cargo", TOOLCHAIN]
        sh(cargo + ["clean", "--offline"] + [x for c in CRATES for x in ("-p", c)], cwd=repo, env=env)
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["OPTSA_OUT"] = out
        text = sh(cargo + ["check", "--offline", "--lib", "--workspace"], cwd=repo, env=env)
        got = sorted(os.listdir(out))
        if "optlib.json" not in got or "optlib_testfunc.json" not in got:
            raise BuildError("no intermediate representation was written (%s)\n%s" % (got, text[-3000:]))
        mine = os.path.join(b, "ir.%d" % os.getpid())
        shutil.rmtree(mine, ignore_errors=True)
        os.rename(out, mine)
        return mine
