"""Build the compiler driver and dump the typed MIR of /repo's current tree."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class BuildError(Exception):
    pass


def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def dump():
    """-> parsed dump; everything is rebuilt from the working tree in a scratch directory"""
    dev = os.environ.get("KPDB_VERIF_DUMP")
    if dev:
        return json.load(open(dev))
    tmp = tempfile.mkdtemp(prefix="kpdb-verif-")
    try:
        env = dict(os.environ)
        for v in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
            env.pop(v, None)
        root = run(["rustc", "+nightly", "--print", "sysroot"], cwd=tmp, env=env).strip()
        drv = os.path.join(tmp, "driver")
        run(["rustc", "+nightly", "--edition", "2021", "-O", os.path.join(HERE, "driver", "driver.rs"), "-o", drv],
            cwd=tmp, env=env)
        out = os.path.join(tmp, "dump.json")
        env.update({"LD_LIBRARY_PATH": root + "/lib", "KPDB_DUMP": out, "RUSTC_WORKSPACE_WRAPPER": drv,
                    "CARGO_TARGET_DIR": os.path.join(tmp, "target"), "CARGO_NET_OFFLINE": "true"})
        run(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=REPO, env=env)
        if not os.path.exists(out):
            raise BuildError("the compiler driver produced no dump")
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
