"""Builds the MIR extractor and runs it over /repo's current working tree. Result cached by content hash."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
B = os.path.join(VERIF, ".build")
CRATES = ["ssbh_lib", "ssbh_data", "ssbh_write", "ssbh_write_derive", "ssbh_data_json", "ssbh_lib_json", "ssbh_test"]


class ExtractError(Exception):
    pass


def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def env0():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def files():
    out = []
    for c in CRATES:
        for r, ds, fs in os.walk(os.path.join(REPO, c)):
            ds[:] = [d for d in ds if d not in ("target", ".git")]
            out += [os.path.join(r, f) for f in fs if f.endswith((".rs", ".toml", ".lock"))]
    for f in ("Cargo.toml", "Cargo.lock"):
        out.append(os.path.join(REPO, f))
    for d in ("driver", "roots"):
        for r, ds, fs in os.walk(os.path.join(VERIF, d)):
            ds[:] = [x for x in ds if x != "target"]
            out += [os.path.join(r, f) for f in fs if f.endswith((".rs", ".toml", ".lock"))]
    return sorted(x for x in out if os.path.isfile(x))


def tree_hash():
    h = hashlib.sha256()
    for f in files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    e = env0()
    t = os.path.join(B, "drv")
    rc, out = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", t], os.path.join(VERIF, "driver"), e)
    if rc:
        raise ExtractError("the extractor does not build:\n" + out[-4000:])
    return os.path.join(t, "release", "sa_driver")


def extract():
    """-> dict(mono=path, facts={crate: path}, hash=...)"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        h = tree_hash()
        out = os.path.join(B, "out", h)
        done = os.path.join(out, "done")
        if not os.path.exists(done):
            base = os.path.join(B, "out")
            if os.path.isdir(base):
                for x in os.listdir(base):
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)
            os.makedirs(out, exist_ok=True)
            tgt = os.path.join(B, "tgt")
            # cargo's freshness test would skip the extractor: drop what it holds of these crates
            for sd in ("build", "deps", ".fingerprint"):
                p = os.path.join(tgt, "debug", sd)
                if os.path.isdir(p):
                    for x in os.listdir(p):
                        y = x[3:] if x.startswith("lib") else x
                        if y.split("-")[0] in ("sa_roots", "ssbh_lib", "ssbh_data", "ssbh_write", "ssbh_write_derive"):
                            q = os.path.join(p, x)
                            shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
            e = env0()
            rc, sr = sh(["rustc", "+nightly", "--print", "sysroot"], VERIF, e)
            if rc:
                raise ExtractError(sr)
            e.update(LD_LIBRARY_PATH=sr.strip().splitlines()[-1] + "/lib", RUSTC_WRAPPER=drv, SA_OUT=out, SA_MONO="sa_roots",
                     SA_FACTS="ssbh_lib,ssbh_data,ssbh_write", CARGO_INCREMENTAL="0",
                     RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on --cap-lints=allow")
            rc, o = sh(["cargo", "+nightly", "check", "--offline", "--target-dir", tgt], os.path.join(VERIF, "roots"), e)
            if rc or not os.path.exists(os.path.join(out, "sa_roots.json")):
                raise ExtractError("the tree does not build under the extractor:\n" + o[-6000:])
            open(done, "w").close()
        return {"mono": os.path.join(out, "sa_roots.json"), "facts": out, "hash": h}


if __name__ == "__main__":
    print(extract())
