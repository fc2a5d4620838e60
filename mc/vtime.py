"""The virtual clock: re-executes the interpreter under the LD_PRELOAD shim and sets its time."""
import ctypes, os, subprocess, sys, tempfile, hashlib

_lib = None


def shim_path():
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vtime.c")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    d = os.environ.get("MC_BUILD") or os.path.join(tempfile.gettempdir(), "mc-build-%d" % os.getuid())
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, f"vtime-{h}.so")
    if not os.path.exists(so):
        tmp = f"{so}.{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True)
        os.replace(tmp, so)
    return so


PY = "/opt/venv/bin/python"


def ensure():
    """Re-exec under the shim with fixed hashing, unless already so."""
    if os.environ.get("MC_SHIM"): return
    env = dict(os.environ)
    env["MC_SHIM"] = so = shim_path()
    env["LD_PRELOAD"] = so
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["MC_PYCACHE"] = "1"
    for k in list(env):
        if k.startswith(("OTEL_", "DOCKET_")): del env[k]
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py] + sys.argv, env)


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["MC_SHIM"])
        _lib.vt_set.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
    return _lib


def set_ns(wall, mono): lib().vt_set(1, wall, mono)
def off(): lib().vt_set(0, 0, 0)
