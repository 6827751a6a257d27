"""Paths, environment and process helpers shared by the checks."""
import os, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
HOOKS = os.path.join(VERIF, "hooks")


def base_env():
    """The environment of /opt/vp/env.sh (the compiler and RocksDB variables the repository builds with)."""
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         capture_output=True, env=e).stdout
    for kv in out.split(b"\0"):
        k, _, v = kv.partition(b"=")
        if k:
            e[k.decode()] = v.decode(errors="replace")
    e.pop("PWD", None)
    e["CARGO_INCREMENTAL"] = "0"
    return e


_ENV = None


def env(**kw):
    global _ENV
    if _ENV is None:
        _ENV = base_env()
    e = dict(_ENV)
    for k, v in kw.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    return e


def run(cmd, timeout, env_=None, cwd=VERIF, out=None):
    """Runs a command in its own process group; returns (rc, output, timed_out)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd,
                         env=env_ or env(), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        kill_group(p)
        o, _ = p.communicate()
        to = True
    s = o.decode(errors="replace")
    if out:
        with open(out, "w") as f:
            f.write(s)
    return p.returncode, s, to


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


T0 = time.time()


def elapsed():
    return time.time() - T0
