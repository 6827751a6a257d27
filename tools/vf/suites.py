"""The bounded layer: builds the driver (and the server) from /repo and runs suites of generated histories."""
import json, os, re, shutil, socket, subprocess, tempfile, time
from .common import VERIF, REPO, WORK, TARGET, HOOKS, env, run, log, kill_group

SERVER_SUITES = {"wire", "cursor", "reply", "session"}
RULES = {
    "keys": "random sequences of key values (all encodable BSON types, NUL and non-ASCII strings, prefixes of each other) used as collection names, _ids and indexed values; non-trivial: at least two different keys are stored",
    "query": "random documents and a random filter (all operators, nesting, dotted paths), compared with a reference evaluator; non-trivial: some document exists",
    "member": "random numeric values of all numeric types at the edges of int32/int64/double in $eq/$ne/$in/$nin/$all/$elemMatch-like membership; non-trivial: two numeric types meet",
    "order": "random pairs and triples of values of all types compared through $gt/$gte/$lt/$lte/$eq and sort",
    "indexq": "random indexes, documents and filters; the indexed collection is compared with its index-free twin",
    "update": "random updates (all operators) against a reference document updater, update_one / update_many / upsert",
    "arith": "$inc/$mul chains at the edges of the integer types against exact arithmetic",
    "history": "random histories of operations over several collections, transactions, index changes and reopenings, with the raw key-value store compared to the model after every few steps",
    "aggregate": "random pipelines against a reference evaluator",
    "sort": "random sort keys, skip and limit against a stable reference order",
    "garbage": "random well- and ill-formed filters, updates and pipelines: an error or a result, never a panic, hang or stack underflow",
    "wire": "streams of valid, compressed, concatenated and broken wire messages over a raw socket",
    "cursor": "several interleaved find/aggregate cursors with random batch sizes, getMore and killCursors",
    "reply": "random supported and failing commands with random request ids; every reply is parsed strictly and counts are compared with the model",
    "session": "interleaved commands of two sessions and of none in and out of transactions",
    "known": "the recorded known findings",
}


class BuildError(Exception):
    pass


def build_driver():
    """(path, hooks?, notes)"""
    man = os.path.join(VERIF, "driver", "Cargo.toml")
    notes = []
    for hooks in (True, False):
        e = env(CARGO_TARGET_DIR=os.path.join(TARGET, "driver"))
        cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", man]
        if hooks:
            e["RUSTFLAGS"] = "--cfg polodb_verif -A warnings"
            e["POLODB_VERIF_DIR"] = HOOKS
            cmd += ["--features", "hooks"]
        else:
            e["RUSTFLAGS"] = "-A warnings"
        rc, o, to = run(cmd, 700, e)
        if rc == 0:
            return os.path.join(TARGET, "driver", "debug", "polodb_verif_driver"), hooks, notes
        notes.append("driver build %s hooks failed: %s" % ("with" if hooks else "without", o[-1500:]))
    raise BuildError(notes[-1])


def build_server():
    e = env(CARGO_TARGET_DIR=os.path.join(TARGET, "server"), RUSTFLAGS="-A warnings -C overflow-checks=on")
    rc, o, to = run(["cargo", "build", "--offline", "--locked", "--manifest-path", REPO + "/Cargo.toml", "-p", "polodb"],
                    700, e, cwd=REPO)
    if rc != 0:
        raise BuildError("server build failed: " + o[-1500:])
    return os.path.join(TARGET, "server", "debug", "polodb")


def scratch():
    for base in ("/dev/shm", "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            try:
                return tempfile.mkdtemp(prefix="plverif", dir=base)
            except OSError:
                pass
    return tempfile.mkdtemp(prefix="plverif")


class Server:
    def __init__(self, binary):
        self.dir = scratch()
        self.err = os.path.join(self.dir, "stderr")
        for attempt in range(8):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            port = s.getsockname()[1]
            s.close()
            f = open(self.err, "wb")
            self.p = subprocess.Popen([binary, "serve", "--path", os.path.join(self.dir, "db%d" % attempt), "--host", "127.0.0.1",
                                       "--port", str(port)], stdout=subprocess.DEVNULL, stderr=f, cwd=self.dir,
                                      env=env(), start_new_session=True)
            f.close()
            for _ in range(150):
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", port), 1).close()
                    self.addr = "127.0.0.1:%d" % port
                    return
                except OSError:
                    time.sleep(0.1)
            kill_group(self.p)
        raise BuildError("the server does not start: " + open(self.err, errors="replace").read()[-500:])

    def stop(self):
        kill_group(self.p)
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def run_one(binary, server_bin, suite, prop, seed, out, extra, limit):
    """One driver process; returns (rc, report or None, tail of output)."""
    if os.path.exists(out):
        os.unlink(out)
    srv = None
    e = env(RUST_BACKTRACE="0")
    try:
        if suite in SERVER_SUITES:
            srv = Server(server_bin)
            e["POLODB_SERVER_ADDR"] = srv.addr
            e["POLODB_SERVER_STDERR"] = srv.err
        p = subprocess.Popen([binary, suite, "--prop", prop, "--seed", str(seed), "--out", out] + extra,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=WORK)
        try:
            o, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            kill_group(p)
            o, _ = p.communicate()
        kill_group(p)
    finally:
        if srv:
            srv.stop()
    rep = None
    try:
        rep = json.load(open(out))
    except (OSError, ValueError):
        pass
    return p.returncode, rep, o.decode(errors="replace")[-3000:]


def run_suite(binary, server_bin, suite, prop, seed, time_ms, shards, wdir):
    """Runs `shards` processes side by side; returns dict with cases, stats, failures."""
    from concurrent.futures import ThreadPoolExecutor
    t = time.time()

    def one(i):
        out = os.path.join(wdir, "%s.%d.json" % (suite, i))
        return run_one(binary, server_bin, suite, prop, seed, out,
                       ["--time-ms", str(time_ms), "--from", str(i), "--stride", str(shards)], time_ms / 1000 + 120)

    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    res = {"suite": suite, "cases": 0, "foreign": 0, "stats": {}, "failures": [], "errors": [],
           "foreign_samples": [], "rule": RULES.get(suite, "")}
    for i, (rc, rep, tail) in enumerate(rs):
        if rep is None:
            # the process ended without a report: killed by a signal (abort, stack overflow, out of memory)
            if rc is not None and rc < 0:
                res["failures"].append({"case": None, "tags": ["*"], "what": "the process was ended by signal %d: %s" % (-rc, tail[-600:]),
                                        "trace": [tail], "shard": i, "signal": -rc})
            else:
                res["errors"].append("suite %s shard %d: no report (exit %s): %s" % (suite, i, rc, tail[-800:]))
            continue
        res["cases"] += rep.get("cases", 0)
        res["foreign"] += rep.get("foreign", 0)
        res["foreign_samples"] += rep.get("foreign_samples", [])[:1]
        for k, v in rep.get("stats", {}).items():
            res["stats"][k] = res["stats"].get(k, 0) + v
        if rep.get("failure"):
            f = rep["failure"]
            f["shard"] = i
            res["failures"].append(f)
    res["wall_s"] = round(time.time() - t, 1)
    return res


def confirm(binary, server_bin, suite, prop, seed, f, wdir):
    """Runs the failing case alone; returns True if it fails again."""
    if f.get("case") is None:
        return None
    out = os.path.join(wdir, "%s.confirm.json" % suite)
    rc, rep, tail = run_one(binary, server_bin, suite, prop, seed, out, ["--only", str(f["case"]), "--time-ms", "60000"], 120)
    if rep is None:
        return rc is not None and rc < 0
    return rep.get("failure") is not None
