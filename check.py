#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

    check.py PROP              quick or thorough, by VERIF_TIER; seeded by VERIF_SEED
    check.py --replay FILE     runs the recorded case again
    check.py --literals        prints the words and numbers of the code (for dict.base)
    check.py --setup           checks that everything needed is here, by building once

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
REPO = re.search(r'^ledger-rs-lib = .*path = "([^"]+)"', open(os.path.join(HARNESS, "Cargo.toml")).read(), re.M).group(1)
JOBS = max(1, min(8, os.cpu_count() or 1))
HOST = "x86_64-unknown-linux-gnu"

# Workloads: property -> tier -> flavour -> (cases, seconds). The seconds are a ceiling for slow
# machines; the number of cases is what normally ends a run.
CASES = {
    # prop: (dev quick, release quick)
    "C01": (1600, 24000), "C02": (3000, 60000), "C03": (2400, 40000), "C04": (3600, 60000),
    "C05": (800, 10000), "C06": (3000, 60000), "C07": (3600, 60000), "C08": (2000, 40000),
    "C09": (2000, 40000), "C10": (6000, 120000), "C11": (1200, 12000), "C12": (1200, 16000),
    "C13": (240, 4000), "C14": (800, 10000), "C15": (320, 4000), "C16": (3200, 60000),
    "C17": (1200, 24000), "C18": (800, 9000),
}

RULES = {
    "C01": "random supported journals (accounts, commodities, costs, lots, elided amounts, extreme amounts), loaded in 1-4 steps; non-trivial: at least two postings",
    "C02": "random journals rich in elided amounts (single commodity, none, costs, extreme values); non-trivial: at least one elided amount was compared",
    "C03": "random journals with odd spacing, comments and blank lines, up to 2000 transactions, loaded in 1-4 steps; non-trivial: at least one transaction",
    "C04": "random journals with all amount notations and extreme values, and transactions with an unreadable number; non-trivial: at least one posting",
    "C05": "random histories of registrations, lookups and sub-account requests; non-trivial: at least two accounts",
    "C06": "random journals and random histories of commodity requests, prices and amounts; non-trivial: at least two commodities",
    "C07": "random journals rich in written and implied costs; non-trivial: at least one posting is due a cost",
    "C08": "random journals rich in price directives and costs on colliding dates, then API prices; non-trivial: at least one price is due",
    "C09": "random price graphs (sparse, dense, long chains), all ordered pairs looked up; non-trivial: at least one pair",
    "C10": "random exchanges of amounts against costs, with and without lot prices; non-trivial: at least one exchange",
    "C11": "random journals in several steps and moved around, mutated and garbage texts, API histories; non-trivial: something was loaded",
    "C12": "random journals rich in notes and comments, compared with the same text without some of them; non-trivial: at least one note",
    "C13": "random journals delivered in pieces, with interruptions, other line ends, several loads, files and includes; non-trivial: at least one transaction",
    "C14": "random journals loaded between others, queried and loaded by several threads; non-trivial: at least one transaction",
    "C15": "random journals in files with odd names, commands as list, as string and through the program, and failing commands; non-trivial: at least one file and one transaction",
    "C16": "random pairs of amounts of all signs, sizes and scales, and balances in random order; every case is non-trivial",
    "C18": "random journals assembled through the API in different orders, alone and mixed with loads; non-trivial: at least one transaction",
    "C17": "transactions that must be refused, failing readers, invalid UTF-8 and hostile texts after complete entries; non-trivial: the text is not empty",
}

LEVEL = {"C17": "fault_enumeration"}


def plan(prop, tier):
    dev, rel = CASES[prop]
    if tier == "quick":
        p = [("dev", 0, dev * 3, 60), ("release", 10**6, rel * 4, 90)]
        if prop == "C11":
            p += [("asan", 2 * 10**6, 4800, 90), ("miri", 3 * 10**6, 64, 150)]
        if prop == "C14":
            p += [("miri", 3 * 10**6, 16, 150)]
        return p
    # all phases together stay below a quarter of an hour
    p = [("dev", 0, dev * 60, 120), ("release", 10**6, rel * 100, 420), ("asan", 5 * 10**6, dev * 10, 120)]
    if prop == "C11":
        p = [("dev", 0, dev * 20, 70), ("release", 10**6, rel * 20, 70), ("asan", 2 * 10**6, 60000, 200), ("miri", 3 * 10**6, 2000, 260),
             ("memcheck", 4 * 10**6, 1600, 120)]
    elif prop == "C14":
        p = [("dev", 0, dev * 60, 100), ("release", 10**6, rel * 100, 250), ("asan", 5 * 10**6, dev * 10, 100), ("miri", 3 * 10**6, 400, 220)]
    elif prop in ("C05", "C06", "C09", "C10", "C16"):
        p = [("dev", 0, dev * 60, 100), ("release", 10**6, rel * 100, 330), ("asan", 5 * 10**6, dev * 10, 100), ("miri", 3 * 10**6, 160, 150)]
    return p


HOOKS = [True]


def env_for(flavour):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_BUILD") and k not in ("RUSTFLAGS", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    flags = "--cap-lints warn" + (" --cfg verif_hooks" if HOOKS[0] else "")
    e["RUSTUP_TOOLCHAIN"] = "1.85.1"
    if flavour == "asan":
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        flags += " -Zsanitizer=address -Cdebug-assertions=on"
        e["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0"
    elif flavour == "miri":
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
    e["RUSTFLAGS"] = flags
    e.pop("VMON_DICT", None)
    if WORDS[0]:
        e["VMON_DICT"] = WORDS[0]
    return e


WORDS = [None]
TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|b?"(?:\\.|[^"\\])*"|r#*"[^"]*"#*|\'(?:\\[^u]|\\u\{[0-9a-fA-F]+\}|[^\'\\])\'|0x[0-9a-fA-F_]+|\b\d[\d_]*(?:\.\d+)?', re.S)


def literals():
    """The words and numbers that stand in the code, test modules aside."""
    words, numbers = set(), set()
    src = os.path.join(REPO, "src")
    for d, _, names in os.walk(src):
        for n in sorted(names):
            if not n.endswith(".rs") or n == "verif_hooks.rs":
                continue
            text = open(os.path.join(d, n), errors="replace").read().split("#[cfg(test)]")[0]
            for t in TOKEN.findall(text):
                if t.startswith("/"):
                    continue
                if t[0].isdigit():
                    t = t.replace("_", "")
                    if t.startswith("0x"):
                        t = str(int(t, 16))
                    if len(t) <= 15:
                        numbers.add(t)
                    continue
                t = t.lstrip("br#").strip("#")[1:-1]
                t = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)) if int(m.group(1), 16) < 0x110000 else "", t)
                t = t.replace('\\"', '"').replace("\\'", "'").replace("\\\\", "\\")
                if t.strip() and "\n" not in t and len(t) <= 80:
                    words.add(t)
                    # a number or a date in quotes
                    numbers.update(x for x in re.findall(r"\d+(?:\.\d+)?", t) if len(x) <= 15)
    for t in list(numbers):
        if re.fullmatch(r"\d+\.0+", t):
            numbers.add(t.split(".")[0])
    return words, numbers


def dictionary(work):
    """What steers some of the cases; literals that are not in dict.base count as new."""
    words, numbers = literals()
    try:
        base = set(open(os.path.join(HERE, "dict.base"), encoding="utf-8").read().split("\n"))
    except OSError:
        base = set()
    path = os.path.join(work, "dict")
    with open(path, "w", encoding="utf-8") as f:
        for k, v in (("w", words), ("n", numbers)):
            for t in sorted(v):
                f.write("%s1 %s\n" % (k, t))
                if "%s %s" % (k, t) not in base:
                    f.write("%s0 %s\n" % (k, t))
    WORDS[0] = path


class NoAnswer(Exception):
    pass


def target(flavour):
    return os.path.join(TARGET, {"memcheck": "dev"}.get(flavour, flavour))


def build(flavour):
    """Builds the monitors together with /repo's library; returns the command prefix."""
    if HOOKS[0]:
        try:
            return build_once(flavour)
        except NoAnswer as e:
            # where the observation points no longer fit the code, do without what they show
            print("building without the hooks: %s" % str(e)[-400:])
            HOOKS[0] = False
    return build_once(flavour)


def build_once(flavour):
    e = env_for(flavour)
    base = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", target(flavour)]
    if flavour in ("dev", "memcheck"):
        cmd, exe = base, ["debug/vmon"]
    elif flavour == "release":
        cmd, exe = base + ["--release"], ["release/vmon"]
    elif flavour == "asan":
        cmd, exe = base + ["--target", HOST], [HOST + "/debug/vmon"]
    elif flavour == "miri":
        # builds, and interprets nothing
        cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", target(flavour), "--bin", "vmon", "--"]
        r = subprocess.run(cmd + worker_args("C16", 1, 0, 0, 1, 1, "/nonexistent-miri-warm-up", None, None), env=e, capture_output=True, text=True, errors="replace")
        # the warm-up ends when it cannot make its scratch directory
        if "error: could not compile" in r.stderr or "error[E" in r.stderr:
            raise NoAnswer("build for %s failed:\n%s" % (flavour, r.stderr[-3000:]))
        return cmd
    r = subprocess.run(cmd, env=e, capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        raise NoAnswer("build for %s failed:\n%s" % (flavour, r.stderr[-6000:]))
    path = os.path.join(target(flavour), exe[0])
    if flavour == "memcheck":
        return ["valgrind", "--quiet", "--error-exitcode=99", "--leak-check=no", "--track-origins=no", path]
    return [path]


def worker_args(prop, seed, lo, hi, step, seconds, scratch, out, progress, small=False, extra=()):
    a = ["--prop", prop, "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--step", str(step), "--seconds", str(seconds), "--scratch", scratch]
    if out:
        a += ["--out", out]
    if progress:
        a += ["--progress", progress]
    if small:
        a += ["--small"]
    return a + list(extra)


def limits(flavour, cpu=None):
    def f():
        os.setpgrp()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavour in ("dev", "release"):
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


STALL = {"dev": 90, "release": 60, "asan": 150, "miri": 600, "memcheck": 600}
MEMORY = re.compile(r"AddressSanitizer|Undefined Behavior|error: unsupported operation|Invalid (read|write)|uninitialised|Data race")


class Shard:
    def __init__(self, res, prop, seed, flavour, cmd, lo, hi, deadline, work, stop):
        self.__dict__.update(locals())

    def run(self):
        if self.stop.is_set() or time.time() >= self.deadline:
            return
        name = "%s-%d" % (self.flavour, self.lo)
        out, prog, err = (os.path.join(self.work, name + x) for x in (".out", ".progress", ".err"))
        scratch = os.path.join(self.work, "scratch-" + name)
        small = self.flavour in ("miri", "memcheck")
        extra = []
        if self.prop == "C15":
            extra = ["--bin", os.path.join(os.path.dirname(self.cmd[-1]), "ledgercli")]
        seconds = max(1, self.deadline - time.time())
        args = self.cmd + worker_args(self.prop, self.seed, self.lo, self.hi, 1, seconds, scratch, out, prog, small, extra)
        stalled = False
        with open(err, "wb") as ef:
            p = subprocess.Popen(args, env=env_for(self.flavour), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=limits(self.flavour))
            last, since = None, time.time()
            while True:
                try:
                    p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    cur = open(prog).read()
                except OSError:
                    cur = None
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > STALL[self.flavour]:
                    stalled = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        done = self.collect(out)
        shutil.rmtree(scratch, ignore_errors=True)
        if p.returncode == 3:
            raise NoAnswer("the harness failed: %s" % open(err, errors="replace").read()[-2000:])
        if done and p.returncode == 0:
            return
        try:
            case = int(open(prog).read().strip())
        except (OSError, ValueError):
            raise NoAnswer("a %s worker ended with %s before its first case: %s" % (self.flavour, p.returncode, open(err, errors="replace").read()[-2000:]))
        text = open(err, errors="replace").read()
        if stalled:
            self.alone(case)
        elif "unsupported operation" in text:
            raise NoAnswer("the interpreter does not support an operation: %s" % text[-2000:])
        elif p.returncode == -signal.SIGKILL:
            raise NoAnswer("a %s worker was killed in case %d" % (self.flavour, case))
        else:
            m = MEMORY.search(text)
            what = "%s: %s" % ("memory error" if m else "crash (exit %s)" % p.returncode, brief(text, m))
            self.res.violation(self, case, what, "", text[-20000:])

    def alone(self, case):
        """A case that takes too long is run alone, with a limit on its own CPU time."""
        scratch = os.path.join(self.work, "alone-%d" % case)
        extra = ["--bin", os.path.join(os.path.dirname(self.cmd[-1]), "ledgercli")] if self.prop == "C15" else []
        args = self.cmd + worker_args(self.prop, self.seed, case, case + 1, 1, 10**6, scratch, None, None, self.flavour in ("miri", "memcheck"), extra)
        cpu = {"dev": 120, "release": 120}.get(self.flavour, 600)
        p = subprocess.run(args, env=env_for(self.flavour), stdin=subprocess.DEVNULL, capture_output=True, preexec_fn=limits(self.flavour, cpu))
        shutil.rmtree(scratch, ignore_errors=True)
        if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL) and self.flavour in ("dev", "release"):
            self.res.violation(self, case, "does not end (%d s of CPU time)" % cpu, "", "")
        elif p.returncode != 0:
            raise NoAnswer("case %d stalled, then ended with %s when run alone" % (case, p.returncode))

    def collect(self, out):
        done = False
        try:
            lines = open(out, errors="replace").read().splitlines()
        except OSError:
            return False
        for l in lines:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            t = d["t"]
            if t == "viol":
                self.res.violation(self, d["case"], d["what"], d["input"], "")
            elif t == "counter":
                self.res.counter(self.flavour, d["k"], d["v"])
            elif t == "hashes":
                self.res.seen(d["v"])
            elif t == "sample":
                self.res.sample(self.flavour, d)
            elif t == "done":
                done = True
                self.res.evaluated(self.flavour, d["evaluations"])
        return done


def brief(text, m):
    lines = [l for l in text.splitlines() if l.strip()]
    for l in lines:
        if MEMORY.search(l):
            return l.strip()[:300]
    return " / ".join(lines[-3:])[:300]


class Results:
    def __init__(self, prop, seed, known):
        self.lock = threading.Lock()
        self.prop, self.seed, self.known = prop, seed, known
        self.violations, self.listed = [], []
        self.counters, self.evals, self.hashes, self.samples = {}, {}, set(), []

    def violation(self, shard, case, what, inp, log):
        with self.lock:
            v = {"property": self.prop, "seed": self.seed, "case": case, "flavour": shard.flavour, "what": what, "input": inp, "log": log}
            k = known_entry(self.known, v)
            (self.listed if k else self.violations).append(k or v)
            if not k:
                shard.stop.set()

    def counter(self, flavour, k, v):
        with self.lock:
            d = self.counters.setdefault(flavour, {})
            d[k] = max(d.get(k, 0), v) if k.startswith("max_") else d.get(k, 0) + v

    def seen(self, v):
        with self.lock:
            self.hashes.update(v)

    def sample(self, flavour, d):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append({"flavour": flavour, "case": d["case"], "input": d["input"]})

    def evaluated(self, flavour, n):
        with self.lock:
            self.evals[flavour] = self.evals.get(flavour, 0) + n


def known_findings():
    """Lines `known: property=<id> input=<sha256 of the failing input> <what fails>`."""
    r = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) input=([0-9a-f]{64}) (.*)", l)
            if m:
                r.append(m.groups())
    return r


def known_entry(known, v):
    h = hashlib.sha256(v["input"].encode()).hexdigest()
    for p, sha, what in known:
        if p == v["property"] and sha == h:
            return (p, what)
    return None


def write_replay(v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-s%s-c%s.json" % (v["property"], v["flavour"], v["seed"], v["case"]))
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    phases = plan(prop, tier)
    flavours = [f for f, _, _, _ in phases]
    work = tempfile.mkdtemp(prefix="vmon-")
    res = Results(prop, seed, known_findings())
    try:
        cmds = {}
        first, *others = [f for f in flavours if f != "memcheck"]
        cmds[first] = build(first)
        dictionary(work)
        if not HOOKS[0] and prop in ("C08", "C09"):
            raise NoAnswer("the price history cannot be observed")
        with cf.ThreadPoolExecutor(2) as ex:
            futs = {f: ex.submit(build, f) for f in others}
            for f, fu in futs.items():
                cmds[f] = fu.result()
        if "memcheck" in flavours:
            cmds["memcheck"] = build("memcheck")
        build_s = time.time() - start
        stop = threading.Event()
        for f, base, cases, seconds in phases:
            if stop.is_set():
                break
            pieces = min(cases, 8 * JOBS if f in ("dev", "release", "asan") else JOBS)
            size = -(-cases // pieces)
            deadline = time.time() + seconds
            shards = [Shard(res, prop, seed, f, cmds[f], base + lo, base + min(lo + size, cases), deadline, work, stop) for lo in range(0, cases, size)]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for fu in [ex.submit(s.run) for s in shards]:
                    fu.result()
    except NoAnswer as e:
        print("NO ANSWER for %s: %s" % (prop, e))
        if not res.violations:
            return 2
        build_s = 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
    total = sum(res.evals.values())
    wall = time.time() - start
    coverage = {
        "evaluations": total,
        "distinct_nontrivial": len(res.hashes),
        "rule": RULES[prop],
        "samples": res.samples or [{"note": "no case short enough to print"}],
        "evaluations_by_build": res.evals,
        "observed": res.counters,
        "build_s": round(build_s, 1),
        "hooks": HOOKS[0],
        "workers": JOBS,
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": coverage,
        "assumptions": ["the reference model of the journal format (harness/src/ast.rs) and the generated subset of it (DESIGN.md)"],
        "wall_s": round(wall, 1), "violations": len(res.violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    for p, what in sorted(set(res.listed)):
        print("KNOWN-FINDING: property=%s %s" % (p, what))
    if res.violations:
        for v in res.violations[:5]:
            print("%s case %s (%s): %s" % (prop, v["case"], v["flavour"], v["what"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, write_replay(v)))
        return 1
    if total == 0 or len(res.hashes) < 2:
        print("NO ANSWER for %s: nothing was observed" % prop)
        return 2
    print("%s held: %d cases, %d distinct and non-trivial, %s; %.0f s" % (prop, total, len(res.hashes), ", ".join("%s %d" % x for x in res.evals.items()), wall))
    return 0


def replay(path):
    v = json.load(open(path))
    cmd = build(v["flavour"])
    work = tempfile.mkdtemp(prefix="vmon-")
    dictionary(work)
    extra = ["--bin", os.path.join(os.path.dirname(cmd[-1]), "ledgercli")] if v["property"] == "C15" else []
    args = cmd + worker_args(v["property"], v["seed"], v["case"], v["case"] + 1, 1, 10**6, work, None, None, v["flavour"] in ("miri", "memcheck"), extra)
    try:
        p = subprocess.run(args, env=env_for(v["flavour"]), stdout=subprocess.PIPE, text=True, errors="replace")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = p.returncode != 0
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d["t"] == "viol":
                bad = True
                print(d["what"])
                print(d["input"])
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "--literals":
            for k, v in zip("wn", literals()):
                for t in sorted(v):
                    print("%s %s" % (k, t))
            sys.exit(0)
        if sys.argv[1] == "--setup":
            for f in ("dev", "release", "asan", "miri"):
                build(f)
            print("ready")
            sys.exit(0)
        sys.exit(main(sys.argv[1]))
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
