#!/usr/bin/env python3
"""Runs the monitors of one property:  check.py ID quick|thorough
   builds everything:                  check.py --setup
   repeats a recorded violation:       check.py --replay evidence/replay/FILE.json

Exit 0: the property held on everything explored; 1: a violation (line VIOLATION ...);
2: no answer (build failure, resources, fault of the harness)."""
import json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
T = os.path.join(V, "target")
EV = os.path.join(V, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
CFG = "--cfg iota_mam_verif"

# mode: (toolchain and build arguments, RUSTFLAGS, place of the binary)
MODES = {
    "rel": (["cargo", "build", "--release"], CFG, "release/mon"),
    "chk": (["cargo", "build", "--profile", "chk"], CFG, "chk/mon"),
    "dbg": (["cargo", "build", "--profile", "dbg"], CFG, "dbg/mon"),
    "asan": (["cargo", "+nightly", "build", "--release", "--target", TRIPLE], "-Zsanitizer=address " + CFG, TRIPLE + "/release/mon"),
    "msan": (["cargo", "+nightly", "build", "-Zbuild-std", "--release", "--target", TRIPLE], "-Zsanitizer=memory " + CFG, TRIPLE + "/release/mon"),
    "tsan": (["cargo", "+nightly", "build", "-Zbuild-std", "--release", "--target", TRIPLE], "-Zsanitizer=thread " + CFG, TRIPLE + "/release/mon"),
}
MIRI_ENV = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"}

# quick: scale of the number of cases per mode; the same factors apply in the thorough tier, where
# every group has 12 times the cases and the rounds are repeated with other salts until the time is used
PLAN = {
    "C01": {"rel": 2.0, "chk": 1.2, "asan": 0.5},
    "C02": {"rel": 2.0, "chk": 1.2},
    "C03": {"rel": 3.0, "chk": 2.2, "asan": 1.5},
    "C04": {"rel": 14.0, "chk": 9.0},
    "C05": {"rel": 5.0, "chk": 3.0},
    "C06": {"rel": 9.0, "chk": 5.0, "asan": 1.8},
    "C07": {"rel": 60.0, "chk": 35.0},
    "C08": {"rel": 70.0, "chk": 40.0, "asan": 14.0},
    "C09": {"rel": 20.0, "chk": 12.0, "asan": 3.0},
    "C10": {"rel": 45.0, "chk": 30.0},
    "C11": {"rel": 45.0, "chk": 25.0},
    "C12": {"rel": 1.0, "chk": 0.6},
    "C13": {"rel": 1.4, "chk": 0.7},
    "C14": {"rel": 0.9, "chk": 0.5, "asan": 0.15},
    "C15": {"rel": 120.0, "chk": 60.0, "asan": 2.0},
    "C16": {"rel": 12.0, "chk": 7.0},
    "C17": {"rel": 8.0, "chk": 5.0},
    "C18": {"rel": 7.0, "chk": 4.0},
    "C19": {"rel": 0.7, "chk": 0.7, "dbg": 0.15, "asan": 0.35, "msan": 0.2},
    "C20": {"rel": 1.3, "chk": 0.8},
    "C21": {"rel": 0.6, "chk": 0.4, "tsan": 0.12},
    "C22": {"rel": 8.0, "chk": 5.0, "asan": 1.0},
    "C23": {"rel": 2.0, "chk": 0.7, "asan": 0.25},
    "C24": {"rel": 2.0, "chk": 1.2, "asan": 0.3},
}
# Miri: per property, the jobs run side by side (property, groups)
MIRI = {
    "C08": [("C08", ["windows", "mutate", "pairs"]), ("C08", ["containers", "tight"]), ("C08", ["mutate:500", "windows:500"]), ("C08", ["tight:100", "pairs:300", "faces"])],
    "C15": [("C15", ["walk", "stored"]), ("C15", ["shape", "path"]), ("C15", ["refused", "stored:20", "shared", "herd"])],
    "C07": [("C07", ["ints", "wide"]), ("C07", ["tryte", "bulk", "partial"]), ("C07", ["text", "inc"])],
    "C19": [("MIR", ["sponge"]), ("MIR", ["troika", "prng"]), ("MIR", ["tagged"]), ("MIR", ["keyload"]), ("MIR", ["poly"]), ("C08", ["mutate:2000", "tight:900"]), ("C07", ["ints:77", "text:500"])],
}
MIRI_THOROUGH_EXTRA = {"C19": [("MIR", ["ntru"])]}
# properties whose results are compared across the builds (same cases in every mode)
SAME = {"C19", "C21"}

RULES = {
    "C01": "A case is a message type, contents, keys, recipients, link and starting states and buffer offsets drawn from the seed; it is non-trivial when it was wrapped and unwrapped; distinct by the wrapped trits.",
    "C02": "A case is a genuine message with one deviation (altered trit or field, other key, link or state); non-trivial when the deviation changes what the receiver has; distinct by message and deviation.",
    "C03": "A case is an input string (random, truncated, mutated, with hostile counts and sizes) unwrapped in a buffer of exactly its size; non-trivial when a decoder was entered; distinct by the string.",
    "C04": "A case is a keyload with its list of recipients and a receiver's set of keys; distinct by the wrapped trits.",
    "C05": "A case is a message wrapped by the crate and by the independent implementation; distinct by the trits.",
    "C06": "A case is a field value or code string in a sponge state; distinct by the encoded trits.",
    "C07": "A case is a value or string and a position; distinct by value or string.",
    "C08": "A case is a sequence of slice operations checked against an array with an explicit window; distinct by buffer contents.",
    "C09": "A case is a sequence of sponge operations with its split into calls; distinct by resulting state.",
    "C10": "A case is a state or message with its split; distinct by state or digest.",
    "C11": "A case is a key, nonces and a request; distinct by the generated trits.",
    "C12": "A case is a key, hash and signature or alteration; distinct by signature.",
    "C13": "A case is a private key followed through its life, or a step of it; distinct by key and step.",
    "C14": "A case is a signature (of any height, real or composed) and an alteration; distinct by signature.",
    "C15": "A case is a tree height with leaf and merge functions, a step, and a stored form; distinct by paths.",
    "C16": "A case is a key pair, encapsulated key, nonce and state; distinct by capsule or key.",
    "C17": "A case is a capsule or public-key string; distinct by the string.",
    "C18": "A case is one or more polynomials and an operation; distinct by result.",
    "C19": "A case is a valid use of the interface drawn from the workloads of the other properties; distinct by the digest of its inputs and results.",
    "C20": "A case is a channel history; every delivery of a message to a participant is an evaluation; distinct by published trits.",
    "C21": "A case is a set of jobs and an order or interleaving; distinct by results or completion order.",
    "C22": "A case is a generated program of PB3 commands with its values, keys and deviation; distinct by the wrapped trits or the program with its deviation.",
    "C23": "A case is a piece of work repeated (the same, or with ever new inputs) with the thread's live memory read after each stage, or an object or operation measured against its size; distinct by the digest of the work.",
    "C24": "A case is an input that is refused (one designed fault, or hostile) with the error returned; distinct by the input.",
}
ASSUME = [
    "the reference model in harness/src/rtroika.rs and harness/src/rmodel.rs states the documented protocol correctly (its Troika is checked against published test vectors at start)",
    "held means: held in the executions observed, counted under coverage",
]


DICT = ";"
# set when the crate's types cannot be shared between threads: key pools per thread, fewer cases
SOLO = []
SOLO_SCALE = {"C21": 0.4}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def stale(d):
    """cargo judges freshness by time stamps: forget the crate under test, keep the toolchain's part"""
    for root, dirs, _ in os.walk(d):
        if os.path.basename(root) == ".fingerprint":
            for x in list(dirs):
                if x.startswith("iota-mam-") or x.startswith("iota_mam-") or x.startswith("mon-"):
                    shutil.rmtree(os.path.join(root, x), ignore_errors=True)
            dirs[:] = []
        elif root.count(os.sep) - d.count(os.sep) > 3:
            dirs[:] = []


def env(flags):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC", "MIRIFLAGS"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = flags
    e["RUST_BACKTRACE"] = "0"
    e["MON_DICT"] = DICT
    return e


# ---------------------------------------------------------------- repaired harness
# If something of the crate's interface that the harness uses is gone or has another type, the functions of the
# harness that no longer compile are taken out (in a copy), and the cases that need them are not counted.
REPAIR = threading.Lock()
REPAIRED = {}
FN = re.compile(r"^(\s*)(?:pub(?:\([^)]*\))? )?(?:unsafe )?fn \w")
OPENER = re.compile(r"(?:=>|\|)\s*(?:-> [^{]*)?\{$")
STUB = "crate::eng::stub()"


def enclosing(ls, i):
    """(line that opens the body, last line) of the smallest closure, match arm or function with line i in its body"""
    for j in range(i, -1, -1):
        m = FN.match(ls[j])
        ind = re.match(r"\s*", ls[j]).group(0)
        o = j
        if m:
            while o < len(ls) and not ls[o].rstrip().endswith(("{", "}", ";")):
                o += 1
            if o >= len(ls) or ls[o].rstrip().endswith(";"):
                continue
        elif not OPENER.search(ls[j].rstrip()):
            continue
        if ls[o].rstrip().endswith("}"):
            if o == i and STUB not in ls[o]:
                return o, o
            continue
        if o >= i:
            continue
        k = next((k for k in range(o + 1, len(ls)) if ls[k].startswith(ind + "}")), None)
        if k is None or k <= i or "".join(ls[o + 1 : k]).strip() == STUB:
            continue
        return o, k
    return None


def take_out(path, spots):
    """replace what is around these (line, column, end column) by stubs, and imports by nothing"""
    ls = open(path).read().split("\n")
    n = 0
    for line, c0, c1 in sorted(spots, reverse=True):
        i = line - 1
        if i >= len(ls):
            continue
        if re.match(r"\s*(?:pub )?use ", ls[i]):
            x = ls[i]
            ls[i] = x[: c0 - 1] + re.sub(r"^\s*,\s*", "", x[c1 - 1 :]) if "{" in x else ""
            n += 1
            continue
        f = enclosing(ls, i)
        if f is None:
            return None
        o, k = f
        log("left out: %s:%d %s" % (os.path.basename(path), o + 1, ls[o].strip()[:100]))
        if k == o:
            ls[o] = ls[o][: ls[o].index("{")] + "{ %s }" % STUB
        else:
            ls[o + 1 : k] = ["    " + STUB]
        n += 1
    open(path, "w").write("\n".join(ls))
    return n


def repaired(flags):
    with REPAIR:
        if flags in REPAIRED:
            return REPAIRED[flags]
        REPAIRED[flags] = None
        d = os.path.join(T, "stub", "solo" if "solo" in flags else "all")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(H, d, ignore=shutil.ignore_patterns("target"), copy_function=shutil.copy)
        e = env(flags)
        e["CARGO_TARGET_DIR"] = os.path.join(T, "stub", "target")
        for _ in range(25):
            r = subprocess.run(["cargo", "check", "--offline", "--lib", "--message-format=json"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if r.returncode == 0:
                REPAIRED[flags] = d
                return d
            spots = {}
            for l in r.stdout.split("\n"):
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                    continue
                for sp in m["message"]["spans"]:
                    if not sp["is_primary"]:
                        continue
                    while sp.get("expansion"):
                        sp = sp["expansion"]["span"]
                    f = sp["file_name"]
                    if not f.startswith("src/"):
                        return None
                    spots.setdefault(f, set()).add((sp["line_start"], sp["column_start"], sp["column_end"]))
            if not spots or sum(len(v) for v in spots.values()) > 400:
                return None
            done = 0
            for f, v in spots.items():
                n = take_out(os.path.join(d, f), v)
                if n is None:
                    return None
                done += n
            if not done:
                return None
        return None


def build(mode, out):
    cmd, flags, where = MODES[mode]
    d = os.path.join(T, mode)
    os.makedirs(d, exist_ok=True)
    stale(d)
    e = env(flags)
    e["CARGO_TARGET_DIR"] = d
    for attempt in range(2):
        r = subprocess.run(cmd + ["--offline", "--bin", "mon"], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode and unshared(r.stdout):
            e["RUSTFLAGS"] += " --cfg solo"
            r = subprocess.run(cmd + ["--offline", "--bin", "mon"], cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode and re.search(r"could not compile `mon`", r.stdout):
            h = repaired(CFG + (" --cfg solo" if SOLO else ""))
            if h:
                r = subprocess.run(cmd + ["--offline", "--bin", "mon"], cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = os.path.join(d, where)
        if r.returncode == 0 and os.path.exists(b):
            out[mode] = (b, "")
            return
        if attempt == 0 and "error[E" not in r.stdout:
            # a build directory left in an inconsistent state
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
        else:
            break
    out[mode] = (None, r.stdout[-4000:])


def unshared(text):
    if "between threads safely" in text and "error[E0277]" in text:
        SOLO.append(1)
        return True
    return False


MIRI_DIR = [H]


def miri_env():
    e = env(CFG + (" --cfg solo" if SOLO else ""))
    e.update(MIRI_ENV)
    e["CARGO_TARGET_DIR"] = os.path.join(T, "miri")
    return e


def build_miri(out):
    d = os.path.join(T, "miri")
    os.makedirs(d, exist_ok=True)
    stale(d)
    # builds, and interprets nothing but the start of the program
    for attempt in range(2):
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--bin", "mir", "--", "build"], cwd=H, env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "MIR READY" in r.stdout or not unshared(r.stdout):
            break
    if "MIR READY" not in r.stdout and "could not compile `mon`" in r.stdout:
        h = repaired(CFG + (" --cfg solo" if SOLO else ""))
        if h:
            MIRI_DIR[0] = h
            r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--bin", "mir", "--", "build"], cwd=h, env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out["miri"] = ("miri", "") if "MIR READY" in r.stdout else (None, r.stdout[-4000:])


def build_all(modes):
    out = {}
    th = [threading.Thread(target=build, args=(m, out)) if m != "miri" else threading.Thread(target=build_miri, args=(out,)) for m in modes]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return out


# ---------------------------------------------------------------- dictionary of the workload
# Numbers that occur in the source direct part of the random draws (as a fuzzing dictionary does): limits,
# block sizes and the like are where behaviour changes. Numbers that are not in the reference list
# (harness/literals.json, taken from the unchanged tree) are drawn more often. Verdicts do not depend on it.
def literals():
    out = {}
    consts = {}
    texts = []
    for root, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            if f.endswith(".rs"):
                try:
                    t = open(os.path.join(root, f), errors="replace").read()
                except OSError:
                    continue
                t = re.sub(r"//[^\n]*", " ", t)
                t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
                t = re.sub(r'"(?:\\.|[^"\\])*"', " ", t)
                texts.append(t)
    num = r"(?:0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?"

    def val(x):
        x = x.replace("_", "")
        m = re.match(r"(0x[0-9a-fA-F]+|[0-9]+)(?:[iu](?:8|16|32|64|128|size))?$", x)
        return int(m.group(1), 0 if m.group(1).startswith("0x") else 10) if m else None

    def ev(e):
        """value of a simple constant expression"""
        e = re.sub(r"[A-Za-z_]+::", "", e)
        e = re.sub(r"\bas\s+\w+", "", e)
        m = re.match(r"\s*(%s)\s*\.\s*pow\(\s*(%s)\s*\)\s*$" % (num, num), e)
        if m:
            a, b = val(m.group(1)), val(m.group(2))
            return a ** b if a is not None and b is not None and b < 64 else None
        toks = re.findall(r"%s|[A-Z][A-Z0-9_]*|<<|[-+*/()]" % num, e)
        if "".join(toks) != re.sub(r"\s+", "", e) or not toks:
            return None
        r = []
        for t in toks:
            if t in ("<<", "-", "+", "*", "/", "(", ")"):
                r.append("//" if t == "/" else t)
            else:
                v = consts.get(t) if t[0].isalpha() else val(t)
                if v is None:
                    return None
                r.append(str(v))
        try:
            v = eval(" ".join(r), {"__builtins__": {}})
            return v if isinstance(v, int) and abs(v) < 1 << 64 else None
        except Exception:
            return None

    defs = re.findall(r"\bconst\s+([A-Z][A-Z0-9_]*)\s*:\s*\w+\s*=\s*([^;{]+);", "\n".join(texts))
    for _ in range(4):
        for n, e in defs:
            v = ev(e)
            if v is not None:
                consts[n] = v
    atom = r"(?:%s|(?:[A-Za-z_]+::)*[A-Z][A-Z0-9_]*)" % num
    expr = re.compile(r"(?<![\w.])%s(?:\s*(?:<<|[-+*/])\s*%s)*" % (atom, atom))
    powr = re.compile(r"(?<![\w.])%s\s*\.\s*pow\(\s*%s\s*\)" % (num, num))
    for t in texts:
        for line in t.split("\n"):
            if len(re.findall(num, line)) > 5:
                continue
            for m in list(powr.finditer(line)) + list(expr.finditer(line)):
                vs = [ev(m.group(0))] + [val(x) for x in re.findall(r"(?<![\w.])" + num, m.group(0))]
                for v in set(vs):
                    if v is not None and 2 <= v < 1 << 32:
                        out[v] = out.get(v, 0) + 1
    return out


def words():
    """tryte words among the string literals of the source"""
    out = set()
    for root, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            if f.endswith(".rs"):
                try:
                    t = open(os.path.join(root, f), errors="replace").read()
                except OSError:
                    continue
                out |= set(re.findall(r'"([9A-Z]{1,200})"', re.sub(r"//[^\n]*", " ", t)))
    return out


def dictionary():
    """value of MON_DICT: numbers new against the reference, and the rest"""
    try:
        ref = json.load(open(os.path.join(H, "literals.json")))
        text = sorted(words() - set(ref.pop("words", [])))
        ref = {int(k): n for k, n in ref.items()}
        cur = literals()
        new = sorted(v for v, n in cur.items() if n > ref.get(v, 0))
        old = sorted(v for v in cur if v not in new and v < 200000)
        return "%s;%s;%s" % (",".join(map(str, new[:40])), ",".join(map(str, old[:400])), ",".join(text[:40]))
    except Exception as x:
        log("no dictionary:", x)
        return ";"


SAN = re.compile(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|WARNING: MemorySanitizer|ERROR: LeakSanitizer|AddressSanitizer:DEADLYSIGNAL)")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol, self.trouble, self.runs = [], [], []
        self.work = os.path.join(T, "run", prop)
        os.makedirs(self.work, exist_ok=True)

    def args(self, b, mode, salt, scale, only=None, deadline=1e9, tag="run"):
        f = lambda n: os.path.join(self.work, "%s.%s.%s" % (mode, tag, n))
        a = [b, "--prop", self.prop, "--seed", str(self.seed), "--salt", salt, "--build", mode, "--tier", self.tier, "--scale", str(scale),
             "--hang-cpu", "90" if mode in ("rel", "chk") else "300", "--deadline", str(deadline)]
        a += ["--out", f("json"), "--progress", f("progress"), "--digests", f("digests")]
        if only:
            a += ["--only", only, "--threads", "1"]
        return a, f

    def spawn(self, a, limit):
        e = env("")
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1100"
        e["MSAN_OPTIONS"] = "exitcode=96:allocator_may_return_null=1"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=1"
        p = subprocess.Popen(a, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        try:
            _, err = p.communicate(timeout=limit)
            return p.returncode, err
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None, "time limit of the run"

    def violation(self, mode, salt, case, what, extra=None):
        self.viol.append({"mode": mode, "salt": salt, "case": case, "what": what, "extra": extra or ""})

    def run(self, b, mode, salt, scale, deadline):
        a, f = self.args(b, mode, salt, scale, deadline=deadline)
        for n in ("json", "progress", "digests"):
            if os.path.exists(f(n)):
                os.remove(f(n))
        rc, err = self.spawn(a, deadline + 400)
        d = None
        if os.path.exists(f("json")):
            try:
                d = json.load(open(f("json")))
            except ValueError:
                d = None
        if d is not None and rc in (0, 1, 2):
            d["mode"], d["salt"] = mode, salt
            d["digest_file"] = f("digests")
            self.runs.append(d)
            for v in d["violations"]:
                self.violation(mode, salt, "%s:%d" % (v["group"], v["idx"]), v["what"])
            for h in d["harness"]:
                case = h.split(" ")[0]
                # a fault of the harness, or a result it did not expect: repeat it alone
                rc2, d2 = self.alone(b, mode, salt, scale, case)
                if rc2 == 2 and d2 and d2["harness"] and "spawn" not in h:
                    self.violation(mode, salt, case, "the monitor could not follow the results: " + h)
                else:
                    self.trouble.append("%s: %s" % (mode, h))
            return d
        if rc is None or rc == -signal.SIGKILL:
            self.trouble.append("%s: no answer (%s)" % (mode, err[-300:] if err else rc))
            return None
        if rc == 2:
            self.trouble.append("%s: %s" % (mode, err[-600:]))
            return None
        # crash, hang or sanitizer report: find the case
        rep = SAN.search(err or "")
        why = "hang" if rc == 97 else ("sanitizer report" if rep else "process ended with %s" % rc)
        detail = (err or "")[-3000:] if not rep else err[rep.start():rep.start() + 3000]
        cand = []
        if os.path.exists(f("progress")):
            cand = [x.strip() for x in open(f("progress")).read().split("\n") if ":" in x]
        found = None
        for cse in cand:
            rc2, d2 = self.alone(b, mode, salt, scale, cse)
            if rc2 not in (0, 1, 2, None, -signal.SIGKILL):
                found = cse
                break
            if d2 and d2["violations"]:
                found = cse
                why += "; alone: " + d2["violations"][0]["what"]
                break
        if found or rep or rc in (97, -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            self.violation(mode, salt, found or "?", "%s%s" % (why, "" if found else " (while running: %s)" % ", ".join(cand[:8])), detail)
        else:
            self.trouble.append("%s: %s: %s" % (mode, why, detail[-300:]))
        return None

    def alone(self, b, mode, salt, scale, case):
        a, f = self.args(b, mode, salt, scale, only=case, tag="alone")
        if os.path.exists(f("json")):
            os.remove(f("json"))
        rc, err = self.spawn(a, 420)
        d = None
        try:
            d = json.load(open(f("json")))
        except (OSError, ValueError):
            pass
        return rc, d

    def compare(self, rs):
        """the same cases in several builds: equal digests"""
        def rd(r):
            try:
                return dict(l.split() for l in open(r["digest_file"]))
            except OSError:
                return {}
        base = rd(rs[0])
        n = 0
        for r in rs[1:]:
            other = rd(r)
            for k, v in other.items():
                if k in base:
                    n += 1
                    if base[k] != v:
                        self.violation(r["mode"], r["salt"], k, "results of the case differ between builds %s (%s) and %s (%s)" % (rs[0]["mode"], base[k], r["mode"], v))
                        break
        return n

    def miri(self, budget, jobs, salt):
        res = [None] * len(jobs)

        def one(i):
            p, gs = jobs[i]
            a = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "mir", "--", p, str(self.seed), salt, str(budget)] + gs
            try:
                r = subprocess.run(a, cwd=MIRI_DIR[0], env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 400, errors="replace")
                res[i] = (r.returncode, r.stdout, r.stderr)
            except subprocess.TimeoutExpired:
                res[i] = (None, "", "time limit")

        th = [threading.Thread(target=one, args=(i,)) for i in range(len(jobs))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        tot = {"mode": "miri", "salt": salt, "evaluations": 0, "distinct": 0, "observed": {}, "cases": {}, "samples": [], "truncated": False, "wall_s": 0}
        for (p, gs), r in zip(jobs, res):
            rc, out, err = r
            m = re.search(r"^MIRJSON (.*)$", out, re.M)
            last = re.findall(r"^CASE (\S+)$", err, re.M)
            if m:
                d = json.loads(m.group(1))
                tot["evaluations"] += d["evaluations"]
                tot["distinct"] += d["distinct"]
                for k, v in d["observed"].items():
                    tot["observed"][k] = tot["observed"].get(k, 0) + v
                k = p + " " + ",".join(gs)
                tot["cases"][k] = d["cases"]
                tot["wall_s"] = max(tot["wall_s"], d["wall_s"])
                for v in d["violations"]:
                    # functional mismatches in the interpreter count where they are the property
                    if p == self.prop or "panic at" in v["what"]:
                        if v["what"].startswith("HARNESS"):
                            self.trouble.append("miri: " + v["what"])
                        else:
                            self.violation("miri", salt, "%s %s:%d" % (p, v["group"], v["idx"]), v["what"])
            elif "Undefined Behavior" in err or "unsupported operation" not in err and "error: " in err and last:
                i = err.find("error: ", err.rfind("CASE "))
                if "Undefined Behavior" in err:
                    self.violation("miri", salt, "%s %s" % (p, last[-1] if last else "?"), "undefined behaviour reported by Miri", err[i:i + 3000])
                elif "memory leaked" in err:
                    self.violation("miri", salt, "%s %s" % (p, last[-1]), "memory leak reported by Miri", err[i:i + 3000])
                else:
                    self.trouble.append("miri: " + err[i:i + 400])
            else:
                self.trouble.append("miri %s: %s %s" % (p, rc, err[-400:]))
        self.runs.append(tot)


def known():
    fixed, finds = [], []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            l = l.strip()
            m = re.match(r"known: property=(\S+) case=(\S+) what=(.*)$", l)
            if m:
                finds.append(m.groups())
    except OSError:
        pass
    return finds


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    os.makedirs(EV, exist_ok=True)
    evf = os.path.join(EV, prop + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    c = Check(prop, tier, seed)
    modes = list(plan) + (["miri"] if prop in MIRI else [])
    built = build_all(modes)
    log("%s: built %s in %.0f s" % (prop, " ".join(modes), time.time() - t0))
    bad = [m for m in modes if built[m][0] is None]
    for m in bad:
        c.trouble.append("build of %s failed: %s" % (m, built[m][1]))
    compared = 0
    if not bad:
        quick = tier == "quick"
        budget = 100.0 if quick else float(os.environ.get("VERIF_THOROUGH_S", "1500"))
        rounds = 0
        end = time.time() + (1e9 if quick else budget)
        mth = None
        if "miri" in built:
            jobs = MIRI[prop] + ([] if quick else MIRI_THOROUGH_EXTRA.get(prop, []))
            mth = threading.Thread(target=c.miri, args=(15 if quick else budget * 0.7, jobs, "m"))
            mth.start()
        while True:
            same = []
            for m in plan:
                if c.viol:
                    break
                salt = "" if prop in SAME else m
                salt += "" if rounds == 0 else "+%d" % rounds
                d = c.run(built[m][0], m, salt, plan[m] * (SOLO_SCALE.get(prop, 1.0) if SOLO else 1.0), budget if quick else max(60.0, (end - time.time()) / 2))
                if d:
                    same.append(d)
                log("%s: %s %s" % (prop, m, "%d evaluations in %.1f s" % (d["evaluations"], d["wall_s"]) if d else "no result"))
            if prop in SAME and len(same) > 1:
                compared += c.compare(same)
            rounds += 1
            if quick or c.viol or c.trouble or time.time() > end:
                break
        if mth:
            mth.join()
    # violations listed as known findings are reported apart
    finds = known()
    real = []
    for v in c.viol:
        k = [f for f in finds if f[0] == prop and f[2] in v["what"] and f[1] in ("*", v["case"])]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
        else:
            real.append(v)
    obs, per = {}, {}
    samples = []
    for r in c.runs:
        per.setdefault(r["mode"], []).append({"salt": r["salt"], "evaluations": r["evaluations"], "distinct": r["distinct"], "cases": r["cases"], "truncated": r["truncated"], "wall_s": r["wall_s"]})
        for k, v in r["observed"].items():
            obs[k] = obs.get(k, 0) + v
        for s in r["samples"]:
            if len(samples) < 30 and (r["mode"] == "rel" or not samples):
                samples.append(r["mode"] + " " + s)
    # cases with the same salt are the same cases in every build: counted once
    dist, seen = 0, set()
    for r in sorted(c.runs, key=lambda r: -r["distinct"]):
        k = r["salt"] if prop in SAME else (r["mode"], r["salt"])
        if r["mode"] == "miri" or k not in seen:
            dist += r["distinct"]
            seen.add(k)
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in c.runs),
            "distinct_nontrivial": dist,
            "rule": RULES[prop] + " An evaluation is one observation judged by the oracle; distinctness is counted by hash within each run.",
            "samples": samples or ["none: no run completed"],
            "observed": obs, "runs": per,
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(real),
    }
    if prop in SAME:
        e["coverage"]["cases_compared_across_builds"] = compared
    if c.trouble:
        e["coverage"]["trouble"] = [x[:800] for x in c.trouble]
    json.dump(e, open(evf, "w"), indent=1)
    for x in c.trouble:
        log("TROUBLE", prop, x)
    if real:
        rd = os.path.join(EV, "replay")
        os.makedirs(rd, exist_ok=True)
        v = real[0]
        path = os.path.join(rd, prop + ".json")
        json.dump({"property": prop, "tier": tier, "seed": seed, **v, "all": real[:6],
                   "how": "python3 check.py --replay " + os.path.relpath(path, V)}, open(path, "w"), indent=1)
        for v in real[:3]:
            print("%s [%s] case %s: %s" % (prop, v["mode"], v["case"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if not c.trouble and not all(r["evaluations"] for r in c.runs if r["mode"] != "miri"):
        c.trouble.append("a run without evaluations")
    if c.trouble:
        return 2
    print("%s held: %d evaluations, %d distinct cases in %.0f s" % (prop, e["coverage"]["evaluations"], dist, time.time() - t0), flush=True)
    return 0


def replay(path):
    v = json.load(open(path))
    prop, mode = v["property"], v["mode"]
    c = Check(prop, v["tier"], v["seed"])
    out = build_all([mode])
    if out[mode][0] is None:
        log(out[mode][1])
        return 2
    print("recorded:", v["case"], v["what"])
    if mode == "miri":
        p, cs = v["case"].split(" ")
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--bin", "mir", "--", p, str(v["seed"]), v["salt"], "0", cs], cwd=H, env=miri_env())
        return 1 if r.returncode else 0
    a, f = c.args(out[mode][0], mode, v["salt"], PLAN[prop][mode], only=v["case"] if v["case"] != "?" else None, tag="replay")
    rc, err = c.spawn(a, 900)
    print("exit", rc)
    if err:
        print(err[-3000:])
    if os.path.exists(f("json")):
        print(json.load(open(f("json")))["violations"])
        print(open(f("digests")).read()[:400])
    return 0 if rc == 0 else 1


def main():
    global DICT
    a = sys.argv[1:]
    if a[:1] == ["--literals"]:
        d = {str(k): n for k, n in sorted(literals().items())}
        d["words"] = sorted(words())
        json.dump(d, open(os.path.join(H, "literals.json"), "w"), indent=0)
        return 0
    DICT = dictionary()
    if a[:1] == ["--setup"]:
        out = build_all(list(MODES) + ["miri"])
        for m, (b, err) in out.items():
            log(m, "ok" if b else err)
        return 0 if all(b for b, _ in out.values()) else 2
    if a[:1] == ["--replay"]:
        return replay(a[1])
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
