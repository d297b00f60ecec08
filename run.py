#!/usr/bin/env python3
"""Decides one property of magnesia:  run.py PROPERTY   (tier and seed from VERIF_TIER / VERIF_SEED)
or prepares the tools:             run.py setup

1. tools/vx extracts the code of /repo/src, injects the contracts of contracts/, and Verus is
   run on the result; every obligation is attributed to the function or lemma it belongs to.
2. harness/ (linked against /repo) cross-checks the property on the real crate.
The verdict comes from 1; 2 supplies failing inputs, and stands in (bounded, labelled so) for
functions the verifier could not be brought to (changed shape, unsupported construct).
"""
import fcntl, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
VX = f"{V}/tools/vx"
H = f"{V}/harness"
WIDE = {"c09", "c10", "c11", "c12", "dynm"}
BUDGET = 780.0  # seconds for everything
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def left():
    return BUDGET - (time.time() - T0)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def sh(cmd, timeout, cwd=None, extra=None, mem=None):
    e = env()
    e.update(extra or {})

    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=lim)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return None, o, er


class Lock:
    def __enter__(self):
        os.makedirs(f"{V}/build", exist_ok=True)
        self.f = open(f"{V}/build/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# ------------------------------------------------------------------ source
def code_only(text):
    """Drops comments, strings and #[cfg(test)] items."""
    out, i, n = [], 0, len(text)
    while i < n:
        if text.startswith("//", i):
            j = text.find("\n", i)
            i = n if j < 0 else j
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            i = n if j < 0 else j + 2
        elif text[i] == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            out.append('""')
            i = j + 1
        else:
            out.append(text[i])
            i += 1
    t = "".join(out)
    while True:
        m = re.search(r"#\s*\[\s*cfg\s*\(\s*test\s*\)\s*\]", t)
        if not m:
            return t
        j = t.find("{", m.end())
        if j < 0:
            return t[: m.start()]
        d = 0
        k = j
        while k < len(t):
            d += t[k] == "{"
            d -= t[k] == "}"
            if d == 0:
                break
            k += 1
        t = t[: m.start()] + t[k + 1 :]


def mine():
    ints, floats = set(), set()
    for root, _, fs in os.walk(f"{REPO}/src"):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            t = code_only(open(os.path.join(root, f), errors="replace").read())
            num = r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:usize|u8|u16|u32|u64|u128|i8|i16|i32|i64|i128|isize)?(?![\w.]*\d*[.]\d)(?!\w)"
            for m in re.finditer(num, t):
                try:
                    ints.add(int(m.group(1).replace("_", ""), 0))
                except ValueError:
                    pass
            for m in re.finditer(r"(\d[\d_]*)\w*\s*<<\s*(\d+)", t):
                a, b = int(m.group(1).replace("_", "")), int(m.group(2))
                if b < 63:
                    ints.add(a << b)
            for m in re.finditer(r"(\d[\d_]*)\s*\*\s*(\d[\d_]*)(?![\w.]*\d*[.]\d)", t):
                ints.add(int(m.group(1).replace("_", "")) * int(m.group(2).replace("_", "")))
            # constant expressions
            clean = re.sub(r"(?<=\d)_(?=\d)", "", re.sub(r"(?<=\d)_?(?:usize|[ui](?:8|16|32|64|128|size))\b", "", t))
            for m in re.finditer(r"(?<![\w.])[\d(][\d\s()+*/<\-]*[\d)](?![\w.])", clean):
                e = m.group(0)
                if len(e) < 60 and re.search(r"[+*/<\-]", e) and not re.search(r"\*\s*\*|<(?!<)(?<!<<)", e):
                    while e.count("(") != e.count(")"):
                        f = e.strip("() ") if e.strip("() ") != e else ""
                        if not f or f == e:
                            break
                        e = f
                    try:
                        x = eval(e.replace("/", "//"), {"__builtins__": {}})
                        if isinstance(x, int) and 0 <= x < 2**62:
                            ints.add(x)
                    except Exception:
                        pass
            for m in re.finditer(r"(?<![\w.])(\d+)\.pow\((\d+)\)", clean):
                if int(m.group(2)) < 63:
                    ints.add(min(int(m.group(1)) ** int(m.group(2)), 2**62))
            named = sorted({int(m.group(1), 0) for m in re.finditer(r"\bconst\s+\w+\s*:\s*\w+\s*=\s*(0x[0-9a-fA-F]+|\d+)\s*;", clean)})
            for a in named[:8]:
                ints.update(x for b in named[:8] for x in (a * b, a + b))
            # narrowing conversions
            for m in re.finditer(r"(?:\bas\s+|\b)([ui])(8|16)\b(?!\s+as\s+Into)", t):
                if m.group(0).startswith("as") or t[m.end() : m.end() + 2] == "::":
                    ints.add(1 << int(m.group(2)))
                    ints.add(1 << (int(m.group(2)) - 1))
            for m in re.finditer(r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)", t):
                try:
                    floats.add(float(m.group(1).replace("_", "")))
                except ValueError:
                    pass
            for name, v in (("EPSILON", 2.0**-52), ("MIN_POSITIVE", 2.0**-1022), ("PI", 3.141592653589793)):
                if re.search(r"\b" + name + r"\b", t):
                    floats.add(v)
    ints = sorted(x for x in ints if x < 2**62)
    return ints, sorted(floats)


def conditional():
    """Whether code depends on the kind of build."""
    for root, _, fs in os.walk(f"{REPO}/src"):
        for f in fs:
            if f.endswith(".rs") and re.search(r"debug_assert|overflow_checks", code_only(open(os.path.join(root, f), errors="replace").read())):
                return True
    return False


def type_aware():
    """Whether code asks what a type parameter looks like."""
    for root, _, fs in os.walk(f"{REPO}/src"):
        for f in fs:
            if f.endswith(".rs") and re.search(r"\b(size_of|size_of_val|align_of|needs_drop|type_name|type_name_of_val|TypeId|type_id|Layout|IS_ZST)\b", code_only(open(os.path.join(root, f), errors="replace").read())):
                return True
    return False


# how the coefficients may be stored (harness/src/types.rs)
REPS = ["rep1", "repbox", "rep8", "rep4", "rep2", "rep16", "repbig", "rep0"]


# ------------------------------------------------------------------ verifier
def build_vx():
    with Lock():
        rc, o, e = sh(["cargo", "build", "--release", "--offline", "--quiet"], 600, cwd=VX)
    if rc != 0:
        raise SystemExit("cannot build tools/vx\n" + e)


def proof_fns(mtext):
    """(qualified name, first line, last line) of every lemma of the extracted file."""
    res, mods, depth, cur = [], [], 0, None
    lines = mtext.split("\n")

    def close(upto):
        k = upto
        while k > cur[0] and not lines[k - 1].rstrip().endswith("}"):
            k -= 1
        res.append((cur[1], cur[0], k))

    for n, l in enumerate(lines, 1):
        if cur and depth <= cur[2] and re.match(r"\s*(\}|#\[|(pub|proof|spec|open|closed|uninterp|broadcast|exec|fn|impl|use|mod|struct|enum|trait)\b)", l):
            close(n - 1)
            cur = None
        m = re.match(r"\s*(?:pub )?mod (\w+)\s*\{", l)
        if m:
            mods.append((m.group(1), depth))
        m = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", l)
        if m and not cur:
            # (a lemma renamed because a function of the source has its name)
            cur = (n, "::".join(x for x, _ in mods) + "::" + re.sub("_vx$", "", m.group(1)), depth)
        depth += l.count("{") - l.count("}")
        while mods and depth <= mods[-1][1]:
            mods.pop()
    return res


class Verdict:
    """What Verus says about the extracted file: per function and lemma."""

    def __init__(self):
        self.fns = {}  # "module | key" -> report entry
        self.bad = {}  # name -> list of (kind, text)
        self.lemmas = []
        self.lost = []
        self.std_more = []
        self.forced = {}
        self.dropped = {}  # functions whose annotations were thinned out (rounds)
        self.broken = None  # nothing could be decided
        self.smt_ms = 0
        self.verified = self.errors = 0
        self.by_module = {}
        self.cmd = ""
        self.output = ""


def name_of(f):
    return f["module"] + " | " + f["key"]


def results(o, e, spans, lemmas):
    """What a run of Verus printed: failed obligations by function, errors that keep it from
    deciding anything, and the places of failed annotations."""
    diags = []
    for l in e.split("\n"):
        l = l.strip()
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        j = json.loads(o)
        res = j.get("verification-results", {})
    except ValueError:
        j, res = {}, {}

    def owner(line):
        for d in (0, 1):  # 1: attributes in front of the signature
            best = None
            for a, b, n, f in spans:
                if a - d <= line <= b and (best is None or a > best[0]):
                    best = (a, n, f)
            if best:
                return best
        return None

    lemma_names = {n.rsplit("::", 1)[-1] for n, _, _ in lemmas}
    lemma_names |= {n + "_vx" for n in lemma_names}
    compile_err, obls, edits = [], {}, {}
    solved = res.get("verified", 0) > 0 and bool(j.get("times-ms", {}).get("smt"))
    for d in diags:
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        msg = d["message"]
        sp = sorted(d["spans"], key=lambda s: (not (s.get("label") or "").startswith("at "), (s.get("label") or "").startswith("failed"), not s["is_primary"]))
        own = None
        for s in sp:
            w = owner(s["line_start"])
            if w and not (w[2] and w[2]["status"] == "decl"):
                own = w
                break
        text = d.get("rendered") or msg
        rl = "rlimit" in msg or "resource limit" in msg.lower()
        proofish = solved and (rl or d.get("code") is None and not res.get("encountered-vir-error") and "not supported" not in msg and "not yet support" not in msg)
        if not (proofish and own):
            # the lines it is about, where they can be those of annotations
            at = [x["text"] for p in d["spans"] if p["is_primary"] for x in p["text"] if len(x["text"].strip()) > 2]
            compile_err.append((own, text, at))
            continue
        obls.setdefault(own[1], []).append(("rlimit" if rl else "failed", text))
        if own[2] is None or rl:
            continue
        for s in d["spans"]:
            if not s["is_primary"] or owner(s["line_start"]) != own:
                continue
            t = s["text"][0]["text"]
            called = re.match(r"(?:\w+::)*(\w+)\s*(?:::<[^(]*>)?\(", t[s["column_start"] - 1 :])
            if msg.startswith("invariant not satisfied") or msg == "assertion failed":
                edits.setdefault(own[1], []).append((s, "true"))
            elif msg.startswith("precondition") and called and called.group(1) in lemma_names:
                edits.setdefault(own[1], []).append((s, "()"))
    return j, res, solved, obls, compile_err, edits


def without_hints(v, work, mtext, spans, edits, rlimit):
    """Loop invariants, asserts and lemma calls of contracts/ inside a body are hints made for the
    text the body had; those that do not hold of the present text are dropped, and the function
    is verified against its (unchanged) contract again."""
    lines = mtext.split("\n")
    v.dropped = {}
    for rnd in range(6):
        if not edits or left() < 330:
            return
        todo = sorted({(s["line_start"], s["column_start"], s["line_end"], s["column_end"], w) for l in edits.values() for s, w in l}, reverse=True)
        for a, ca, b, cb, w in todo:
            tail = lines[b - 1][cb - 1 :]
            # a clause's span may include the comma
            if lines[b - 1][: cb - 1].rstrip().endswith(","):
                tail = "," + tail
            lines[a - 1] = lines[a - 1][: ca - 1] + w + tail
            for k in range(a, b):
                lines[k] = ""
        mods = {v.fns[n]["module"] for n in v.bad if n in v.fns}
        open(f"{work}/h.rs", "w").write("\n".join(lines))
        cmd = ["verus", "h.rs", "--output-json", "--time-expanded", "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "4"]
        for m in sorted(mods):
            cmd += ["--verify-module", m]
        rc, o, e = sh(cmd, max(20, min(120, left() - 200)), cwd=work)
        if rc is None:
            return
        _, res, solved, obls, compile_err, new = results(o, e, spans, v.lemmas)
        if not solved or compile_err or res.get("encountered-vir-error"):
            return
        for n in list(v.bad):
            if n in edits and n not in obls:
                v.dropped[n] = rnd + 1
                del v.bad[n]
        edits = {n: l for n, l in new.items() if n in v.bad}


def verify(work, prop):
    """Runs extraction and Verus; functions that do not compile under Verus are set aside."""
    v = Verdict()
    forced, nofit, drop = {}, set(), set()
    rlimit = 20
    for attempt in range(25):
        cmd = [f"{VX}/target/release/vx", "--src", f"{REPO}/src", "--contracts", f"{V}/contracts", "--out", f"{work}/m.rs", "--report", f"{work}/report.json", "--baseline", f"{V}/contracts/baseline.tsv", "--property", prop]
        for k in forced:
            cmd += ["--external", k]
        for k in nofit:
            cmd += ["--no-fit", k]
        for k, t in sorted(drop):
            cmd += ["--drop", k, t]
        rc, o, e = sh(cmd, 60)
        if rc != 0:
            v.broken = "the extraction failed: " + (o + e)[-2000:]
            return v
        r = json.load(open(f"{work}/report.json"))
        v.lost = r["lost_contracts"]
        v.std_more = r["std_more"]
        v.fns = {}
        for f in r["functions"]:
            v.fns.setdefault(name_of(f), f)
        mtext = open(f"{work}/m.rs").read()
        v.lemmas = proof_fns(mtext)
        spans = []
        for f in r["functions"]:
            spans.append((f["out"][0], f["out"][1], name_of(f), f))
        for n, a, b in v.lemmas:
            spans.append((a, b, "lemma " + n, None))
        vcmd = ["verus", "m.rs", "--output-json", "--time-expanded", "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "4"]
        v.cmd = "verus m.rs --rlimit %d (m.rs: tools/vx extraction of /repo/src with contracts/)" % rlimit
        rc, o, e = sh(vcmd, max(30, min(420, left() - 120)), cwd=work)
        if rc is None and rlimit > 20:
            return v  # what the run with the usual limit has found stands
        if rc is None:
            v.broken = "the verifier did not finish"
            return v
        j, res, solved, obls, compile_err, edits = results(o, e, spans, v.lemmas)
        if res.get("encountered-vir-error") or not solved or compile_err:
            new = 0
            thin = {own[2]["key"] for own, *_ in compile_err if own and own[2] and own[2].get("fitted")} - nofit
            for own, text, at in compile_err:
                if own and own[2] and own[2]["key"] in thin:
                    # annotations, perhaps put in other terms, that make no sense there
                    k = own[2]["key"]
                    more = {(k, t.strip()) for t in at} - drop
                    if more:
                        drop |= more
                    else:
                        nofit.add(k)
                    new += 1
                elif own and own[2] and own[2]["key"] not in forced:
                    forced[own[2]["key"]] = text
                    v.forced[own[1]] = text
                    new += 1
            if new == 0 and not compile_err:
                # the verifier ended without saying where: the changed functions, those of the module it names first
                c = [f for f in v.fns.values() if f.get("changed") and f["key"] not in forced]
                at = set(re.findall(r"\bm\[\w+\]::((?:\w+::)*\w+)::", e))
                for f in [f for f in c if f["module"] in at] or c:
                    forced[f["key"]] = v.forced[name_of(f)] = "Verus ends without a result: " + e[-600:]
                    new += 1
            if new == 0:
                v.broken = "Verus rejects the extracted file: " + "\n".join(t for _, t, _ in compile_err)[:3000] + ("" if compile_err else e[-2000:])
                return v
            continue
        v.bad = obls
        v.verified, v.errors = res.get("verified", 0), res.get("errors", 0)
        t = j.get("times-ms", {}).get("smt", {})
        v.smt_ms = t.get("total", 0)
        v.by_module = {m["module"]: m.get("time", 0) for m in t.get("smt-run-module-times", [])}
        if rlimit == 20 and any(k == "rlimit" for l in obls.values() for k, _ in l) and left() > 500:
            rlimit = 100
            continue
        without_hints(v, work, mtext, spans, edits, rlimit)
        return v
    v.broken = "too many functions outside the verifier's reach"
    return v


def vacuous(prop, work, limit=600):
    """Every contract has to be satisfiable: with assert(false) at the end of each body and each
    lemma, each of them must fail.  (checked, names that verify with assert(false), error text)"""
    rc, o, e = sh([f"{VX}/target/release/vx", "--src", f"{REPO}/src", "--contracts", f"{V}/contracts", "--out", f"{work}/v.rs", "--report", f"{work}/v.json", "--baseline", f"{V}/contracts/baseline.tsv", "--property", prop, "--vacuity"], 60)
    if rc != 0:
        return 0, [], e
    rep = json.load(open(f"{work}/v.json"))
    text = open(f"{work}/v.rs").read()
    lines = text.split("\n")
    lem = proof_fns(text)
    for n, a, b in lem:
        l = lines[b - 1]
        k = l.rstrip().rindex("}")
        lines[b - 1] = l[:k] + " ; assert(false); " + l[k:]
    open(f"{work}/v.rs", "w").write("\n".join(lines))
    rc, o, e = sh(["verus", "v.rs", "--output-json", "--time-expanded", "--error-format=json", "--rlimit", "20", "--multiple-errors", "1"], limit, cwd=work)
    spans = [(f["out"][0], f["out"][1], name_of(f), f) for f in rep["functions"]] + [(a, b, "lemma " + n, None) for n, a, b in lem]
    j, res, solved, obls, compile_err, edits = results(o, e, spans, lem)
    if compile_err or not solved:
        return 0, [], (compile_err[0][1] if compile_err else e)[:2000]
    names = [name_of(f) for f in rep["functions"] if f["status"] in ("contract", "inherited")] + ["lemma " + n for n, _, _ in lem]
    return len(names), [n for n in names if n not in obls], ""


# ------------------------------------------------------------------ harness
class Harness:
    def __init__(self, group, prop, work):
        self.group, self.prop, self.work = group, prop, work
        self.ints, self.floats = mine()
        self.err = None
        self.bin = f"{work}/vharness"
        self.runs = []
        self.cases = 0
        self.samples = []

    def build(self):
        self.bins = []
        profs = ["wide"] if self.group in WIDE else ["release"]
        if conditional():
            profs.append("wideplain" if self.group in WIDE else "plain")
        for prof in profs:
            self.build_one(prof)
            if self.err:
                return
        if self.group not in ("de", "prim") and type_aware():
            for rep in REPS:
                # in the zero ring all polynomials are equal
                if time.time() - T0 > BUDGET * 0.6 or (rep == "rep0" and self.prop == "C08"):
                    continue
                self.build_one(profs[0], rep)
                self.err = None

    def build_one(self, prof, rep=None):
        small = [x for x in self.ints if 13 < x <= 300]
        # dimensions that are not in the fixed list, the rarest first
        dims = [x for x in small if x not in (16, 32, 64, 100)][:6]
        ext = {"VERIF_DIMS": ",".join(map(str, dims))}
        flags = ["--profile", prof] if prof != "release" else ["--release"]
        with Lock():
            sh(["cargo", "clean", "--offline", "--quiet", "-p", "magnesia"] + flags, 60, cwd=H)
            rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--features", ",".join([self.group] + [rep] * bool(rep))] + flags, 400, cwd=H, extra=ext)
            if rc != 0:
                self.err = e[-6000:]
                return
            self.bins.append(f"{self.bin}-{prof}" + (f"-{rep}" if rep else ""))
            shutil.copy(f"{H}/target/{prof}/vharness", self.bins[-1])

    def run(self, seed, tier, limit):
        """None if clean, else (what, detail)"""
        for b in self.bins:
            r = self.run_one(b, seed, tier, limit)
            if r:
                return r[0], (f"build (profile, representation of the coefficients) {os.path.basename(b).split('-', 1)[1]}\n" if len(self.bins) > 1 else "") + r[1]
        return None

    def run_one(self, binary, seed, tier, limit):
        ext = {"VERIF_CONSTS": ",".join(map(str, self.ints)), "VERIF_FCONSTS": ",".join(map(repr, self.floats)), "VERIF_TIER": tier}
        cmd = [binary, self.prop, str(seed), tier]
        mem = 12 << 30
        rc, o, e = sh(cmd, limit, extra=ext, mem=mem)
        self.runs.append((seed, tier))
        if rc == 0:
            self.cases += int(re.search(r"OK (\d+)", o).group(1))
            for l in o.split("\n"):
                if l.startswith("SAMPLE ") and len(self.samples) < 8:
                    self.samples.append(l[7:][:600])
            return None
        if rc == 1:
            return "a case violates the property", f"seed {seed}, tier {tier}\n{o}"
        # unexpected panic, crash, memory exhaustion or no end: find the case by tracing
        tr = f"{self.work}/trace"
        rc2, o2, e2 = sh(cmd + [tr], limit * 2 + 30, extra=ext, mem=mem)
        case = ""
        if os.path.exists(tr):
            case = open(tr, errors="replace").read()[-6000:]
        what = "an operation that has to return panics" if rc == 2 else ("an operation does not return" if rc in (None, 4) else f"an operation ends the process (status {rc})")
        if rc2 == 0:
            return None  # not reproducible under tracing (load); nothing to report
        return what, f"seed {seed}, tier {tier}\n{o}{e[-1500:]}\nlast case started:\n{case}"


# ------------------------------------------------------------------ decision
def decide(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    global BUDGET
    if tier == "thorough":
        BUDGET = 3600.0
    P = json.load(open(f"{V}/contracts/props.json"))[prop]
    os.makedirs(f"{V}/build", exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{V}/replays", exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{prop}-", dir=f"{V}/build")
    try:
        return decide_in(prop, P, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known_findings(prop):
    res = []
    try:
        for l in open(f"{V}/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    except FileNotFoundError:
        pass
    return res


def decide_in(prop, P, tier, seed, work):
    build_vx()
    har = Harness(P["group"], prop, work)
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(har.build)
        fv = ex.submit(verify, work, prop)
        fb.result()
        v = fv.result()

    def match(pats, s):
        return any(re.fullmatch(p, s) for p in pats)

    base = {}
    for l in open(f"{V}/contracts/baseline.tsv"):
        base[l.split("\t")[0]] = 1
    own = [n for n in v.fns if match(P["fns"], n)]
    # functions whose contracts say more than this property needs: a failure there is not yet a
    # violation of it
    weak = [n for n in v.fns if match(P.get("weak", []), n) and n not in own]
    lem = ["lemma " + n for n, _, _ in v.lemmas if match(P["lemmas"], n)]
    deps = [n for n, f in v.fns.items() if match(P["modules"], f["module"]) and n not in own and n not in weak]
    # functions a changed body may rely on: those the verifier knows a contract of
    known_calls = {"rt_assert", "rt_debug_assert", "rt_panic"} | {f["key"].rsplit(" ", 1)[-1] for f in v.fns.values() if f["status"] in ("contract", "inherited", "decl", "trusted")}

    alarms, bounded, trusted, discharged = [], [], [], []
    obligations = 0
    for n in own + weak + lem:
        f = v.fns.get(n)
        if f is not None and f["status"] == "decl":
            continue
        if f is not None and f["status"] == "external" and n not in v.forced:
            trusted.append(n)
            if not f["in_baseline"]:
                trusted.pop()  # a new helper; whoever calls it is looked at there
            continue
        obligations += 1
        if v.broken:
            bounded.append((n, v.broken))
            continue
        if n in v.forced:
            bounded.append((n, "outside the verifier's reach: " + v.forced[n]))
            continue
        b = v.bad.get(n)
        if not b:
            discharged.append(n)
            continue
        kinds = {k for k, _ in b}
        text = "\n".join(t for _, t in b)
        if f is not None:
            newcalls = set(f["calls"]) - set(f["base_calls"] or [])
            gone_tok, new_tok = f["distance"]
            # a rewritten body: the annotations inside it (invariants, hints) were made for another text
            rewritten = gone_tok > 8 or (gone_tok > 0 and gone_tok + new_tok > 24)
            shape = f["skeleton"] != f["base_skeleton"] or bool(newcalls - known_calls) or not f["in_baseline"] or rewritten
        else:
            shape = True
        if n in weak:
            bounded.append((n, "a contract stronger than this property is not met: " + text))
        elif "rlimit" in kinds or shape:
            bounded.append((n, ("solver limit: " if "rlimit" in kinds else "the body has left the shape its contract is anchored to: ") + text))
        else:
            alarms.append((n, text))
    # contracts whose function is gone
    lost = [str(x) for x in v.lost]
    basekeys = set(base)
    have = {f["key"] for f in v.fns.values()}
    gone = [k for k in basekeys - have if any(re.fullmatch(p, m + " | " + k) for p in P["fns"] + P.get("weak", []) for m in P["modules"])]
    for k in gone:
        bounded.append((k, "the function this contract belongs to is gone"))
        obligations += 1
    weak_deps = [n for n in deps if v.broken or n in v.forced or n in v.bad]

    # ---- the real crate
    fail = None
    if har.err is None:
        lim = 200 if tier == "quick" else 900
        fail = har.run(seed, tier, min(lim, max(20, left() - 30)))
        more = bool(alarms or bounded or weak_deps)
        if fail is None and (more or tier == "thorough"):
            rounds = [(seed + i, "quick") for i in range(1, 9)]
            if tier == "thorough":
                rounds = [(seed + i, "thorough") for i in range(1, 8)]
            t1 = time.time()
            for s, t in rounds:
                if fail is not None or left() < 60 or time.time() - t1 > (90 if tier == "quick" else 2400):
                    break
                fail = har.run(s, t, min(lim, max(20, left() - 30)))

    violation = None
    rp = f"{V}/replays/{prop}.txt"
    if os.path.exists(rp):
        os.remove(rp)
    if fail is not None or alarms:
        with open(rp, "w") as fh:
            fh.write(f"property {prop}\n")
            for n, t in alarms:
                fh.write(f"\nobligation not discharged: {n}\n{t}\n")
            for n, t in bounded:
                fh.write(f"\nnot decided by the verifier: {n}\n{t}\n")
            if fail is not None:
                fh.write(f"\nfailing input on the real crate ({fail[0]}):\n{fail[1]}\n")
                fh.write(f"\nreplay: cd {H}; cargo build with --features {P['group']}; VERIF_CONSTS={','.join(map(str, har.ints))} VERIF_FCONSTS={','.join(map(repr, har.floats))} vharness {prop} SEED TIER (seed and tier as above)\n")
            else:
                fh.write("\nno failing input was found on the real crate\n")
        violation = f"VIOLATION property={prop} replay={rp}" + ("" if fail is not None else " no-failing-input-found")

    vac = None
    if tier == "thorough" and not v.broken and left() > 400:
        n, names, err = vacuous(prop, work)
        vac = {"contracts_checked": n, "verify_with_assert_false": names, "error": err}
    ok = obligations > 0 and len(discharged) == obligations
    cov = {
        "obligations": obligations,
        "discharged": len(discharged),
        "checker_cmd": v.cmd,
        "back_end": "Verus 0.2026.09.13 with its bundled Z3",
        "trusted_base": TRUSTED + ["contracts/06_std_more.rs: assumed contract of " + n for n in v.std_more] + ["contract not available, behaviour compared only on the cases below: " + n for n in trusted],
        "functions_under_contract": [n for n in own + weak if v.fns[n]["status"] in ("contract", "inherited") and n in discharged],
        "lemmas": [n[6:] for n in lem if n in discharged],
        "supporting_functions_discharged": len([n for n in deps if v.fns[n]["status"] in ("contract", "inherited") and n not in weak_deps and not v.broken]),
        "supporting_functions_not_discharged": weak_deps,
        "discharged_after_dropping_annotations_that_do_not_hold": [n for n in own + weak if n in v.dropped],
        "vacuity_witness": vac or "thorough tier only",
        "failed_obligations": [n for n, _ in alarms],
        "bounded_stand_in_for": [{"function": n, "why": t[:400]} for n, t in bounded],
        "whole_file": {"verified": v.verified, "errors": v.errors},
        "solver_ms": {"total": v.smt_ms, "modules": {m: t for m, t in v.by_module.items() if match(P["modules"] + ["vxl"], m)}},
        "cross_check": {"label": "bounded; not counted as proved", "cases": har.cases, "runs": [f"seed {s} {t}" for s, t in har.runs], "samples": har.samples, "harness_error": har.err},
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": cov,
        "assumptions": ASSUME,
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    log(f"{prop}: {len(discharged)}/{obligations} obligations discharged, {len(bounded)} left to the bounded stand-in, {har.cases} cases compared on the real crate, {ev['wall_s']} s")
    for n, t in bounded:
        log(f"  bounded: {n}: {t.splitlines()[0][:160]}")
    for n, t in alarms:
        log(f"  FAILED: {n}: {t.splitlines()[0][:160]}")
    for k in known_findings(prop):
        log(f"KNOWN-FINDING: property={prop} {k}")
    if violation:
        if fail is not None:
            log(fail[0] + ":\n" + fail[1][:3000])
        log(violation)
        return 1
    if har.err is not None:
        log("the cross-check harness does not build against the tree:\n" + har.err)
        if not ok:
            return 2
    return 0


TRUSTED = [
    "Verus 0.2026.09.13 (VIR/AIR encoding, rustc front end) and Z3",
    "vstd's specifications of core/alloc (Vec, slices, arrays, Box, Clone, operators)",
    "tools/vx: extraction and desugaring of /repo/src (listed in DESIGN.md)",
    "contracts/05_std.rs: assumed contracts of Vec::resize_with, Vec::into_boxed_slice, Vec::from([T; N]), <[T; N]>::try_from(Vec), Box<[T]>::clone and Box::eq (06_std_more.rs: of further std functions, only when a changed tree uses them)",
    "contracts/00_prelude.rs rt_panic: a panic does not return; Written: the values a caller writes while iterating by &mut",
    "contracts/02_rand.rs: assumed contract of rand::Rng (gen_range yields a value of a nonempty half-open range and panics on an empty one, gen::<f32> lies in [0, 1))",
    "contracts/00_prelude.rs CallLog: a function-valued parameter is any function whatever, with a ghost record of its calls",
    "contracts/03_floats.rs: f32/f64 operations as uninterpreted functions of std",
]
ASSUME = [
    "coefficient types obey the algebraic laws named in each property (they are hypotheses of the lemmas), and their operators are total, deterministic functions",
    "Clone of a coefficient yields an equal value where the property needs it",
    "allocation does not fail; vector lengths and matrix sizes fit usize",
    "iterator adaptors of core (map, zip, enumerate, fold, collect, ...) have their documented meaning, which the desugaring into loops encodes",
    "floating-point rounding is not modelled; primitive operations are uninterpreted",
]


def setup():
    build_vx()
    for g, p in (("complex", 0), ("poly", 0), ("dynv", 0), ("prim", 0), ("de", 0), ("c09", 1), ("c10", 1), ("c11", 1), ("c12", 1), ("dynm", 1)):
        with Lock():
            sh(["cargo", "build", "--offline", "--quiet", "--features", g] + (["--profile", "wide"] if p else ["--release"]), 600, cwd=H)
    log("ready")
    return 0


if __name__ == "__main__":
    if len(sys.argv) < 2:
        raise SystemExit(__doc__)
    sys.exit(setup() if sys.argv[1] == "setup" else decide(sys.argv[1]))
