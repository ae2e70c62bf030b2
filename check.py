#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's working tree.

1. proof: the extractor turns the functions the property depends on into one
   Verus file together with the contracts in contracts/, and Verus discharges
   the obligations; a second file with a failing assertion at the end of every
   function shows that none of the contracts is vacuous.
2. search: the real code is run on concrete inputs (bounded, never counted as
   proved).  It supplies failing inputs for obligations that fail, and stands in
   for the proof when the source has left the subset the extractor reads.

exit 0: held   exit 1 + VIOLATION line: broken   anything else: no answer
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PKT_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
PROOF_S = 240
VERUS = shutil.which("verus") or "verus"

FRONT = "ast,check"
GEN = "ast,check,model,gen_ctx,gen,ts"
TEXT = "ast,pegrt,parser,layout"
ALL = GEN + ",pegrt,parser,lib"
CLI = "cli"
# property -> modules whose contracts state it, and the searches that look for failing inputs
PROPS = {
    "C01": dict(modules=FRONT, search=["front"]),
    "C02": dict(modules=FRONT, search=["front"]),
    "C03": dict(modules=FRONT, search=["front"]),
    "C04": dict(modules=FRONT, search=["front", "wire"]),
    "C05": dict(modules=GEN, search=["front", "wire"]),
    "C06": dict(modules=GEN, search=["front", "wire"]),
    "C07": dict(modules=GEN, search=["wire"]),
    "C08": dict(modules=GEN, search=["wire"]),
    "C09": dict(modules=GEN, search=["wire"]),
    "C10": dict(modules=GEN, search=["wire"]),
    "C11": dict(modules=TEXT, search=["front"]),
    "C12": dict(modules=TEXT, search=["front"]),
    "C13": dict(modules=ALL, search=["front"]),
    "C14": dict(modules=CLI, search=["cli"]),
    "C15": dict(modules=CLI, search=["cli"]),
    "C16": dict(modules=ALL, search=["front"]),
}
COUNTS = {"front": {"quick": 60000, "thorough": 600000}, "wire": {"quick": 1500, "thorough": 12000}, "cli": {"quick": 400, "thorough": 4000}}


class NoAnswer(Exception):
    pass


def left(s):
    """a time limit that keeps the whole check below its 900 s"""
    return max(20, min(s, T0 + 850 - time.time()))


def log(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def cargo(args, toolchain=None, timeout=600):
    e = env()
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    return run(["cargo"] + args, env=e, timeout=timeout)


# ---------------------------------------------------------------- building ----
def build_extractor():
    t = os.path.join(BUILD, "pktx")
    p = cargo(["build", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "extract", "Cargo.toml"), "--target-dir", t], NIGHTLY)
    if p.returncode != 0:
        raise NoAnswer("the extractor does not build: " + p.stderr[-800:])
    return os.path.join(t, "debug", "pktx")


def build_harness():
    """the program that runs the real library; None, reason if /repo does not build"""
    t = os.path.join(BUILD, "pktr")
    base = ["build", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "replay", "Cargo.toml"), "--target-dir", t]
    p = cargo(base + ["--features", "internals"], NIGHTLY)
    if p.returncode == 0:
        return os.path.join(t, "debug", "pktr"), "library and internals"
    q = cargo(base, NIGHTLY)
    if q.returncode == 0:
        return os.path.join(t, "debug", "pktr"), "library only"
    return None, (q.stderr or p.stderr)[-800:]


def build_cli():
    t = os.path.join(BUILD, "cli")
    p = cargo(["build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", t, "--bin", "packetc"], NIGHTLY)
    return os.path.join(t, "debug", "packetc") if p.returncode == 0 else None


def expand(work):
    """the library with every macro expanded by rustc: the grammar is a procedural macro"""
    p = cargo(["rustc", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", os.path.join(BUILD, "expand"), "--lib", "--", "-Zunpretty=expanded"], NIGHTLY)
    f = os.path.join(work, "expanded.rs")
    with open(f, "w") as h:
        h.write(p.stdout)
    return f


def runtime():
    """where the source of the parser generator's runtime is that /repo is built with"""
    p = cargo(["metadata", "--offline", "--locked", "--format-version", "1", "--manifest-path", os.path.join(REPO, "Cargo.toml")], NIGHTLY)
    try:
        found = [os.path.dirname(t["src_path"]) for k in json.loads(p.stdout)["packages"] if k["name"] == "peg-runtime" for t in k["targets"] if "lib" in t["kind"]]
    except (ValueError, KeyError):
        found = []
    return found[0] if len(found) == 1 else "/nonexistent"


# ------------------------------------------------------------------- proof ----
def diagnostics(stderr):
    for line in stderr.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                yield d


def compile_errors(stderr):
    """rustc's own errors have a code, failed obligations have none"""
    return [d["message"] for d in diagnostics(stderr) if d.get("code")]


def scan_trust(text):
    """every place where the checked file assumes instead of proving"""
    out = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        for w in ("assume(", "assume_specification", "admit(", "external_body", "external_fn_specification", "external_type_specification", "axiom fn", "assume_"):
            if w in code:
                nxt = next((x.strip() for x in lines[i:i + 6] if re.search(r"\b(fn|struct|trait)\b", x)), l.strip())
                m = re.search(r"\b(fn|struct|trait)\s+(\w+)", nxt)
                name = m.group(2) if m else None
                a = re.search(r"assume_specification\s*\[\s*([\w:]+)", code)
                if a:
                    out.append("assume_specification " + a.group(1))
                    break
                # an assumed contract nobody calls assumes nothing
                if name is None or len(re.findall(r"\b%s\b" % name, text)) > len(re.findall(r"\b(?:fn|struct|trait) %s\b" % name, text)):
                    out.append("%s %s" % (w.rstrip("("), name or nxt[:60]))
                break
    return out


def start_verus(path, *args):
    """runs in its own process group, so that a solver that does not come back can be stopped with it"""
    out, err = open(path + ".out", "w+"), open(path + ".err", "w+")
    p = subprocess.Popen([VERUS, path, "--output-json", "--error-format=json", "--num-threads", "8"] + list(args), stdout=out, stderr=err, text=True, env=env(), start_new_session=True)
    return p, out, err


def end_verus(v, deadline):
    """(stderr, the result or None, ran out of time)"""
    p, out, err = v
    late = False
    try:
        p.wait(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        late = True
    stop_verus(v)
    texts = []
    for f in (err, out):
        f.seek(0)
        texts.append(f.read())
        f.close()
    try:
        j = json.loads(texts[1][texts[1].index("{"):])
    except ValueError:
        j = None
    return texts[0], j, late


def stop_verus(v):
    try:
        os.killpg(v[0].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    v[0].wait()


def fn_at(lines, n):
    """(extracted function or None, lemma name) a line of the generated file belongs to"""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r"// @fn (\S+)", lines[i])
        if m:
            return m.group(1), None
        m = re.search(r"\b(?:proof fn|spec fn) (\w+)", lines[i])
        if m and "{" not in lines[i].split("fn")[0]:
            return None, m.group(1)
    return None, None


def prove(modules, work):
    """dict(status=ok|failed|unsupported|undecided, ...)"""
    pktx = build_extractor()
    out, rep = os.path.join(work, "pkt.rs"), os.path.join(work, "report.json")
    pout, prep = os.path.join(work, "probe.rs"), os.path.join(work, "probe.json")
    base = [pktx, "--repo", REPO, "--contracts", os.path.join(HERE, "contracts"), "--modules", modules]
    if "parser" in modules:
        base += ["--expanded", expand(work), "--peg", runtime()]
    x = run(base + ["--out", out, "--report", rep])
    if x.returncode != 0:
        return dict(status="unsupported", reason="pktx: " + (re.sub(r"^pktx: ", "", x.stderr.strip())[:600] or "exit %d" % x.returncode))
    y = run(base + ["--out", pout, "--report", prep, "--probe", "1"])
    if y.returncode != 0:
        raise NoAnswer("extraction: " + y.stderr[-400:])
    end = time.time() + PROOF_S
    main, probe = start_verus(out, "--time-expanded", "--multiple-errors", "4", "--rlimit", "60"), start_verus(pout)
    stderr, j, late = end_verus(main, end)
    good = ((j or {}).get("verification-results") or {}).get("success")
    if not good:
        stop_verus(probe)
    perr, _, plate = end_verus(probe, end)
    report = json.load(open(rep))
    text = open(out).read()
    lines = text.splitlines()
    r = dict(report=report, file=out, sha=hashlib.sha256(text.encode()).hexdigest()[:16], trusted=scan_trust(text))
    vr = (j or {}).get("verification-results") or {}
    if compile_errors(stderr) or not late and (j is None or vr.get("encountered-vir-error") or not good and not vr.get("verified") and not vr.get("errors")):
        msgs = [d["message"] for d in diagnostics(stderr)] or [stderr[-300:]]
        return dict(r, status="unsupported", reason="the extracted code is outside what the verifier reads: " + "; ".join(msgs)[:600])
    funcs = []
    for m in (((j or {}).get("times-ms") or {}).get("smt") or {}).get("smt-run-module-times") or []:
        for f in m.get("function-breakdown") or []:
            funcs.append((f["function"], f.get("mode:"), f["success"], f["time-micros"]))
    r["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
    r["discharged"] = vr.get("verified", 0)
    r["smt_ms"] = round(sum(f[3] for f in funcs) / 1000.0, 1)
    r["slowest"] = ["%s %d ms" % (f[0].split("::", 1)[-1], f[3] // 1000) for f in sorted(funcs, key=lambda f: -f[3])[:3]]
    r["exec_fns"] = len([f for f in funcs if f[1] == "exec"])
    if good:
        # vacuity: the planted assertion must fail at the end of every function under contract
        plines = open(pout).read().splitlines()
        hit = set()
        for d in diagnostics(perr):
            for s in d["spans"]:
                # failed, or given up on
                if "assert(false)" in plines[s["line_start"] - 1] or "esource limit" in d["message"]:
                    hit.add(fn_at(plines, s["line_start"])[0])
        missing = [f for f in report["under_contract"] if f not in hit]
        if r["obligations"] == 0 or not report["under_contract"]:
            raise NoAnswer("no obligations")
        if missing and plate:
            return dict(r, status="undecided", reason="verifier timeout in the vacuity run")
        if missing:
            raise NoAnswer("vacuous: a false assertion goes through at the end of " + ", ".join(missing))
        r["reachable"] = len(hit)
        return dict(r, status="ok")
    fails, other = [], []
    for d in diagnostics(stderr):
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        tags = set()
        for s in d["spans"]:
            tags |= set(re.findall(r"#(C\d\d)\b", lines[s["line_start"] - 1].split("//", 1)[-1] if "//" in lines[s["line_start"] - 1] else ""))
        prim = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
        where = [fn_at(lines, s["line_start"]) for s in d["spans"]]
        # the failing function is the one that contains the exit or call, i.e. the last span in source order within a function body
        fn, lemma = fn_at(lines, max(prim, key=lambda s: s["line_start"])["line_start"])
        if "rlimit" in msg or "esource limit" in msg:
            other.append(msg)
            continue
        props = tags or set(report["props"].get(fn, [])) or {"*"}
        if "arithmetic" in msg or "decreases" in msg or any("v_panic" in lines[s["line_start"] - 1] or "precondition" in msg and re.search(r"fn v_\w+", lines[s["line_start"] - 1]) for s in d["spans"]):
            props = props | {"C16"}
        fails.append(dict(function=fn or "lemma " + str(lemma), message=msg, props=sorted(props), clause=lines[min(d["spans"], key=lambda s: s["line_start"])["line_start"] - 1].strip()[:200], line=prim[0]["line_start"]))
    if not fails:
        return dict(r, status="undecided", reason="; ".join(other)[:300] or ("verifier timeout" if late else "verifier error without an obligation"))
    return dict(r, status="failed", fails=fails)


# ------------------------------------------------------------------ search ----
def run_traced(cmd, f):
    """runs a search; when it dies or hangs, runs it again saving each input first"""
    for tr in (None, f):
        try:
            p = run(cmd, timeout=left(200), env=env(PKTR_SRC=os.path.join(REPO, "src"), **({"PKTR_TRACE": tr} if tr else {})))
            if p.returncode >= 0:
                return p, None
            why = "the compiler killed the process (signal %d)" % -p.returncode
        except subprocess.TimeoutExpired:
            why = "the compiler does not come back"
    return None, dict(why=why, replay=f)


def search(prop, kinds, scale, replay_dir):
    """bounded runs of the real code; returns (list of summaries, violation or None)"""
    out = []
    pktr, how = build_harness()
    if pktr is None:
        raise NoAnswer("/repo does not build: " + how)
    for kind in kinds:
        n = int(COUNTS[kind][TIER if TIER in ("quick", "thorough") else "quick"] * scale)
        t = time.time()
        if kind == "front":
            p, dead = run_traced([pktr, "search", prop, str(SEED), str(n), replay_dir], os.path.join(replay_dir, "%s-%d.pkt" % (prop, SEED)))
            if dead:
                return out, dead
            rule = "random schemas and texts with small name pools; each is run through the real code and compared with an independent model"
        elif kind == "wire":
            e, dead = run_traced([pktr, "emit", str(SEED), str(n)], os.path.join(replay_dir, "%s-%d.pkt" % (prop, SEED)))
            if dead:
                return out, dead
            p = run(["node", os.path.join(HERE, "replay", "wire.js"), prop, str(SEED), replay_dir], input=e.stdout, timeout=left(400))
            rule = "random accepted schemas; the generated TypeScript is loaded and run on random values against a reference runtime"
        else:
            cli = build_cli()
            if cli is None:
                raise NoAnswer("the command-line program does not build")
            p = run([sys.executable, os.path.join(HERE, "replay", "cli.py"), prop, str(SEED), str(n), replay_dir, cli, pktr], timeout=left(300), env=env(PKTR_SRC=os.path.join(REPO, "src")))
            rule = "random directory trees of schema files in a scratch directory, compiled by the real program"
        try:
            j = json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            raise NoAnswer("search %s: exit %d %s" % (kind, p.returncode, (p.stderr or p.stdout)[-400:]))
        s = dict(kind=kind, interface=how, evaluations=j["evaluations"], distinct_nontrivial=j["distinct"], rule=rule, samples=j["samples"][:2], seconds=round(time.time() - t, 1))
        out.append(s)
        if j["violation"]:
            return out, j["violation"]
    return out, None


# -------------------------------------------------------------------- main ----
BASE_TRUST = [
    "Verus 0.2026.09.13 and Z3: the verifier, its encoding and vstd",
    "extract/ (pktx): the mechanical translation from /repo's source to the checked file; what it drops is listed under dropped and in DESIGN.md",
    "contracts/prelude.rs: assumed contracts of std (Vec, str, String, HashMap, HashSet, iterators, clone, formatting); Rc<RefCell<T>> read as an immutable shared value (no borrow_mut in the source, checked on every run)",
    "usize is at least 32 bits; machine arithmetic is checked for overflow in every extracted function; stack depth and memory are unbounded",
]

MODULE_TRUST = {
    "ts": [
        "TypeScript reads the printed text as the syntax tree in contracts/model.vc says; objects have value semantics; Object.create gives a fresh empty object",
        "the packet runtime (Reader, Writer): axioms ax_sticky, ax_read, ax_uint in contracts/model.vc",
        "VERSION and the chrono date contain no line break",
    ],
    "parser": [
        "rustc's expansion of the peg macro (-Zunpretty=expanded); peg's runtime is read from cargo's registry and proved against contracts/pegrt.vc, which assumes str::len, as_bytes, len_utf8 and comparison of byte slices, and that no text is longer than isize::MAX bytes",
    ],
    "cli": [
        "std::fs and std::path by the assumed contracts of module sys in contracts/cli.vc: file names are UTF-8, nobody else changes the files meanwhile, directories nest finitely, two different component sequences below one directory are two different files",
        "the library's compile is the relation `gives`; Opts::parse returns the arguments; the exit status is zero exactly when main returns Ok; printing to standard output is dropped",
    ],
}


def trust(modules):
    return BASE_TRUST + [t for m in modules.split(",") for t in MODULE_TRUST.get(m, [])]


def known(prop):
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                yield m.group(2).strip()
    except OSError:
        return


def write_evidence(prop, ev):
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_extractor()
        expand(BUILD)
        if build_harness()[0] is None or build_cli() is None:
            raise NoAnswer("/repo does not build")
        return 0
    cfg = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
    try:
        proof = prove(cfg["modules"], work) if cfg["modules"] else None
        mine = [f for f in (proof or {}).get("fails", []) if prop in f["props"] or "*" in f["props"]]
        scale = 3 if mine or (proof and proof["status"] != "ok") else 1
        searches, violation = search(prop, cfg["search"], scale, rdir)
        ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, violations=1 if (violation or mine) else 0)
        bounded = [dict(s) for s in searches]
        if proof and proof["status"] in ("ok", "failed"):
            r = proof["report"]
            tagged = sum(1 for l in open(proof["file"]) if re.search(r"//.*#%s\b" % prop, l))
            ev["level"] = "proof"
            ev["coverage"] = dict(
                obligations=proof["obligations"], discharged=proof["discharged"],
                checker_cmd="verus pkt.rs --rlimit 60 (pkt.rs written by extract/ from /repo's working tree, sha256 %s)" % proof["sha"],
                trusted_base=trust(cfg["modules"]), functions_under_contract=r["under_contract"], functions_inlined=r["inlined"], functions_assumed=r["assumed"],
                functions_not_extracted=r["not_extracted"], dropped_by_extraction=r["dropped"], clauses_for_this_property=tagged,
                back_end="Verus/Z3", solver_ms=proof["smt_ms"], slowest=proof["slowest"], exec_functions_checked=proof["exec_fns"],
                end_reachable=proof.get("reachable", 0), failed=proof.get("fails", []), bounded_companion=bounded)
            ev["assumptions"] = sorted(set(proof["trusted"]))
        else:
            ev["level"] = "exploration"
            ev["coverage"] = dict(evaluations=sum(s["evaluations"] for s in bounded), distinct_nontrivial=sum(s["distinct_nontrivial"] for s in bounded),
                                  rule="; ".join(s["rule"] for s in bounded), samples=[x for s in bounded for x in s["samples"]], bounded=True, searches=bounded)
            if proof:
                ev["coverage"]["proof_not_available"] = proof["reason"]
            ev["assumptions"] = ["bounded: only the inputs that were run"]
        ev["wall_s"] = round(time.time() - T0, 2)
        write_evidence(prop, ev)
        if proof and proof["status"] == "failed":
            for f in proof["fails"][:8]:
                log("obligation failed in %s [%s]: %s | %s" % (f["function"], " ".join(f["props"]), f["message"], f["clause"]))
        elif proof and proof["status"] != "ok":
            log("proof not available, bounded search only: %s" % proof["reason"])
        elif proof:
            log("proved: %d of %d obligations, %d functions, %s ms solver" % (proof["discharged"], proof["obligations"], len(proof["report"]["under_contract"]), proof["smt_ms"]))
        for s in searches:
            log("searched (%s): %d cases, %d distinct, %s s" % (s["kind"], s["evaluations"], s["distinct_nontrivial"], s["seconds"]))
        if violation:
            log(violation["why"])
            log("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
            return 1
        if mine:
            f = os.path.join(rdir, "%s-obligations.json" % prop)
            with open(f, "w") as h:
                json.dump(mine, h, indent=1)
            log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, f))
            return 1
        for k in known(prop):
            log("KNOWN-FINDING: property=%s %s" % (prop, k))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        log("no answer: %s" % e)
        sys.exit(3)
    except Exception as e:
        log("no answer: %s: %s" % (type(e).__name__, str(e)[:300]))
        sys.exit(3)
