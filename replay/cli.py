#!/usr/bin/env python3
"""cli.py PROP SEED N DIR PACKETC PKTR: runs the command-line program on random trees.

Everything happens in a fresh scratch directory that is removed at the end.
cli.py PROP replay FILE PACKETC PKTR re-runs a saved case.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile

GOOD = ["T: struct { a: uint8 }\nexport T\n", "E: enum { A, B }\nP: struct { e: E, s?: string }\nexport P\n", "# c\nQ: struct { }\nexport Q",
        "V: struct { x: float, y: float }\nR: struct { v: V[], n: int32 }\nexport R\n"]
BAD = ["T: struct { a: uint8 \n", "T: struct { a: Missing }\nexport T\n", "", "T: struct { a: uint8 }\n", "A: struct { b: B }\nB: struct { a: A }\nexport A\n", "\x00é {", None]
NAMES = ["a.pkt", "b.pkt", "a.b.pkt", "x.y.z.pkt", "with space.pkt", "été.pkt", "A.pkt", ".hid.pkt", "pkt.pkt", "-dash.pkt", "ts.pkt", "c.ts.pkt"]
OTHER = ["readme.txt", "a.PKT", "noext", "pkt", "x.pkt.bak", ".pkt", "b.ts"]
DIRS = ["sub", "d.pkt", "a", "deep.er", "sp ace", "src", ".hidden", "_u", "node_modules", "target", "out", "tmp", "A"]
BASES = ["_x", "x_", "~t", "a~", "0", "9z", "mod", "index", "test", "a-b", "a+b", "#h#", "e\u0301", "CON", "x" * 60, "a.", "..b", "b ", "$v", "%41", "a,b", "a'b", "[a]", "a&b", "schema", "main", "lib", "TS", "a.TS"]
EXTS = ["pkt2", "pktx", "xpkt", "Pkt", "pkt~", "pkt ", "pk", "p", "pkts", "ts", "json"]
WORDS, SIZES = [], []


def literals(d):
    """words and numbers in the program's own source, to spell names with and to choose sizes around"""
    base = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.txt")).read().split("\n"))
    for top, _, fs in os.walk(d or "/nonexistent"):
        for f in sorted(fs):
            if f == "main.rs":
                t = open(os.path.join(top, f), newline="").read().replace("\r\n", "\n")
                t = re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)
                for w in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t) + re.findall(r"'([^'\\])'", t):
                    for x in re.findall(r"[\w.~$#@!+-]+", w):
                        if len(x) < 40 and x.strip(".") and any(y and y not in base and "_" + y not in base for y in re.split(r"\W+", x)):
                            WORDS.append(x)
                for n in re.findall(r"\b\d[\d_]*\b", t):
                    n = int(n.replace("_", ""))
                    SIZES.extend([n - 1, n, n + 1] + ([1 << n] if n < 24 else []))


def base_name(r):
    w = r.choice(WORDS) if WORDS and r.random() < 0.6 else r.choice(BASES)
    return r.choice([w, w, w + "x", "x" + w, w + "." + r.choice(BASES), w.upper(), w.lower()])


def big(r):
    """a schema whose text and code are large"""
    n = min(r.choice(SIZES + [10, 100, 300, 700]), 2000)
    return "T: struct { %s }\nexport T\n" % ", ".join("f%d: uint8" % i for i in range(max(n, 1)))


def tree(r, depth=0):
    """relative path -> text or None (unreadable as text)"""
    out = {}
    for n in r.sample(NAMES, r.randint(0 if depth else 1, 3)):
        out[n] = r.choice(GOOD)
    if r.random() < 0.5:
        out[base_name(r).lstrip("-") + ".pkt"] = r.choice(GOOD)
    if r.random() < 0.04:
        out["big.pkt"] = big(r)
    for n in r.sample(OTHER, r.randint(0, 2)):
        out[n] = r.choice(["junk {", r.choice(GOOD)])
    if r.random() < 0.4:
        out[r.choice(["a", "f", base_name(r)]).lstrip("-") + "." + r.choice(EXTS + WORDS)] = r.choice(["junk {", r.choice(GOOD)])
    if depth < 3:
        for d in r.sample(DIRS, r.randint(0, 2)):
            if r.random() < 0.25:
                d = base_name(r)
            if d in out or d.startswith("-") or d.endswith(".ts"):  # a.ts/ next to a.pkt: no output path is left
                continue
            for k, v in tree(r, depth + 1).items():
                out[d + "/" + k] = v
    if depth == 0 and r.random() < 0.06:
        n = min(r.choice(SIZES + [5, 9, 17, 33]), 60)
        out["/".join(["n"] * max(n, 1)) + "/z.pkt"] = r.choice(GOOD)
    if depth == 0 and r.random() < 0.02:
        for i in range(min(r.choice(SIZES + [40, 130, 300]), 600)):
            out["many/m%d.pkt" % i] = GOOD[0]
    return {k: v for k, v in out.items() if not any(o != k and k.startswith(o + "/") for o in out)}


def case(r, prop):
    c = dict(files=tree(r), mode=r.choice(["dir", "dir", "dir", "file"]), inform=r.choice(["rel", "abs", "slash", "dot", "cwd", "up"]), outform=r.choice(["rel", "abs", "deep", "same", "slash", "exists"]), lang="ts", missing=False, pick=r.random())
    pk = [f for f in c["files"] if picked(f)]
    if c["mode"] == "file":
        f = r.choice(NAMES + ["noext", "x.txt", ".pkt"])
        c["files"] = {f: r.choice(GOOD), "other.pkt": r.choice(GOOD)}
        c["target"] = f
        pk = [f]
    if prop == "C15" and pk and r.random() < 0.75:
        for f in r.sample(pk, r.randint(1, min(2, len(pk)))):
            c["files"][f] = r.choice(BAD)
    if prop == "C15" and r.random() < 0.08:
        c["lang"] = r.choice(["rust", "typescript", ""])
    if prop == "C15" and r.random() < 0.06:
        c["missing"] = True
    if prop == "C15" and c["mode"] == "dir" and r.random() < 0.12:
        c["links"] = {r.choice(["", "sub/", "lnk/"]) + r.choice(["gone.pkt", "a0.pkt", "x.y.pkt"]): "nowhere"}
        c["links"] = {k: v for k, v in c["links"].items() if k not in c["files"] and not any(f.startswith(k + "/") or k.startswith(f + "/") for f in c["files"])}
    if prop == "C15" and r.random() < 0.12:
        c["block"] = r.random()
    if r.random() < 0.5:
        c["stale"] = [r.choice([0, 1, 3, 40, 5000, 200000]) for _ in range(r.randint(1, 4))]
    return c


def picked(rel):
    b = rel.rsplit("/", 1)[-1]
    return b.endswith(".pkt") and len(b) > 4


def to_ts(rel):
    d, _, b = rel.rpartition("/")
    i = b.rfind(".")
    b = (b[:i] if i > 0 else b) + ".ts"
    return d + "/" + b if d else b


def snapshot(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue
            with open(p, "rb") as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


def body(b):
    return sorted(b.decode("utf-8", "replace").split("\n")[1:])


def judge(c, packetc, pktr, prop):
    top = tempfile.mkdtemp(prefix="pktcli-")
    try:
        src = os.path.join(top, "in")
        os.makedirs(src)
        for rel, text in c["files"].items():
            p = os.path.join(src, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(b"\xff\xfe bad utf8" if text is None else text.encode())
        for rel, to in c.get("links", {}).items():
            p = os.path.join(src, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(to, p)
        cwd, form = top, c["inform"]
        base = {"rel": "in", "abs": src, "slash": "in/", "dot": "./in", "cwd": ".", "up": "in/../in"}[form]
        if form == "cwd":
            cwd = src
        if c["mode"] == "file":
            base = os.path.join(base, c["target"])
        if c["missing"]:
            base = base.rstrip("/") + "_gone"
        out = {"rel": "out", "abs": os.path.join(top, "out"), "deep": "out/x/y", "same": base if c["mode"] == "dir" and not c["missing"] else "out", "slash": "out/", "exists": os.path.join(top, "out")}[c["outform"]]
        outdir = os.path.normpath(os.path.join(cwd, out))
        if c["outform"] == "exists":
            os.makedirs(outdir)
            with open(os.path.join(outdir, "a.ts"), "w") as h:
                h.write("old")
            with open(os.path.join(outdir, "keep.txt"), "w") as h:
                h.write("keep")
        blocked = None
        ts = [to_ts(f) if c["mode"] == "dir" else to_ts(f.rsplit("/", 1)[-1]) for f in sorted(c["files"]) if (picked(f) if c["mode"] == "dir" else f == c["target"])]
        for t, size in zip(ts, c.get("stale", [])):
            # an earlier output is there, longer or shorter than the new one
            p = os.path.join(outdir, t)
            if not os.path.lexists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as h:
                    h.write("// old\n" + "x" * size)
        if c.get("block") is not None:
            # a directory stands where an output has to go
            if ts:
                blocked = os.path.join(outdir, ts[int(c["block"] * len(ts))])
                if os.path.lexists(blocked):
                    blocked = None
                else:
                    os.makedirs(blocked)
        before = snapshot(top)
        p = subprocess.run([packetc, "--", c["lang"], base, out], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        after = snapshot(top)
        changed = {k: v for k, v in after.items() if before.get(k) != v}
        gone = [k for k in before if k not in after]
        inputs = {}
        if not c["missing"] and c["lang"] == "ts":
            for rel in c["files"]:
                if (c["mode"] == "dir" and picked(rel)) or (c["mode"] == "file" and rel == c["target"]):
                    q = subprocess.run([pktr, "show", os.path.join(src, rel)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60) if c["files"][rel] is not None else None
                    inputs[rel] = q.stdout if q and q.returncode == 0 else None
        ok = c["lang"] == "ts" and not c["missing"] and not c.get("links") and all(v is not None for v in inputs.values())
        # an input that is itself overwritten by an output cannot be told apart afterwards: b.ts next to b.pkt is fine, it is an output
        if gone:
            return "files disappeared: %s" % gone
        if not ok:
            if prop == "C14":
                return None
            if p.returncode == 0:
                return "exit status 0 although %s" % ("the input is missing" if c["missing"] else "the language is unknown" if c["lang"] != "ts" else "a file cannot be read: %s" % sorted(c["links"]) if c.get("links") else "these do not compile: %s" % [k for k, v in inputs.items() if v is None])
            if changed:
                return "failed, but wrote %s" % sorted(changed)
            return None
        if blocked:
            return "exit status 0 although %s cannot be written" % os.path.relpath(blocked, top) if p.returncode == 0 else None
        if p.returncode != 0:
            return "exit status %d although every schema compiles: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-200:])
        want = {}
        for rel, code in inputs.items():
            t = to_ts(rel) if c["mode"] == "dir" else to_ts(rel.rsplit("/", 1)[-1])
            want[os.path.relpath(os.path.normpath(os.path.join(outdir, t)), top)] = code
        if set(changed) != set(want):
            return "wrote %s, expected %s" % (sorted(changed), sorted(want))
        if prop == "C15":
            for k in want:
                if body(changed[k]) != body(want[k]):
                    return "%s is not what the library compiles" % k
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    prop = sys.argv[1]
    literals(os.environ.get("PKTR_SRC"))
    if sys.argv[2] == "replay":
        w = judge(json.load(open(sys.argv[3]))["case"], sys.argv[4], sys.argv[5], prop)
        print(w or "ok")
        return 1 if w else 0
    seed, n, d, packetc, pktr = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5], sys.argv[6]
    r = random.Random(seed * 1000003 + int(prop[1:]))
    seen, samples = set(), []
    for k in range(n):
        c = case(r, prop)
        seen.add(json.dumps(c, sort_keys=True))
        if len(samples) < 2:
            samples.append(dict(files=sorted(c["files"]), mode=c["mode"], input=c["inform"], output=c["outform"]))
        w = judge(c, packetc, pktr, prop)
        if w:
            f = os.path.join(d, "%s-%d.json" % (prop, seed))
            with open(f, "w") as h:
                json.dump(dict(why=w, case=c), h, indent=1)
            print(json.dumps(dict(evaluations=k + 1, distinct=len(seen), samples=samples, violation=dict(why=w, replay=f))))
            return 1
    print(json.dumps(dict(evaluations=n, distinct=len(seen), samples=samples, violation=None)))
    return 0


sys.exit(main())
