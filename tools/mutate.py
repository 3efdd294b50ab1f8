#!/usr/bin/env python3
"""Mutation campaign: which one-line changes of a file does no check notice?

  mutate.py OUT.jsonl VARIANT PROPS FILE... [-n MAX] [-w WORKERS] [-s SEED] [-c SCALE]
  mutate.py OUT.jsonl VARIANT PROPS -r EARLIER.jsonl

VARIANT may be a comma-separated list, PROPS too. Works on copies of /repo under /tmp/mu; the results (killed/survived, by which
property) are appended to OUT.jsonl. A development tool: no check uses it.
"""
import sys, os, re, json, random, subprocess, shutil, multiprocessing as mp, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SWAP = {"ADCQ": "ADDQ", "SBBQ": "SUBQ", "ADCXQ": "ADOXQ", "ADOXQ": "ADCXQ", "ADDQ": "SUBQ", "SUBQ": "ADDQ",
        "ANDQ": "ORQ", "XORQ": "ORQ", "SHRQ": "SHLQ", "SHLQ": "SHRQ", "JE": "JNE", "JNE": "JE"}
DROP = set("ADCQ SBBQ ADDQ SUBQ ADCXQ ADOXQ XORQ ANDQ ORQ MOVQ SHLQ SHRQ NEGQ PXOR PAND MOVO MOVOU MULXQ MULQ PSHUFD CMPB NOTQ "
           "AESENC AESENCLAST AESDEC AESDECLAST AESIMC AESKEYGENASSIST MOVUPS PSHUFL SHUFPS ADDL MOVL DECQ JE JNE ROLQ ANDNQ".split())
GO = [
    (r"<=", "<"), (r"(?<![<\-])<(?![<=\-])", "<="), (r">=", ">"), (r"(?<![>])>(?![>=])", ">="),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
    (r"(?<![+\w])\+(?![+=])", "-"), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="),
    (r"(?<![\w.])(\d+)(?![\w.xX])", "INC"), (r"(?<![\w.])(\d+)(?![\w.xX])", "DEC"),
    (r"\|=", "&="), (r"\^=", "|="), (r"(?<![&])&(?![&=\w^])", "|"), (r"<<", ">>"), (r">>", "<<"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(bits\.(?:Add|Sub)64\([^,]+,[^,]+,)[^)]+\)", r"\1 0)"),
    ("DEL", None), (r"\bnil\b", "NIL"), (r"0x([0-9A-Fa-f])", "HEX"),
]


def mutants(path):
    rel = path
    lines = open(os.path.join("/repo", path)).read().split("\n")
    out = []
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): incomment = True
        if incomment:
            if "*/" in s: incomment = False
            continue
        if not s or s.startswith("//"):
            continue
        code = l.split("//")[0] if "//" in l and '"' not in l else l
        rest = l[len(code):]
        if path.endswith(".s"):
            if s.startswith("#") or s.startswith("TEXT"): continue
            for m in re.finditer(r"\b([A-Z][A-Z0-9]+)\b(\s+)([^;\\/]*[^;\\/\s])(\s*)", code):
                if m.group(1) in SWAP:
                    out.append((rel, i, l, code[:m.start()] + SWAP[m.group(1)] + code[m.end(1):] + rest))
                if m.group(1) in DROP:
                    out.append((rel, i, l, code[:m.start()] + "NOP" + code[m.end(3):] + rest))
            continue
        if s.startswith(("package", "import", "func", "type", "const (", "var (", ")", "}", "case", "default")) and not s.startswith("} else if"):
            if not s.startswith("case"): continue
        for pat, rep in GO:
            if pat == "DEL":
                if re.match(r"^\s*[\w\.\[\]\*\(\), :+\-]+(\s[\+\-\*/&|^<>]*=\s.*|\(.*\)|\+\+|--)$", code) and ":=" not in code and not s.startswith("return"):
                    out.append((rel, i, l, re.match(r"\s*", l).group(0) + "// deleted"))
                continue
            for m in re.finditer(pat, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                if rep == "INC": r = str(int(m.group(1)) + 1)
                elif rep == "DEC":
                    if int(m.group(1)) == 0: continue
                    r = str(int(m.group(1)) - 1)
                elif rep == "NIL": continue
                elif rep == "HEX": r = "0x%X" % (int(m.group(1), 16) ^ 1)
                else: r = m.expand(rep) if "\\" in rep else rep
                n = code[:m.start()] + r + code[m.end():]
                if n != code: out.append((rel, i, l, n + rest))
    return out


def worker(wid, q, res, variants, props, scale, seedv):
    w = "/tmp/mu/w%d-%d" % (os.getpid(), wid)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    os.environ["VERIF_REPO"] = w
    sys.path.insert(0, HERE)
    import run as R
    import plan as P
    R.REPO = w
    R.DEADLINE = time.time() + 1e7
    R.log = lambda *a: None
    b = R.Builder()
    try:
        while True:
            m = q.get()
            if m is None: break
            rel, i, old, new = m
            p = os.path.join(w, rel)
            src = open(p).read()
            ls = src.split("\n")
            assert ls[i] == old
            ls[i] = new
            open(p, "w").write("\n".join(ls))
            t0 = time.time()
            b.bins = {}
            verdict = "survived"
            try:
                for v in variants:
                    try:
                        b.build(v)
                        if b.dropped.get(v): verdict = "build"; break
                    except R.Broken as e:
                        verdict = "build"
                        break
                    for prop in props:
                        for sh in range(24):
                            o = os.path.join(b.dir, "mo.json")
                            if os.path.exists(o): os.unlink(o)
                            R.DEADLINE = time.time() + 300
                            x = R.run_worker(b, prop, {"variant": v, "scale": scale}, sh, 24, "quick", seedv, o)
                            d = None
                            try: d = json.load(open(o))
                            except Exception: pass
                            if d is None or x["rc"] != 0:
                                verdict = "killed:%s:crash" % prop
                            elif d["violations"]:
                                verdict = "killed:%s:%s" % (prop, d["violations"][0]["stream"])
                            if verdict != "survived": break
                        if verdict != "survived": break
                    if verdict != "survived": break
            finally:
                open(p, "w").write(src)
            res.put({"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip(), "verdict": verdict, "t": round(time.time() - t0, 1)})
    finally:
        b.close()
        shutil.rmtree(w, ignore_errors=True)
        res.put(None)


def main():
    a = sys.argv[1:]
    opt = {"-n": 0, "-w": 8, "-s": 1, "-c": 1.0, "-r": ""}
    pos = []
    while a:
        x = a.pop(0)
        if x == "-r": opt[x] = a.pop(0)
        elif x in opt: opt[x] = float(a.pop(0))
        else: pos.append(x)
    out, variants, props, files = pos[0], pos[1].split(","), pos[2].split(","), pos[3:]
    ms = []
    if opt["-r"]:  # only the survivors of an earlier campaign
        again = {(r["file"], r["line"], r["old"], r["new"]) for r in map(json.loads, open(opt["-r"])) if r["verdict"] == "survived"}
        files = sorted({k[0] for k in again})
    for f in files: ms += mutants(f)
    if opt["-r"]: ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip(), m[3].strip()) in again]
    ms = list(dict.fromkeys(ms))
    random.Random(int(opt["-s"])).shuffle(ms)
    if opt["-n"]: ms = ms[:int(opt["-n"])]
    print(len(ms), "mutants", flush=True)
    q, res = mp.Queue(), mp.Queue()
    for m in ms: q.put(m)
    nw = int(opt["-w"])
    for _ in range(nw): q.put(None)
    ps = [mp.Process(target=worker, args=(k, q, res, variants, props, opt["-c"], 1)) for k in range(nw)]
    for p in ps: p.start()
    done = 0
    tally = {}
    with open(out, "a") as f:
        while done < nw:
            r = res.get()
            if r is None: done += 1; continue
            f.write(json.dumps(r) + "\n"); f.flush()
            k = r["verdict"].split(":")[0]
            tally[k] = tally.get(k, 0) + 1
            if k == "survived": print(r["file"], r["line"], "|", r["old"], "=>", r["new"], r["t"], flush=True)
    print(tally)


main()
