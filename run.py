#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check <ID>        run the check of one property (VERIF_TIER, VERIF_SEED)
  run.py replay <file>     re-run the case of a replay file
  run.py setup             build every variant once (warms the Go build cache)
  run.py list              list the streams

Everything is rebuilt from /repo's working tree into a scratch directory that is
removed at the end.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import plan as PLAN
import meta as META

GOBIN = "/opt/veriftools/go1.27.3/bin"
CORES = os.cpu_count() or 4
DEADLINE = time.time() + float(os.environ.get("VERIF_DEADLINE", "870" if os.environ.get("VERIF_TIER", "quick") == "quick" else "3600"))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Broken(Exception):
    pass


def base_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GO111MODULE="on", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    e["PATH"] = GOBIN + ":" + e.get("PATH", "/usr/bin:/bin")
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
    for k in ("GODEBUG", "GOEXPERIMENT", "GORACE", "GOCOVERDIR", "GOARCH", "GOOS", "GOGC", "GOMAXPROCS", "GOTRACEBACK"):
        e.pop(k, None)
    return e


class Builder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vnobs-")
        self.bins = {}
        self.poisoned = {}
        self.dropped = {}
        self.env = base_env()
        self._workspace()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _workspace(self):
        src = "/root/go/pkg/mod/golang.org/x/sys@v0.0.0-20191120155948-bd437916bb0e"
        dst = os.path.join(self.dir, "xsys")
        os.makedirs(dst)
        shutil.copy(os.path.join(src, "go.mod"), dst) if os.path.exists(os.path.join(src, "go.mod")) else open(os.path.join(dst, "go.mod"), "w").write("module golang.org/x/sys\n")
        shutil.copytree(os.path.join(src, "cpu"), os.path.join(dst, "cpu"), copy_function=shutil.copyfile)
        for r, ds, _ in os.walk(dst):
            os.chmod(r, 0o755)
        with open(os.path.join(dst, "cpu", "zz_verif.go"), "w") as f:
            f.write("""package cpu

import (
	"os"
	"strings"
)

func init() {
	v := "," + os.Getenv("VERIF_CPU") + ","
	if strings.Contains(v, ",nobmi2,") {
		X86.HasBMI2 = false
	}
	if strings.Contains(v, ",noadx,") {
		X86.HasADX = false
	}
	if strings.Contains(v, ",noaes,") {
		X86.HasAES = false
	}
}
""")
        with open(os.path.join(self.dir, "go.work"), "w") as f:
            f.write("go 1.27\n\nuse (\n\t%s\n\t%s/kem/mkem\n\t%s/harness\n)\n\nreplace golang.org/x/sys => %s\n" % (REPO, REPO, HERE, dst))
        if os.path.exists("/opt/vp/go.work.sum"):
            shutil.copyfile("/opt/vp/go.work.sum", os.path.join(self.dir, "go.work.sum"))
        self.env["GOWORK"] = os.path.join(self.dir, "go.work")

    def overlay(self, variant, drop):
        rep = {}
        root = os.path.join(HERE, "overlay")
        for r, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith((".go", ".s")):
                    continue
                rel = os.path.relpath(os.path.join(r, f), root)
                if rel in drop:
                    continue
                rep[os.path.join(REPO, rel)] = os.path.join(r, f)
        p = os.path.join(self.dir, "overlay-%s.json" % variant)
        json.dump({"Replace": rep}, open(p, "w"))
        return p, [os.path.relpath(k, REPO) for k in rep]

    def build(self, variant):
        if variant in self.bins:
            return self.bins[variant]
        v = PLAN.VARIANTS[variant]
        out = os.path.join(self.dir, "bb-" + variant)
        env = dict(self.env)
        env.update(v.get("env", {}))
        drop = set()
        t0 = time.time()
        for attempt in range(30):
            ov, files = self.overlay(variant, drop)
            if v.get("overlay") is False:
                files = []
            cmd = ["go", "build"] + (["-overlay", ov] if files else []) + ["-o", out] + v.get("flags", []) + [v.get("pkg", "./cmd")]
            p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                break
            bad = set()
            for f in files:
                if os.path.basename(f) in p.stdout and f not in drop:
                    bad.add(f)
            # several overlay files share names between packages: keep only those whose directory is mentioned
            exact = {f for f in bad if f in p.stdout or os.path.join(REPO, f) in p.stdout or os.path.join(HERE, "overlay", f) in p.stdout}
            bad = exact or bad
            if not bad:
                raise Broken("build of variant %s failed:\n%s" % (variant, p.stdout[-6000:]))
            log("overlay files that do not fit this tree are left out:", sorted(bad), "\n", p.stdout[:1500])
            drop |= bad
        else:
            raise Broken("build of variant %s failed" % variant)
        log("built %s in %.1fs" % (variant, time.time() - t0))
        self.dropped[variant] = sorted(drop)
        self.bins[variant] = out
        return out


def known_findings():
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


POISON = {
    "nobmi2": {"mulx", "rorx", "sarx", "shlx", "shrx", "pdep", "pext", "bzhi"},
    "noadx": {"adcx", "adox"},
    "noaes": {"aesenc", "aesenclast", "aesdec", "aesdeclast", "aesimc", "aeskeygenassist"},
}


def poison_file(b, variant, features):
    """Addresses of the library's instructions that a processor without the features lacks."""
    out = os.path.join(b.dir, "poison-%s-%s" % (variant, features.replace(",", "-")))
    if os.path.exists(out):
        return out
    ops = set()
    for f in features.split(","):
        ops |= POISON[f]
    dis = os.path.join(b.dir, "dis-" + variant)
    if not os.path.exists(dis):
        with open(dis + ".tmp", "w") as f:
            if subprocess.run(["objdump", "-d", "--no-show-raw-insn", "-w", b.bins[variant]], stdout=f, stderr=subprocess.DEVNULL).returncode != 0:
                return None
        os.replace(dis + ".tmp", dis)
    n, inside, res = 0, False, []
    for l in open(dis, errors="replace"):
        if l.endswith(">:\n"):
            inside = "<github.com/henrydcase/nobs/" in l or "<mkem." in l
        elif inside:
            p = l.split(None, 2)
            if len(p) > 1 and (p[1] in ops or (p[1][0] == "v" and p[1][1:] in ops)):
                res.append(p[0].rstrip(":"))
    with open(out + ".tmp", "w") as f:
        f.write("\n".join(res))
    os.replace(out + ".tmp", out)
    b.poisoned[(variant, features)] = len(res)
    return out


NOBS = re.compile(r"github\.com/henrydcase/nobs|/repo/|mkem\.")


def classify_crash(text):
    """A worker died: is it the code under test?"""
    if "WARNING: DATA RACE" in text:
        return "data-race"
    if "checkptr" in text:
        return "checkptr"
    if "all goroutines are asleep" in text or "fatal error:" in text or "panic:" in text or "unexpected fault" in text or "SIGSEGV" in text or "SIGILL" in text or "SIGBUS" in text:
        return "crash"
    return None


def run_worker(b, prop, run, shard, of, tier, seed, outfile, only=-1, budget=0):
    binary = b.bins[run["variant"]]
    env = dict(base_env())
    env.update(run.get("env", {}))
    pre = list(run.get("prefix", []))
    env["GOTRACEBACK"] = "all"
    env["GORACE"] = "halt_on_error=0 exitcode=66 history_size=3"
    env["VERIF_VARIANT"] = run["variant"]
    scale = run.get("scale", 1.0)
    if isinstance(scale, dict):
        scale = scale[tier]
    if tier == "quick":
        scale *= getattr(PLAN, "QUICK", {}).get(prop, 1)
    trace = []
    if run.get("image"):
        env["VERIF_IMAGE"] = b.bins[run["image"]]
        env["VERIF_IMAGE_DROPPED"] = ",".join(b.dropped.get(run["image"], []))
    if run.get("fakecpu"):
        trace = ["-fakecpu", run["fakecpu"]]
        pf = poison_file(b, run["variant"], run["fakecpu"])
        if pf:
            env["VERIF_POISON"] = pf
    cmd = pre + [binary] + trace + ["-prop", run.get("prop", prop), "-tier", tier, "-seed", str(seed), "-shard", str(shard), "-of", str(of),
                                   "-scale", str(scale), "-only", str(only), "-out", outfile]
    if run.get("streams"):
        cmd += ["-streams", ",".join(run["streams"])]
    if budget:
        cmd += ["-budget", "%.1f" % budget]
    if run.get("casecpu"):
        cmd += ["-casecpu", str(run["casecpu"])]
    left = DEADLINE - time.time()
    if left < 1:
        return {"rc": None, "text": "deadline", "out": outfile}
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=left)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        rc = None
    return {"rc": rc, "text": o.decode(errors="replace"), "out": outfile, "cmd": cmd}


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if seed < 0:
        seed = -seed
    P = PLAN.PLANS[prop]
    b = Builder()
    evdir = os.path.join(HERE, "evidence")
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    for f in os.listdir(rpdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rpdir, f))
    viol, inconclusive = [], []
    notes = []
    try:
        runs = [r for r in P["runs"] if not (r.get("only_tier") and r["only_tier"] != tier)]
        variants = []
        for r in runs:
            for x in [r["variant"]] + ([r["image"]] if r.get("image") else []):
                if x not in variants:
                    variants.append(x)
        with ThreadPoolExecutor(max_workers=4) as ex:
            fut = {v: ex.submit(b.build, v) for v in variants}
            for v, f in fut.items():
                try:
                    f.result()
                except Broken as e:
                    if PLAN.VARIANTS[v].get("optional"):
                        notes.append("%s: %s" % (v, str(e)[:600]))
                    elif PLAN.VARIANTS[v].get("build_failure_is"):
                        viol.append({"kind": PLAN.VARIANTS[v]["build_failure_is"], "detail": str(e), "run": {"variant": v}})
                    else:
                        raise
        for r in runs:
            if r.get("fakecpu") and r["variant"] in b.bins:
                poison_file(b, r["variant"], r["fakecpu"])
        jobs = []
        for ri, r in enumerate(runs):
            if r["variant"] not in b.bins or (r.get("image") and r["image"] not in b.bins):
                continue
            n = r.get("shards", CORES)
            if n == "cores":
                n = CORES
            for s in range(n):
                jobs.append((ri, r, s, n))
        par = P.get("parallel", CORES)
        def go(j):
            ri, r, s, n = j
            # the time that is left, less a reserve for the cases that are running when it ends
            waves = -(-(len(jobs) - jobs.index(j)) // par)
            left = max(1.0, (DEADLINE - time.time()) * 0.75 / waves)
            return j, run_worker(b, prop, r, s, n, tier, seed, os.path.join(b.dir, "out-%d-%d.json" % (ri, s)), budget=left)
        results = []
        with ThreadPoolExecutor(max_workers=par) as ex:
            for x in ex.map(go, jobs):
                results.append(x)
        ev, keys, counters, samples, skipped = 0, set(), {}, [], {}
        findings = {}
        trans = {}
        perrun = {}
        for (ri, r, s, n), res in results:
            label = r.get("label") or (r["variant"] + ("+" + r["env"].get("VERIF_CPU", "") if r.get("env") else "") + ("+cpu-" + r["fakecpu"] if r.get("fakecpu") else "") + ("+image-" + r["image"] if r.get("image") else ""))
            data = None
            if os.path.exists(res["out"]):
                try:
                    data = json.load(open(res["out"]))
                except Exception:
                    data = None
            text = res["text"]
            if "VERIF_UNRUNNABLE" in text or (data is None and r.get("may_not_run") and res["rc"] not in (0, None) and not NOBS.search(text)):
                notes.append("%s: could not be executed here: %s" % (label, text.strip()[:200]))
                continue
            if data is None or res["rc"] != 0:
                k = classify_crash(text)
                if k == "checkptr" or (k and NOBS.search(text)):
                    viol.append({"kind": k, "detail": excerpt(text, k), "run": r, "shard": [s, n]})
                elif res["rc"] is None:
                    inconclusive.append("%s shard %d: did not finish in time" % (label, s))
                elif data is None:
                    inconclusive.append("%s shard %d: rc=%s %s" % (label, s, res["rc"], text[-1500:]))
                else:
                    inconclusive.append("%s shard %d: rc=%s %s" % (label, s, res["rc"], text[-1500:]))
            if data is None:
                continue
            ev += data["evaluations"]
            perrun.setdefault(label, 0)
            perrun[label] += data["evaluations"]
            keys |= set(label + k if P.get("key_per_run") else k for k in (data["keys"] or []))
            for k, v in data["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in data["skipped"].items():
                skipped[label + ":" + k] = skipped.get(label + ":" + k, 0) + v
            have = {x.split(":")[0] for x in samples}
            for x in data["samples"] or []:
                if x.split(":")[0] not in have and len(samples) < 12:
                    samples.append(x)
                    have.add(x.split(":")[0])
            for v in data["violations"] or []:
                viol.append({"kind": v["kind"], "detail": v["detail"], "case": v, "run": r})
            for v in data["findings"] or []:
                findings.setdefault(v["finding"], (v, r))
            if r.get("compare"):
                trans.setdefault(r["compare"], {}).setdefault(label, {"run": r, "t": {}})
                for l in data.get("transcript") or []:
                    k, _, val = l.partition("=")
                    trans[r["compare"]][label]["t"][k] = val
        # offline comparison of transcripts across configurations
        compared, comparedby = 0, {}
        for grp, d in trans.items():
            labels = list(d)
            ref = labels[0]
            for l in labels[1:]:
                common = 0
                for k, val in d[l]["t"].items():
                    if k in d[ref]["t"]:
                        common += 1
                        if d[ref]["t"][k] != val:
                            viol.append({"kind": "configuration-dependent", "run": d[l]["run"],
                                         "detail": "%s: %s gives %s, %s gives %s" % (k, ref, d[ref]["t"][k], l, val)})
                            break
                compared += common
                comparedby[l] = common
                if common == 0 and not viol:
                    inconclusive.append("no transcript entries of %s could be compared with %s" % (l, ref))
        if trans:
            counters["transcript-entries-compared"] = compared
            for l, n in comparedby.items():
                counters["transcript-entries-compared:" + l] = n
        kf = known_findings()
        nknown = 0
        known_lines = []
        for key, (v, r) in sorted(findings.items()):
            if (prop, key) in kf:
                nknown += 1
                known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, key, kf[(prop, key)]))
            else:
                viol.append({"kind": "finding", "detail": v["detail"], "case": v, "run": r})
        if ev == 0 and not viol:
            inconclusive.append("nothing was observed")
        for need in P.get("must_observe", []):
            if not viol and not any(k.startswith(need) and v > 0 for k, v in counters.items()):
                inconclusive.append("no event of kind %r was observed" % need)
        evd = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": len(keys), "rule": META.M[prop][1], "samples": samples,
                "observed": counters, "evaluations_per_configuration": perrun, "unobserved_parts": skipped,
                "overlay_files_left_out": {k: v for k, v in b.dropped.items() if v},
                "instructions_removed": {k[0] + "+" + k[1]: v for k, v in b.poisoned.items()},
                "notes": notes, "inconclusive": inconclusive[:10], "known_findings": known_lines,
            },
            "assumptions": P.get("assumptions", []) + PLAN.ASSUME,
            "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        }
        tmp = os.path.join(evdir, prop + ".json.tmp")
        json.dump(evd, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(evdir, prop + ".json"))
        for l in known_lines:
            print(l)
        if viol:
            seen = set()
            for i, v in enumerate(viol):
                sig = (v["kind"], (v.get("case") or {}).get("stream"))
                if sig in seen and i > 0:
                    continue
                seen.add(sig)
                path = os.path.join(rpdir, "%s-%d.json" % (prop, len(seen)))
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  " + v["kind"] + ": " + v["detail"][:1200].replace("\n", "\n  "))
                if len(seen) >= 5:
                    break
            return 1
        if inconclusive:
            print("INCONCLUSIVE property=%s" % prop)
            for x in inconclusive[:5]:
                print("  " + x)
            return 2
        print("ok property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, ev, len(keys), time.time() - t0))
        for nt in notes:
            print("  note: " + nt)
        return 0
    except Broken as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        b.close()


def excerpt(text, kind):
    for marker in ("SIGILL", "WARNING: DATA RACE", "fatal error:", "panic:", "unexpected fault", "checkptr"):
        i = text.find(marker)
        if i >= 0:
            return text[max(0, i - 200):i + 3500]
    return text[-3500:]


def replay(path):
    v = json.load(open(path))
    b = Builder()
    try:
        r = v["run"]
        b.build(r["variant"])
        if r.get("image"):
            b.build(r["image"])
        c = v.get("case")
        rr = dict(r)
        out = os.path.join(b.dir, "o.json")
        if c:
            rr["streams"] = [c["stream"]]
            res = run_worker(b, v["property"], rr, 0, 1, v["tier"], v["seed"], out, only=c["idx"])
        else:
            s, n = v.get("shard", [0, 1])
            res = run_worker(b, v["property"], rr, s, n, v["tier"], v["seed"], out)
        print(res["text"][-4000:])
        if os.path.exists(out):
            d = json.load(open(out))
            for x in (d["violations"] or []) + (d["findings"] or []):
                print(json.dumps(x, indent=1))
                return 1
        return 0 if res["rc"] == 0 else 1
    finally:
        b.close()


def main():
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        sys.exit(check(a[1]))
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["setup"]:
        b = Builder()
        try:
            for v in PLAN.VARIANTS:
                try:
                    b.build(v)
                except Broken as e:
                    log("setup: %s" % e)
            print("overlay files left out:", {k: v for k, v in b.dropped.items() if v})
        finally:
            b.close()
        sys.exit(0)
    if a[:1] == ["list"]:
        b = Builder()
        try:
            subprocess.run([b.build("default"), "-list"])
        finally:
            b.close()
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
