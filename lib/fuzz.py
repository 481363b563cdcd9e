"""Coverage-guided campaign over the targets of one property (thorough tier).

The targets are the ones of the random search; the fuzzer's bytes are decoded into the choice sequence (pbt_main.cpp).
The initial corpus is 300 non-trivial random cases.  A crashing input is minimized by libFuzzer, decoded, and counts as
a violation when the ordinary build fails on the decoded choices too (so a slow or out-of-memory fuzzer process does not).
VERIF_FUZZ_SECS: seconds per property (default 240, 8 processes)."""
import os, re, glob, shutil, subprocess, tempfile, time, json
from concurrent.futures import ThreadPoolExecutor

def recorded(f):
    b = open(f, "rb").read(); n = int.from_bytes(b[:8], "little")
    return [int.from_bytes(b[8 * k:8 * k + 8], "little") for k in range(1, n + 1)]

def campaign(V, REPO, pid, seed, build):
    total = float(os.environ.get("VERIF_FUZZ_SECS", "240"))
    meta = json.load(open(os.path.join(V, "rules.json")))[pid]
    san = [f for f in meta.get("flags", []) if f.startswith("-f")]
    flags = ["-O1", "-fgnuc-version=6.4", "-fsanitize=fuzzer-no-link"] + san + ["-DPBT_LIBFUZZER"]
    d, b = build(pid, ".fz", flags, cxx="clang++", link=["-fsanitize=fuzzer"])
    w = tempfile.mkdtemp(prefix="fz.", dir=os.path.join(V, "out"))
    try:
        names = subprocess.run([b], env=dict(os.environ, PBT_LIST="1"), stdout=subprocess.PIPE, text=True).stdout.split()
        env = dict(os.environ, PBT_SEED=str(seed), UBSAN_OPTIONS="halt_on_error=1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1")
        ok = []
        for n in names:
            c = os.path.join(w, n); os.makedirs(c)
            r = subprocess.run([b], env=dict(env, PBT_TARGET_NAME=n, PBT_SEED_CORPUS=c), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
            if r.returncode == 0: ok.append(n)
        procs = max(1, 8 // max(1, len(ok))); rounds = max(1, -(-len(ok) * procs // 8)); secs = max(10, int(total / rounds))
        res = {n: {"runs": 0, "corpus": 0, "coverage": 0} for n in ok}; found = []
        def one(job):
            n, k = job
            c = os.path.join(w, n); art = os.path.join(w, "art.%s.%d." % (n, k))
            log = os.path.join(w, "log.%s.%d" % (n, k))
            with open(log, "w") as lf:
                subprocess.run([b, c, "-max_total_time=%d" % secs, "-seed=%d" % (seed * 100 + k + 1), "-max_len=6000", "-timeout=60", "-rss_limit_mb=3500", "-reload=30",
                                "-artifact_prefix=" + art, "-print_final_stats=1"], env=dict(env, PBT_TARGET_NAME=n), stdout=subprocess.DEVNULL, stderr=lf)
            t = open(log, errors="replace").read()
            m = re.findall(r"stat::number_of_executed_units: (\d+)", t); q = re.findall(r"#\d+\s.*cov: (\d+).*corp: (\d+)/", t)
            res[n]["runs"] += int(m[-1]) if m else 0
            if q: res[n]["coverage"] = max(res[n]["coverage"], int(q[-1][0])); res[n]["corpus"] = max(res[n]["corpus"], int(q[-1][1]))
            for a in glob.glob(art + "*"):
                mm = re.findall(r"PBT-FAILURE (.*)", t)
                found.append((n, a, mm[-1] if mm else "sanitizer report, crash, hang or memory limit"))
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, [(n, k) for k in range(procs) for n in ok]))
        rc = 0; unconfirmed = []
        if found:
            d2, b2 = build(pid, ".rp", ["-O1"] + meta.get("flags", []), **({"cxx": meta["cxx"]} if meta.get("cxx") else {}))
            for n, a, msg in found:
                small = a + ".min"
                if "timeout-" not in a: subprocess.run([b, "-minimize_crash=1", "-max_total_time=60", "-exact_artifact_path=" + small, a], env=dict(env, PBT_TARGET_NAME=n), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                bad = False
                for f in (small, a):
                    if not os.path.exists(f): continue
                    co = os.path.join(w, "choices"); 
                    if os.path.exists(co): os.remove(co)
                    try: subprocess.run([b, f], env=dict(env, PBT_TARGET_NAME=n, PBT_CHOICES_OUT=co), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=70)
                    except subprocess.TimeoutExpired: pass
                    if not os.path.exists(co): continue
                    rf = os.path.join("out", "%s.%s.fuzz.replay" % (pid, n))
                    txt = "target %s\nchoices %s\n" % (n, " ".join(map(str, recorded(co))))
                    open(rf, "w").write("# property %s, found by libFuzzer\n# message: %s\n%s" % (pid, msg, txt))
                    r = subprocess.run([b2, "--replay", rf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, errors="replace")
                    if r.returncode == 1:
                        print(r.stdout.strip()[:2000]); print("VIOLATION property=%s replay=%s" % (pid, rf), flush=True); bad = True; rc = 1; break
                if not bad: unconfirmed.append({"target": n, "message": msg[:300]})
                if rc: break
            shutil.rmtree(d2, ignore_errors=True)
        print("%s: libFuzzer: %d targets, %d processes each, %d s, %d runs%s" % (pid, len(ok), procs, secs, sum(x["runs"] for x in res.values()), ", %d reports not confirmed" % len(unconfirmed) if unconfirmed else ""))
        return {"targets": res, "seconds_per_target": secs, "processes_per_target": procs, "unconfirmed": unconfirmed}, rc
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(d, ignore_errors=True)
