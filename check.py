#!/usr/bin/env python3
"""Runs the runtime monitors of one property against /repo's working tree.

  check.py P01 [quick|thorough]        exit 0 held / 1 violation / 3 harness error
  check.py --replay FILE               re-run one recorded case
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, hashlib, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ENIGMA_REPO", "/repo")
SRC = os.path.join(REPO, "trunk/src")
H = os.path.join(VERIF, "harness")
NW = max(2, min(8, os.cpu_count() or 2))
MAXCRASH = 10       # crashes or hangs per run after which it stops: the verdict is in

sys.path.insert(0, VERIF)
from props import PROPS


def incs():
    d = sorted(x for x in glob.glob(SRC + "/*") if os.path.isdir(x))
    out = ["-I" + SRC] + ["-I" + x for x in d]
    out += ["-I" + x for x in sorted(glob.glob(os.path.join(REPO, "trunk/dependencies/*"))) if os.path.isdir(x)]
    return out + ["-I" + os.path.join(REPO, "trunk/tests"), "-I/usr/include/eigen3", "-I/usr/local/include/eigen3"]


SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CXX = ["g++", "-std=c++14", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-DENIGMA_VERIF_MONITOR",
       "-ftrivial-auto-var-init=pattern"]


def build(pid, p, out):
    """Compiles the harness from /repo's current sources; returns the binary path."""
    srcs = [os.path.join(H, s) for s in p["sources"]]
    san = p.get("san", SAN)
    fallback = False
    for attempt in (0, 1):
        jobs = []
        objs = []
        for s in srcs:
            o = os.path.join(out, os.path.basename(s) + ".o")
            objs.append(o)
            if attempt == 0:
                cmd = CXX + san + ["-I" + os.path.join(H, "shim"), "-I" + H] + incs() + p.get("flags", []) + ["-c", s, "-o", o]
            else:   # the shim does not cover what the tree now uses: take the real library directly
                cmd = [c if c != "-O1" else "-O0" for c in CXX] + ["-fsanitize=address", "-I" + H] + incs() + p.get("flags", []) + ["-c", s, "-o", o]
            jobs.append((s, cmd))
        if attempt == 0 and p.get("exprtk"):
            o = os.path.join(out, "exprtk_real.o")
            objs.append(o)
            real = os.path.join(REPO, "trunk/dependencies/exprtk/exprtk.hpp")
            jobs.append(("exprtk", ["clang++", "-std=c++14", "-O0", "-w", "-Dexprtk_disable_enhanced_features",
                                    "-DREAL_EXPRTK=\"%s\"" % real, "-c", os.path.join(H, "shim/exprtk_real.cpp"), "-o", o]))
        procs = [(s, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for s, c in jobs]
        bad = None
        for s, pr in procs:
            txt, _ = pr.communicate()
            if pr.returncode != 0:
                bad = (s, txt)
        if bad is None:
            exe = os.path.join(out, pid)
            link = ["g++"] + (san if attempt == 0 else ["-fsanitize=address"]) + objs + p.get("libs", []) + ["-o", exe]
            r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return exe, attempt
            bad = ("link", r.stdout)
        if not p.get("exprtk"):
            break
        sys.stderr.write("build attempt %d failed: %s\n%s\n" % (attempt, bad[0], bad[1][-1500:]))
    sys.stderr.write("HARNESS-ERROR: build of %s failed in %s\n%s\n" % (pid, bad[0], bad[1][-4000:]))
    sys.exit(3)


def env(tmp):
    e = dict(os.environ)
    # Freed and fresh memory is filled with a pattern: a read of uninitialised
    # memory shows up in the behavioural monitors instead of reading a lucky 0.
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=98:detect_leaks=0:max_malloc_fill_size=268435456:malloc_fill_byte=190:"
                         "detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:detect_container_overflow=1:strict_string_checks=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["LC_ALL"] = "C"
    e["TMPDIR"] = tmp
    return e


def crash_key(txt, rc, family):
    if rc == 97 or "MON-HANG" in txt:
        return "hang:" + family, "case exceeded its CPU budget"
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+) ?([^\n]*)", txt)
    kind = None
    if m:
        kind = m.group(2)
    m2 = re.search(r"runtime error: ([^\n]*)", txt)
    if m2:
        kind = "ub:" + re.sub(r"-?\d[\d.e+-]*", "N", m2.group(1))[:80]
    m3 = re.search(r"Assertion .*? failed", txt)
    if kind is None and m3:
        kind = "assert:" + m3.group(0)[:120]
    if kind is None:
        kind = "exit%s" % rc
    # innermost frame that lies in the repository
    fn = ""
    for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\s:]+)(?::\d+)*", txt):
        if "/trunk/" in fm.group(2):
            fn = re.sub(r"<[^<>]*>", "", fm.group(1))
            fn = re.sub(r"<[^<>]*>", "", fn)
            fn = re.sub(r"\(.*", "", fn)[-80:]
            break
    det = (m2.group(0) if m2 else (m.group(0) if m else txt[-300:]))
    return "crash:%s:%s:%s" % (family, kind, fn), det


def known(pid):
    ks = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        l = l.rstrip("\n")
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l)
        if m and m.group(1) == pid:
            ks[m.group(2)] = m.group(3)
    return ks


def worker_cmd(exe, seed, tier, w, n, start, log, tmp):
    return [exe, "run", str(seed), tier, str(w), str(n), str(start), log, tmp]


def main():
    t0 = time.time()
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        tmp = tempfile.mkdtemp(prefix="enigma_replay_")
        try:
            exe, _ = build(r["property"], PROPS[r["property"]], tmp)
            rc = subprocess.run([exe, "one", str(r["seed"]), r["tier"], r["family"], str(r["index"]), os.path.join(tmp, "log"), tmp], env=env(tmp)).returncode
            txt = open(os.path.join(tmp, "log")).read()
            vs = [l for l in txt.splitlines() if l.startswith("V\t")]
            print("\n".join(vs))
            print("replay: exit %d, %d violation lines" % (rc, len(vs)))
            sys.exit(1 if vs or rc else 0)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[pid]
    tmp = tempfile.mkdtemp(prefix="enigma_%s_" % pid)
    try:
        rc = run(pid, p, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(pid, p, tier, seed, tmp, t0):
    exe, attempt = build(pid, p, tmp)
    tb = time.time() - t0
    budget = 780 if tier == "quick" else 6 * 3600
    fams = [l.split() for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, env=env(tmp)).stdout.splitlines()]
    planned = {f[0]: int(f[2 if tier == "thorough" else 1]) for f in fams}
    if not planned:
        sys.stderr.write("HARNESS-ERROR: no families\n")
        return 3
    ws = []
    for w in range(NW):
        d = os.path.join(tmp, "w%d" % w)
        os.mkdir(d)
        ws.append(dict(w=w, dir=d, log=os.path.join(tmp, "log%d" % w), err=os.path.join(tmp, "err%d" % w), start=0, crashes=0, proc=None, done=False))
    vio = []      # (family, index, key, detail)
    def spawn(x):
        x["proc"] = subprocess.Popen(worker_cmd(exe, seed, tier, x["w"], NW, x["start"], x["log"], x["dir"]),
                                     stdout=subprocess.DEVNULL, stderr=open(x["err"], "w"), env=env(x["dir"]), cwd=x["dir"])
    for x in ws:
        spawn(x)
    stuck = False
    truncated = 0
    while any(not x["done"] for x in ws):
        time.sleep(0.05)
        for x in ws:
            if x["done"] or x["proc"].poll() is None:
                continue
            rc = x["proc"].returncode
            txt = open(x["log"], errors="replace").read() if os.path.exists(x["log"]) else ""
            if txt.endswith("DONE\n"):
                x["done"] = True
                continue
            err = open(x["err"], errors="replace").read()
            begun = re.findall(r"^B\t(\S+)\t(\d+)$", txt, re.M)
            if not begun:
                sys.stderr.write("HARNESS-ERROR: worker died before its first case rc=%s\n%s\n" % (rc, err[-2000:]))
                for y in ws:
                    if y["proc"].poll() is None:
                        y["proc"].kill()
                return 3
            fam, idx = begun[-1]
            # A crash or hang is confirmed by re-running the case alone before it is reported.
            log2 = os.path.join(x["dir"], "one.log")
            r2 = subprocess.run([exe, "one", str(seed), tier, fam, idx, log2, x["dir"]], stdout=subprocess.DEVNULL,
                                stderr=subprocess.PIPE, text=True, errors="replace", env=env(x["dir"]), cwd=x["dir"])
            if r2.returncode != 0:
                key, det = crash_key(r2.stderr, r2.returncode, fam)
                vio.append((fam, int(idx), key, det))
            else:
                key, det = crash_key(err, rc, fam)
                if rc in (-9, -15):
                    truncated += 1     # ended from outside (memory guard): no verdict on this case
                elif key.startswith("hang:"):
                    truncated += 1     # did not reproduce: inconclusive
                else:
                    vio.append((fam, int(idx), key, det))
            x["crashes"] += 1
            x["start"] = len(begun)
            if sum(y["crashes"] for y in ws) >= MAXCRASH or (key.startswith("hang:") and sum(v[2].startswith("hang:") for v in vio) >= 3):
                for y in ws:
                    y["done"] = True
                    if y["proc"].poll() is None:
                        y["proc"].kill()
                break
            spawn(x)
        if time.time() - t0 > budget:
            stuck = True
            for x in ws:
                if x["proc"].poll() is None:
                    x["proc"].kill()
            break
    evals = nontriv = 0
    sigs = set()
    stats = {}
    fam_done = {}
    samples = []
    for x in ws:
        if not os.path.exists(x["log"]):
            continue
        for l in open(x["log"], errors="replace"):
            c = l.rstrip("\n").split("\t")
            if c[0] == "E" and len(c) >= 5:
                evals += 1
                fam_done[c[1]] = fam_done.get(c[1], 0) + 1
                if c[4] == "1":
                    nontriv += 1
                    sigs.add(c[3])
                if len(c) > 5 and c[5] and len(samples) < 24 and sum(s["family"] == c[1] for s in samples) < 1:
                    samples.append({"family": c[1], "index": int(c[2]), "case": c[5]})
            elif c[0] == "S" and len(c) == 3:
                stats[c[1]] = stats.get(c[1], 0) + int(c[2])
            elif c[0] == "V" and len(c) >= 5:
                vio.append((c[1], int(c[2]), c[3], c[4]))
    ks = known(pid)
    seen_known = {}
    fresh = []
    for v in vio:
        key = v[2].replace(" ", "_")
        if key in ks:
            seen_known.setdefault(key, v)
        else:
            fresh.append(v)
    obs = {k[4:]: v for k, v in sorted(stats.items()) if k.startswith("obs.")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith("obs.")}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs), "rule": p["rule"],
            "samples": samples, "cases_per_family": fam_done, "planned_per_family": planned,
            "monitor_observations": obs, "monitor_observations_total": sum(obs.values()),
            "events": other, "cases_without_verdict": truncated,
            "instrumentation": "real exprtk, ASan only" if attempt else "ASan+UBSan(float-cast-overflow), libstdc++ assertions, pattern-initialised stack and heap",
            "build_s": round(tb, 1),
        },
        "assumptions": p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, ks[k], k))
    if fresh:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v in fresh:
            if v[2] in done or len(done) >= 10:
                continue
            done.add(v[2])
            rp = os.path.join(rd, "%s_%s_%d.json" % (pid, hashlib.sha1(v[2].encode()).hexdigest()[:8], v[1]))
            json.dump({"property": pid, "seed": seed, "tier": tier, "family": v[0], "index": v[1], "key": v[2], "detail": v[3]}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  %s#%d %s: %s" % (v[0], v[1], v[2], v[3][:400]))
        return 1
    # Inconclusive runs are errors of the check, never a pass.
    if stuck:
        sys.stderr.write("HARNESS-ERROR: run exceeded its wall-clock guard\n")
        return 3
    tot = sum(planned.values())
    if evals + truncated < tot or len(sigs) == 0 or sum(obs.values()) == 0 or truncated > max(2, tot // 50):
        crashes = len(vio)
        if evals + truncated + crashes < tot or len(sigs) == 0 or truncated > max(2, tot // 50):
            sys.stderr.write("HARNESS-ERROR: only %d of %d planned cases observed (%d without verdict)\n" % (evals, tot, truncated))
            return 3
    print("OK property=%s tier=%s seed=%d cases=%d distinct=%d observations=%d wall=%.1fs" % (pid, tier, seed, evals, len(sigs), sum(obs.values()), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
