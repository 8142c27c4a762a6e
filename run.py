#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE]

Builds openHiTLS from the working tree of /repo (out of tree, below /verif/build), builds the harness of one
property, enumerates its space with all cores, replays every failure, and writes evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed."""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
if REPO != "/repo" and "VERIF_BUILD" not in os.environ:
    BUILD = os.path.join("/tmp/verif_build", hashlib.sha1(REPO.encode()).hexdigest()[:8])
J = os.cpu_count() or 8

OPTS = """-DHITLS_BUILD_GEN_INFO=ON -DHITLS_BUILD_PROFILE=full -DHITLS_CRYPTO_RAND_CB=ON -DHITLS_EAL_INIT_OPTS=9
-DHITLS_CRYPTO_ASM_CHECK=ON -DHITLS_CRYPTO_ENTROPY=ON -DHITLS_CRYPTO_ENTROPY_DEVRANDOM=ON
-DHITLS_CRYPTO_ENTROPY_GETENTROPY=ON -DHITLS_CRYPTO_ENTROPY_SYS=ON -DHITLS_CRYPTO_ENTROPY_HARDWARE=ON
-DHITLS_CRYPTO_ENTROPY_NS_CPUJITTER=ON -DHITLS_CRYPTO_DRBG_GM=ON -DHITLS_CRYPTO_ACVP_TESTS=ON
-DHITLS_CRYPTO_DSA_GEN_PARA=ON -DHITLS_CRYPTO_HSS_LMS=ON -DHITLS_BSL_UIO_SCTP=OFF -DHITLS_BUILD_STATIC=ON
-DHITLS_BUILD_SHARED=OFF -DHITLS_CRYPTO_SP800_STRICT_CHECK=ON -DHITLS_SM2_PRECOMPUTE_512K_TBL=OFF
-DHITLS_ASM_X8664=ON -DHITLS_PLATFORM_ENDIAN=little -DHITLS_PKI_X509_CRL_LITE=ON -DHITLS_PKI_X509_VFY_CRL_LITE=ON
-D_HITLS_COMPILE_OPTIONS_DEL=-O2 -DHITLS_TLS_FEATURE_SM_TLS13=ON -DHITLS_BUILD_EXE=OFF -DHITLS_CRYPTO_CMVP=ON""".split()
VARIANTS = {
    "plain": "-O1 -g1 -fno-omit-frame-pointer",
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
}
LIBORDER = ["auth", "tls", "pki", "crypto", "bsl"]
ENV = dict(os.environ, LC_ALL="C", CC="gcc", CXX="g++")
for k in ("MAKEFLAGS", "LD_LIBRARY_PATH", "CFLAGS", "LDFLAGS"):
    ENV.pop(k, None)

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def sh(cmd, cwd=None, logf=None, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if logf:
        with open(logf, "ab") as f:
            f.write(r.stdout)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd)[:400], r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")

def build_libs(variant, libs):
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(os.path.join(d, "build.ninja")):
        flags = VARIANTS[variant] + " -Wno-error -w"
        sh(["cmake", "-G", "Ninja"] + OPTS + ["-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_ASM_FLAGS=-g0", REPO], cwd=d)
    sh(["ninja"] + ["libhitls_%s.a" % l for l in libs], cwd=d)
    return d

def flags_for(d):
    inc = []
    for line in open(os.path.join(d, "include_dirs.txt")):
        line = line.strip()
        if line and not line.startswith("#"):
            p = line if os.path.isabs(line) else os.path.join(REPO, line)
            if p not in inc:
                inc.append(p)
    mac = [l.strip() for l in open(os.path.join(d, "macros.txt")) if l.strip().startswith("-D")]
    base = [os.path.join(REPO, x) for x in ("config/macro_config", "include", "include/bsl", "include/crypto", "include/tls", "include/pki", "include/auth")]
    sb = os.path.join(REPO, "platform/Secure_C/include")
    return mac, ["-I" + p for p in base + [p for p in inc if p not in base] + [sb] if os.path.isdir(p)]

def compile_harness(name, cfg, d):
    out = os.path.join(d, "h"); os.makedirs(out, exist_ok=True)
    mac, inc = flags_for(d)
    vflags = VARIANTS[cfg["variant"]].split()
    if cfg.get("no_san_harness"):
        vflags = [f for f in vflags if not f.startswith("-fsanitize")]
    srcs = [os.path.join(HERE, s) for s in ["lib/mc.c"] + cfg["src"]]
    if cfg.get("internal"):
        for top in cfg["internal"]:
            for r, ds, fs in os.walk(os.path.join(REPO, top)):
                if any(f.endswith(".h") for f in fs) and "-I" + r not in inc:
                    inc.append("-I" + r)
    cflags = vflags + ["-D_GNU_SOURCE", "-w", "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "checks")] + cfg.get("cflags", []) + mac + inc
    procs, objs = [], []
    for s in srcs:
        o = os.path.join(out, name + "_" + os.path.basename(s)[:-2] + ".o"); objs.append(o)
        procs.append((s, subprocess.Popen(["gcc", "-c"] + cflags + [s, "-o", o], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for s, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise CheckError("harness %s does not compile:\n%s" % (s, o.decode(errors="replace")[-4000:]))
    exe = os.path.join(out, name)
    link = [f for f in vflags if f.startswith("-fsanitize") and not cfg.get("no_san_link")]
    ls = [os.path.join(d, "libhitls_%s.a" % l) for l in LIBORDER if l in cfg["libs"]]
    sh(["gcc", "-o", exe] + link + objs + cfg.get("ldflags", []) + ([] if cfg.get("real_rand") else ["-Wl,--wrap=CRYPT_EAL_RandbytesEx"]) + ["-Wl,--start-group"] + ls + ["-Wl,--end-group", "-lpthread", "-ldl", "-lm", "-lrt"])
    return exe

def load_findings():
    fn = os.path.join(HERE, "known_findings.json")
    return json.load(open(fn)) if os.path.exists(fn) else []

def match_finding(pid, rec, findings):
    for f in findings:
        if f.get("status", "open") == "open" and f["property"] == pid and re.fullmatch(f["case"], rec["case"]) and re.search(f.get("msg", ""), rec["msg"]):
            return f
    return None

def hrun(exe, args, env, timeout):
    try:
        r = subprocess.run([exe] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd="/tmp")
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")

def main():
    if "--setup" in sys.argv:
        for t in ("cmake", "ninja", "gcc"):
            if not shutil.which(t): raise CheckError(t + " is missing")
        log("nothing to prepare: every check builds from the working tree"); return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--part")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.id
    cfg0 = CHECKS[pid]
    t0 = time.time()
    env = dict(ENV, VERIF_TIER=a.tier, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_REPO=REPO)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"
    env["TZ"] = "UTC"
    parts = cfg0.get("parts") or [dict(cfg0)]
    merged = {"cases": 0, "enumerated": 0, "transitions": 0, "traces": 0, "outcomes": 0, "states": 0, "complete": True, "spaces": {}}
    samples, bad, known = [], [], {}
    findings = load_findings()
    if a.replay:
        rp = json.load(open(a.replay)); a.case = rp["case"]; a.part = rp["part"]
        env["VERIF_TIER"] = rp.get("tier", a.tier); env["VERIF_SEED"] = str(rp.get("seed", 1))
    tb = 0.0
    rawlog = []
    for i, part in enumerate(parts):
        cfg = dict(cfg0); cfg.update(part)
        name = cfg.get("name", pid.lower())
        if a.part and a.part != name:
            continue
        b0 = time.time()
        d = build_libs(cfg["variant"], [l for l in LIBORDER if l in cfg["libs"]])
        exe = compile_harness(name, cfg, d)
        tb += time.time() - b0
        if a.case is not None:
            rc, out = hrun(exe, ["--replay", a.case], env, 900)
            log(out[-6000:]); log("replay exit", rc)
            if rc == 4: continue
            return 1 if rc else 0
        tmp = os.path.join(d, "h", name + ".run"); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        ofile, sfile = os.path.join(tmp, "out.jsonl"), os.path.join(tmp, "stats.json")
        budget = cfg.get("budget", {}).get(a.tier, 600 if a.tier == "quick" else 3000)
        for attempt in (1, 2):
            for f in (ofile, sfile):
                if os.path.exists(f): os.unlink(f)
            rc, out = hrun(exe, ["--workers", str(cfg.get("workers", J)), "--out", ofile, "--stats", sfile, "--budget", str(budget)], env, budget + 120)
            recs = [json.loads(l) for l in open(ofile)] if os.path.exists(ofile) else []
            if rc not in (0, 1) or any(r["kind"] == "fatal" for r in recs):
                log(out[-3000:]); raise CheckError("harness %s ended with %d" % (name, rc))
            st = json.load(open(sfile))
            fails = [r for r in recs if r["kind"] in ("fail", "crash")]
            fresh, flaky = [], []
            seenmsg = set()
            nrep = 0
            for r in sorted(fails, key=lambda r: (r["idx"], len(r["case"]))):
                k = match_finding(pid, r, findings)
                if k:
                    known[k["id"]] = k; continue
                if nrep >= 6 and fresh:
                    continue
                nrep += 1
                ok, how, rout = False, None, ""
                for _ in range(2):
                    rc2, rout = hrun(exe, ["--replay", r["case"]], env, 900)
                    if rc2 not in (0, 4): ok, how = True, "case"; break
                if not ok:   # the failure may depend on the earlier cases of the same worker
                    o2 = os.path.join(tmp, "out2.jsonl")
                    if os.path.exists(o2): os.unlink(o2)
                    rc2, rout = hrun(exe, ["--workers", str(r["nw"]), "--only", str(r["worker"]), "--upto", str(r["idx"]), "--out", o2, "--maxfail", "1000000"], env, 900)
                    rr = [json.loads(l) for l in open(o2)] if os.path.exists(o2) else []
                    if any(x["idx"] == r["idx"] and x["kind"] in ("fail", "crash") for x in rr): ok, how = True, "history"
                if ok:
                    r["how"] = how; r["output"] = rout[-6000:]; r["part"] = name; fresh.append(r)
                else:
                    flaky.append(r)
            if flaky and not fresh and attempt == 1:
                log("note: %d failure(s) of %s did not reproduce; running again" % (len(flaky), name)); continue
            break
        if flaky and not fresh:
            log(json.dumps(flaky[:3])); raise CheckError("failures of %s do not reproduce" % name)
        bad += fresh
        for k in ("cases", "enumerated", "transitions", "traces", "outcomes", "states"):
            merged[k] += st[k]
        merged["complete"] = merged["complete"] and st["complete"]
        for k, v in st["spaces"].items():
            merged["spaces"][k] = merged["spaces"].get(k, 0) + v
        samples += [{"part": name, "case": r["case"], "what": r["msg"]} for r in recs if r["kind"] == "sample"]
        extra = os.path.join(tmp, "extra.json")
        if not st["complete"] and not fails:
            raise CheckError("harness %s did not finish its enumeration within %d s" % (name, budget))
        if st["cases"] < cfg.get("min_cases", 1):
            raise CheckError("harness %s ran only %d cases" % (name, st["cases"]))
    if a.case is not None:
        log("no such case"); return 2
    step = max(1, len(samples) // 8)
    cov = {"cases": merged["cases"], "cases_per_space": merged["spaces"], "exhaustive": bool(merged["complete"]), "samples": samples[::step][:10] or ["(none)"], "bounds": cfg0.get("bounds", {}).get(a.tier) if isinstance(cfg0.get("bounds"), dict) else cfg0.get("bounds", "")}
    lvl = cfg0["level"]
    if lvl == "model_checking":
        del cov["cases"]
        cov.update(states=merged["states"], transitions=merged["transitions"], traces_validated_against_impl=merged["traces"], model=cfg0["rule"])
        cov["distinct_outcomes"] = merged["outcomes"]
    else:
        del cov["cases"]
        cov.update(evaluations=merged["cases"], distinct_nontrivial=merged["outcomes"], rule=cfg0["rule"])
        if merged["transitions"]: cov["transitions"] = merged["transitions"]
        if merged["states"]: cov["states"] = merged["states"]
    ev = {"property": pid, "tier": a.tier, "seed": int(env["VERIF_SEED"]), "level": lvl, "coverage": cov, "assumptions": cfg0.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad), "build_s": round(tb, 2), "known_findings": sorted(known)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: cases=%d states=%d transitions=%d outcomes=%d complete=%s build %.1fs total %.1fs" % (pid, merged["cases"], merged["states"], merged["transitions"], merged["outcomes"], merged["complete"], tb, time.time() - t0))
    for k in sorted(known):
        log("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    if bad:
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        for n, r in enumerate(bad[:6]):
            fn = os.path.join(rd, "%s-%d.json" % (pid, n))
            json.dump({"property": pid, "part": r["part"], "case": r["case"], "msg": r["msg"], "tier": a.tier, "seed": int(env["VERIF_SEED"]), "how": r["how"], "worker": r["worker"], "nw": r["nw"], "idx": r["idx"], "output": r["output"], "cmd": "python3 run.py %s --replay replays/%s-%d.json" % (pid, pid, n)}, open(fn, "w"), indent=1)
            log("  case %s: %s" % (r["case"][:300], r["msg"][:600]))
            log("VIOLATION property=%s replay=%s" % (pid, fn))
        return 1
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("CHECK ERROR:", e); sys.exit(2)
