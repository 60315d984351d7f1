#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree, runs its generated-input search and writes the evidence.

usage: run_check.py ID            (VERIF_SEED, VERIF_TIER from the environment; exit 0 held, 1 VIOLATION, 2 no answer)
       run_check.py --replay FILE (re-runs a replay file against /repo's working tree)
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SMARTDNN_REPO", "/repo")          # override only for development against scratch copies
sys.path.insert(0, os.path.join(VERIF, "tools"))
from spec import SPECS                                     # noqa: E402

CORES = max(2, min(8, os.cpu_count() or 8))
COMMON = ["-std=c++17", "-w"]
CONFIGS = {
    # assertion-checked, memory- and UB-instrumented build
    "san": (["g++"], ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]),
    # the project's own Release flags
    "fast": (["g++"], ["-O3", "-march=native"]),
}
FUZZ = (["clang++"], ["-O1", "-g1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DPBT_LIBFUZZER"])


def build_dir(pid):
    d = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build")), pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def include_flags(d):
    """SmartDNN.impl.hpp includes smart_dnn/debugging/..., which exists only with a capital D on case-sensitive file systems."""
    inc = os.path.join(d, "inc")
    flags = ["-I" + REPO, "-I" + inc, "-I" + os.path.join(VERIF, "harness")]
    if os.path.isdir(inc):
        return flags
    os.makedirs(os.path.join(inc, "smart_dnn"))
    src = os.path.join(REPO, "smart_dnn")
    for e in os.listdir(src):
        if os.path.isdir(os.path.join(src, e)) and e.lower() != e and not os.path.exists(os.path.join(src, e.lower())):
            p = os.path.join(inc, "smart_dnn", e.lower())
            os.symlink(os.path.join(src, e), p)
    return flags


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:max_allocation_size_mb=8192"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:report_signal_unsafe=0"
    e["LC_ALL"] = "C"
    return e


def compile_harness(d, spec, config, flagset, extra):
    cc, flags = flagset
    exe = os.path.join(d, config)
    cmd = cc + COMMON + flags + extra + include_flags(d) + [os.path.join(VERIF, "harness", spec["src"])] + \
        [os.path.join(VERIF, "harness", x) for x in spec.get("more_src", [])] + ["-o", exe] + spec.get("ldflags", [])
    if "aux_src" in spec:                                    # a shared object beside the harness, built with other flags
        aux = cc + COMMON + spec["aux_flags"][config] + include_flags(d) + [os.path.join(VERIF, "harness", spec["aux_src"]), "-shared", "-fPIC", "-fvisibility=hidden", "-o", exe + "-ref.so"]
        with ThreadPoolExecutor(2) as ex:
            r, ra = ex.map(run, [cmd, aux])
        if ra.returncode:
            return None, " ".join(aux) + "\n" + ra.stdout
    else:
        r = run(cmd)
    return exe if r.returncode == 0 else None, " ".join(cmd) + "\n" + r.stdout


def headers_compile(d):
    """Does the library itself (every header the harness sits on) still compile?"""
    src = os.path.join(d, "headers.cpp")
    with open(src, "w") as f:
        f.write('#include "common.hpp"\n')
        for h in sorted(glob.glob(os.path.join(REPO, "smart_dnn", "**", "*.hpp"), recursive=True)):
            if not h.endswith(".impl.hpp"):
                f.write('#include "%s"\n' % os.path.relpath(h, REPO))
        f.write("int main() {}\n")
    return run(["g++"] + COMMON + ["-fsyntax-only"] + include_flags(d) + [src]).returncode == 0


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    spec = SPECS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    t0 = time.time()
    d = build_dir(pid)
    include_flags(d)
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    evfile = os.path.join(evdir, pid + ".json")
    if os.path.exists(evfile):
        os.unlink(evfile)

    jobs = []
    for k, c in enumerate(spec["configs"]):
        base = CONFIGS[c.get("base", c["name"])] if "compiler" not in c else (c["compiler"], [])
        jobs.append((k, c, base))
    with ThreadPoolExecutor(CORES) as ex:
        futs = [ex.submit(compile_harness, d, spec, c["name"], base, c.get("flags", [])) for _, c, base in jobs]
        fz = ex.submit(compile_harness, d, spec, "fuzz", FUZZ, spec.get("fuzz_flags", [])) if tier == "thorough" and spec.get("fuzz") else None
        built = [f.result() for f in futs]
        fuzz_built = fz.result() if fz else None
    t_build = time.time() - t0
    for exe, log in built + ([fuzz_built] if fuzz_built else []):
        if exe is None:
            if headers_compile(d):
                rp = os.path.join(evdir, "replay", pid + "-compile.txt")
                with open(rp, "w") as f:
                    f.write("COMPILE v1\nprop %s\n# the library's headers compile, but the public operations this property uses do not:\n%s\n" % (pid, log[-20000:]))
                write_evidence(evfile, pid, tier, seed, spec, [], [], t0, 1, t_build, "public operations the property relies on do not compile")
                print("operations this property relies on do not compile:\n" + "\n".join(log.splitlines()[1:12]))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                return 1
            print(log[-4000:])
            print("ERROR: the library's headers do not compile; no answer")
            return 2

    def run_config(k, c, exe):
        cases = int(c["quick"] * scale) if tier == "quick" else int(c.get("thorough", c["quick"] * 25) * scale)
        nj = c.get("jobs", max(1, CORES // len(jobs)))
        out = os.path.join(d, c["name"] + ".json")
        rp = os.path.join(evdir, "replay", "%s-%s.tape" % (pid, c["name"]))
        if os.path.exists(rp):
            os.unlink(rp)
        e = env()
        e.update(c.get("env", {}))
        r = run([exe, "--prop", pid, "--config", c["name"], "--seed", str(seed * 1000003 + 7919 * k), "--cases", str(cases), "--jobs", str(nj),
                 "--max-seconds", str(c.get("cap", 400 if tier == "quick" else 3000)), "--out", out, "--replay-file", rp], env=e, cwd=d)
        try:
            j = json.load(open(out))
        except Exception:
            j = {"rc": 2, "message": "harness wrote no result: " + r.stdout[-2000:], "evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "wall_s": 0, "time_capped": False}
        j["config"] = c["name"]
        j["replay"] = rp
        j["planned"] = cases
        hs = set()
        try:
            b = open(out + ".hashes", "rb").read()
            hs = set(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
        return j, hs

    results, hashes = [], set()
    with ThreadPoolExecutor(len(jobs)) as ex:
        for j, hs in ex.map(lambda x: run_config(x[0][0], x[0][1], x[1][0]), list(zip(jobs, built))):
            results.append(j)
            hashes |= hs

    fuzz_info = None
    if fuzz_built and not any(j["rc"] for j in results):
        fuzz_info = fuzz(d, pid, spec, fuzz_built[0], seed, evdir, built[0][0], scale)

    viol = [(j["config"], j["message"], j["replay"]) for j in results if j["rc"] == 1]
    if fuzz_info and fuzz_info.get("violation"):
        viol.append(("fuzz", fuzz_info["violation"], fuzz_info["replay"]))
    err = [j for j in results if j["rc"] not in (0, 1)]
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    write_evidence(evfile, pid, tier, seed, spec, results, hashes, t0, len(viol), t_build, None, fuzz_info)
    tot = sum(j["evaluations"] for j in results)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), build %.1fs, total %.1fs" % (pid, tier, seed, tot, len(hashes), t_build, time.time() - t0))
    for cfg, msg, rp in viol:
        print("[%s] %s" % (cfg, msg))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][2]))
        return 1
    if err:
        print("ERROR (no answer): " + err[0]["message"])
        return 2
    return 0


def fuzz(d, pid, spec, exe, seed, evdir, san_exe, scale):
    """Coverage-guided campaign over the same property; the fuzzer's bytes are the case's choice sequence."""
    n = CORES
    runs = int(spec.get("fuzz_runs", 60000) * scale)
    art = os.path.join(d, "art")
    os.makedirs(art, exist_ok=True)

    def one(k):
        corpus = os.path.join(d, "corpus%d" % k)
        os.makedirs(corpus, exist_ok=True)
        return run([exe, corpus, "-seed=%d" % (seed * 100 + k + 1), "-runs=%d" % runs, "-max_len=%d" % (spec.get("fuzz_len", 600) * (1 + k % 3)), "-len_control=20",
                    "-rss_limit_mb=3500", "-timeout=120", "-max_total_time=%d" % spec.get("fuzz_cap", 900), "-artifact_prefix=%s/" % art, "-print_final_stats=1"], env=env(), cwd=d)
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, range(n)))
    execs, cov = 0, 0
    for o in outs:
        m = re.search(r"number_of_executed_units: (\d+)", o.stdout)
        execs += int(m.group(1)) if m else 0
        m = re.findall(r"cov: (\d+)", o.stdout)
        cov = max(cov, int(m[-1]) if m else 0)
    info = {"executions": execs, "edge_coverage": cov, "processes": n}
    for a in sorted(glob.glob(art + "/crash-*")):
        rp = os.path.join(evdir, "replay", "%s-fuzz.tape" % pid)
        r = run([san_exe, "--prop", pid, "--config", "san", "--bytes", a, "--shrink-to", rp], env=env(), cwd=d)
        if r.returncode == 1:
            info["violation"] = r.stdout.strip().splitlines()[-1]
            info["replay"] = rp
            break
        info.setdefault("unconfirmed_artifacts", []).append(os.path.basename(a))
    return info


def write_evidence(evfile, pid, tier, seed, spec, results, hashes, t0, nviol, t_build, note, fuzz_info=None):
    labels = {}
    samples = []
    for j in results:
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += j["samples"][:2]
    cov = {
        "evaluations": sum(j["evaluations"] for j in results),
        "distinct_nontrivial": len(hashes),
        "rule": spec["rule"],
        "samples": samples[:4] if samples else ["none recorded in this run"],
        "nontrivial_cases": sum(j["nontrivial"] for j in results),
        "class_counts": labels,
        "configs": [{k: j.get(k) for k in ("config", "evaluations", "planned", "time_capped", "wall_s", "slowest_case_cpu_s", "message")} for j in results],
    }
    if fuzz_info:
        cov["fuzz"] = fuzz_info
    if note:
        cov["note"] = note
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": spec.get("assumptions", []) + [
        "holds on the cases generated in this run, not for all inputs",
        "reference model in the harness is right"], "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "violations": nviol}
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    txt = open(path).read()
    pid = re.search(r"^prop (\S+)", txt, re.M).group(1)
    spec = SPECS[pid]
    if txt.startswith("COMPILE"):
        d = build_dir(pid)
        c = spec["configs"][0]
        exe, log = compile_harness(d, spec, c["name"], CONFIGS[c.get("base", c["name"])], c.get("flags", []))
        print("compiles" if exe else log)
        return 0 if exe else 1
    cfg = re.search(r"^config (\S+)", txt, re.M).group(1)
    c = next((c for c in spec["configs"] if c["name"] == cfg), spec["configs"][0])
    d = build_dir(pid)
    base = CONFIGS[c.get("base", c["name"])] if "compiler" not in c else (c["compiler"], [])
    exe, log = compile_harness(d, spec, c["name"], base, c.get("flags", []))
    if not exe:
        print(log)
        return 2
    e = env()
    e.update(c.get("env", {}))
    r = run([exe, "--prop", pid, "--config", cfg, "--replay", os.path.abspath(path)], env=e, cwd=d)
    print(r.stdout)
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
