#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --replay ...

Builds the monitors of one property from /repo's working tree, runs their
workloads, and turns every kind of failure (monitor, sanitizer report, signal,
hang) into one VIOLATION line. Exit 0: held on everything explored; 1:
violation; 2: the check itself could not decide (build error, inconclusive).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shlex, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".cache")
sys.path.insert(0, os.path.join(VERIF, "vp"))
from props import PROPS  # noqa: E402

CLANG, GCC = "clang++-18", "g++"
COMMON = ["-std=c++17", "-I" + REPO + "/include", "-I" + HARNESS,
          "-isystem", REPO + "/tools/xxh3", "-isystem", REPO + "/tools/wyhash", "-DFMT_HEADER_ONLY", "-w"]
HASHES = {"fnv": "-DCISTA_FNV1A=1", "xxh3": "-DCISTA_XXH3=1",
          "wyhash": "-DCISTA_WYHASH=1", "wyfast": "-DCISTA_WYHASH_FASTEST=1"}
VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "asan": (CLANG, ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all"]),
    "asano": (CLANG, ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-sanitize-recover=all"]),
    "asan2": (CLANG, ["-O2", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer",
                      "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "gasan": (GCC, ["-O2", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                    "-fno-sanitize-recover=all"]),
    "tsan": (CLANG, ["-O1", "-g1", "-fsanitize=thread"]),
    "vg": (CLANG, ["-O1", "-g1", "-DVP_VALGRIND=1"]),
    "gcc": (GCC, ["-O2", "-g1"]),
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:handle_abort=0:max_allocation_size_mb=3000:"
                    "strict_string_checks=1:malloc_context_size=8:quarantine_size_mb=16",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=66:history_size=4",
    "LC_ALL": "C.UTF-8",
})
NPROC = int(os.environ.get("VP_JOBS", "8"))


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "tools"), HARNESS):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def build(prop_cfg, jobs, tier="quick", seed=1):
    """Compiles every (driver, variant) of `jobs`; returns {(driver, variant): exe}."""
    th = tree_hash()
    objs, links = {}, {}
    os.makedirs(CACHE, exist_ok=True)
    for drv, variant in jobs:
        d = prop_cfg["drivers"][drv]
        cxx, flags = VARIANTS[variant]
        flags = COMMON + flags + [HASHES[d.get("hash", "fnv")]] + d.get("cflags", [])
        generated = d["gen"](seed, tier) if "gen" in d else []
        key = hashlib.sha256(("|".join([th, cxx, drv] + flags + [t for _, t in generated])).encode()).hexdigest()[:24]
        exe = os.path.join(CACHE, f"{drv}-{variant}-{key}")
        links[(drv, variant)] = (exe, cxx, flags, d.get("ldflags", []), [])
        for src in d["src"]:
            # "file.cc@N" compiles part N of a source split for parallel compilation
            file, _, part = src.partition("@")
            defs = ["-DVP_PART=" + part] if part else []
            o = os.path.join(CACHE, f"{os.path.basename(src)}-{variant}-{key}.o")
            objs[o] = ([cxx] + flags + defs + ["-c", os.path.join(HARNESS, file), "-o", o + ".tmp"], exe)
            links[(drv, variant)][4].append(o)
        for name, text in generated:
            g = os.path.join(CACHE, key + "-gen")
            os.makedirs(g, exist_ok=True)
            with open(os.path.join(g, name), "w") as f:
                f.write(text)
            o = os.path.join(CACHE, f"{name}-{variant}-{key}.o")
            objs[o] = ([cxx] + flags + ["-c", os.path.join(g, name), "-o", o + ".tmp"], exe)
            links[(drv, variant)][4].append(o)

    def comp(item):
        o, (cmd, exe) = item
        if os.path.exists(exe) or os.path.exists(o):
            return
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            errs = [l for l in p.stdout.splitlines() if "error" in l]
            raise BuildError(f"{' '.join(cmd)}\n" + "\n".join(errs[:12]) + "\n" + p.stdout[-3000:])
        os.replace(o + ".tmp", o)

    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(comp, objs.items()))

    def link(item):
        exe, cxx, flags, ld, os_ = item
        if os.path.exists(exe):
            return
        cmd = [cxx] + flags + os_ + ld + ["-lpthread", "-o", exe + ".tmp"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise BuildError(f"{' '.join(cmd)}\n{p.stdout[-3000:]}")
        os.replace(exe + ".tmp", exe)
        for o in os_:
            try:
                os.unlink(o)
            except OSError:
                pass

    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(link, links.values()))
    return {k: v[0] for k, v in links.items()}


def command(exe, variant, args):
    if variant == "vg":
        return ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes",
                "--leak-check=no", "--undef-value-errors=yes", "--track-origins=no",
                "--expensive-definedness-checks=yes", exe] + args
    return [exe] + args


def run(exe, variant, args, timeout, scratch):
    """-> (status, rc, output). status in ok|fail|timeout"""
    env = dict(ENV)
    env["TMPDIR"] = scratch
    env["VP_SCRATCH"] = scratch
    try:
        p = subprocess.Popen(command(exe, variant, args), stdin=subprocess.DEVNULL, cwd=scratch,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    except OSError as e:
        return "error", -1, str(e)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.kill(p.pid, signal.SIGABRT)  # lets the driver name the case it hangs in
            out, _ = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            out = b""
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if not out:
            out, _ = p.communicate()
        return "timeout", -1, out.decode("utf-8", "replace")
    return ("ok" if p.returncode == 0 else "fail"), p.returncode, out.decode("utf-8", "replace")


FAIL_RE = re.compile(r"@@FAIL kind=(\S+) key=(\S+) suite=(\S+) case=(\d+) seed=(\d+)")


def classify(out, rc):
    m = FAIL_RE.search(out)
    info = {"kind": "exit", "key": f"exit-{rc}", "suite": "-", "case": None, "detail": ""}
    if m:
        info.update(kind=m.group(1), key=m.group(2), suite=m.group(3), case=int(m.group(4)))
        d = re.search(r"@@DETAIL (.*)", out)
        info["detail"] = d.group(1) if d else ""
        o = re.search(r"@@OPLOG (.*)", out)
        info["oplog"] = o.group(1)[-3000:] if o else ""
    s = re.search(r"SUMMARY: (\S+): (\S+)(.*)", out) or re.search(r"(runtime error): (.*)", out)
    if s:
        rt = re.search(r"runtime error: (.*)", out)
        info["sanitizer"] = (rt.group(0) if rt else s.group(0))[:300]
        fr = re.search(r"#\d+ 0x\w+ in (cista::[^\s(<]+)", out)
        info["key"] = "san:" + (s.group(2) if not rt else "ub").strip(":,") + (":" + fr.group(1) if fr else "")
    vg = re.search(r"==\d+== (Invalid \w+|Conditional jump|Use of uninit|Syscall param|Source and dest|Process terminating)[^\n]*", out)
    if vg:
        info["sanitizer"] = vg.group(0)
        info["key"] = "vg:" + vg.group(1).replace(" ", "-")
    return info


def shell_replay(pid, tier, seed, drv, variant, info, args, out):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    name = f"{pid}-{drv}-{variant}-{info['suite']}-{info['case']}"
    path = os.path.join(d, name + ".sh")
    with open(path, "w") as f:
        f.write("#!/bin/bash\n# replays the failing case against /repo's current tree\n")
        f.write(f"# key={info['key']} kind={info['kind']}\n# detail: {info['detail']}\n")
        f.write(f"exec python3 {VERIF}/vp/check.py {pid} --tier {tier} --replay {drv} {variant} -- {' '.join(map(shlex.quote, args))}\n")
    os.chmod(path, 0o755)
    with open(os.path.join(d, name + ".log"), "w") as f:
        f.write(out[-200000:])
    return os.path.relpath(path, VERIF)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    a = sys.argv[2:]
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    scratch_base = os.path.join("/tmp", f"vp-{pid}-{os.getpid()}")
    os.makedirs(scratch_base, exist_ok=True)
    try:
        if "--replay" in a:
            i = a.index("--replay")
            drv, variant = a[i + 1], a[i + 2]
            args = a[a.index("--") + 1:]
            exe = build(cfg, [(drv, variant)], tier, seed)[(drv, variant)]
            st, rc, out = run(exe, variant, args, 600, scratch_base)
            print(out)
            return 0 if st == "ok" else 1
        return check(pid, tier, seed, cfg, scratch_base, t0)
    except BuildError as e:
        print("CHECK-ERROR: the monitor does not build against this tree\n" + str(e))
        return 2
    finally:
        shutil.rmtree(scratch_base, ignore_errors=True)


def check(pid, tier, seed, cfg, scratch_base, t0):
    jobs = []  # (drv, variant, cases)
    for drv, d in cfg["drivers"].items():
        for variant, n in d["runs"][tier].items():
            jobs.append((drv, variant, n))
    exes = build(cfg, sorted({(j[0], j[1]) for j in jobs}), tier, seed)
    t_build = time.time() - t0
    shards = []
    for drv, variant, n in jobs:
        d = cfg["drivers"][drv]
        k = 1 if d.get("serial") else max(1, min(n, 16 if tier == "quick" else 64, NPROC * (2 if tier == "quick" else 8)))
        step = (n + k - 1) // k
        for i in range(0, n, step):
            shards.append((drv, variant, i, min(n, i + step)))
    # long shards first
    tmo = {"quick": 250, "thorough": 3600}[tier]
    violations, inconclusive, stats, notes = [], [], [], []
    distinct = set()
    findings = [f for f in load_known() if f["property"] == pid]

    stop = []  # set once a violation is established: the rest need not run

    def one(idx_shard):
        idx, (drv, variant, lo, hi) = idx_shard
        if stop:
            return {"drv": drv, "variant": variant, "lo": lo, "hi": hi, "st": "skipped", "rc": 0, "out": ""}
        exe = exes[(drv, variant)]
        sc = os.path.join(scratch_base, str(idx))
        os.makedirs(sc, exist_ok=True)
        dout = os.path.join(sc, "distinct.bin")
        args = ["--seed", str(seed), "--from", str(lo), "--to", str(hi), "--distinct-out", dout]
        st, rc, out = run(exe, variant, args, tmo, sc)
        res = {"drv": drv, "variant": variant, "lo": lo, "hi": hi, "st": st, "rc": rc, "out": out, "args": args}
        if st == "timeout":
            info = classify(out, rc)
            if info["case"] is not None:
                # re-run the case it was in, alone
                a2 = ["--seed", str(seed), "--suite", info["suite"], "--from", str(info["case"]), "--to", str(info["case"] + 1)]
                st2, rc2, out2 = run(exe, variant, a2, 90, sc)
                if st2 == "timeout":
                    res.update(st="fail", args=a2, out=out + "\n@@HANG case does not terminate within 90 s alone\n")
                    info.update(key="hang", kind="hang", detail="the case did not terminate in two runs")
                    res["info"] = info
                elif st2 == "fail":
                    res.update(st="fail", args=a2, out=out2, rc=rc2)
            if res["st"] == "timeout":
                st3, rc3, out3 = run(exe, variant, args, tmo, sc)
                res.update(st=st3, rc=rc3, out=out3)
        if res["st"] == "fail":
            info = res.get("info") or classify(res["out"], res["rc"])
            if info["case"] is not None and "info" not in res:
                a2 = ["--seed", str(seed), "--suite", info["suite"], "--from", str(info["case"]), "--to", str(info["case"] + 1)]
                st2, rc2, out2 = run(exe, variant, a2, 300, sc)
                info["reproduced"] = st2 == "fail"
                if st2 == "fail":
                    i2 = classify(out2, rc2)
                    i2["reproduced"] = True
                    info, res["args"], res["out"] = i2, a2, out2
            res["info"] = info
            if not (res["rc"] in (-9, 137) and info.get("case") is None):
                stop.append(1)
        if os.path.exists(dout):
            with open(dout, "rb") as f:
                b = f.read()
            res["distinct"] = struct.unpack(f"<{len(b)//8}Q", b)
        shutil.rmtree(sc, ignore_errors=True)
        return res

    with cf.ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(one, enumerate(shards)))
    for r in results:
        distinct.update(r.get("distinct", ()))
        if r["st"] == "ok":
            m = re.search(r"@@STATS (\{.*\})", r["out"])
            if m:
                s = json.loads(m.group(1))
                s["drv"], s["variant"] = r["drv"], r["variant"]
                stats.append(s)
            else:
                inconclusive.append(f"{r['drv']}/{r['variant']} shard {r['lo']}: no statistics")
        elif r["st"] == "fail":
            if r["rc"] in (-9, 137) and r.get("info", {}).get("case") is None:
                inconclusive.append(f"{r['drv']}/{r['variant']} shard {r['lo']}: killed")
            else:
                violations.append(r)
        elif r["st"] != "skipped":
            inconclusive.append(f"{r['drv']}/{r['variant']} shard {r['lo']}: {r['st']}")

    # known findings: each is one explicit input / history, run on its own
    known_lines = []
    for f in findings:
        drv, variant = f["driver"], f.get("variant", "asan")
        exe = exes.get((drv, variant)) or build(cfg, [(drv, variant)], tier, seed)[(drv, variant)]
        sc = os.path.join(scratch_base, "finding")
        os.makedirs(sc, exist_ok=True)
        st, rc, out = run(exe, variant, ["--seed", str(seed), "--finding", f["finding"]], 120, sc)
        if st == "ok":
            notes.append(f"finding {f['finding']} no longer reproduces")
        elif re.search(f["expect"], out):
            known_lines.append(f"KNOWN-FINDING: property={pid} {f['what']}")
        else:
            info = classify(out, rc)
            violations.append({"drv": drv, "variant": variant, "args": ["--finding", f["finding"]], "out": out,
                               "info": info, "rc": rc, "st": st})
        shutil.rmtree(sc, ignore_errors=True)

    ev_cases = sum(s["cases"] for s in stats)
    ops = sum(s["ops"] for s in stats)
    checks = sum(s["checks"] for s in stats)
    events, suites, per_variant = {}, {}, {}
    samples = []
    for s in stats:
        for k, v in s["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in s["suites"].items():
            suites[k] = suites.get(k, 0) + v
        per_variant[s["drv"] + "/" + s["variant"]] = per_variant.get(s["drv"] + "/" + s["variant"], 0) + s["cases"]
        for x in s["samples"]:
            if not any(y.split(" case")[0] == x.split(" case")[0] for y in samples) and len(samples) < 8:
                samples.append(x)
    # a run that observed nothing decides nothing
    missing = [e for e in cfg.get("must_observe", []) if events.get(e, 0) == 0]
    if not violations and missing:
        inconclusive.append("never observed: " + ", ".join(missing))
    seen, vlines = set(), []
    for r in violations:
        info = r["info"]
        k = (r["drv"], info["key"], info["suite"])
        if k in seen:
            continue
        seen.add(k)
        path = shell_replay(pid, tier, seed, r["drv"], r["variant"], info, r["args"], r["out"])
        vlines.append(f"VIOLATION property={pid} replay={path}")
        print(f"[{pid}] {r['drv']}/{r['variant']} suite={info['suite']} case={info['case']} key={info['key']} "
              f"{info.get('sanitizer','')} {info['detail']}"[:600])
        if info.get("oplog"):
            print("   history: " + info["oplog"][-700:])
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": ev_cases, "distinct_nontrivial": len(distinct),
            "rule": cfg["rule"], "samples": samples or ["(none: the run failed before a case completed)"],
            "operations_driven": ops, "monitor_verdicts": checks, "events_observed": events,
            "cases_per_suite": suites, "cases_per_build": per_variant,
        },
        "assumptions": cfg.get("assumptions", []), "violations": len(vlines),
        "wall_s": round(time.time() - t0, 1),
    }
    if known_lines or notes:
        evidence["coverage"]["known_findings"] = known_lines + notes
    if inconclusive:
        evidence["coverage"]["inconclusive"] = inconclusive
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for l in known_lines:
        print(l)
    for n in notes:
        print("note: " + n)
    print(f"[{pid}] tier={tier} seed={seed} cases={ev_cases} distinct={len(distinct)} ops={ops} "
          f"verdicts={checks} build={t_build:.0f}s wall={time.time()-t0:.0f}s")
    for l in vlines:
        print(l)
    if vlines:
        return 1
    if inconclusive:
        for x in inconclusive:
            print("INCONCLUSIVE: " + x)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
