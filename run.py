#!/usr/bin/env python3
"""Builds a property's explorer from /repo's working tree, runs it, reports.

usage: run.py <property> [--tier quick|thorough] [--job NAME] [--keep]
       run.py --setup
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Else: error of the check.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GOOST_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
CXX = "g++"
COMMON = ["-std=c++17", "-include", "array", "-pthread", "-g1", "-w"]
VARIANT = {
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,shift-exponent,bounds,return,vptr",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR", "-ftrivial-auto-var-init=pattern"],
    "opt": ["-O2", "-ftrivial-auto-var-init=pattern"],
    "plain": ["-O1", "-ftrivial-auto-var-init=pattern"],
}
# property -> (harness source, variant, extra flags)
PROPS = json.load(open(os.path.join(HERE, "checks.json")))


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def library_sources():
    """The library's sources as CMakeLists.txt lists them (all of goost/ if it lists none)."""
    out = []
    try:
        text = re.sub(r"#.*", "", open(os.path.join(REPO, "CMakeLists.txt")).read())
        out = [s for s in dict.fromkeys(re.findall(r"goost/[\w/.-]+\.(?:cpp|cc|cxx)", text))
               if os.path.exists(os.path.join(REPO, s))]
    except OSError:
        pass
    if not out:
        for d, _, fs in os.walk(os.path.join(REPO, "goost")):
            out += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(out)


def build(cfg, tmp):
    flags = COMMON + ["-I" + REPO, "-I" + HARNESS]
    var = VARIANT.get(cfg["variant"], [])
    lib_extra = []
    if cfg["variant"] == "sched":
        lib_extra = ["-O1", "-fsanitize=thread"]
    jobs = []
    for s in library_sources():
        jobs.append((os.path.join(REPO, s), os.path.join(tmp, s.replace("/", "_") + ".o"), flags + var + lib_extra))
    for s in cfg["sources"]:
        f = flags + var + ["-D" + d for d in cfg.get("defines", [])]
        if cfg["variant"] == "sched":
            f = flags + (["-O1", "-fsanitize=thread"] if s in cfg["instrumented"] else ["-O2"]) + ["-D" + d for d in cfg.get("defines", [])]
        jobs.append((os.path.join(HARNESS, s), os.path.join(tmp, "h_" + s + ".o"), f))

    def one(j):
        return j, sh([CXX] + j[2] + ["-c", j[0], "-o", j[1]])
    order = [j[1] for j in jobs]
    if cfg["variant"] == "sched":  # instrumented copies of inline functions come first and win
        plain = [os.path.join(tmp, "h_" + s + ".o") for s in cfg["sources"] if s not in cfg["instrumented"]]
        order = [o for o in order if o not in plain] + plain
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                die("cannot build %s:\n%s" % (j[0], r.stdout[-6000:]))
    exe = os.path.join(tmp, "explore")
    link = [CXX] + [x for x in var if x.startswith(("-fsanitize", "-O"))] + ["-pthread", "-rdynamic"] + order + ["-o", exe, "-ldl"]
    if cfg["variant"] == "sched":
        link.append("-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset")
    r = sh(link)
    if r.returncode:
        die("cannot link:\n" + r.stdout[-6000:])
    return exe


def run(exe, tmp, tier, job=None, hang=40):
    out = os.path.join(tmp, "result.json")
    if os.path.exists(out):
        os.unlink(out)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1:strict_string_checks=1:detect_container_overflow=1:allocator_may_return_null=1:max_allocation_size_mb=8192"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    cmd = [exe, "--tier", tier, "--out", out, "--errdir", tmp, "--hang", str(hang), "-j", str(os.cpu_count() or 4)]
    if job:
        cmd += ["--job", job]
    r = sh(cmd, env=e)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        die("explorer ended with %s:\n%s" % (r.returncode, r.stdout[-4000:]))
    return json.load(open(out))


def run_parts(exes, tmp, tier, job=None, hang=40):
    """Runs a property's explorers one after another and adds up what they report; jobs of part n are called pn:..."""
    if len(exes) == 1:
        return run(exes[0], tmp, tier, job, hang)
    only = None
    if job:
        m = re.match(r"p(\d+):(.*)", job)
        only, job = (int(m.group(1)), m.group(2)) if m else (0, job)
    total = None
    for n, exe in enumerate(exes):
        if exe is None or (only is not None and n != only):
            continue
        res = run(exe, tmp, tier, job, hang)
        v = res.get("violation")
        if v:
            v["job"] = "p%d:%s" % (n, v["job"])
        res["times"] = {"p%d:%s" % (n, k): t for k, t in res.get("times", {}).items()}
        if total is None:
            total = res
            if v:
                break
            continue
        for k in ("states", "transitions", "traces", "cases", "jobs", "jobs_finished"):
            total[k] += res[k]
        # few samples: keep some of every part
        total["samples"] = (total["samples"][:6] + res["samples"])[:12]
        total["capped"] += res["capped"]
        total["times"].update(res["times"])
        if v:
            total["violation"] = v
            break
    return total


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        r = sh([CXX, "--version"])
        if r.returncode:
            die("no compiler")
        tmp = tempfile.mkdtemp(prefix="goost-setup-")
        try:
            src = os.path.join(tmp, "t.cpp")
            open(src, "w").write('#include "ref.h"\n#include <cstdio>\nint main() { auto s = ref::self_test(); puts(s.empty() ? "reference model: ok" : s.c_str()); return !s.empty(); }\n')
            r = sh([CXX, "-std=c++17", "-O1", "-I" + HARNESS, src, os.path.join(HARNESS, "ref.cpp"), "-o", tmp + "/t"])
            if r.returncode:
                die(r.stdout)
            r = sh([tmp + "/t"])
            print(r.stdout, end="")
            if r.returncode:
                die("the reference model does not match the standards' examples")
        finally:
            shutil.rmtree(tmp)
        return 0
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    job, keep = None, False
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--job":
            job = args.pop(0)
        elif a == "--keep":
            keep = True
        else:
            die("bad argument " + a)
    cfg = PROPS[pid]
    t0 = time.time()
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=pid + "-", dir=base)
    try:
        exes = []
        for n, part in enumerate([cfg] + cfg.get("also", [])):
            sub = os.path.join(tmp, "p%d" % n)
            os.mkdir(sub)
            if part.get("optional"):  # copies of objects: nothing to explore where a tree's objects cannot be copied
                probe = [sh([CXX] + COMMON + ["-I" + REPO, "-I" + HARNESS, "-fsyntax-only", os.path.join(HARNESS, s)]) for s in part["sources"][:1]]
                if any(r.returncode for r in probe):
                    print("note: %s does not compile against this tree and is left out" % part["sources"][0])
                    exes.append(None)
                    continue
            exes.append(build(part, sub))
        if os.environ.get("MC_BUILD_ONLY"):
            shutil.copy(exes[0], os.environ["MC_BUILD_ONLY"])
            return 0
        built = time.time() - t0
        res = run_parts(exes, tmp, tier, job)
        res["capped"] = sorted({c.split(": ", 1)[-1] for c in res["capped"]})
        v = res.get("violation")
        confirmed = None
        if v:
            for attempt in range(3):
                again = run_parts(exes, tmp, tier, v["job"], hang=150)
                if again.get("violation"):
                    confirmed = again["violation"]
                    break
            if not confirmed and v["kind"] == "hang":
                res = run_parts(exes, tmp, tier, job, hang=300)
                v = res.get("violation")
                confirmed = v
            if v and not confirmed:
                print("seen once, not on three replays: " + json.dumps(v))
                die("a violation that does not replay")
        wall = time.time() - t0
        for _, text in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        ev = {
            "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "model_checking",
            "coverage": {
                "states": res["states"], "transitions": res["transitions"],
                "traces_validated_against_impl": res["traces"],
                "samples": res["samples"],
                "exhaustive": not res["capped"] and not v and not job,
                "cases": res["cases"], "jobs": res["jobs"], "jobs_finished": res["jobs_finished"],
                "bounds": cfg.get("bounds", {}).get(tier, cfg.get("bounds", {}).get("quick", "")),
                "caps_hit": res["capped"],
            },
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": 1 if confirmed else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s %s: %d jobs, %d cases, %d states, %d transitions, %d traces compared, %.1f s (build %.1f s)%s" % (
            pid, tier, res["jobs"], res["cases"], res["states"], res["transitions"], res["traces"], wall, built,
            "" if not res["capped"] else ", CAPPED " + "; ".join(res["capped"])))
        if os.environ.get("MC_TIMES"):
            for k, t in sorted(res["times"].items(), key=lambda x: -x[1])[:20]:
                print("   %7.2f s  %s" % (t, k))
        if confirmed:
            os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
            path = os.path.join(HERE, "out", pid + ".replay")
            err = ""
            try:
                err = open(confirmed["stderr"], errors="replace").read()[:20000]
            except OSError:
                pass
            with open(path, "w") as f:
                f.write("property: %s\njob: %s\nkind: %s\ncase: %s\nmessage: %s\nreplay: cd /verif && VERIF_TIER=%s python3 run.py %s --job '%s'\n\n%s" % (
                    pid, confirmed["job"], confirmed["kind"], confirmed["case"], confirmed["message"], tier, pid, confirmed["job"], err))
            print("job %s, %s\n  case: %s\n  %s" % (confirmed["job"], confirmed["kind"], confirmed["case"], confirmed["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        return 0
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
