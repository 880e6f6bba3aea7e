#!/usr/bin/env python3
"""Driver: builds crablib from /repo's working tree with sanitizers, runs the monitored workloads of one
property, merges what the monitors observed into evidence/<id>.json and decides the exit status."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import HARNESSES, PLAN, WRAPS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
NCPU = max(1, min(8, os.cpu_count() or 1))
COMMON = ["-std=gnu++14", "-g1", "-fno-omit-frame-pointer", "-DCRAB_COMPILE=1", "-pthread", "-Wno-everything"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "asan17": ["-O1", "-std=gnu++17", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=all"],
    "asansse": ["-O1", "-msse4.2", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=all"],
}
CXX = "clang++"


class Infra(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(src, obj, flags):
    if os.path.exists(obj):
        return ""
    tmp = obj + ".%d.tmp" % os.getpid()
    r = run([CXX] + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        return "compile of %s failed:\n%s" % (src, r.stdout[-4000:])
    os.rename(tmp, obj)
    return ""


def build(harness, san):
    """Returns path of executable. Raises Infra when the tree does not build."""
    hd = HARNESSES[harness]
    src_hash = tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"))
    har_hash = tree_hash(os.path.join(HERE, "harness"))
    flags = COMMON + SAN[san] + hd.get("flags", []) + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
    libkey = sha(src_hash, " ".join(flags), CXX)
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (harness, san, sha(libkey, har_hash, hd)))
    if os.path.exists(exe):
        return exe
    libdir = os.path.join(BUILD, "lib-" + libkey)
    objdir = os.path.join(BUILD, "har-" + sha(libkey, har_hash))
    for d in (libdir, objdir, os.path.dirname(exe)):
        os.makedirs(d, exist_ok=True)
    jobs = []
    hobjs = []
    for s in hd["src"] + ["common.cpp"]:
        o = os.path.join(objdir, s.replace(".cpp", ".o"))
        hobjs.append(o)
        jobs.append((os.path.join(HERE, "harness", s), o, flags))
    # split the amalgamation: one translation unit per included implementation file
    lobjs = []
    try:
        allhxx = open(os.path.join(REPO, "include/crab/all.hxx")).read()
    except OSError:
        allhxx = ""
    inc = re.findall(r'^\s*#\s*include\s+"([^"]+\.hxx)"', allhxx, re.M)
    ljobs = []
    for i in inc:
        base = i.replace("/", "_").replace(".hxx", "")
        cpp = os.path.join(libdir, base + ".cpp")
        if not os.path.exists(cpp):
            with open(cpp + ".tmp%d" % os.getpid(), "w") as f:
                f.write('#include <iostream>\n#include <sstream>\n#include <crab/crab.hpp>\n#include <crab/%s>\n' % i)
            os.rename(cpp + ".tmp%d" % os.getpid(), cpp)
        o = os.path.join(libdir, base + ".o")
        lobjs.append(o)
        ljobs.append((cpp, o, flags))
    with ThreadPoolExecutor(NCPU) as ex:
        hres = [ex.submit(compile_one, *j) for j in jobs]
        lres = [ex.submit(compile_one, *j) for j in ljobs]
        herr = [f.result() for f in hres]
        lerr = [f.result() for f in lres]
    whole = os.path.join(libdir, "whole.o")

    def link(libobjs):
        tmp = exe + ".%d.tmp" % os.getpid()
        wraps = ["-Wl,--wrap=" + w for w in hd.get("wraps", WRAPS if hd.get("sim") else [])]
        r = run([CXX] + flags + hobjs + libobjs + wraps + ["-o", tmp, "-lpthread"])
        if r.returncode == 0:
            os.rename(tmp, exe)
        return r

    if any(herr):
        raise Infra("\n".join(e for e in herr if e))
    r = None
    if inc and not any(lerr):
        r = link(lobjs)
    if r is None or r.returncode != 0:
        e = compile_one(os.path.join(REPO, "src/crab.cpp"), whole, flags)
        if e:
            raise Infra(e)
        r = link([whole])
        if r.returncode != 0:
            raise Infra("link failed:\n" + r.stdout[-4000:])
    return exe


ENV_SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1:handle_abort=1:symbolize=1:quarantine_size_mb=64:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4",
}


def crash_key(text, rc):
    """A stable name for a crash: sanitizer kind + innermost crab function."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", text)
    if not kind and m2:
        kind = "ubsan-" + re.sub(r"[^a-z ]", "", re.sub(r"0x[0-9a-f]+|[0-9]+", "", m2.group(1).lower()))[:50].strip().replace(" ", "-")
    m3 = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", text)
    if not kind and m3:
        kind = "tsan-" + m3.group(1).strip().replace(" ", "-")
    if not kind:
        if "terminate called" in text:
            m4 = re.search(r"what\(\):\s*(.*)", text)
            kind = "terminate-" + (re.sub(r"[^A-Za-z ]", "", m4.group(1))[:40].strip().replace(" ", "-") if m4 else "")
        else:
            kind = "exit-%s" % rc
    func = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):\d+", text):
        if "/include/crab/" in m.group(2) or "/src/" in m.group(2):
            func = re.sub(r"\(.*", "", m.group(1)).strip()
            break
    return "%s:%s" % (kind, func), (m2.group(1) if m2 else "")


def run_shard(exe, job, seed, shard, cases, out, thorough, timeout):
    cmd = [exe, "--mode", job["mode"], "--seed", str(seed), "--shard", str(shard), "--cases", str(cases), "--out", out]
    if thorough:
        cmd.append("--thorough")
    env = dict(os.environ)
    env.update(ENV_SAN)
    err = open(out + ".err", "w+b")
    p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
    timed_out = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    err.seek(0)
    text = err.read().decode("utf8", "replace")
    err.close()
    prog = [0, 0, 0, 0]
    try:
        b = open(out + ".progress", "rb").read(32)
        prog = [int.from_bytes(b[i * 8:i * 8 + 8], "little") for i in range(4)]
    except OSError:
        pass
    res = None
    if os.path.exists(out) and (timed_out or p.returncode == 0):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
        if timed_out and not (res and res["violations"]):  # what a shard reported before it was stopped stays reported
            res = None
    return dict(rc=p.returncode, timed_out=timed_out, text=text, prog=prog, res=res, cmd=cmd)


def replay_case(exe, job, caseseed, thorough, timeout, out):
    cmd = [exe, "--mode", job["mode"], "--replay", str(caseseed), "--out", out, "--seed", "1", "--shard", "0"]
    if thorough:
        cmd.append("--thorough")
    env = dict(os.environ)
    env.update(ENV_SAN)
    with open(out + ".err", "w+b") as err:
        p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(timeout)
            to = False
        except subprocess.TimeoutExpired:
            to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    return to, p.returncode, open(out + ".err", "rb").read().decode("utf8", "replace")


def replay_violations(scratch, jn, j, s, cs):
    try:
        res = json.load(open(os.path.join(scratch, "re-%d-%d" % (jn, s))))
        return [dict(key=v["key"], msg=v["msg"], job=j, caseseed=str(cs)) for v in res["violations"]]
    except (OSError, ValueError):
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    thorough = a.tier == "thorough"
    t0 = time.time()
    plan = PLAN[a.pid]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.pid)
    viols = []       # dict(key,msg,job,caseseed)
    inconclusive = []
    counters, samples, hashes = {}, [], set()
    evaluations = events = nontriv = 0
    per_job = []
    try:
        jobs = [j for j in plan["jobs"] if (thorough or not j.get("thorough_only")) and (not a.only or a.only in j["mode"])]
        exes = {}
        for j in jobs:
            k = (j["h"], j.get("san", "asan"))
            if k not in exes:
                exes[k] = build(*k)
        tasks = []
        for jn, j in enumerate(jobs):
            exe = exes[(j["h"], j.get("san", "asan"))]
            n = j.get("t", j["q"] * 12) if thorough else j["q"]
            n = max(1, int(n * a.scale))
            shards = j.get("shards", NCPU)
            for s in range(shards):
                tasks.append((jn, j, exe, s, n))
        tmo = plan.get("timeout_t", 3000) if thorough else plan.get("timeout", 300)

        bad = []  # something was found already: what was not started after two minutes is not needed any more

        def work(t):
            jn, j, exe, s, n = t
            out = os.path.join(scratch, "%d-%d.json" % (jn, s))
            if bad and time.time() - t0 > 120:
                return t, out, None
            r = run_shard(exe, j, a.seed, s, n, out, thorough, tmo)
            if r["res"] is None or r["res"]["violations"]:
                bad.append(1)
            return t, out, r

        with ThreadPoolExecutor(plan.get("parallel", NCPU)) as ex:
            results = list(ex.map(work, tasks))
        jobstat, hung = {}, []
        for (jn, j, exe, s, n), out, r in results:
            if r is None:
                continue
            js = jobstat.setdefault(jn, dict(mode=j["mode"], san=j.get("san", "asan"), cases=0, events=0))
            if r["res"] is not None:
                res = r["res"]
                evaluations += res["cases"]
                events += res["events"]
                nontriv += res["nontrivial"]
                js["cases"] += res["cases"]
                js["events"] += res["events"]
                for k, v in res["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                if s == 0:
                    samples += ["[%s] %s" % (j["mode"], x) for x in res["samples"][:2]]
                try:
                    b = open(out + ".hash", "rb").read()
                    hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
                except OSError:
                    pass
                for v in res["violations"]:
                    viols.append(dict(key=v["key"], msg=v["msg"], job=j, caseseed=v["caseseed"]))
                continue
            js["cases"] += r["prog"][2]
            evaluations += r["prog"][2]
            cs = r["prog"][0]
            if r["rc"] == 77 or cs == 0:
                raise Infra("harness failure in %s shard %d rc=%s\n%s" % (j["mode"], s, r["rc"], r["text"][-3000:]))
            if r["timed_out"] or r["rc"] == 99:
                hung.append((jn, j, exe, s, cs))
                continue
            mloc = re.search(r"^(\S+?):\d+:\d+: runtime error", r["text"], re.M)
            if mloc and mloc.group(1).startswith(os.path.join(HERE, "harness")):
                raise Infra("undefined behaviour in the harness itself:\n" + r["text"][-3000:])
            key, m = crash_key(r["text"], r["rc"])
            viols.append(dict(key="sanitizer:" + key, msg=m + "\n" + r["text"][-6000:], job=j, caseseed=str(cs)))
        # a hang must reproduce alone before it counts
        if viols:
            hung = []

        def again(t):
            jn, j, exe, s, cs = t
            return t, replay_case(exe, j, cs, thorough, 120, os.path.join(scratch, "re-%d-%d" % (jn, s)))

        with ThreadPoolExecutor(4) as ex:
            for (jn, j, exe, s, cs), (to, rc, text) in ex.map(again, hung[:8]):
                if to or rc == 99:
                    viols.append(dict(key="hang:" + j["mode"], msg="case does not terminate", job=j, caseseed=str(cs)))
                elif rc == 98 or rc < 0:
                    key, m = crash_key(text, rc)
                    viols.append(dict(key="sanitizer:" + key, msg=m + "\n" + text[-6000:], job=j, caseseed=str(cs)))
                elif rc == 1:
                    viols += replay_violations(scratch, jn, j, s, cs)
                else:
                    inconclusive.append("%s shard %d: wall-clock watchdog fired, case %d alone terminated" % (j["mode"], s, cs))
        per_job = [jobstat[k] for k in sorted(jobstat)]
    except Infra as e:
        print("INFRASTRUCTURE FAILURE: %s" % e)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)

    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    new, listed = [], {}
    for v in viols:
        f = None
        for k in known["findings"]:
            if k["property"] == a.pid and re.fullmatch(k["key"], v["key"]) and re.search(k.get("match", ""), v["msg"], re.S):
                f = k
                break
        if f:
            listed[f["what"]] = listed.get(f["what"], 0) + 1
        else:
            new.append(v)
    replay_paths = []
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        seen = {}
        for v in new:
            seen.setdefault(v["key"], v)
        for n, (key, v) in enumerate(seen.items()):
            p = os.path.join(HERE, "replays", "%s-%d.json" % (a.pid, n))
            j = v["job"]
            json.dump(dict(property=a.pid, key=key, message=v["msg"], harness=j["h"], sanitizer=j.get("san", "asan"), mode=j["mode"],
                           caseseed=v["caseseed"], tier=a.tier,
                           how="python3 replay.py " + os.path.relpath(p, HERE)), open(p, "w"), indent=1)
            replay_paths.append((key, p, v))
    if not new and evaluations == 0:
        print("INFRASTRUCTURE FAILURE: nothing was executed")
        sys.exit(2)
    if not new:
        for need in plan.get("need", []):
            if counters.get(need, 0) == 0 and a.scale >= 1 and not a.only:
                print("INFRASTRUCTURE FAILURE: monitor observed no '%s' events" % need)
                sys.exit(2)
    ev = dict(property=a.pid, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(hashes), rule=plan["rule"], samples=samples[:8] or ["(none)"],
                            nontrivial_cases=nontriv, monitored_events=events, observed=counters, workloads=per_job, inconclusive=inconclusive,
                            known_findings_seen=listed),
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    # a listed finding is always announced, whether or not this run happened to hit it
    for k in known["findings"]:
        if k["property"] == a.pid:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))
    print("%s tier=%s cases=%d events=%d distinct=%d violations=%d %.1fs" % (a.pid, a.tier, evaluations, events, len(hashes), len(new), time.time() - t0))
    if new:
        for key, p, v in replay_paths:
            print("VIOLATION property=%s replay=%s" % (a.pid, p))
            print("  %s: %s" % (key, v["msg"][:900].replace("\n", "\n    ")))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # never look like a violation
        import traceback
        traceback.print_exc()
        sys.exit(2)
