#!/usr/bin/env python3
"""Driver of the checks:  check.py ID [quick|thorough]   |   check.py replay FILE   |   check.py build [ID...]

Builds the harness of property ID from /repo's working tree, searches generated cases with
VERIF_SEED, confirms and shrinks any failure, writes evidence/ID.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: error of the check.
"""
import concurrent.futures, hashlib, itertools, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))
sys.path.insert(0, str(VERIF / "lib"))
from checks import CHECKS  # noqa: E402

BUILD = VERIF / "build"
EVID = VERIF / "evidence"
JOBS = int(os.environ.get("VP_JOBS") or os.cpu_count() or 8)

BASE = ["-std=c++20", "-g1", "-DDOTTORRENT_USE_OPENSSL", "-DFMT_HEADER_ONLY", "-pthread", "-w",
        f"-I{VERIF}/shim", f"-I{REPO}/include", f"-I{REPO}/src", f"-I{VERIF}/harness", "-include", "vp_prelude.hpp"]
ISAL = ["-DDOTTORRENT_USE_ISAL", "-Wno-deprecated-declarations", f"-I{VERIF}/shim-isal"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "none": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "fuzz": ["-O1", "-fsanitize=fuzzer-no-link,address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DVP_FUZZ"],
}
CLANG = shutil.which("clang++") or shutil.which("clang++-18") or "clang++"


def compiler(st):
    return CLANG if st.get("san") == "fuzz" else os.environ.get("VP_CXX", "g++")


def fuzzer_runtime():
    d = Path(subprocess.run([CLANG, "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip())
    found = sorted(d.rglob("libclang_rt.fuzzer_no_main*x86_64*.a")) + sorted(d.rglob("libclang_rt.fuzzer_no_main*.a"))
    return [str(found[0])] if found else []


ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1",
}


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for p in sorted(Path(d).rglob("*")):
            if p.is_file() and p.suffix in (".hpp", ".h", ".ipp", ".inc"):
                h.update(str(p.relative_to(d)).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()


def repo_sources(which):
    if which == "headers":
        return []
    src = sorted((REPO / "src").rglob("*.cpp"))
    if which == "crypto":
        return [s for s in src if "backends" in s.parts]
    return src


class BuildError(Exception):
    pass


def compile_one(job):
    src, obj, flags, cxx = job
    if obj.exists():
        return None
    tmp = obj.with_suffix(f".tmp{os.getpid()}")
    r = subprocess.run([cxx, *flags, "-c", str(src), "-o", str(tmp)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return f"{src}:\n" + "\n".join(r.stdout.splitlines()[:40])
    os.replace(tmp, obj)
    return None


def variant(st):
    return st.get("san", "asan") + ("+isal" if st.get("isal") else "") + ("+leaks" if st.get("leaks") else "")


def build(stages, strict=True):
    """builds every stage; returns the binary of each"""
    BUILD.mkdir(exist_ok=True)
    (BUILD / "obj").mkdir(exist_ok=True)
    hh = tree_hash(VERIF / "shim", VERIF / "shim-isal", REPO / "include", REPO / "src", VERIF / "harness")
    jobs, links = {}, []
    for st in stages:
        flags = BASE + SAN[st.get("san", "asan")] + st.get("flags", []) + (ISAL if st.get("isal") else [])
        objs = []
        # the harness first: it is usually the slowest file
        for s in [VERIF / "harness" / st["harness"]] + repo_sources(st.get("sources", "all")):
            key = sha(*[f.replace(str(REPO), "R") for f in flags], hh, s.read_bytes())[:24]
            o = BUILD / "obj" / f"{s.stem}-{key}.o"
            jobs[o] = (s, o, flags, compiler(st))
            objs.append(o)
        exe = BUILD / f"{Path(st['harness']).stem}-{variant(st).replace('+leaks', '')}-{sha(*map(str, objs))[:16]}"
        links.append((exe, objs, flags, st))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        failed = {o: e for o, e in zip(jobs, ex.map(compile_one, jobs.values())) if e}
    out, errs = [], []
    for exe, objs, flags, st in links:
        # a source that does not compile only matters to the harnesses that need it
        good = [o for o in objs[1:] if o not in failed]
        if objs[0] in failed:
            errs.append(failed[objs[0]])
            out.append(None)
            continue
        if not exe.exists():
            for old in BUILD.glob(exe.name.rsplit("-", 1)[0] + "-*"):
                old.unlink()
            lib = BUILD / f"lib-{exe.name}.{os.getpid()}.a"
            if good:
                subprocess.run(["ar", "rcsT", str(lib), *map(str, good)], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            rt = fuzzer_runtime() if st.get("san") == "fuzz" else []
            r = subprocess.run([compiler(st), *flags, str(objs[0]), *([str(lib)] if good else []), *rt, "-o", str(exe), "-lcrypto", "-lpthread", *st.get("libs", [])],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lib.unlink(missing_ok=True)
            if r.returncode != 0 and st.get("sources", "all") != "all":
                # something it uses has moved into another source
                again = build([dict(st, sources="all")], strict=False)[0]
                if again is not None:
                    out.append(again)
                    continue
            if r.returncode != 0:
                errs += [failed[o] for o in objs if o in failed] + [r.stdout[-4000:]]
                out.append(None)
                continue
        out.append(exe)
    for e in dict.fromkeys(failed.values()):
        log("does not compile, left out:", e)
    if not any(out) and strict:
        raise BuildError("\n".join(dict.fromkeys(errs)))
    if strict:
        prune()
    return out


def prune():
    objs = sorted((BUILD / "obj").glob("*.o"), key=lambda p: p.stat().st_mtime, reverse=True)
    for p in objs[600:]:
        p.unlink(missing_ok=True)


def dictionary(path):
    """the strings and numbers of the code under test, for the generators; a hint, nothing depends on it"""
    words, numbers = set(), {1 << k for k in range(8, 48, 2)}
    unit = {"kib": 1 << 10, "mib": 1 << 20, "gib": 1 << 30, "kb": 1000, "mb": 10**6, "gb": 10**9, "": 1}
    for d in (REPO / "include", REPO / "src"):
        for p in sorted(d.rglob("*.[hc]pp")):
            text = re.sub(r'("(?:\\.|[^"\\\n])*")|//[^\n]*|/\*.*?\*/', lambda m: m[1] or " ", p.read_text(errors="replace"), flags=re.S)
            text = re.sub(r"^\s*#\s*include[^\n]*", "", text, flags=re.M)
            for m in re.findall(r'"((?:\\.|[^"\\\n])*)"', text):
                try:
                    w = m.encode("utf-8").decode("unicode_escape").encode("latin-1")
                except (UnicodeError, ValueError):
                    continue
                if 1 <= len(w) <= 40:
                    words.add(w)
            for n, u in re.findall(r"\b(0[xX][0-9a-fA-F']+|\d[\d']*)[uUlL]*(?:_?([kKmMgG]i?[bB]))?\b", re.sub(r'"(?:\\.|[^"\\\n])*"', " ", text)):
                try:
                    v = int(n.replace("'", ""), 0 if n[:2] in ("0x", "0X") else 10) * unit[u.lower()]
                except ValueError:
                    continue
                if 16 <= v < 1 << 63:
                    numbers.add(v)
    path.write_text("".join(f"w {w.hex()}\n" for w in sorted(words)) + "".join(f"n {v}\n" for v in sorted(numbers)))
    Path(str(path) + ".fuzz").write_text("".join('"' + "".join(f"\\x{b:02x}" for b in w) + '"\n' for w in sorted(words)))


def read_state(path):
    b = Path(path).read_bytes()
    idx, n = struct.unpack_from("<QQ", b)
    n = min(n, (len(b) - 16) // 8)
    return idx, list(struct.unpack_from(f"<{n}Q", b, 16))


def case_text(choices):
    """a case is a list of choices, a sequence of cases a list of those"""
    if choices and isinstance(choices[0], list):
        return "\n---\n".join("\n".join(map(str, c)) for c in choices) + "\n"
    return "\n".join(map(str, choices)) + "\n"


class Runner:
    def __init__(self, exe, stage, scratch):
        self.exe, self.stage, self.scratch = exe, stage, Path(scratch)
        self.env = dict(os.environ, **ENV, VP_SCRATCH=str(scratch), VP_DICT=str(self.scratch.parent / "dict"), **stage.get("env", {}), **({"VP_LEAKS": "1"} if stage.get("leaks") else {}))
        self.n = itertools.count()   # replays run in several threads

    def replay(self, choices, alarm=60, want_out=False):
        """returns (kind, output, normalised choices); kind None: held"""
        n = next(self.n)
        f = self.scratch / f"r{os.getpid()}-{n}.case"
        o = self.scratch / f"r{os.getpid()}-{n}.out"
        f.write_text(case_text(choices))
        env = dict(self.env, VP_CASE_ALARM=str(alarm))
        try:
            r = subprocess.run([str(self.exe), "--replay", str(f), "--out", str(o)], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=alarm + 30)
            rc, text = r.returncode, r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, text = -signal.SIGALRM, (e.stdout or b"").decode("utf-8", "replace")
        norm = None
        if o.exists():
            norm = [int(x) for x in o.read_text().split()]
            o.unlink()
        f.unlink()
        return kind_of(rc), text, norm

    def known(self, name):
        env = dict(self.env, VP_CASE_ALARM="60")
        r = subprocess.run([str(self.exe), "--known", name], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=120)
        return r.returncode


def kind_of(rc):
    if rc == 0:
        return None
    if rc == 3:
        return "violated"
    if rc == -signal.SIGALRM:
        return "hang"
    if rc == 2:
        return "error"
    return "crash"


def shrink(run, choices, kind, budget):
    """delta-debugging on the choice sequence, keeping the kind of failure"""
    deadline = time.time() + budget
    best = list(choices)
    pool = concurrent.futures.ThreadPoolExecutor(JOBS)

    def first_failing(cands):
        cands = list(cands)
        for i in range(0, len(cands), JOBS):
            if time.time() > deadline:
                return None
            batch = cands[i:i + JOBS]
            for c, (k, _, norm) in zip(batch, pool.map(lambda c: run.replay(c, alarm=20), batch)):
                if k == kind:
                    if norm is not None and (len(norm), norm) < (len(c), c):
                        return norm
                    return c
        return None

    improved = True
    while improved and time.time() < deadline:
        improved = False
        # truncate / delete blocks
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < deadline:
            cands = [best[:i] + best[i + size:] for i in range(0, len(best), size)]
            c = first_failing(cands)
            if c is not None and len(c) < len(best):
                best, improved = c, True
            else:
                if size == 1:
                    break
                size //= 2
        # minimise values
        for i in range(len(best)):
            if time.time() > deadline or i >= len(best):
                break
            v = best[i]
            if v == 0:
                continue
            cands = []
            for w in (0, 1, 2, v // 16, v // 4, v // 2, v - v // 4, v - 2, v - 1):
                if 0 <= w < v and w not in cands:
                    cands.append(w)
            c = first_failing(best[:i] + [w] + best[i + 1:] for w in cands)
            if c is not None and (len(c), c) < (len(best), best):
                best, improved = c, True
    pool.shutdown(wait=False)
    return best


def sequence_of(run, seed, w, workers, idx, choices, kind, alarm):
    """cases of one worker that make the last one fail when run before it; shortest found, or None"""
    window, dump = 1, run.scratch / "dump"
    while True:
        frm = max(w, idx - window * workers)
        env = dict(run.env, VP_CASE_ALARM=str(alarm))
        try:
            r = subprocess.run([str(run.exe), "--run", "--seed", str(seed), "--worker", str(w), "--workers", str(workers), "--from", str(frm),
                                "--cases", str(idx + 1), "--time", "200", "--state", str(run.scratch / "state-seq"),
                                "--stats", str(run.scratch / "stats-seq"), "--dump", str(dump)],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        except subprocess.TimeoutExpired:
            return None
        if kind_of(r.returncode) == kind and read_state(run.scratch / "state-seq")[0] == idx:
            before = [[int(x) for x in ln.split()] for ln in dump.read_text().splitlines()]
            if kind == "violated":
                before.pop()
            break
        if frm == w:
            return None
        window *= 4
    fails = lambda b: run.replay(b + [choices], alarm=alarm + 200)[0] == kind
    if not fails(before):
        return None
    deadline, size = time.time() + 60, max(1, len(before) // 2)
    while time.time() < deadline:
        for i in range(0, len(before), size):
            if fails(before[:i] + before[i + size:]):
                before = before[:i] + before[i + size:]
                break
        else:
            if size == 1:
                break
            size //= 2
    return before + [choices]


class Stuck:
    """notices a worker whose threads all sleep without a single context switch: a deadlock, not a slow machine"""

    def __init__(self, pid, state, tsan):
        self.pid, self.state, self.tsan = pid, state, tsan
        self.index, self.since, self.last, self.at, self.deadlock = None, time.time(), None, 0, False

    def sample(self):
        out = {}
        tids = sorted(int(t) for t in os.listdir(f"/proc/{self.pid}/task"))
        if self.tsan and len(tids) > 1:
            tids.remove(tids[1])   # the background thread of ThreadSanitizer wakes up by itself
        for t in tids:
            text = Path(f"/proc/{self.pid}/task/{t}/status").read_text()
            f = dict(ln.split(":", 1) for ln in text.splitlines() if ":" in ln)
            if f["State"].strip()[0] != "S":
                return None
            out[t] = (f["voluntary_ctxt_switches"].strip(), f["nonvoluntary_ctxt_switches"].strip())
        return out

    def look(self):
        now = time.time()
        try:
            with open(self.state, "rb") as f:
                index = f.read(8)
            if index != self.index:
                self.index, self.since, self.last, self.deadlock = index, now, None, False
            elif now - self.since > 4 and now - self.at > 2:
                cur, self.at = self.sample(), now
                self.deadlock = self.deadlock or (cur is not None and cur == self.last)
                self.last = cur
        except (OSError, KeyError, ValueError):
            pass


def run_stage(cid, st, exe, tier, seed, scratch):
    run = Runner(exe, st, scratch)
    cases = st["thorough" if tier == "thorough" else "quick"]
    cap = st.get("cap", 150) if tier == "quick" else st.get("thorough_cap", 1500)
    fuzzing = st.get("san") == "fuzz"
    if fuzzing:   # as long as it says; the number of runs is no limit
        cases, cap = 1 << 40, cases
    workers = st.get("workers", JOBS)
    procs = []
    for w in range(workers):
        state, stats, outp = (Path(scratch) / f"{n}-{w}" for n in ("state", "stats", "out"))
        env = dict(run.env, VP_CASE_ALARM=str(st.get("alarm", 60)))
        fo = open(outp, "wb")
        mode = ["--fuzz", "--corpus", str(Path(scratch) / f"corpus-{w}" / "c")] if st.get("san") == "fuzz" else ["--run"]
        procs.append((subprocess.Popen([str(exe), *mode, "--seed", str(seed), "--worker", str(w), "--workers", str(workers),
                                        "--cases", str(cases), "--time", str(cap), "--state", str(state), "--stats", str(stats)],
                                       env=env, stdout=fo, stderr=subprocess.STDOUT), state, stats, outp))
    failing = []
    watch = [Stuck(p.pid, state, st.get("san") == "tsan") for p, state, _, _ in procs]
    deadline = time.time() + cap + 2 * st.get("alarm", 60) + 60
    pending = set(range(workers))
    grace = None
    while pending:
        for w in list(pending):
            if procs[w][0].poll() is not None:
                pending.discard(w)
                k = kind_of(procs[w][0].returncode)
                if k:
                    failing.append((w, k))
                    if grace is None:
                        grace = time.time() + 15
        if time.time() > deadline or (grace and time.time() > grace):
            for w in pending:
                procs[w][0].kill()
                procs[w][0].wait()
            break
        if st.get("schedules"):
            for w in pending:
                watch[w].look()
        time.sleep(0.02)
    agg = {"evaluations": 0, "discarded": 0, "nontrivial": 0, "labels": {}, "samples": [], "distinct": set(), "out_of_time": False}
    for p, state, stats, outp in procs:
        if stats.exists():
            try:
                d = json.loads(stats.read_text())
            except ValueError:
                continue
            for k in ("evaluations", "discarded", "nontrivial"):
                agg[k] += d[k]
            for k, v in d["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            agg["samples"] += d["samples"]
            agg["distinct"].update(d["distinct"])
            agg["out_of_time"] |= d["out_of_time"]
    agg["samples"] = agg["samples"][:6]
    viol = None
    if failing:
        errors = []
        found = []
        for w, k in failing:
            try:
                idx, choices = read_state(procs[w][1])
            except Exception as e:  # the worker never started a case
                errors.append(f"worker {w}: {k}: {procs[w][3].read_text(errors='replace')[-2000:]}")
                continue
            found.append((idx, w, k, choices, procs[w][3].read_text(errors="replace")[-6000:], procs[w][2], watch[w].deadlock))
        found.sort(key=lambda t: t[0])
        for idx, w, k, choices, out, stats, deadlock in found:
            if k == "error":
                errors.append(out)
                continue
            msg = out
            if k == "violated" and stats.exists():
                msg = json.loads(stats.read_text()).get("violation") or out
            n = 3
            kinds = []
            with concurrent.futures.ThreadPoolExecutor(3) as ex:
                kinds = [r[0] for r in ex.map(lambda _: run.replay(choices, alarm=st.get("alarm", 60)), range(n))]
            reproduced = sum(1 for x in kinds if x)
            if st.get("schedules"):
                if k == "hang" and deadlock:
                    msg += "\nDEADLOCK: every thread slept and none was switched to for two seconds before the time limit"
                elif k == "hang" and reproduced == 0:
                    # a stuck run that does not repeat is not evidence by itself: look for it again
                    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                        kinds = [r[0] for r in ex.map(lambda _: run.replay(choices, alarm=st.get("alarm", 60)), range(24))]
                    reproduced = sum(1 for x in kinds if x)
                    if reproduced == 0:
                        errors.append(f"case {idx}: {k} did not repeat")
                        continue
            elif reproduced == 0:
                # not the case alone: together with cases before it in the same process (state kept by the code under test), or now and then
                seq = None if k == "hang" or fuzzing else sequence_of(run, seed, w, workers, idx, choices, k, st.get("alarm", 60))
                if seq:
                    viol = {"case": idx, "kind": k, "choices": seq, "message": msg[-6000:], "shrunk_from": len(seq),
                            "reproduced": f"fails after {len(seq) - 1} other cases in the same process"}
                    break
                with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                    kinds = [r[0] for r in ex.map(lambda _: run.replay(choices, alarm=st.get("alarm", 60)), range(40))]
                reproduced = sum(1 for x in kinds if x)
                if fuzzing and reproduced == 0:
                    log(f"case {idx}: {k} did not repeat, not counted: {msg[-1500:]}")
                    continue
                if reproduced == 0 or k == "hang":
                    errors.append(f"case {idx}: {k} did not repeat: {msg[-1500:]}")
                    continue
            elif k == "hang" and reproduced < n and fuzzing:
                log(f"case {idx}: {k} reproduced only {reproduced}/{n} times, not counted")
                continue
            elif k == "hang" and reproduced < n:
                errors.append(f"case {idx}: {k} reproduced only {reproduced}/{n} times: {msg[-1500:]}")
                continue
            small = choices
            if k != "hang" and reproduced == n:
                try:
                    small = shrink(run, choices, kinds[0] if kinds[0] == k else k, st.get("shrink", 40))
                except Exception as e:  # the failure stands, small or not
                    log("not shrunk:", e)
            rk, text, _ = run.replay(small, alarm=st.get("alarm", 60))
            viol = {"case": idx, "kind": k, "choices": small, "message": (text if rk else msg)[-6000:],
                    "reproduced": f"{reproduced} replays failed", "shrunk_from": len(choices)}
            break
        if viol is None and errors:
            raise RuntimeError("inconclusive failure: " + " | ".join(errors)[:6000])
    return agg, viol


def known_findings(cid):
    p = VERIF / "known_findings.txt"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: ") and f"property={cid} " in line:
                out.append(line[len("known: "):])
    return out


def do_check(cid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    chk = CHECKS[cid]
    scratch = Path(tempfile.mkdtemp(prefix=f"vp-{cid}-"))
    try:
        stages = [s for s in chk["stages"] if s["thorough" if tier == "thorough" else "quick"] > 0]
        try:
            exes = build(stages)
        except BuildError as e:
            log("BUILD-ERROR", e)
            return 2
        tb = time.time() - t0
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "rule": chk["rule"], "samples": [], "stages": []}
        violations = []
        skipped = [f"{st['harness']} [{variant(st)}]" for st, e in zip(stages, exes) if e is None]
        if skipped:
            log(f"{cid}: not built and skipped:", ", ".join(skipped))
            cov["skipped_stages"] = skipped
            stages, exes = map(list, zip(*[(st, e) for st, e in zip(stages, exes) if e is not None]))
        rules = [subprocess.run([str(e), "--rule"], stdout=subprocess.PIPE, text=True).stdout.strip() for e in exes]
        cov["rule"] = " | ".join(dict.fromkeys(r for r in rules if r))
        dictionary(scratch / "dict")
        for st, exe in zip(stages, exes):
            ts = time.time()
            sub = scratch / st["harness"].replace(".cpp", "-" + variant(st))
            sub.mkdir()
            agg, viol = run_stage(cid, st, exe, tier, seed, sub)
            cov["evaluations"] += agg["evaluations"]
            cov["distinct_nontrivial"] += len(agg["distinct"])
            cov["discarded"] += agg["discarded"]
            cov["samples"] += agg["samples"][:4]
            cov["stages"].append({"harness": st["harness"], "build": variant(st), "evaluations": agg["evaluations"],
                                  "distinct_nontrivial": len(agg["distinct"]), "classes": dict(sorted(agg["labels"].items())),
                                  "stopped_by_time_cap": agg["out_of_time"], "seconds": round(time.time() - ts, 1)})
            if st.get("san") == "fuzz":
                cov["stages"][-1]["driver"] = "libFuzzer, coverage-guided, over the choice sequence"
            log(f"{cid} {st['harness']} [{variant(st)}]: {agg['evaluations']} cases, "
                f"{len(agg['distinct'])} distinct non-trivial, {time.time() - ts:.1f}s" + (" (time cap)" if agg["out_of_time"] else ""))
            if os.environ.get("VP_VERBOSE"):
                log(json.dumps(cov["stages"][-1]["classes"], indent=1))
            if viol:
                violations.append((st, exe, viol))
                break
        rc = 0
        if violations:
            st, exe, v = violations[0]
            rdir = EVID / "replay"
            rdir.mkdir(parents=True, exist_ok=True)
            rp = rdir / f"{cid}-{Path(st['harness']).stem}-{sha(*v['choices'])[:10]}.case"
            head = [f"# property {cid}", f"# harness {st['harness']} {variant(st)}", f"# seed {seed} case {v['case']} kind {v['kind']}",
                    f"# replay: python3 {VERIF}/lib/check.py replay {rp}"] + ["# " + ln for ln in v["message"].splitlines()[:60]]
            rp.write_text("\n".join(head) + "\n" + case_text(v["choices"]))
            log(v["message"][-3000:])
            log(f"VIOLATION property={cid} replay={rp}")
            cov["violation"] = {"kind": v["kind"], "message": v["message"][:2000], "choices": len(case_text(v["choices"]).split()), "shrunk_from": v["shrunk_from"], "reproduced": v["reproduced"]}
            rc = 1
        for k in known_findings(cid):
            log("KNOWN-FINDING: " + k)
        EVID.mkdir(exist_ok=True)
        (EVID / f"{cid}.json").write_text(json.dumps({
            "property": cid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"), "coverage": cov,
            "assumptions": chk.get("assumptions", []), "build_s": round(tb, 1), "wall_s": round(time.time() - t0, 2),
            "violations": len(violations)}, indent=1))
        log(f"{cid} {tier} seed={seed}: {'VIOLATED' if rc else 'held'} ({time.time() - t0:.1f}s, build {tb:.1f}s)")
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(path):
    lines = Path(path).read_text().splitlines()
    head = [ln for ln in lines if ln.startswith("# harness ")][0].split()
    cid = [ln for ln in lines if ln.startswith("# property ")][0].split()[2]
    st = [s for s in CHECKS[cid]["stages"] if s["harness"] == head[2] and variant(s) == head[3]][0]
    exe = build([st])[0]
    with tempfile.TemporaryDirectory(prefix="vp-replay-") as d:
        run = Runner(exe, st, d)
        cases = [[]]
        for ln in lines:
            if ln == "---":
                cases.append([])
            elif not ln.startswith("#"):
                cases[-1] += [int(x) for x in ln.split()]
        k, text, _ = run.replay(cases if len(cases) > 1 else cases[0], alarm=300 if len(cases) > 1 else 60)
    log(text)
    if k:
        log(f"VIOLATION property={cid} replay={path}")
    return 1 if k else 0


def main():
    if len(sys.argv) < 2:
        log(__doc__)
        return 2
    if sys.argv[1] == "replay":
        return do_replay(sys.argv[2])
    if sys.argv[1] == "setup":
        # nothing to prepare: every check builds its harness from /repo's working tree; report the tools it needs
        for tool in ("g++", "python3"):
            if not shutil.which(tool):
                log("missing tool", tool)
                return 2
        return 0
    if sys.argv[1] == "build":
        ids = sys.argv[2:] or list(CHECKS)
        build([s for c in ids for s in CHECKS[c]["stages"]])
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return do_check(sys.argv[1], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR", e, flush=True)
        sys.exit(2)
