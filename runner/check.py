#!/usr/bin/env python3
"""check.py <property-id>            run the check (VERIF_SEED, VERIF_TIER from the environment)
   check.py --replay <file>          re-run one recorded violation

Builds /repo's working tree out of tree (one instrumented build per sanitizer family), compiles the property's
harness against it, runs it in parallel workers, and turns what the monitors observed into a verdict:
exit 0 held on everything explored, exit 1 VIOLATION, any other exit = the check could not give an answer."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HARN = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from config import CHECKS, BUILDS  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise HarnessError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build_repo(name, scratch):
    b = BUILDS[name]
    d = os.path.join(scratch, "b_" + name)
    env = dict(os.environ, CC=b["cc"], CXX=b["cxx"])
    env.pop("CFLAGS", None)
    env.pop("LDFLAGS", None)
    sh(["cmake", "-G", "Ninja", "-S", REPO, "-B", d, "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTS=OFF",
        "-DCMAKE_C_FLAGS=" + b["cflags"], "-DCMAKE_MODULE_LINKER_FLAGS=" + b["ldflags"], "-DCMAKE_SHARED_LINKER_FLAGS=" + b["ldflags"],
        "-DCMAKE_EXE_LINKER_FLAGS=" + b["ldflags"]], env=env)
    sh(["ninja", "-C", d, "dstu", "keylib"], env=env)
    eng = os.path.join(d, "engine", "dstu.so")
    if not os.path.exists(eng):
        raise HarnessError("engine module not built")
    return d


def build_harness(name, src, scratch):
    b = BUILDS[name]
    out = os.path.join(scratch, "h_%s_%s" % (src[:-4], name))
    # the object is compiled while the library builds; linking waits for it
    obj = out + ".o"
    sh([b["cxx"], "-std=c++17", "-w", "-c"] + b["hflags"].split() + ["-I", os.path.join(REPO, "keylib"), "-I", HARN, os.path.join(HARN, src), "-o", obj])
    return obj, out


def link_harness(name, obj, out, bdir):
    b = BUILDS[name]
    sh([b["cxx"]] + b["hflags"].split() + [obj, "-o", out, "-rdynamic"] + b["hlink"].split() +
       ["-L", os.path.join(bdir, "keylib"), "-Wl,-rpath," + os.path.join(bdir, "keylib"), "-lkeylib", "-lcrypto", "-lpthread", "-ldl"])
    return out


def san_env(build, worker, leaks, extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OPENSSL", "MALLOC_", "LD_"))}
    fill = [0xbe, 0x00, 0xff, 0x55][worker % 4]
    sym = "/usr/lib/llvm-18/bin/llvm-symbolizer"
    ext = ":external_symbolizer_path=" + sym if os.path.exists(sym) else ""
    env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=66:halt_on_error=1:detect_odr_violation=0:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=1:handle_abort=1:max_malloc_fill_size=4096:malloc_fill_byte=%d:"
                           "quarantine_size_mb=64:detect_leaks=%d%s" % (fill, 1 if leaks else 0, ext))
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66" + ext
    env["LSAN_OPTIONS"] = "exitcode=67:suppressions=" + os.path.join(HERE, "lsan.supp") + ":print_suppressions=0"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:ignore_noninstrumented_modules=1:suppressions=" + os.path.join(HERE, "tsan.supp") + ext
    env["OPENSSL_CONF"] = "/dev/null"
    env.update(extra or {})
    return env


REPO_FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) .*?((?:engine|dstulib|keylib)/[\w./]+)")


def crash_key(text, rc):
    kind = "exit%s" % rc
    for pat, k in ((r"ERROR: AddressSanitizer: ([\w-]+)", None), (r"runtime error: ([a-z ]+)", "ub"), (r"WARNING: ThreadSanitizer: ([\w -]+?) \(", "tsan"),
                   (r"ERROR: LeakSanitizer", "leak"), (r"==\d+== (Invalid \w+|Conditional jump|Use of uninit\w+|Syscall param)", "vg")):
        m = re.search(pat, text)
        if m:
            kind = (k + ":" if k else "asan:") + (m.group(1).strip().replace(" ", "-") if m.groups() else "")
            break
    m = REPO_FRAME.search(text)
    return "%s@%s" % (kind.rstrip(":"), m.group(1) if m else "?")


class Runner:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.cfg = CHECKS[pid]
        self.stats, self.samples, self.sigs, self.viols = {}, [], set(), []
        self.lock = threading.Lock()
        self.exes, self.bdirs = {}, {}
        self.phases_done = []
        self.deadline = time.time() + 150 if tier == "quick" else None   # with a violation in hand a quick check need not run longer

    # ---- builds
    def build(self, only_phase=None):
        phases = [p for p in self.cfg["phases"] if only_phase in (None, p["name"])]
        names = sorted({p["build"] for p in phases})
        pairs = sorted({(p["build"], p.get("src", self.cfg["src"])) for p in phases})
        with ThreadPoolExecutor(8) as ex:
            fb = {n: ex.submit(build_repo, n, self.scratch) for n in names}
            fh = {k: ex.submit(build_harness, k[0], k[1], self.scratch) for k in pairs}
            for n, f in fb.items():
                self.bdirs[n] = f.result()
            for k, f in fh.items():
                obj, out = f.result()
                self.exes[k] = link_harness(k[0], obj, out, self.bdirs[k[0]])

    # ---- one worker process
    def cmdline(self, ph, worker, workers, only=None, tag=""):
        exe = self.exes[(ph["build"], ph.get("src", self.cfg["src"]))]
        tmp = os.path.join(self.scratch, "w_%s_%d%s" % (ph["name"], worker, tag))
        os.makedirs(tmp, exist_ok=True)
        cmd = [exe, "--engine", os.path.join(self.bdirs[ph["build"]], "engine", "dstu.so"), "--seed", str(self.seed), "--worker", str(worker),
               "--workers", str(workers), "--cases", str(ph[self.tier]), "--tier", self.tier, "--mode", ph.get("mode", "main"), "--tmp", tmp,
               "--repo", REPO, "--sigs", os.path.join(tmp, "sigs"), "--mark", os.path.join(tmp, "mark")]
        if only is not None:
            cmd += ["--only", str(only)]
        pre = ph.get("prefix")
        if pre:
            cmd = pre + cmd
        return cmd, tmp

    def exec(self, ph, worker, workers, timeout, only=None, tag=""):
        cmd, tmp = self.cmdline(ph, worker, workers, only, tag)
        env = san_env(ph["build"], worker, ph.get("leaks", False), ph.get("env"))
        env["HOME"] = tmp
        so, se = open(os.path.join(tmp, "out"), "wb"), open(os.path.join(tmp, "err"), "wb")
        p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, cwd=tmp, env=env, start_new_session=True)
        # watchdog: no progress (same case) for `stall` seconds, or the overall limit; neither decides anything by itself
        hung, stopped, stall = False, False, ph.get("stall", 600 if ph.get("prefix") else 120)
        mark, last, since, t0 = os.path.join(tmp, "mark"), None, time.time(), time.time()
        while True:
            try:
                p.wait(0.05 if time.time() - t0 < 5 else 0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                with open(mark, "rb") as mf:
                    cur = mf.read(64)
            except OSError:
                cur = b""
            now = time.time()
            if cur != last:
                last, since = cur, now
            if now - since > min(stall, timeout) or now - t0 > timeout:
                hung = True
                break
            if self.deadline and now > self.deadline and self.viols:
                stopped = True   # a violation is already known: stop here
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        so.close()
        se.close()
        out = open(os.path.join(tmp, "out"), errors="replace").read()
        err = open(os.path.join(tmp, "err"), errors="replace").read()
        case, dsc = -1, ""
        try:
            mk = open(os.path.join(tmp, "mark"), "rb").read()
            case = int(mk[:64].split(b"\0")[0] or b"-1")
            dsc = mk[64:].split(b"\0")[0].decode(errors="replace")
        except (OSError, ValueError):
            pass
        return dict(rc=p.returncode, hung=hung, stopped=stopped, out=out, err=err, case=case, desc=dsc, tmp=tmp)

    def absorb(self, ph, worker, workers, r):
        """fold one worker's protocol output into the totals"""
        done = False
        with self.lock:
            for ln in r["out"].split("\n"):
                if ln.startswith("STAT "):
                    _, k, n = ln.rsplit(" ", 2) if ln.count(" ") > 2 else ln.split(" ")
                    self.stats[k] = self.stats.get(k, 0) + int(n)
                elif ln.startswith("SAMPLE "):
                    if len(self.samples) < 12 and worker < 4:
                        self.samples.append(ln[7:900])
                elif ln.startswith("VIOL "):
                    f = (ln[5:].split("\t") + ["", "", ""])[:4]
                    self.viols.append(dict(key=f[0], case=int(f[1] or -1), desc=f[2], detail=f[3], phase=ph["name"], worker=worker, workers=workers))
                elif ln.startswith("HARNESS-ERROR"):
                    raise HarnessError("%s worker %d: %s\n%s" % (ph["name"], worker, ln, r["err"][-2000:]))
                elif ln == "DONE":
                    done = True
            sf = os.path.join(r["tmp"], "sigs")
            if os.path.exists(sf):
                b = open(sf, "rb").read()
                self.sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
        return done

    def run_worker(self, ph, worker, workers):
        if self.deadline and time.time() > self.deadline and self.viols:
            return
        to = ph.get("timeout", {"quick": 500, "thorough": 3000})[self.tier]
        r = self.exec(ph, worker, workers, to)
        done = self.absorb(ph, worker, workers, r)
        if r["hung"]:
            # a wall-clock expiry alone decides nothing: the case it stopped in is run again on its own
            log("phase %s worker %d: watchdog at case %d (%s)" % (ph["name"], worker, r["case"], r["desc"][:200]))
            if self.viols:
                return
            if r["case"] < 0:    # set-up or clean-up of the engine: must stall a second time
                r2 = self.exec(ph, worker, workers, to, only=0, tag="h")
                self.absorb(ph, worker, workers, r2)
                if r2["hung"] and r2["case"] < 0:
                    with self.lock:
                        self.viols.append(dict(key=self.pid + "/hang", case=-1, desc=r["desc"], detail="loading, initialising or releasing the engine does not terminate (watchdog, twice)", phase=ph["name"], worker=worker, workers=workers))
                    return
                raise HarnessError("watchdog outside any case in %s worker %d" % (ph["name"], worker))
            r2 = self.exec(ph, worker, workers, ph.get("hang_s", 90), only=r["case"], tag="h")
            self.absorb(ph, worker, workers, r2)
            if r2["hung"]:
                with self.lock:
                    self.viols.append(dict(key=self.pid + "/hang", case=r["case"], desc=r["desc"], detail="the case does not terminate (watchdog, confirmed alone)", phase=ph["name"], worker=worker, workers=workers))
                return
            raise HarnessError("worker %s/%d ran out of time but its last case terminates alone: inconclusive" % (ph["name"], worker))
        if r["stopped"] or (r["rc"] == 0 and done):
            return
        if r["rc"] == 99:
            raise HarnessError("harness failed: " + r["err"][-2000:])
        if r["rc"] == -9:
            raise HarnessError("worker was killed from outside (memory?)")
        key = crash_key(r["err"], r["rc"])
        if ph.get("soft") and "AddressSanitizer" not in r["err"] and r["rc"] in (66, 67) and done and ph["soft"](r["err"]):
            return
        with self.lock:
            self.viols.append(dict(key=self.pid + "/" + key, case=r["case"], desc=r["desc"], detail=self.report(r["err"], r["rc"]), phase=ph["name"], worker=worker, workers=workers))

    @staticmethod
    def report(err, rc):
        for pat in (r"==\d+==ERROR: .*", r"WARNING: ThreadSanitizer.*", r"[^\n]*runtime error:.*"):
            m = re.search(pat, err, re.S)
            if m:
                return m.group(0)[:6000]
        return "rc=%s %s" % (rc, err[-3000:])

    def nworkers(self, ph):
        w = ph.get("workers", NPROC)
        return w[self.tier] if isinstance(w, dict) else w

    def run_all(self):
        with ThreadPoolExecutor(NPROC) as ex:
            futs = []
            for ph in self.cfg["phases"]:
                if not ph.get(self.tier):
                    continue
                if ph.get("serial"):
                    continue
                w = self.nworkers(ph)
                futs += [ex.submit(self.run_worker, ph, i, w) for i in range(w)]
            errs = []
            for f in futs:
                try:
                    f.result()
                except HarnessError as e:
                    errs.append(e)
        for ph in self.cfg["phases"]:      # phases that need the machine for themselves (thread stress)
            if ph.get("serial") and ph.get(self.tier):
                w = self.nworkers(ph)
                with ThreadPoolExecutor(ph.get("par", 1)) as ex:
                    for f in [ex.submit(self.run_worker, ph, i, w) for i in range(w)]:
                        try:
                            f.result()
                        except HarnessError as e:
                            errs.append(e)
        return errs


def known_findings(pid):
    """lines  'known: property=<id> key=<key> <what fails>' of /verif/known_findings.txt"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    args = sys.argv[1:]
    replay = None
    if args and args[0] == "--replay":
        replay = json.load(open(args[1]))
        pid, tier, seed = replay["property"], replay["tier"], replay["seed"]
    else:
        pid = args[0]
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vdstu_%s_" % pid)

    def bye(signum, frame):
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)
    signal.signal(signal.SIGTERM, bye)
    signal.signal(signal.SIGINT, bye)
    try:
        r = Runner(pid, tier, seed, scratch)
        if replay:
            r.build(replay["phase"])
            ph = [p for p in r.cfg["phases"] if p["name"] == replay["phase"]][0]
            x = r.exec(ph, replay["worker"], replay["workers"], 600, only=replay["case"] if replay["case"] >= 0 else None)
            print(x["out"][-6000:])
            print(x["err"][-8000:])
            print("rc=%s hung=%s" % (x["rc"], x["hung"]))
            return 1 if (x["hung"] or x["rc"] or "\nVIOL " in "\n" + x["out"]) else 0
        r.build()
        tb = time.time() - t0
        errs = r.run_all()
        wall = time.time() - t0
        kf = known_findings(pid)
        new, seen_known = [], {}
        for v in r.viols:
            k = [w for w in kf if w[0] == v["key"]]
            if k:
                seen_known[k[0]] = v
            else:
                new.append(v)
        st = r.stats
        evals = st.get("evaluations", st.get("cases", 0))
        ev = dict(property=pid, tier=tier, seed=seed, level=r.cfg.get("level", "exploration"),
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(r.sigs), rule=r.cfg["rule"], samples=r.samples,
                                observed=dict(sorted(st.items())), builds=sorted(r.bdirs), build_s=round(tb, 1)),
                  wall_s=round(wall, 2), violations=len(new), assumptions=r.cfg.get("assumptions", []))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
        if new:
            rd = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rd, exist_ok=True)
            seen = set()
            n = 0
            for v in new:
                if v["key"] in seen or n >= 8:
                    continue
                seen.add(v["key"])
                path = os.path.join(rd, "%s-%d.json" % (pid, n))
                n += 1
                json.dump(dict(v, property=pid, tier=tier, seed=seed, how="python3 %s --replay %s" % (os.path.join(HERE, "check.py"), path)), open(path, "w"), indent=1)
                log("  [%s] case %d: %s\n      %s" % (v["key"], v["case"], v["desc"][:400], v["detail"][:1500]))
                print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        if errs:
            raise errs[0]
        short = [(k, m, st.get(k, 0)) for k, m in r.cfg.get("require", {}).items() if st.get(k, 0) < m]
        if short:
            raise HarnessError("inconclusive: too little observed: %s" % short)
        if evals == 0 or not r.sigs:
            raise HarnessError("inconclusive: nothing observed")
        print("%s %s seed=%d: held on %d executions, %d distinct (%.1fs, build %.1fs)" % (pid, tier, seed, evals, len(r.sigs), wall, tb))
        return 0
    except HarnessError as e:
        log("CHECK ERROR (no verdict): %s" % e)
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            log("kept " + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
