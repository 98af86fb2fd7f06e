#!/usr/bin/env python3
"""Property-based check driver.

    run.py <PROPERTY> [quick|thorough]     decide one property against /repo's working tree
    run.py --replay <replay-file>          re-run a stored minimal case (exit 1 if it still fails)
    run.py --setup                         check the toolchain, create folders

Builds harness/<PROPERTY>.cpp and harness/<PROPERTY>_*.cpp against /repo's current sources (never a
copy), runs generated cases in parallel workers, shrinks the first failure by re-executing the
binary on shorter choice lists, and writes evidence/<PROPERTY>.json.
"""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
CXX = os.environ.get("VP_CXX", "g++-14")
BASE = ["-std=gnu++23", "-fopenmp", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS", "-w",
        "-iquote", REPO, "-iquote", os.path.join(VERIF, "lib")]
NCPU = os.cpu_count() or 8
HANG_S = 90


def log(*a):
    print(*a, flush=True)


def harnesses(pid):
    return sorted(glob.glob(f"{VERIF}/harness/{pid}.cpp") + glob.glob(f"{VERIF}/harness/{pid}_*.cpp"))


def flags_of(src):
    """first lines may hold  // vp-flags: ...   (replacing ASan with '-noasan')  and  // vp-weight: n"""
    base, extra, weight = list(BASE), [], 1.0
    with open(src) as f:
        head = f.read(2000)
    m = re.search(r"^// vp-flags:(.*)$", head, re.M)
    if m:
        for t in m.group(1).split():
            if t == "-noasan":
                base = [b for b in base if b != "-fsanitize=address"]
            elif t in ("-O0", "-O1", "-O2"):
                base = [t if b == "-O1" else b for b in base]
            else:
                extra.append(t)
    m = re.search(r"^// vp-weight:\s*([\d.]+)", head, re.M)
    if m:
        weight = float(m.group(1))
    return base + extra, weight


def objs_of(src):
    """// vp-obj: names of lib/*.cpp to link"""
    with open(src) as f:
        m = re.search(r"^// vp-obj:(.*)$", f.read(2000), re.M)
    return m.group(1).split() if m else []


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_sources():
    return sorted(glob.glob(f"{REPO}/*.h") + glob.glob(f"{REPO}/*.cpp"))


def build(pid, tmp):
    """returns (list of (name, exe, weight), None) or (None, failing compile log)"""
    os.makedirs(BUILD, exist_ok=True)
    jobs, out = [], []
    libs = sorted(glob.glob(f"{VERIF}/lib/*.h"))
    for src in harnesses(pid):
        fl, weight = flags_of(src)
        name = os.path.basename(src)[:-4]
        key = tree_hash(repo_sources() + libs + [src], " ".join(fl) + CXX)
        exe = f"{BUILD}/{name}.{key}"
        out.append((name, exe, weight))
        if os.path.exists(exe):
            continue
        for old in glob.glob(f"{BUILD}/{name}.*"):
            os.unlink(old)
        part = f"{exe}.part{os.getpid()}"
        o1, o2 = f"{tmp}/{name}.o", f"{tmp}/{name}.io.o"
        l1, l2 = f"{tmp}/{name}.log", f"{tmp}/{name}.io.log"
        p1 = subprocess.Popen([CXX, *fl, "-c", src, "-o", o1], stdout=open(l1, "w"), stderr=subprocess.STDOUT)
        p2 = subprocess.Popen([CXX, *fl, "-c", f"{REPO}/image_io.cpp", "-o", o2], stdout=open(l2, "w"), stderr=subprocess.STDOUT)
        procs, objs = [(p1, l1), (p2, l2)], [o1, o2]
        for extra in objs_of(src):      # parts that are slow to compile are kept as objects of their own
            esrc = f"{VERIF}/lib/{extra}.cpp"
            eobj = f"{BUILD}/{name}-{extra}.{tree_hash(repo_sources() + [esrc], ' '.join(fl) + CXX)}.o"
            objs.append(eobj)
            if not os.path.exists(eobj):
                for old in glob.glob(f"{BUILD}/{name}-{extra}.*"):
                    os.unlink(old)
                le = f"{tmp}/{name}.{extra}.log"
                procs.append((subprocess.Popen(["sh", "-c", '"$@" -o "$0.part$PPID" && mv "$0.part$PPID" "$0"', eobj, CXX, *fl, "-c", esrc],
                                               stdout=open(le, "w"), stderr=subprocess.STDOUT), le))
        jobs.append((name, fl, exe, part, procs, objs))
    for name, fl, exe, part, procs, objs in jobs:
        for p, l in procs:
            if p.wait() != 0:
                for j in jobs:
                    for q, _ in j[4]:
                        if q.poll() is None:
                            q.kill()
                return None, f"{name}: compilation failed\n" + open(l).read()[:20000]
    for name, fl, exe, part, procs, objs in jobs:
        r = subprocess.run([CXX, *fl, *objs, "-o", part, "-ltbb", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, f"{name}: link failed\n" + r.stdout[:20000]
        os.rename(part, exe)
    return out, None


def compiler_ok(tmp):
    p = f"{tmp}/probe.cpp"
    with open(p, "w") as f:
        f.write("#include <vector>\n#include <execution>\nint main(){std::vector<int> v(3);return v.size()-3;}\n")
    return subprocess.run([CXX, *BASE, p, "-o", f"{tmp}/probe", "-ltbb"], capture_output=True).returncode == 0


def env_for(scratch):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:max_allocation_size_mb=6000:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:detect_odr_violation=0"
    e["OMP_NUM_THREADS"] = "2"
    e["OMP_WAIT_POLICY"] = "passive"
    e["VP_SCRATCH"] = scratch
    e["TMPDIR"] = scratch
    return e


class Runner:
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.n = exe, tmp, 0

    def sandbox(self):
        self.n += 1
        d = f"{self.tmp}/r{self.n}"
        os.makedirs(d, exist_ok=True)
        return d

    def run(self, args, timeout):
        """-> (rc or 'hang', message, stderr tail)"""
        d = self.sandbox()
        out = f"{d}/out.txt"
        with open(f"{d}/err.txt", "w") as err:
            p = subprocess.Popen([self.exe, *args, "--out", out], stdout=subprocess.DEVNULL, stderr=err,
                                 stdin=subprocess.DEVNULL, cwd=d, env=env_for(d), start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "hang"
        msg = open(out, errors="replace").read() if os.path.exists(out) else ""
        et = open(f"{d}/err.txt", errors="replace").read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, msg, et

    def choices(self, sub, ch, timeout=30):
        f = f"{self.tmp}/ch{self.n}.txt"
        with open(f, "w") as o:
            o.write(sub + "\n" + " ".join(map(str, ch)) + "\n")
        r = self.run(["--choices", f], timeout)
        os.unlink(f)
        return r

    def fails(self, sub, ch, timeout=30):
        rc, msg, et = self.choices(sub, ch, timeout)
        return rc not in (0, 4)


def shrink(r, sub, ch, budget, timeout):
    t0 = time.time()
    cur = list(ch)
    def ok(c):
        return time.time() - t0 < budget and r.fails(sub, c, timeout)
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        n = len(cur)
        k = max(1, n // 2)
        while k >= 1 and time.time() - t0 < budget:       # delete blocks
            i = max(0, len(cur) - k)
            while i >= 0 and time.time() - t0 < budget:
                c = cur[:i] + cur[i + k:]
                if len(c) < len(cur) and ok(c):
                    cur, changed = c, True
                i -= k
            k //= 2
        k = max(1, len(cur) // 2)
        while k >= 1 and time.time() - t0 < budget:       # zero blocks
            for i in range(0, len(cur), k):
                if any(cur[i:i + k]):
                    c = cur[:i] + [0] * len(cur[i:i + k]) + cur[i + k:]
                    if ok(c):
                        cur, changed = c, True
            k //= 2
        for i in range(len(cur)):                          # lower single values
            lo, hi = 0, cur[i]
            while lo < hi and time.time() - t0 < budget:
                mid = (lo + hi) // 2
                c = cur[:i] + [mid] + cur[i + 1:]
                if ok(c):
                    hi = mid; cur = c; changed = True
                else:
                    lo = mid + 1
        if len(cur) > 4000:
            break
    return cur


def known_lines(pid):
    p = f"{VERIF}/known_findings.txt"
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def write_evidence(pid, tier, seed, t0, cov, viol, assumptions):
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=viol, assumptions=assumptions)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


ASSUME = ["gcc 14 with AddressSanitizer and libstdc++ assertions executes the library's code faithfully",
          "the reference oracles in harness/ state the intended behaviour",
          "only generated inputs are covered; nothing is concluded beyond them"]


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if not harnesses(pid):
        log(f"no harness for {pid}")
        return 2
    tmp = tempfile.mkdtemp(prefix=f"vp_{pid}_")
    try:
        return check_in(pid, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def violation(pid, tier, seed, t0, cov, replay):
    os.makedirs(f"{VERIF}/evidence/replays", exist_ok=True)
    name = f"{VERIF}/evidence/replays/{pid}-{int(t0)}.json"
    with open(name, "w") as f:
        json.dump(replay, f, indent=1)
        f.write("\n")
    write_evidence(pid, tier, seed, t0, cov, 1, ASSUME)
    log(f"{pid}: {replay.get('kind')}: {replay.get('message', '')[:1500]}")
    log(f"VIOLATION property={pid} replay={name}")
    return 1


def check_in(pid, tier, seed, t0, tmp):
    exes, clog = build(pid, tmp)
    if exes is None:
        sys.stderr.write(clog[:6000] + "\n")
        if not compiler_ok(tmp):
            log("the compiler itself does not work here")
            return 2
        cov = dict(evaluations=1, distinct_nontrivial=0, rule="the harness no longer compiles against /repo", samples=[clog[:800]])
        return violation(pid, tier, seed, t0, cov, dict(property=pid, kind="does-not-compile", message=clog[:4000], log=clog))
    tb = time.time() - t0
    wsum = sum(w for _, _, w in exes)
    secs = float(os.environ.get("VP_SECS") or (18 if tier == "quick" else 420))
    workers = []
    nw = {}
    for name, exe, w in exes:
        nw[name] = max(1, round(NCPU * w / wsum))
    for name, exe, w in exes:
        for k in range(nw[name]):
            d = f"{tmp}/{name}.w{k}"
            os.makedirs(d)
            err = open(f"{d}/err.txt", "w")
            p = subprocess.Popen([exe, "--worker", str(k), "--workers", str(nw[name]), "--seed", str(seed), "--secs", str(secs),
                                  "--mincases", "12" if tier == "quick" else "60", "--out", f"{d}/res"],
                                 stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, cwd=d, env=env_for(d), start_new_session=True)
            workers.append(dict(name=name, exe=exe, d=d, p=p, last=None, t=time.time(), rc=None))
    stop = False
    while any(w["rc"] is None for w in workers):
        time.sleep(0.1)
        for w in workers:
            if w["rc"] is not None:
                continue
            rc = w["p"].poll()
            if rc is not None:
                w["rc"] = rc
                if rc != 0 and not stop:
                    stop = True
                continue
            try:
                with open(f"{w['d']}/res.cur", "rb") as f:
                    cur = f.read(24)
            except OSError:
                cur = b""
            if cur != w["last"]:
                w["last"], w["t"] = cur, time.time()
            elif time.time() - w["t"] > HANG_S:
                w["hang"] = True
                stop = True
        if stop:
            for w in workers:
                if w["rc"] is None:
                    try:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    w["p"].wait()
                    w["rc"] = "hang" if w.get("hang") else "stopped"
    # gather
    ev = dict(evaluations=0, distinct_nontrivial=0, samples=[], discarded=0)
    rules, per, seen = {}, {}, set()
    for w in workers:
        try:
            j = json.load(open(f"{w['d']}/res.json"))
        except (OSError, ValueError):
            continue
        w["json"] = j
        for k, v in j["subs"].items():
            q = per.setdefault(f"{w['name']}.{k}" if len(exes) > 1 else k, dict(cases=0, nontrivial=0, discarded=0))
            q["cases"] += v["n"]; q["nontrivial"] += v["nontrivial"]; q["discarded"] += v["discarded"]
            ev["evaluations"] += v["n"]; ev["discarded"] += v["discarded"]
            rules[k] = v["rule"]
            if w["d"].endswith(".w0"):
                ev["samples"] += [f"{k}: {x}" for x in v["samples"][:1]]
        try:
            with open(f"{w['d']}/res.hash", "rb") as f:
                b = f.read()
            hn = hash(w["name"]) & 0xFFFF
            seen.update((hn, x[0]) for x in struct.iter_unpack("<Q", b))
        except OSError:
            pass
    ev["distinct_nontrivial"] = len(seen)
    ev["rule"] = "cases drawn from seeded generators per sub-property; non-trivial when: " + "; ".join(f"{k}: {v}" for k, v in sorted(rules.items()))
    ev["samples"] = ev["samples"][:30]
    ev["per_subproperty"] = per
    ev["build_s"] = round(tb, 1)
    bad = [w for w in workers if w["rc"] not in (0, "stopped")]
    bad.sort(key=lambda w: (w["rc"] != 3, w["rc"] == "hang"))
    for w in bad:
        r = Runner(w["exe"], tmp)
        if w["rc"] == 3 and "json" in w:
            j = w["json"]
            sub, ch, msg, kind = j["fail_sub"], list(map(int, j["fail_choices"].split())), j["fail_msg"] + "\n" + j["fail_desc"], "oracle failure"
            sound_once = True
        else:
            try:
                bi, idx, _ = struct.unpack("<3Q", open(f"{w['d']}/res.cur", "rb").read(24))
            except (OSError, struct.error):
                log(f"{w['name']}: worker ended with {w['rc']} before its first case: {open(w['d'] + '/err.txt').read()[-800:]}")
                return 2
            names = [l.split("\t")[0] for l in subprocess.run([w["exe"], "--list"], capture_output=True, text=True, env=env_for(tmp)).stdout.splitlines()]
            sub = names[bi]
            dump = f"{tmp}/dump.txt"
            rc, msg, et = r.run(["--one", sub, "--seed", str(seed), "--index", str(idx), "--dump", dump], HANG_S)
            ch = list(map(int, open(dump).read().split())) if os.path.exists(dump) else []
            kind = "hang" if w["rc"] == "hang" else f"crash (status {w['rc']})"
            et0 = open(f"{w['d']}/err.txt", errors="replace").read()
            i = et0.find("ERROR: AddressSanitizer")
            msg = (et0[max(0, i):][:3000] if i >= 0 else et0[-1500:])
            sound_once = w["rc"] not in ("hang", -9) and "hard rss limit" not in et0
        timeout = 30 if kind != "hang" else HANG_S
        reps = [r.fails(sub, ch, timeout) for _ in range(3)]
        if all(reps):
            small = shrink(r, sub, ch, 40 if kind != "hang" else 1, timeout)
            if not all(r.fails(sub, small, timeout) for _ in range(3 if kind != "hang" else 1)):
                small = ch
            repro = "every replay"
        else:
            more = [r.fails(sub, ch, timeout) for _ in range(12)] if kind != "hang" else []
            n = sum(reps) + sum(more)
            if n == 0 and not sound_once:
                log(f"{w['name']}: {kind} in {sub} did not reproduce; set aside as a resource failure")
                ev["unreproduced"] = ev.get("unreproduced", 0) + 1
                continue
            small, repro = ch, f"{n} of {len(reps) + len(more)} replays (schedule dependent)"
        rc, m2, e2 = r.choices(sub, small, timeout)
        final = (m2.strip() or msg) if rc == 3 else msg
        if rc not in (0, 3, "hang"):
            i = e2.find("ERROR: AddressSanitizer")
            final = (e2[i:][:3000] if i >= 0 else e2[-1500:])
        return violation(pid, tier, seed, t0, ev, dict(property=pid, harness=w["name"], subproperty=sub, kind=kind, seed=seed, choices=small,
                         reproduces=repro, message=final, original_message=msg[:3000]))
    # known findings
    kl = known_lines(pid)
    if kl:
        status = {}
        for name, exe, w in exes:
            d = f"{tmp}/known_{name}"
            os.makedirs(d)
            subprocess.run([exe, "--knowns", "--out", f"{d}/k.txt"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d, env=env_for(d), timeout=120)
            if os.path.exists(f"{d}/k.txt"):
                for l in open(f"{d}/k.txt"):
                    a = l.rstrip("\n").split("\t")
                    status[a[0]] = a[1] == "1"
        for probe, what in kl:
            if status.get(probe, True):
                log(f"KNOWN-FINDING: property={pid} {what}")
            else:
                log(f"note: known finding {probe} of {pid} no longer fails")
        ev["known_findings_probed"] = len(kl)
    write_evidence(pid, tier, seed, t0, ev, 0, ASSUME)
    log(f"{pid} {tier}: {ev['evaluations']} cases, {ev['distinct_nontrivial']} distinct non-trivial, {len(per)} sub-properties, build {tb:.0f}s, total {time.time()-t0:.0f}s: held")
    return 0


def replay(path):
    j = json.load(open(path))
    pid = j["property"]
    tmp = tempfile.mkdtemp(prefix=f"vp_{pid}_")
    try:
        exes, clog = build(pid, tmp)
        if exes is None:
            log(clog[:3000])
            return 1
        if j["kind"] == "does-not-compile":
            log("compiles now")
            return 0
        exe = [e for n, e, _ in exes if n == j["harness"]][0]
        rc, msg, et = Runner(exe, tmp).choices(j["subproperty"], j["choices"], HANG_S)
        log(f"status {rc}\n{msg}\n{et[:3000]}")
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="vp_setup_")
        ok = compiler_ok(tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        log("setup ok" if ok else "compiler probe failed")
        return 0 if ok else 1
    if a and a[0] == "--replay":
        return replay(a[1])
    if not a:
        log(__doc__)
        return 2
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
