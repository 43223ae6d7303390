"""Runner shared by all checks: shards a deterministic case stream over worker processes, survives their
crashes and hangs, matches violations against the known-findings file, writes evidence and replay files.

A worker is any command that takes  SEED START COUNT PROGRESSFILE TIER  and prints on stdout
    FAIL {json: idx,kind,detail,...}     a violation (kind+sig identify it for the known-findings file)
    STATS {json}                         counters, summed over the workers
    SAMPLE {json}                        a case written out
It writes the index of the case it is working on to PROGRESSFILE, so a crash or hang names its case.
"""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

def known_findings(pid):
    out = []
    try:
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out

class Result:
    def __init__(self):
        self.fails, self.stats, self.samples, self.hangs, self.crashes, self.errors = [], {}, [], [], [], []
    def add_stats(self, d):
        for k, v in d.items():
            if isinstance(v, dict):
                t = self.stats.setdefault(k, {})
                for a, b in v.items(): t[a] = t.get(a, 0) + b
            elif isinstance(v, (int, float)): self.stats[k] = self.stats.get(k, 0) + v
            elif isinstance(v, list): self.stats[k] = sorted(set(self.stats.get(k, [])) | set(map(str, v)))

def run_shard(cmd, env, seed, start, count, tier, tmp, tag, hang_s, san, res, lock, maxrestart=4):
    """Runs cases [start,start+count), restarting behind a crashing or hanging case."""
    pf = os.path.join(tmp, "p%s" % tag)
    cur, end, restarts = start, start + count, 0
    while cur < end:
        open(pf, "w").write("%-20d\n" % cur)
        out, err = os.path.join(tmp, "o%s" % tag), os.path.join(tmp, "e%s" % tag)
        hung = False
        with open(out, "wb") as fo, open(err, "wb") as fe:
            p = subprocess.Popen(cmd + [str(seed), str(cur), str(end - cur), pf, tier], stdout=fo, stderr=fe,
                                 stdin=subprocess.DEVNULL, env=env, cwd=tmp, start_new_session=True)
            last, t0 = None, time.time()
            while True:
                try:
                    rc = p.wait(timeout=1.0); break
                except subprocess.TimeoutExpired:
                    pass
                try: s = open(pf).read(20)
                except OSError: s = last
                if s != last: last, t0 = s, time.time()
                elif time.time() - t0 > hang_s:
                    hung = True
                    try: os.killpg(p.pid, 9)
                    except OSError: pass
                    rc = p.wait(); break
        so = open(out, errors="replace").read()
        done_idx = int((open(pf).read().split() or [cur])[0])
        with lock:
            for line in so.splitlines():
                try:
                    if line.startswith("FAIL {"):
                        d = json.loads(line[5:]); d.setdefault("shard_seed", seed); res.fails.append(d)
                    elif line.startswith("STATS {"): res.add_stats(json.loads(line[6:]))
                    elif line.startswith("SAMPLE {"):
                        if len(res.samples) < 12: res.samples.append(json.loads(line[7:]))
                except ValueError: pass
        m = re.search(r"^HANG (\d+)", so, re.M)
        if m: hung, done_idx = True, int(m.group(1))
        if hung:
            with lock: res.hangs.append({"idx": done_idx, "seed": seed})
        elif rc == 0: return
        else:
            se = open(err, errors="replace").read()
            crashed = rc < 0 or rc in (98, 99) or "AddressSanitizer" in se or "runtime error:" in se
            with lock:
                (res.crashes if crashed else res.errors).append({"idx": done_idx, "seed": seed, "rc": rc, "stderr": se[-6000:]})
            if not crashed: return
        restarts += 1
        if restarts > maxrestart: return
        cur = done_idx + 1

def run_cases(cmd, env, seed, total, tier, hang_s=120, nproc=NPROC, chunk=None, san=False):
    """cmd(list) gets the worker arguments appended. Cases are [0,total), in interleaved chunks for balance."""
    res, lock = Result(), threading.Lock()
    tmp = os.path.join(VERIF, ".build", "tmp", "%d" % os.getpid())
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    chunk = chunk or max(1, (total + nproc - 1) // nproc)
    jobs = [(s, min(chunk, total - s)) for s in range(0, total, chunk)]
    with ThreadPoolExecutor(nproc) as ex:
        fs = []
        for n, (s, c) in enumerate(jobs):
            d = os.path.join(tmp, "w%d" % n); os.makedirs(d)
            fs.append(ex.submit(run_shard, cmd, env, seed, s, c, tier, d, n, hang_s, san, res, lock))
        for f in fs: f.result()
    # a hang is a verdict only if it happens again, alone, with three times the time
    if res.hangs and len(res.hangs) <= 6:
        again = Result()
        for h in res.hangs:
            d = os.path.join(tmp, "h%d" % h["idx"]); os.makedirs(d, exist_ok=True)
            run_shard(cmd, env, h["seed"], h["idx"], 1, tier, d, "h", hang_s * 3, san, again, lock, 0)
        res.fails += again.fails; res.crashes += again.crashes; res.errors += again.errors
        res.stats["hangs_first"] = len(res.hangs); res.hangs = again.hangs
    shutil.rmtree(tmp, ignore_errors=True)
    return res

def crash_kind(c):
    se = c["stderr"]
    m = re.search(r"runtime error: (.*)", se)
    if m:
        f = re.search(r"([\w./-]+:\d+):\d+: runtime error", se)
        return "undefined-behaviour", re.sub(r"0x[0-9a-f]+", "ADDR", m.group(1))[:120] + (" at " + os.path.basename(f.group(1)) if f else "")
    m = re.search(r"AddressSanitizer: ([\w-]+)", se)
    if m: return "memory-error", m.group(1)
    return "crash", "signal %d" % -c["rc"] if c["rc"] < 0 else "exit %d" % c["rc"]

class Check:
    def __init__(self, pid, tier, seed, level="exploration"):
        self.pid, self.tier, self.seed, self.level, self.t0 = pid, tier, seed, level, time.time()
        self.viol, self.known_hit, self.cov, self.assume, self.errors = [], {}, {}, [], []
        self.known = known_findings(pid)
    def violation(self, kind, sig, case):
        key = re.sub(r"\s+", "_", kind + "|" + sig)[:200]
        for k, text in self.known:
            if k == key:
                self.known_hit[k] = text; return
        self.viol.append((key, case))
    def absorb(self, res, replay, crash_is=True, hang_limit=0):
        """Turns a Result into verdicts. replay: dict telling how to run one case again."""
        for f in res.fails:
            d = dict(f); d.update(replay)
            self.violation(f.get("kind", "?"), f.get("sig", str(f.get("expr", ""))), d)
        for c in res.crashes:
            k, s = crash_kind(c)
            d = dict(c); d.update(replay)
            if crash_is: self.violation(k, s, d)
            else: self.errors.append("worker crashed: %s %s" % (k, s))
        for e in res.errors: self.errors.append("worker failed (rc %s): %s" % (e["rc"], e["stderr"][-1500:]))
        if len(res.hangs) > hang_limit:
            for h in res.hangs[:3]:
                d = dict(h); d.update(replay); self.violation("hang", "case %s" % h["idx"], d)
    def finish(self, evaluations, distinct, rule, samples, min_eval=1, **more):
        cov = {"evaluations": int(evaluations), "distinct_nontrivial": int(distinct), "rule": rule,
               "samples": samples[:8] or ["none"]}
        cov.update(more); cov.update(self.cov)
        # inconclusive is neither held nor violated
        if not self.viol and not self.errors and evaluations < min_eval:
            self.errors.append("observed only %d events, expected at least %d" % (evaluations, min_eval))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        for k, text in self.known_hit.items(): print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        if self.viol:
            rd = os.path.join(VERIF, ".build", "replay"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            with open(path, "w") as f: json.dump([{"key": k, "case": c} for k, c in self.viol[:50]], f, indent=1, default=str)
            for k, c in self.viol[:5]: print("  %s: %s" % (k[:160], str(c.get("detail", c.get("stderr", "")))[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.errors:
            print("INCONCLUSIVE property=%s" % self.pid)
            for e in self.errors[:5]: print("  " + e)
            return 3
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.pid, evaluations, distinct, time.time() - self.t0))
        return 0
