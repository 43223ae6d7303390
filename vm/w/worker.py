"""Common frame of the Python workers: SEED START COUNT PROGRESSFILE TIER, one JSON line per violation."""
import collections, hashlib, json, os, random, signal, sys, traceback, faulthandler
faulthandler.enable()

class Fail(Exception):
    def __init__(self, kind, sig, detail="", **more):
        super().__init__(detail); self.kind, self.sig, self.detail, self.more = kind, sig, detail, more

class CaseTimeout(Exception): pass

class Out:
    def __init__(self):
        self.stats = collections.Counter(); self.groups = collections.defaultdict(collections.Counter)
        self.nfail = 0; self.nsample = 0
    def fail(self, idx, kind, sig, detail="", **more):
        self.nfail += 1
        d = dict(more, idx=idx, kind=kind, sig=str(sig)[:160], detail=str(detail)[:3000])
        sys.stdout.write("FAIL " + json.dumps(d, default=str) + "\n"); sys.stdout.flush()
    def sample(self, d):
        if self.nsample < 2:
            self.nsample += 1; sys.stdout.write("SAMPLE " + json.dumps(d, default=str)[:3000] + "\n")
    def inc(self, k, n=1): self.stats[k] += n
    def group(self, g, k, n=1): self.groups[g][k] += n

def case_rng(seed, mode, idx):
    return random.Random(int(hashlib.sha256(("%s/%s/%s" % (seed, mode, idx)).encode()).hexdigest()[:16], 16))

def run(mode, case, argv, limit_s=60):
    """case(out, rng, idx, tier) raises Fail for a violation"""
    seed, start, count, pf, tier = int(argv[0]), int(argv[1]), int(argv[2]), argv[3], argv[4]
    out = Out()
    def onalarm(*a): raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    for idx in range(start, start + count):
        with open(pf, "w") as f: f.write("%-20d\n" % idx)
        signal.alarm(limit_s)
        try:
            case(out, case_rng(seed, mode, idx), idx, tier)
        except Fail as e:
            out.fail(idx, e.kind, e.sig, e.detail, **e.more)
        except CaseTimeout:
            out.inc("timeouts")
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            signal.alarm(0)
            out.fail(idx, "exception", "%s: %s" % (type(e).__name__, str(e)[:100]), traceback.format_exc()[-2500:])
        signal.alarm(0)
        out.inc("cases")
        if out.nfail >= 25: break
    d = dict(out.stats); d.update({k: dict(v) for k, v in out.groups.items()})
    print("STATS " + json.dumps(d)); sys.stdout.flush()
    os._exit(0)
