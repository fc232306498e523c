"""Shared frame of all checks: tier, counters, evidence, violations, known findings, parallel scenario runs."""
import os, sys, json, time, subprocess, threading, queue, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import kosbuild

NCPU = max(2, os.cpu_count() or 2)
KNOWN = os.path.join(VERIF, "known_findings.txt")

class Check:
    def __init__(self, pid, deadline_quick=600, deadline_thorough=5400):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.quick = self.tier != "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.deadline = self.t0 + (deadline_quick if self.quick else deadline_thorough)
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.viol = []           # (key, message, replay dict)
        self.exhaustive = True
        self.known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                # known: property=<id> match=<json string> what=<text>
                if l.startswith("known: property=%s match=" % pid):
                    m, what = l.split(" match=", 1)[1].split(" what=", 1)
                    self.known.append({"match": json.loads(m), "what": what.strip()})

    def left(self):
        return self.deadline - time.time()

    def sample(self, x, limit=12):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, key, msg, replay=None):
        self.viol.append((key, msg, replay or {}))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        new = []
        knownhit = {}
        for key, msg, rp in self.viol:
            for k in self.known:
                if k["match"] == key:
                    knownhit[key] = k
                    break
            else:
                new.append((key, msg, rp))
        for key, k in knownhit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"], "exhaustive": bool(self.exhaustive and not new)}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        if new:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            key, msg, rp = new[0]
            rpath = os.path.join(rd, self.pid + ".json")
            with open(rpath, "w") as f:
                json.dump({"property": self.pid, "violations": [{"key": k, "message": m, "replay": r} for k, m, r in new[:20]],
                           "count": len(new)}, f, indent=1)
            for k, m, r in new[:10]:
                print("  %s: %s" % (k[:200], m[:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rpath))
            sys.stdout.flush()
            sys.exit(1)
        print("%s held: states=%d transitions=%d executions=%d exhaustive=%s wall=%.1fs" %
              (self.pid, self.states, self.transitions, self.traces, cov["exhaustive"], time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(0)

def main(fn):
    try:
        fn()
    except kosbuild.BuildError as e:
        print("BUILD ERROR:", e)
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)

def run_mc(ck, exe, groups, extra_args=(), per_scenario_time=120):
    """groups: list of (scenario, bound). Explores each with one worker; NCPU processes in parallel.
    Stops early after a handful of violations."""
    q = queue.Queue()
    for i, g in enumerate(groups):
        q.put((i, g))
    res = [None] * len(groups)
    stop = threading.Event()
    def one(scen, bound, tl):
        p = subprocess.run([exe, "-", str(bound), "1", "0", str(int(tl))] + list(extra_args), input=scen + "\n",
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return p
    def worker():
        while not stop.is_set():
            try:
                i, (scen, bound) = q.get_nowait()
            except queue.Empty:
                return
            left = ck.left()
            if left < 5:
                return
            p = one(scen, bound, min(per_scenario_time, left))
            line = (p.stdout.strip().splitlines() or [""])[-1]
            if not line.startswith("OK "):
                p2 = one(scen, bound, min(per_scenario_time, max(30, ck.left())))     # replay before report
                line2 = (p2.stdout.strip().splitlines() or [""])[-1]
                if line2.startswith("OK "):
                    line = line2 + " unconfirmed=1"
                elif line2.startswith("BAD") or not line:
                    line = line2 or ("ERR %s rc=%d %s" % (scen, p2.returncode, p2.stderr[-300:]))
            res[i] = line
            if os.environ.get("MC_LOG"):
                with open(os.environ["MC_LOG"], "a") as f:
                    f.write("%s %s %s\n" % (scen, bound, line))
            if not line.startswith("OK "):
                stop.set()
    th = [threading.Thread(target=worker) for _ in range(NCPU)]
    for t in th: t.start()
    for t in th: t.join()
    nscen = 0
    for (scen, bound), line in zip(groups, res):
        if line is None:
            ck.exhaustive = False
            continue
        f = dict(x.split("=", 1) for x in line.split() if "=" in x and not x.startswith("msg"))
        if line.startswith("OK "):
            nscen += 1
            ck.states += int(f["distinct"]); ck.transitions += int(f["steps"]); ck.traces += int(f["execs"])
            if f.get("exhaustive") != "1":
                ck.exhaustive = False
                ck.extra["capped_scenarios"] = ck.extra.get("capped_scenarios", 0) + 1
        else:
            msg = line.split("msg=", 1)[1] if "msg=" in line else line
            ck.violation(scen, msg, {"scenario": scen, "bound": bound, "schedule": f.get("schedule", ""), "exe": exe,
                                     "how": "echo '%s' | %s - %d 1 1" % (scen, exe, bound)})
    ck.extra["scenarios"] = ck.extra.get("scenarios", 0) + nscen
    ck.extra["scenarios_not_reached"] = ck.extra.get("scenarios_not_reached", 0) + sum(1 for r in res if r is None)
    return res
