#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seconds N]   decide one property
   check.py --replay FILE                            reproduce a reported violation

Builds the simulator from /repo's working tree, runs seeded simulations of the
scenarios that exercise the property on all cores, confirms and minimises what
fails, and writes /verif/evidence/<PROP>.json.
Exit 0: held; 1: violated (a VIOLATION line is printed); 2: the check itself failed.
"""
import collections, copy, hashlib, json, os, random, re, shutil, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
from props import PROPS, REAL, STUB, DIFF

VERIF = simlib.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, min(16, os.cpu_count() or 8))


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) run=(\S+) class=(\S+) (.*)", line.strip())
            if m:
                sc, pr, seed = m.group(3).split("/")
                out.append({"prop": m.group(1), "id": m.group(2), "scen": sc, "prof": pr, "seed": int(seed), "class": m.group(4), "text": m.group(5)})
    return out


def classes(r):
    """Everything that went wrong in a run, as (property, class, message)."""
    out = [(v["prop"], v["class"], v["msg"]) for v in r["viol"]]
    if r["crash"]:
        out.append(("*", "crash", "the process crashes: %s at %s" % (r["crash"]["head"], r["crash"]["site"])))
    if r["hang"]:
        out.append(("*", "hang", "the process runs on without end"))
    return out


class Check:
    def __init__(self, prop, tier, seconds):
        self.prop, self.tier = prop, tier
        self.spec = PROPS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.seconds = seconds
        self.work = simlib.tmpdir("vsim-")
        self.lock = threading.Lock()
        self.tot = collections.Counter()
        self.probes, self.faults, self.counts = collections.Counter(), collections.Counter(), collections.Counter()
        self.per = collections.Counter()
        self.sched, self.evs, self.states, self.nontriv = set(), set(), set(), set()
        self.samples, self.errs = [], []
        self.found = []
        self.known = [k for k in known_findings()]
        self.nfile = 0

    # --- what counts -------------------------------------------------------
    def relevant(self, scen, prof, r):
        """The failures of this run that the property of this check is responsible for."""
        out = []
        for p, c, m in classes(r):
            if p == self.prop:
                out.append((p, c, m, "own"))
            elif p == "*":
                if (scen, prof) in self.crash_profiles():
                    out.append((p, c, m, "own"))
                elif self.prop in DIFF and prof in DIFF[self.prop]["profiles"]:
                    out.append((p, c, m, "diff"))
            elif self.prop in DIFF and prof in DIFF[self.prop]["profiles"] and (DIFF[self.prop]["props"] is None or p in DIFF[self.prop]["props"]):
                out.append((p, c, m, "diff"))
        return out

    def crash_profiles(self):
        return {(sc, pr) for sc, pr, w, crash in self.spec["runs"] if crash}

    # --- running -----------------------------------------------------------
    def plan(self, scen, prof, seed):
        import subprocess
        p = subprocess.run([self.exe, "plan", scen, prof, str(seed)], capture_output=True, text=True, env={"SIMREPO": simlib.REPO}, timeout=60)
        plan = json.loads(p.stdout)
        plan["ops"] = plan.get("ops") or []
        return plan

    def run_plan(self, plan, timeout=simlib.RUN_TIMEOUT):
        with self.lock:
            self.nfile += 1
            f = os.path.join(self.work, "p%d.json" % self.nfile)
        with open(f, "w") as h:
            json.dump(plan, h)
        r = simlib.run(self.exe, ["replay", f], timeout=timeout)
        os.unlink(f)
        return r

    def fails(self, plan, key, timeout=simlib.RUN_TIMEOUT):
        r = self.run_plan(plan, timeout)
        if r["err"]:
            return None
        for p, c, m in classes(r):
            if (p, c) == key:
                return r
        return None

    def one(self, job):
        scen, prof, seed = job
        r = simlib.run(self.exe, ["run", scen, prof, str(seed)])
        if r["err"] and not r["viol"]:  # once more: the sandbox may have been short of something
            r = simlib.run(self.exe, ["run", scen, prof, str(seed)])
        with self.lock:
            self.tot["runs"] += 1
            self.per[scen + "/" + prof] += 1
            if r["err"]:
                self.errs.append((job, r["err"]))
            res = r["result"]
            if res:
                self.tot["sim_ms"] += res["sim_ms"]
                self.tot["picks"] += res["picks"]
                self.tot["switches"] += res["switches"]
                self.tot["stalls"] += res["stalls"]
                self.tot["ops"] += res["ops"]
                self.probes.update(res["probes"] or {})
                self.faults.update(res["faults"] or {})
                self.counts.update(res["counts"] or {})
                self.sched.add(res["sched_hash"])
                self.evs.add(res["ev_hash"])
                self.states.add(res["state_hash"])
                if res["switches"] > 50 and (res["faults"] or res["ops"] >= 2):
                    self.nontriv.add(res["ev_hash"])
                if len(self.samples) < 4 and res["faults"]:
                    self.samples.append({"run": "%s/%s seed %d" % job, "faults": res["faults"], "probes": dict(list((res["probes"] or {}).items())[:12]),
                                         "sim_s": res["sim_ms"] / 1000.0, "decisions": res["picks"], "switches": res["switches"], "ev_hash": res["ev_hash"]})
            if not r["err"]:
                rel = self.relevant(scen, prof, r)
                if rel:
                    self.found.append((job, rel, r))
        return r

    def jobs(self):
        runs = self.spec["runs"]
        rnd = random.Random("%s/%d/%s" % (self.prop, self.seed, self.tier))
        bag = [(sc, pr) for sc, pr, w, _ in runs for _ in range(w)]
        while True:
            rnd.shuffle(bag)
            for sc, pr in bag:
                yield sc, pr, rnd.getrandbits(48)

    def search(self):
        end = time.time() + self.seconds
        hard = self.spec.get("enough", 1)
        jobs = self.jobs()
        stop = threading.Event()
        handled = 0

        def worker():
            while not stop.is_set() and time.time() < end:
                with self.lock:
                    j = next(jobs)
                self.one(j)
        verdict = None
        tried = collections.Counter()
        while time.time() < end and verdict is None:
            stop.clear()
            ths = [threading.Thread(target=worker) for _ in range(WORKERS)]
            for t in ths:
                t.start()
            while any(t.is_alive() for t in ths):
                time.sleep(0.05)
                if len(self.found) > handled or len(self.errs) > 20 + self.tot["runs"] // 50:
                    stop.set()
            for t in ths:
                t.join()
            if len(self.errs) > 20 + self.tot["runs"] // 50:
                break
            new, handled = self.found[handled:], len(self.found)
            for job, rel, r in new:
                for p, c, m, how in rel:
                    if self.is_known(p, c):
                        continue
                    if how == "diff":
                        if tried[(p, c)] >= 6:
                            continue
                        tried[(p, c)] += 1
                    verdict = self.judge(job, p, c, m, how)
                    if verdict:
                        break
                if verdict:
                    break
        return verdict

    def is_known(self, p, c):
        for k in self.known:
            if k["prop"] == self.prop and k["class"] == c:
                return k
        return None

    # --- judging a failure ---------------------------------------------------
    def judge(self, job, p, c, m, how):
        plan = self.plan(*job)
        key = (p, c)
        r1, r2 = self.fails(plan, key), self.fails(plan, key)
        if r1 is None or r2 is None or (r1["result"] or {}).get("ev_hash") != (r2["result"] or {}).get("ev_hash"):
            with self.lock:
                self.tot["unconfirmed"] += 1
            print("not reproduced: %s/%s seed %d: %s %s %s" % (job + (p, c, m)), flush=True)
            return None
        base = None
        if how == "diff":
            base = self.differential(plan, key)
            if base is None:
                return None
        mini = self.minimise(plan, key, how)
        r = self.fails(mini, key)
        msg = [x for x in classes(r) if (x[0], x[1]) == key][0][2]
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", "%s-%s-%d.json" % (self.prop, re.sub(r"[^\w]+", "-", c), job[2]))
        rec = dict(mini)
        rec["expect"] = {"property": self.prop, "reported_as": [p, c], "message": msg, "ev_hash": (r["result"] or {}).get("ev_hash"),
                         "sched_hash": (r["result"] or {}).get("sched_hash"), "found_by": "%s/%s seed %d" % job,
                         "ops_before": len(plan["ops"]), "ops_after": len(mini["ops"])}
        if base is not None:
            rec["expect"]["differential"] = base
        if r.get("stderr"):
            rec["expect"]["crash"] = r["crash"]
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        return {"path": path, "class": c, "msg": msg, "how": how}

    def variants(self, plan, n):
        out = []
        for i in range(n):
            q = copy.deepcopy(plan)
            q["seed"] = int.from_bytes(hashlib.sha256(b"%d/%d" % (plan["seed"], i)).digest()[:6], "big")
            out.append(q)
        return out

    def differential(self, plan, key):
        """Does the failure depend on what the property says must not matter?"""
        d = DIFF[self.prop]
        n = 60
        with_, without = self.variants(plan, n), []
        for q in with_:
            b = copy.deepcopy(q)
            d["neutral"](b)
            without.append(b)
        with ThreadPoolExecutor(WORKERS) as px:
            a = sum(1 for r in px.map(lambda q: self.fails(q, key), with_) if r)
            b = sum(1 for r in px.map(lambda q: self.fails(q, key), without) if r)
        print("differential %s %s: %d of %d with, %d of %d without" % (key[0], key[1], a, n, b, n), flush=True)
        if a >= 4 and b == 0:
            return {"with": a, "without": b, "variants": n, "what": d["what"]}
        return None

    def minimise(self, plan, key, how):
        end = time.time() + (60 if self.tier == "quick" else 300)
        cur = copy.deepcopy(plan)
        pool = ThreadPoolExecutor(WORKERS)

        def attempt(cands):
            nonlocal cur
            cands = list(cands)
            for i in range(0, len(cands), WORKERS):
                if time.time() > end:
                    return False
                part = cands[i:i + WORKERS]
                for q, r in zip(part, pool.map(lambda q: self.fails(q, key, 15), part)):
                    if r is not None:
                        cur = q
                        return True
            return False

        def without(lo, hi):
            q = copy.deepcopy(cur)
            q["ops"] = q["ops"][:lo] + q["ops"][hi:]
            return q
        # operations and faults
        size = max(1, len(cur["ops"]) // 2)
        while len(cur["ops"]) and time.time() < end:
            if attempt(without(i, i + size) for i in range(0, len(cur["ops"]), size)):
                size = min(size, max(1, len(cur["ops"]) // 2))
                continue
            if size == 1:
                break
            size = max(1, size // 2)

        def cfg(**kw):
            q = copy.deepcopy(cur)
            if all(q["cfg"].get(k, 0) == v for k, v in kw.items()):
                return None
            q["cfg"].update(kw)
            return q
        # scheduling noise and the world
        keep = DIFF[self.prop]["keep"] if how == "diff" else ()
        quiet = [dict(pt=0), dict(mode=0, map=0), dict(arm=0), dict(stall=0, stallmax=1), dict(**{"yield": 0}), dict(dblat=0), dict(frag=0, pause=0), dict(delay=0), dict(verlag=0),
                 dict(overlap=0), dict(chatty=0), dict(lat=1), dict(coalesce=100), dict(blocks=2), dict(blocks=5), dict(blocks=20), dict(pre=0), dict(peers=1), dict(peers=2),
                 dict(descs=0), dict(plain=1), dict(exlat=0), dict(hdrlag=0), dict(fltlag=0), dict(fltlate=0), dict(idxlag=0), dict(maxtx=1), dict(subs=0), dict(txs=1), dict(txs=2), dict(adders=1)]
        for kw in quiet:
            if any(k in keep for k in kw) or any(k not in cur["cfg"] for k in kw):
                continue
            q = cfg(**kw)
            if q is not None:
                attempt([q])
        # after how many decisions can the scheduler go quiet?
        if time.time() < end:
            r = self.fails(cur, key, 15)
            if r and r["result"]:
                lo, hi = 1, r["result"]["picks"]
                while hi - lo > max(1, hi // 50) and time.time() < end:
                    mid = (lo + hi) // 2
                    q = copy.deepcopy(cur)
                    q["limit"] = mid
                    if self.fails(q, key, 15):
                        hi = mid
                    else:
                        lo = mid
                q = copy.deepcopy(cur)
                q["limit"] = hi
                if self.fails(q, key, 15):
                    cur = q
        pool.shutdown(wait=False)
        return cur

    # --- the whole check -----------------------------------------------------
    def main(self):
        try:
            self.info = {}
            self.exe = simlib.build(self.work, info=self.info)
            tb = time.time() - self.t0
            det = self.selftest()
            known_lines = self.check_known()
            verdict = self.search()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        bad = len(self.errs) > 20 + self.tot["runs"] // 50
        self.evidence(verdict, tb, det, known_lines)
        for l in known_lines:
            print(l)
        print("%s: %d runs, %.0f s simulated, %d scheduling decisions, %d distinct histories, %d faults, %d errors, %.0f s" % (
            self.prop, self.tot["runs"], self.tot["sim_ms"] / 1000, self.tot["picks"], len(self.evs), sum(self.faults.values()), len(self.errs), time.time() - self.t0))
        if verdict:
            print("%s (%s): %s" % (self.prop, verdict["class"], verdict["msg"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, verdict["path"]))
            return 1
        if bad or self.tot["runs"] < 20:
            print("the check gives no answer: %d of %d runs ended in a harness error, e.g. %s" % (len(self.errs), self.tot["runs"], self.errs[:3]), file=sys.stderr)
            return 2
        return 0

    def selftest(self):
        """One seed is one execution: each run, and the replay of its plan, under load."""
        jobs = self.jobs()
        js = [next(jobs) for _ in range(8)]

        def key(r):
            x = r["result"] or {}
            return (x.get("ev_hash"), x.get("sched_hash"), x.get("picks"), bool(r["crash"]), bool(r["err"]))
        with ThreadPoolExecutor(WORKERS) as px:
            first = [px.submit(simlib.run, self.exe, ["run"] + [str(x) for x in j]) for j in js]
            again = [px.submit(lambda j: self.run_plan(self.plan(*j)), j) for j in js]
            same = 0
            for j, a, b in zip(js, first, again):
                if key(a.result()) == key(b.result()):
                    same += 1
                else:
                    print("not deterministic: %s/%s %d" % j, file=sys.stderr)
        return {"runs_repeated": 8, "identical": same}

    def check_known(self):
        lines = []
        for k in self.known:
            if k["prop"] != self.prop:
                continue
            r = simlib.run(self.exe, ["run", k["scen"], k["prof"], str(k["seed"])])
            if any((p == self.prop or p == "*") and c == k["class"] for p, c, _ in classes(r)):
                lines.append("KNOWN-FINDING: property=%s %s (%s)" % (k["prop"], k["text"], k["id"]))
            else:
                print("the known finding %s no longer shows" % k["id"])
        return lines

    def evidence(self, verdict, tb, det, known_lines):
        wall = time.time() - self.t0
        n = self.tot["runs"]
        search = max(1e-3, wall - tb)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": n,
                "distinct_nontrivial": len(self.nontriv),
                "rule": "One evaluation is one simulated execution from a fresh 48-bit seed (plan, schedule, network, storage and fault choices all follow from it). It is non-trivial when "
                        "the scheduler switched tasks more than 50 times and the plan has faults or at least two operations; distinct counts different hashes of the whole event history.",
                "samples": self.samples or [{"note": "no run with a fault in this check", "runs": n}],
                "runs_per_hour": int(n * 3600 / search),
                "seeds_per_hour": int(n * 3600 / search),
                "simulated_seconds": self.tot["sim_ms"] / 1000.0,
                "simulated_seconds_per_wall_second": round(self.tot["sim_ms"] / 1000.0 / search, 1),
                "runs_by_profile": dict(self.per),
                "scheduling_decisions": self.tot["picks"],
                "task_switches": self.tot["switches"],
                "injected_stalls": self.tot["stalls"],
                "plan_operations": self.tot["ops"],
                "faults_injected": dict(self.faults.most_common()),
                "distinct_schedules": len(self.sched),
                "distinct_histories": len(self.evs),
                "distinct_end_states": len(self.states),
                "distinct_measure": "schedule: hash of every (decision, chosen task); history: hash of every timed event; end state: hash of the notable states reported by the scenario",
                "situations_reached": dict(self.probes.most_common()),
                "measures": dict(self.counts),
                "real_components": REAL, "stub_components": STUB,
                "determinism_selftest": det,
                "harness_errors": len(self.errs),
                "unconfirmed": self.tot["unconfirmed"],
                "build_s": round(tb, 1),
                "scheduling_points_in_the_code": self.info.get("points", 0),
                "known_findings_seen": len(known_lines),
            },
            "assumptions": self.spec.get("assumptions", []) + [
                "The Go runtime's fake-time mode with one P is a faithful scheduler: tasks switch at blocking operations, at injected yields at synchronisation, map and I/O operations, and between the statements of the code under test; weaker memory effects (torn or reordered plain accesses within one expression) are not explored.",
                "The simulated TCP network delivers bytes in order per connection, with arbitrary delay and segmentation, and can stall, reset or black-hole a connection.",
            ],
            "wall_s": round(wall, 1), "violations": 1 if verdict else 0,
        }
        if verdict:
            ev["coverage"]["violation"] = {"class": verdict["class"], "message": verdict["msg"], "replay": verdict["path"]}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))


def replay(path):
    rec = json.load(open(path))
    exp = rec["expect"]
    work = simlib.tmpdir("vsim-")
    try:
        exe = simlib.build(work)
        f = os.path.join(work, "plan.json")
        json.dump({k: v for k, v in rec.items() if k != "expect"}, open(f, "w"))
        r = simlib.run(exe, ["replay", f, "trace"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    key = tuple(exp["reported_as"])
    for p, c, m in classes(r):
        if (p, c) == key:
            h = (r["result"] or {}).get("ev_hash")
            print("%s (%s): %s" % (exp["property"], c, m))
            print("history %s, %s the recorded one" % (h, "identical to" if h == exp["ev_hash"] else "DIFFERENT from"))
            print("VIOLATION property=%s replay=%s" % (exp["property"], path))
            return 1
    print("the recorded violation does not occur: %s" % (r["err"] or [x[:2] for x in classes(r)] or "the run is clean"))
    return 0 if not r["err"] else 2


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        work = simlib.tmpdir("vsim-")
        try:
            exe = simlib.build(work)
            r = simlib.run(exe, ["run", "node", "sync", "1"])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("the simulator builds and runs" if r["result"] else "the simulator does not run: %s" % r["err"])
        return 0 if r["result"] else 2
    tier = os.environ.get("VERIF_TIER", "quick")
    secs = None
    prop = None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--seconds":
            secs = float(a.pop(0))
        else:
            prop = x
    if prop not in PROPS:
        print("unknown property %r" % prop, file=sys.stderr)
        return 2
    if secs is None:
        secs = PROPS[prop].get("quick_s", 40) if tier == "quick" else PROPS[prop].get("thorough_s", 1800)
    return Check(prop, tier, secs).main()


if __name__ == "__main__":
    try:
        rc = main()
    except simlib.HarnessError as e:
        print("check error: %s" % e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
