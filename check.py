#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: seeded search over simulated runs of the real broker.

Exit 0: the property held on every run. Exit 1 and a VIOLATION line: it did not; the replay file is a minimised plan
which `sim ... replay FILE` (or ./replay.sh FILE) executes again, exactly. Exit 2: the check itself failed."""
import json, os, queue, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B

PROPS = ["C%02d" % i for i in range(1, 23)]
ALL_CLASSES = {"C10", "C22"}  # these say that everything else keeps working: any violation in their own runs counts
QUICK_S = float(os.environ.get("VERIF_SECONDS", "30"))
THOROUGH_S = float(os.environ.get("VERIF_SECONDS", "600"))
PROCS = int(os.environ.get("VERIF_PROCS", "8"))
# profiles whose runs also exercise the property (a part of the budget goes there)
ALSO = {
    "C01": ["C07", "C05", "C10", "C13"], "C02": ["C01", "C07", "C05"], "C03": ["C10", "C01", "C15"],
    "C04": ["C01", "C03", "C05"], "C05": ["C13", "C01", "C15"], "C06": ["C13", "C05", "C10"],
    "C07": ["C01", "C11", "C05"], "C08": ["C10", "C13", "C09"], "C09": ["C10"], "C10": [],
    "C11": ["C07", "C10", "C03"], "C12": ["C13", "C07"], "C13": ["C12", "C01"], "C14": ["C10", "C13"],
    "C15": ["C01", "C05"], "C16": ["C10", "C14", "C15"], "C17": ["C01"], "C18": ["C01", "C15"],
    "C19": ["C10", "C01"], "C20": ["C12"], "C21": ["C01"], "C22": ["C01", "C12"],
}
REAL = ["src/** of /repo: main, broker_core, configuration, reactor, handlers, queue managers, worker registry, "
        "notifiers, HTTP client code (all unmodified, compiled from the working tree)",
        "libstdc++, yaml-cpp, boost::program_options, boost::filesystem, spdlog front end"]
STUB = ["libzmq: in-process simulation (ROUTER/DEALER/PAIR, identities, multipart, HWM, inproc, poll, TCP resets)",
        "libcurl: simulated HTTP client and frontend (outages, errors, slow and stuck responses)",
        "threads, mutexes, condition variables, futexes, clocks, sleeps: deterministic scheduler",
        "heap of the code under test: deterministic, address order drawn from the seed, poisoned",
        "log file sink: simulated disk", "workers, clients, monitor: scripted actors speaking the real protocol"]


def die(msg):
    print("ERROR " + msg, file=sys.stderr, flush=True)
    sys.exit(2)


class Search:
    def __init__(self, prop, exe, lib, seed, tier, scratch):
        self.prop, self.exe, self.lib, self.seed, self.tier, self.scratch = prop, exe, lib, seed, tier, scratch
        self.q = queue.Queue()
        self.procs = []
        self.tot = dict(runs=0, nontrivial=0, errors=0, incomplete=0, steps=0, sim_ns=0)
        self.faults, self.probes, self.states, self.hashes, self.errors = {}, {}, set(), {}, []
        self.profiles = {}

    def relevant(self, profile, props):
        props = props.split(",")
        if self.prop in props or "C00" in props:
            return True
        return self.prop in ALL_CLASSES and profile == self.prop

    def start(self, seconds):
        also = ALSO[self.prop]
        own = PROCS if not also else max(1, PROCS - max(1, PROCS // 4))
        plan = [(self.prop, i, own) for i in range(own)]
        if also:
            rest = PROCS - own
            # each remaining process goes through its share of the other profiles, one after the other
            for i in range(rest):
                mine = also[i::rest] or [also[i % len(also)]]
                plan.append((mine, i, rest))
        for n, (prof, i, stride) in enumerate(plan):
            t = threading.Thread(target=self.feed, args=(n, prof if isinstance(prof, list) else [prof], i, stride, seconds), daemon=True)
            self.procs.append([t, None])
        for t, _ in self.procs:
            t.start()

    def feed(self, *args):
        try:
            self.feed_(*args)
        except Exception as e:
            self.q.put((None, "E 0 %r" % e))
        else:
            self.q.put((None, None))

    def feed_(self, n, profiles, i, stride, seconds):
        for prof in profiles:
            if self.stopping:
                break
            first = self.seed * 1000000007 + i + 1
            cmd = [self.exe, self.lib, "%s/w%02d" % (self.scratch, n), "run", prof, str(first), str(stride),
                   "%.1f" % (seconds / len(profiles)), self.tier]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            self.procs[n][1] = p
            for line in p.stdout:
                self.q.put((prof, line.rstrip("\n")))
            rc = p.wait()
            if rc not in (0, 3) and not self.stopping:
                self.q.put((prof, "E 0 simulator exited with status %d" % rc))

    stopping = False

    def stop(self):
        self.stopping = True
        for _, p in self.procs:
            if p and p.poll() is None:
                p.kill()

    def collect(self):
        """Reads results until all processes are done or a relevant violation shows up."""
        left = len(self.procs)
        while left:
            prof, line = self.q.get()
            if prof is None:
                left -= 1
                if line:
                    self.errors.append((prof, line))
                continue
            f = line.split(" ")
            if f[0] == "V":
                if self.relevant(prof, f[2]):
                    return prof, int(f[1]), f[2], f[3], " ".join(f[4:])
            elif f[0] == "E":
                self.errors.append((prof, line))
            elif f[0] == "R":
                self.hashes[(prof, int(f[1]))] = f[2]
            elif f[0] == "T":
                for k, v in zip(("runs", "nontrivial", "errors", "incomplete", "steps", "sim_ns"), f[1:7]):
                    self.tot[k] += int(v)
                self.profiles[prof] = self.profiles.get(prof, 0) + int(f[1])
            elif f[0] == "F":
                self.faults[f[1]] = self.faults.get(f[1], 0) + int(f[2])
            elif f[0] == "P":
                self.probes[f[1]] = self.probes.get(f[1], 0) + int(f[2])
            elif f[0] == "S":
                self.states.update(f[1:])
        return None


def replay(exe, lib, scratch, path):
    r = subprocess.run([exe, lib, scratch + "/w99", "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    h, vs = None, []
    for line in r.stdout.splitlines():
        f = line.split(" ")
        if f[0] == "H":
            h = f[1]
        elif f[0] == "V":
            vs.append((f[2], f[3], " ".join(f[4:])))
    return h, vs


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die("usage: check.py C01..C22 [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) & 0xffffffff
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        exe, lib = B.build()
    except B.BuildError as e:
        die(str(e))
    scratch = os.path.join(B.BUILD, "run", "%s-%08d" % (prop, os.getpid() % 10 ** 8))
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    print("property %s, tier %s, seed %d" % (prop, tier, seed), flush=True)
    try:
        return search(prop, tier, seed, exe, lib, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) code=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def search(prop, tier, seed, exe, lib, scratch, t0):
    s = Search(prop, exe, lib, seed, tier, scratch)
    ts = time.time()
    s.start(QUICK_S if tier == "quick" else THOROUGH_S)
    hit = s.collect()
    s.stop()
    t_search = time.time() - ts
    result, replay_path = 0, None
    if hit:
        prof, vseed, props, code, text = hit
        print("violation in simulated run: profile %s seed %d: %s %s: %s" % (prof, vseed, props, code, text), flush=True)
        result, replay_path = confirm(prop, tier, exe, lib, scratch, prof, vseed, code, s)
    elif s.errors:
        for _, e in s.errors[:5]:
            print(e, file=sys.stderr)
        die("%d runs failed in the simulator" % len(s.errors))
    elif s.tot["runs"] < 20:
        die("only %d runs" % s.tot["runs"])

    # determinism: some of the runs again, in a fresh process, must give the same event log
    det = []
    if not hit:
        for (prof, sd), h in sorted(s.hashes.items())[:6 if tier == "quick" else 16]:
            p = os.path.join(scratch, "d.plan")
            with open(p, "w") as f:
                subprocess.run([exe, lib, scratch, "gen", prof, str(sd), tier], stdout=f)
            h2, _ = replay(exe, lib, scratch, p)
            det.append((prof, sd, h, h2))
            if h2 != h:
                die("run %s/%d is not deterministic (%s, then %s)" % (prof, sd, h, h2))

    samples = [{"profile": p, "seed": sd, "event_log_hash": h} for (p, sd), h in sorted(s.hashes.items())[:4]]
    if s.hashes:
        (p, sd), _ = sorted(s.hashes.items())[0]
        r = subprocess.run([exe, lib, scratch, "gen", p, str(sd), tier], stdout=subprocess.PIPE, text=True)
        samples.append({"plan": r.stdout.splitlines()[:60]})
    if hit:
        samples.append({"violating_seed": hit[1], "profile": hit[0], "code": hit[3], "text": hit[4], "replay": replay_path})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.tot["runs"], "distinct_nontrivial": s.tot["nontrivial"],
            "rule": "one evaluation is one simulated run of the whole broker (C20: of the reactor with scripted handlers) "
                    "generated from one seed: configuration, worker population, workload, faults and scheduling knobs; "
                    "non-trivial if at least one job was accepted (C20, C22: every run), distinct if its event log differs "
                    "from all others of the same process",
            "samples": samples,
            "runs_by_profile": s.profiles,
            "seeds_per_hour": int(s.tot["runs"] / max(t_search, .1) * 3600),
            "simulated_hours": round(s.tot["sim_ns"] / 3.6e12, 2),
            "scheduler_steps": s.tot["steps"],
            "faults_injected": dict(sorted(s.faults.items())),
            "probes": dict(sorted(s.probes.items())),
            "distinct_states": len(s.states),
            "distinct_states_measure": "hash of the reference model's abstract state (frozen; numbers of waiting, running, announced "
                                       "and retried jobs, of idle, busy and possibly expired workers; whether a notification is "
                                       "being retried) each time the broker goes back to waiting; C20: of the event log",
            "runs_that_hit_the_deadline": s.tot["incomplete"],
            "determinism_rechecks": len(det),
            "real": REAL, "stub": STUB,
        },
        "assumptions": [
            "the simulated libzmq, libcurl and thread primitives behave like the real ones as far as the broker can tell",
            "preemption happens at calls that leave the code under test, not between arbitrary instructions",
            "sampling: a quiet batch is evidence, not proof"],
        "wall_s": round(wall, 2),
        "violations": 1 if result == 1 else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for code, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if result == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay_path), flush=True)
        return 1
    if result:
        return result
    print("%s: held on %d runs (%d distinct, non-trivial), %.1f simulated hours, %d steps, %d abstract states, %.0f s" % (
        prop, s.tot["runs"], s.tot["nontrivial"], s.tot["sim_ns"] / 3.6e12, s.tot["steps"], len(s.states), wall))
    return 0


def confirm(prop, tier, exe, lib, scratch, prof, vseed, code, s):
    """Replays the run, minimises it and makes sure that the minimised plan fails the same way, twice, in fresh processes."""
    rdir = os.path.join(B.BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    orig = os.path.join(scratch, "orig.plan")
    with open(orig, "w") as f:
        subprocess.run([exe, lib, scratch, "gen", prof, str(vseed), tier], stdout=f)

    def fails(path):
        a, va = replay(exe, lib, scratch, path)
        b, vb = replay(exe, lib, scratch, path)
        ok = [v for v in va if v[1] == code and s.relevant(prof, v[0])]
        return a is not None and a == b and va == vb and bool(ok), ok
    ok, _ = fails(orig)
    if not ok:
        print("ERROR the violation does not replay", file=sys.stderr)
        return 2, None
    final = os.path.join(rdir, "%s-%d.plan" % (prop, vseed))
    shutil.copy(orig, final)
    target = "*" if prop in ALL_CLASSES and prof == prop else prop
    mini = os.path.join(scratch, "mini.plan")
    budget = 40 if tier == "quick" else 120
    with open(mini, "w") as f:
        subprocess.run([exe, lib, scratch + "/w98", "shrink", orig, target, code, str(budget)], stdout=f, stderr=subprocess.DEVNULL)
    ok, vs = fails(mini)
    if ok:
        shutil.copy(mini, final)
        print("minimised: %s" % vs[0][2])
    r = subprocess.run([exe, lib, scratch + "/w99", "replay", final, "-v"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    with open(final[:-5] + ".trace", "w") as f:
        f.write(r.stdout)
    return 1, final


if __name__ == "__main__":
    sys.exit(main())
