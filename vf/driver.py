"""Runs one property's monitor: schedules cases on worker processes, collects
what the monitors observed, gives a three-valued verdict, writes evidence."""
import os
import sys
import json
import time
import random
import hashlib
import shutil
import select
import subprocess
import importlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VF_REPO", "/repo")


def env(scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE + ":" + REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             DIJITSO_CACHE_DIR=os.environ.get("VF_JIT_CACHE", os.path.join(scratch, "dijitso")),
             VF_SCRATCH=scratch, PYTHONWARNINGS="ignore",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    e.pop("PYTHONSTARTUP", None)
    return e


class Worker:
    def __init__(self, prop, scratch):
        self.prop, self.scratch = prop, scratch
        self.queue = []
        self.cur = None
        self.ready = False
        self.buf = b""
        self.start()

    def start(self):
        self.p = subprocess.Popen([PY, "-W", "ignore", "-m", "vf.worker", self.prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(self.scratch),
                                  cwd=self.scratch)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.ready = False
        self.buf = b""
        self.t0 = time.time()

    def send(self, item):
        self.cur = item
        self.t0 = time.time()
        try:
            self.p.stdin.write((json.dumps({"id": item["id"], "case": item["case"]}) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def lines(self):
        try:
            d = os.read(self.p.stdout.fileno(), 1 << 20)
        except BlockingIOError:
            return []
        if not d:
            return None
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        return ls

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def load_known():
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=C01 mech=<mechanism> <text>
                parts = line[len("known: "):].split(" ", 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                out.append((d["property"], d["mech"], parts[2] if len(parts) > 2 else ""))
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, HERE)
    gen = importlib.import_module("vf.gens." + prop.lower())
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    t_start = time.time()
    base = os.path.join(HERE, ".work")
    os.makedirs(base, exist_ok=True)
    scratch = os.path.join(base, "%s_%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        return drive(prop, tier, seed, gen, replay, t_start, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(prop, tier, seed, gen, replay, t_start, scratch):
    rng = random.Random("%s/%s/%d" % (prop, tier, seed))
    budget = float(os.environ.get("VF_BUDGET", gen.BUDGET[tier] if hasattr(gen, "BUDGET") else (40 if tier == "quick" else 420)))
    nw = int(os.environ.get("VF_WORKERS", "8"))
    case_cap = 240 if tier == "quick" else 400
    hard = 780 if tier == "quick" else 3000
    if replay:
        case = json.load(open(replay))["case"]
        core = [[case]]
        rand = iter(())
        nw = 1
    else:
        core = gen.core(tier)
        for b in core:
            for c in b:
                c["core"] = True
        rand = gen.random_batches(rng, tier)
        if os.environ.get("VF_NORANDOM"):
            rand = iter(())
    ncore = sum(len(b) for b in core)
    nw = max(1, min(nw, len(core) if replay else nw))
    agg = Agg(prop)
    ids = [0]
    pending = [list(b) for b in core]
    retry = []

    def next_batch():
        if pending:
            return pending.pop(0)
        if time.time() - t_start > budget:
            return None
        try:
            return next(rand)
        except StopIteration:
            return None

    def item(case, tries=0):
        ids[0] += 1
        return {"id": ids[0], "case": case, "tries": tries}

    workers = [Worker(prop, scratch) for _ in range(nw)]
    fatal = None
    while True:
        live = [w for w in workers if w is not None]
        if not live:
            break
        r, _, _ = select.select([w.p.stdout for w in live], [], [], 1.0)
        now = time.time()
        for wi, w in enumerate(workers):
            if w is None:
                continue
            dead = False
            if w.p.stdout in r:
                ls = w.lines()
                if ls is None:
                    dead = True
                else:
                    for l in ls:
                        msg = json.loads(l)
                        if "fatal" in msg:
                            fatal = msg["fatal"]
                            dead = True
                            break
                        if msg.get("ready"):
                            w.ready = True
                            continue
                        agg.add(w.cur["case"], msg)
                        w.cur = None
            if fatal:
                break
            over = w.cur is not None and now - w.t0 > case_cap
            if dead or over or (not w.ready and now - w.t0 > 200):
                w.kill()
                it = w.cur
                w.cur = None
                if it is not None:
                    if it["tries"] == 0 and not over:
                        retry.append(item(it["case"], 1))
                    elif over:
                        agg.inconclusive(it["case"], "watchdog: no answer in %d s" % case_cap)
                    else:
                        agg.crash(it["case"])
                w.start()
                continue
            if w.ready and w.cur is None:
                late = now - t_start > budget
                nxt = None
                if retry:
                    nxt = retry.pop(0)
                else:
                    while w.queue and late and not w.queue[0].get("core"):
                        w.queue.pop(0)
                    if not w.queue:
                        b = next_batch()
                        if b:
                            w.queue = list(b)
                    if w.queue:
                        nxt = item(w.queue.pop(0))
                if nxt is None:
                    w.kill()
                    workers[wi] = None
                else:
                    w.send(nxt)
        if fatal:
            break
        if now - t_start > hard:
            for w in live:
                if w.cur is not None:
                    agg.inconclusive(w.cur["case"], "hard time limit")
            agg.note("hard time limit reached")
            break
    for w in workers:
        if w is not None:
            w.kill()
    return finish(prop, tier, seed, gen, agg, ncore, fatal, replay, time.time() - t_start)


class Agg:
    def __init__(self, prop):
        self.prop = prop
        self.n = self.ok = self.core_done = self.invalid = 0
        self.findings = []
        self.obs, self.sig, self.mx = {}, {}, {}
        self.cover = set()
        self.incon, self.herr, self.notes, self.samples = [], [], [], []
        self.digests = set()
        self.once = []
        self.worst = {}
        self.distinct = set()

    def add(self, case, msg):
        self.n += 1
        if case.get("core"):
            self.core_done += 1
        if msg.get("harness_error"):
            self.herr.append((case, msg["harness_error"]))
            return
        if msg.get("unconfirmed"):
            self.once.append(msg["unconfirmed"])
        if msg.get("invalid"):
            self.invalid += 1
            self.notes.append("invalid: %s %s" % (msg["invalid"], json.dumps(case)[:1500] if os.environ.get("VF_VERBOSE") else ""))
        for k, v in msg.get("obs", {}).items():
            self.obs[k] = self.obs.get(k, 0) + v
        for k, v in msg.get("sig", {}).items():
            self.sig[k] = max(self.sig.get(k, 0.0), fl(v))
        for k, v in msg.get("max", {}).items():
            if fl(v) > self.mx.get(k, 0.0):
                self.mx[k] = fl(v)
                self.worst[k] = case
        self.cover |= set(msg.get("cover", []))
        if msg.get("digest"):
            self.digests.add(msg["digest"])
        if not msg.get("invalid") and msg.get("obs"):
            self.distinct.add(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest())
        fs = msg.get("findings", [])
        if fs:
            self.findings.append((case, fs))
        elif not msg.get("invalid"):
            self.ok += 1
            if len(self.samples) < 4 and (self.n % 5 == 1):
                self.samples.append({"case": case.get("label", "random"), "observed": msg.get("obs", {}),
                                     "wall_s": round(msg.get("wall", 0), 2)})

    def inconclusive(self, case, why):
        self.incon.append((case, why))

    def crash(self, case):
        self.n += 1
        self.findings.append((case, [dict(what="the interpreter died twice on this model", mech="crash")]))

    def note(self, s):
        self.notes.append(s)


def fl(v):
    return float(v)


def finish(prop, tier, seed, gen, agg, ncore, fatal, replay, wall):
    known = load_known()
    rdir = os.path.join(HERE, ".work", "replay")
    os.makedirs(rdir, exist_ok=True)
    viol, kn = [], {}
    for case, fs in agg.findings:
        left = []
        for fnd in fs:
            hit = [t for p, m, t in known if p == prop and m == fnd.get("mech")]
            if hit:
                kn[fnd["mech"]] = hit[0]
            else:
                left.append(fnd)
        if left:
            path = os.path.join(rdir, "%s_%s_%d_%d.json" % (prop, tier, seed, len(viol)))
            with open(path, "w") as fh:
                json.dump({"property": prop, "case": case, "findings": left}, fh, indent=1)
            viol.append((path, left[0]))
    for m, t in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, t, m))
    need = getattr(gen, "NEED", {"steps": 1})
    missing = [k for k, v in need.items() if agg.obs.get(k, 0) < v]
    weak = [k for k, v in getattr(gen, "NEED_SIG", {}).items() if agg.sig.get(k, 0) < v]
    status = "held"
    reason = []
    if viol:
        status = "violated"
    elif fatal:
        status, reason = "inconclusive", ["worker could not start: " + fatal]
    else:
        if agg.herr:
            status = "inconclusive"
            reason.append("harness error: " + agg.herr[0][1])
        if not replay and (missing or weak):
            status = "inconclusive"
            reason.append("monitors not reached: %s %s" % (missing, weak))
        if not replay and agg.core_done < ncore:
            status = "inconclusive"
            reason.append("only %d of %d core scenarios answered" % (agg.core_done, ncore))
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": gen.LEVEL,
        "coverage": {
            "evaluations": int(agg.n), "distinct_nontrivial": len(agg.distinct),
            "rule": gen.RULE,
            "samples": [json.dumps(s, default=str)[:600] for s in agg.samples] or ["none"],
            "status": status, "core_scenarios": ncore, "core_answered": agg.core_done,
            "numerically_invalid": agg.invalid, "seen_once_not_reproduced": agg.once[:5],
            "observed": agg.obs, "term_significance": {k: round(v, 6) for k, v in agg.sig.items()},
            "largest_error_over_tolerance": agg.mx,
            "distinct_states_seen": len(agg.digests), "distinct_features": len(agg.cover),
            "features_seen": sorted(agg.cover)[:400],
        },
        "assumptions": getattr(gen, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print("%s %s tier=%s seed=%d cases=%d ok=%d invalid=%d core=%d/%d steps=%s features=%d wall=%.1fs" % (
        prop, status, tier, seed, agg.n, agg.ok, agg.invalid, agg.core_done, ncore, agg.obs.get("steps"),
        len(agg.cover), wall))
    if agg.mx:
        print("  worst error/tolerance:", {k: "%.2g" % v for k, v in sorted(agg.mx.items(), key=lambda q: -q[1])[:6]})
    for q in agg.once[:3]:
        print("  not reproduced:", q)
    for c, w in agg.incon[:3]:
        print("  INCONCLUSIVE case: %s (%s)" % (c.get("label", "random"), w))
    if os.environ.get("VF_WORST"):
        json.dump({k: {"case": c, "max": agg.mx[k]} for k, c in agg.worst.items()}, open(os.environ["VF_WORST"], "w"), indent=1)
    if os.environ.get("VF_VERBOSE"):
        for n in sorted(set(agg.notes))[:10]:
            print("  note", n)
        print("  obs", agg.obs)
        print("  sig", {k: round(v, 4) for k, v in agg.sig.items()})
    shown = {}
    for path, fnd in viol:
        shown[fnd.get("mech")] = shown.get(fnd.get("mech"), 0) + 1
        if shown[fnd.get("mech")] > 3:
            continue
        print("  %s" % json.dumps({k: v for k, v in fnd.items() if k != "trace"}, default=str)[:700])
        if os.environ.get("VF_VERBOSE") and "trace" in fnd:
            print("    ", fnd["trace"].strip().splitlines()[-3:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if viol:
        print("  violating cases by mechanism:", shown)
    for s in reason:
        print("  INCONCLUSIVE:", s[-1500:])
    return {"held": 0, "violated": 1}.get(status, 2)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
