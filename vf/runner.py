"""Run one property check: model-check the spec, execute scenarios on the real code, validate traces with TLC."""
import argparse
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

from . import env

from .util import INT_LIM
from .util import SENT
from .util import HarnessError
from .util import ScenarioTimeout


def sanitize(x):
    """What the code returned need not fit TLC's values: anything odd becomes the sentinel, which no specification accepts."""
    if isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x if abs(x) <= INT_LIM else SENT
    if isinstance(x, (list, tuple)):
        return [sanitize(v) for v in x]
    if isinstance(x, dict):
        return {str(k): sanitize(v) for k, v in x.items()}
    return SENT


def check_json(x, path="$"):
    if x is None:
        raise HarnessError(f"null in trace at {path}")
    if isinstance(x, bool) or isinstance(x, str):
        return
    if isinstance(x, int):
        if abs(x) > INT_LIM:
            raise HarnessError(f"integer out of range in trace at {path}: {x}")
        return
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            check_json(y, f"{path}[{i}]")
        return
    if isinstance(x, dict):
        for k, y in x.items():
            if not isinstance(k, str):
                raise HarnessError(f"key {k!r} at {path}")
            check_json(y, f"{path}.{k}")
        return
    raise HarnessError(f"type {type(x)} in trace at {path}")


def _alarm(_sig, _frm):
    raise ScenarioTimeout


def _exec_one(args):
    modname, scn, limit = args
    mod = importlib.import_module(modname)
    work = tempfile.mkdtemp(prefix="sc_", dir=env.scratch())
    old = os.getcwd()
    os.chdir(work)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        tr = mod.execute(scn, work)
        signal.alarm(0)
        tr = dict(tr)
        tr["sid"] = str(scn["sid"])
        tr.setdefault("init", {"none": 0})
        tr["ev"] = [{**e, "obs": sanitize(e["obs"])} if isinstance(e, dict) and "obs" in e else e for e in tr["ev"]]
        check_json(tr)
        return ("ok", tr)
    except ScenarioTimeout:
        return ("timeout", f"scenario did not finish within {limit}s")
    except HarnessError:
        signal.alarm(0)
        return ("harness", traceback.format_exc())
    except BaseException:  # noqa: BLE001
        signal.alarm(0)
        tb = traceback.format_exc()
        kind = "code" if f'"{env.REPO}/' in tb else "harness"
        return (kind, tb)
    finally:
        signal.alarm(0)
        os.chdir(old)
        shutil.rmtree(work, ignore_errors=True)


def load_known(pid):
    path = os.path.join(env.ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


class Run:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.mod = importlib.import_module(f"checks.{pid.lower()}")
        self.t0 = time.time()
        self.violations = []
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.cov = {}
        self.replay_dir = os.path.join(env.EVID, "replay", pid)

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- model checking of the specification itself
    def model_check(self):
        from . import tlc
        runs = []
        for item in self.mod.models(self.tier):
            module, cfg = item["module"], item["cfg"]
            r = tlc.run(module, cfg, workers=item.get("workers", 8), timeout=item.get("timeout", 600),
                        extra=item.get("extra", ()), deadlock=item.get("deadlock", False))
            if not r.complete:
                sys.stdout.write(r.out[-6000:])
                raise HarnessError(f"model checking of {module}/{cfg} failed (rc={r.rc})")
            self.states += r.distinct
            self.transitions += r.generated
            runs.append({"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated,
                         "wall_s": round(r.wall, 1)})
            self.log(f"model {module}/{cfg}: {r.distinct} states, {r.generated} transitions, {r.wall:.1f}s")
        self.cov["model_runs"] = runs

    def generated_scenarios(self):
        """Behaviours produced by TLC from the specification (spec -> code direction)."""
        from . import tlc
        scns = []
        info = []
        for item in getattr(self.mod, "generators", lambda t: [])(self.tier):
            r = tlc.run(item["module"], item["cfg"], timeout=item.get("timeout", 600),
                        extra=item.get("extra", ()), workers=item.get("workers", 8))
            if not r.complete and not item.get("simulate"):
                sys.stdout.write(r.out[-6000:])
                raise HarnessError(f"behaviour generation with {item['module']} failed")
            got = [json.loads(s) for s in r.printed("GEN")]
            if item.get("dedupe", True):
                seen = set()
                uniq = []
                for g in got:
                    k = json.dumps(g, sort_keys=True)
                    if k not in seen:
                        seen.add(k)
                        uniq.append(g)
                got = uniq
            cap = item.get("cap")
            total = len(got)
            if cap and total > cap:
                rnd = random.Random(self.seed)
                got.sort(key=lambda g: json.dumps(g, sort_keys=True))
                got = rnd.sample(got, cap)
            self.states += r.distinct
            self.transitions += r.generated
            info.append({"module": item["module"], "cfg": item["cfg"], "behaviours": total, "replayed": len(got)})
            self.log(f"generator {item['module']}/{item['cfg']}: {total} behaviours, {len(got)} replayed, {r.wall:.1f}s")
            for i, g in enumerate(got):
                for k, s in enumerate(item["to_scenario"](g)):
                    s["sid"] = f"gen-{item['cfg']}-{i}-{k}"
                    scns.append(s)
        if info:
            self.cov["spec_generated_behaviours"] = info
        return scns

    # -- execution
    def execute(self, scns):
        modname = self.mod.__name__
        limit = getattr(self.mod, "SCENARIO_LIMIT_S", 90)
        traces = []
        if hasattr(self.mod, "warmup"):
            try:
                self.mod.warmup()
            except Exception:  # noqa: BLE001
                tb = traceback.format_exc()
                if f'"{env.REPO}/' in tb:
                    self.violation({"sid": "warmup"}, "code under test failed while being set up", tb)
                    return []
                raise
        ctx = mp.get_context("fork")
        jobs = [(modname, s, limit) for s in scns]
        nproc = getattr(self.mod, "PROCS", 8)
        with ProcessPoolExecutor(max_workers=nproc, mp_context=ctx) as pool:
            try:
                chunk = max(1, min(16, len(jobs) // (nproc * 4) or 1))
                for s, (kind, res) in zip(scns, pool.map(_exec_one, jobs, chunksize=chunk)):
                    if kind == "ok":
                        if res["ev"]:
                            traces.append((s, res))
                    elif kind == "harness":
                        sys.stdout.write(res)
                        raise HarnessError(f"driver failed in scenario {s.get('sid')}")
                    else:
                        self.violation(s, f"{kind}: code under test raised/hung outside every outcome the specification allows", res)
            except BrokenProcessPool as x:
                raise HarnessError("worker died") from x
        return traces

    def violation(self, scn, why, detail):
        self.violations.append((scn, why, detail))

    # -- trace validation
    def validate(self, traces):
        from . import tlc
        by_mod = {}
        tm = self.mod.TRACE
        for s, t in traces:
            m = tm if isinstance(tm, str) else tm[s["kind"]]
            by_mod.setdefault(m, []).append((s, t))
        results = []
        for m, items in by_mod.items():
            bsz = getattr(self.mod, "BATCH", 4000)
            for k in range(0, len(items), bsz):
                results += self._validate_batch(m, items[k : k + bsz])
        return results

    def _validate_batch(self, module, items):
        from . import tlc
        path = os.path.join(tempfile.mkdtemp(prefix="tr_", dir=env.scratch()), "trace.ndjson")
        with open(path, "w") as f:
            for _s, t in items:
                f.write(json.dumps({"sid": t["sid"], "init": t["init"], "ev": t["ev"]}) + "\n")
        cfg = module + ".cfg" if os.path.exists(os.path.join(env.SPECS, module + ".cfg")) else "Trace.cfg"
        r = tlc.run(module, cfg, env={"VF_TRACE": path}, timeout=getattr(self.mod, "TRACE_TIMEOUT_S", 800))
        rejected = {}
        for s in r.printed("REJECT"):
            tid, l, bad, exp = s.split("|", 3)
            rejected[int(tid)] = (int(l), bad, exp)
        if not r.complete:
            if len(items) == 1 and "Error:" in r.out and not "java.lang.OutOfMemory" in r.out:
                i = r.out.find("Error:")
                return [(items[0][0], items[0][1], (0, "specification cannot interpret the recorded step", r.out[i:i + 3000]))]
            if os.environ.get("VF_DEBUG"):
                sys.stdout.write(r.out[-3000:])
            if len(items) > 1 and "Error:" in r.out and "OutOfMemory" not in r.out and self.bisect_budget > 0:
                self.bisect_budget -= 1
                h = len(items) // 2
                return self._validate_batch(module, items[:h]) + self._validate_batch(module, items[h:])
            sys.stdout.write(r.out[-6000:])
            raise HarnessError(f"trace validation with {module} failed rc={r.rc}")
        want = 0
        for i, (_s, t) in enumerate(items, 1):
            want += len(t["ev"]) + 1 if i not in rejected else rejected[i][0] + 1
        if want != r.distinct:
            sys.stdout.write(r.out[-3000:])
            raise HarnessError(f"trace validation with {module}: {r.distinct} states instead of {want}")
        self.states += r.distinct
        self.transitions += r.generated
        self.log(f"trace validation {module}: {len(items)} traces, {r.distinct} states, {len(rejected)} rejected, {r.wall:.1f}s")
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
        return [(s, t, rejected.get(i)) for i, (s, t) in enumerate(items, 1)]

    bisect_budget = 40

    def save_replay(self, scn, why, detail, trace=None):
        os.makedirs(self.replay_dir, exist_ok=True)
        sid = "".join(c if c.isalnum() or c in "-_." else "_" for c in str(scn.get("sid", "x")))[:80]
        path = os.path.join(self.replay_dir, sid + ".json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "why": why, "detail": detail, "scenario": scn, "trace": trace}, f,
                      indent=1, default=str)
        return path

    def corruptions(self, traces, rng):
        """Recorded traces with one field altered: they must be rejected, or the binding is vacuous."""
        out = []
        n = getattr(self.mod, "CORRUPT_N", 30)
        cands = list(traces)
        rng.shuffle(cands)
        for s, t in cands:
            if len(out) >= n:
                break
            t2 = json.loads(json.dumps(t))
            leaves = []

            def walk(x, p):
                if isinstance(x, dict):
                    for k in x:
                        walk(x[k], p + [k])
                elif isinstance(x, list):
                    for i in range(len(x)):
                        walk(x[i], p + [i])
                elif isinstance(x, (bool, int)):
                    leaves.append(p)

            for i, e in enumerate(t2["ev"]):
                if isinstance(e, dict) and "obs" in e:
                    walk(e["obs"], ["ev", i, "obs"])
            if not leaves:
                continue
            p = rng.choice(leaves)
            x = t2
            for k in p[:-1]:
                x = x[k]
            v = x[p[-1]]
            x[p[-1]] = (not v) if isinstance(v, bool) else (v + 1 if v < INT_LIM - 1 else v - 1)
            t2["sid"] = "corrupt-" + t2["sid"]
            s2 = dict(s)
            s2["corrupt"] = p
            out.append((s2, t2))
        return out

    def run(self, replay=None):
        rng = random.Random(self.seed * 1000003 + sum(map(ord, self.pid)))
        if replay:
            with open(replay) as f:
                scns = [json.load(f)["scenario"]]
        else:
            shutil.rmtree(self.replay_dir, ignore_errors=True)
            if not os.environ.get("VF_NOMODEL"):
                self.model_check()
            scns = list(self.mod.scenarios(rng, self.tier))
            for i, s in enumerate(scns):
                s.setdefault("sid", f"s{i}")
            scns += self.generated_scenarios()
        for s in scns:  # scenarios must survive a replay file
            json.dumps(s)
        self.log(f"{len(scns)} scenarios")
        traces = self.execute(scns)
        self.log(f"{len(traces)} executed")
        corr = [] if replay else self.corruptions(traces, rng)
        results = self.validate(traces + corr) if traces else []
        ncor = nrej = 0
        known = load_known(self.pid)
        seen_known = {}
        for s, t, rej in results:
            if "corrupt" in s:
                ncor += 1
                nrej += rej is not None
                continue
            if rej is None:
                self.validated += 1
                continue
            l, bad, exp = rej
            k = self.match_known(known, s, t, l, bad)
            if k is not None:
                seen_known.setdefault(k["id"], []).append(s["sid"])
                continue
            self.violation(s, f"step {l} breaks {bad}", {"clauses": bad, "expected": exp,
                                                         "observed": t["ev"][l - 1] if l else t["ev"], "trace": t})
        for k in known:
            if k["id"] in seen_known:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']} ({len(seen_known[k['id']])} scenario(s))")
        self.cov["corrupted_traces_submitted"] = ncor
        self.cov["corrupted_traces_rejected"] = nrej
        if not replay and ncor >= 10 and nrej == 0 and not self.violations:
            raise HarnessError("trace validation accepts corrupted traces: binding is vacuous")
        if not replay:
            self.evidence(scns, traces)
        # show distinct kinds of violations first
        kinds, rest = {}, []
        for v in self.violations:
            key = (v[1].split("breaks")[-1], v[2].strip().splitlines()[-1][:60] if isinstance(v[2], str) and v[2].strip() else "")
            if key in kinds:
                rest.append(v)
            else:
                kinds[key] = v
        for s, why, detail in ([*kinds.values(), *rest])[: int(os.environ.get("VF_SHOW", "5"))]:
            path = self.save_replay(s, why, detail)
            print(f"--- {why}")
            txt = json.dumps(detail, default=str) if not isinstance(detail, str) else detail
            w = int(os.environ.get("VF_WIDTH", "900"))
            print(txt[-w:] if txt.startswith("Traceback") else txt[:w])
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        if len(self.violations) > 5:
            print(f"... {len(self.violations)} violations in total")
        self.log("done", "VIOLATED" if self.violations else "ok")
        return 1 if self.violations else 0

    @staticmethod
    def match_known(known, s, t, l, bad):
        for k in known:
            if s.get("finding") == k["id"] and all(c in bad for c in k.get("clauses", [])) \
                    and bad.count('"') == 2 * len(k.get("clauses", [])):
                return k
        return None

    def evidence(self, scns, traces):
        os.makedirs(env.EVID, exist_ok=True)
        kinds = {}
        evs = {}
        for s, t in traces:
            kinds[s.get("kind", "-")] = kinds.get(s.get("kind", "-"), 0) + 1
            for e in t["ev"]:
                n = e.get("op", "-") if isinstance(e, dict) else "-"
                evs[n] = evs.get(n, 0) + 1
        samples = []
        for s, t in traces[:2] + traces[-1:]:
            txt = json.dumps({"scenario": s, "trace": t}, default=str)
            samples.append(json.loads(txt) if len(txt) < 6000 else txt[:3000] + " ...")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": samples,
            "scenarios": len(scns),
            "scenario_kinds": kinds,
            "trace_events_by_action": evs,
        }
        cov.update(self.cov)
        if hasattr(self.mod, "extra_coverage"):
            cov.update(self.mod.extra_coverage(traces))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov,
            "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(env.EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    env.prepare()
    sys.path.insert(0, env.ROOT)
    try:
        r = Run(a.pid, a.tier, a.seed)
    except Exception:  # noqa: BLE001 - import of the code under test failed
        tb = traceback.format_exc()
        print(tb)
        if f'"{env.REPO}/' in tb:
            path = os.path.join(env.EVID, "replay", a.pid)
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, "import.json")
            with open(path, "w") as f:
                json.dump({"property": a.pid, "why": "import failed", "detail": tb}, f)
            print(f"VIOLATION property={a.pid} replay={path}")
            return 1
        return 2
    try:
        return r.run(replay=a.replay)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        if r.violations:  # a violation was already established before the machinery gave up
            for s, why, detail in r.violations[:10]:
                path = r.save_replay(s, why, detail)
                print(f"--- {why}\n{str(detail)[:1500]}\nVIOLATION property={a.pid} replay={path}")
            return 1
        return 2
