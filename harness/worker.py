"""One shard of a driver run: worker.py PLAN TIER SEED SHARD NSHARDS OUTFILE TIMELIMIT"""
import contextlib
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
MODULES = {
    **{f"C{i:02d}": "plans_rules" for i in range(1, 15)},
    **{p: "plans_meta" for p in ("C15", "C16", "C17", "C18", "C33")},
    "C19": "plans_valid", "C31": "plans_explain", "C26": "plans_profile", "C27": "plans_helpers", "C25": "plans_scores", "C20": "plans_session", "C30": "plans_output", "C28": "plans_files", "C29": "plans_preflib", "C32": "plans_generate",
    **{p: "plans_across" for p in ("C34", "C35", "C36", "C37")},
    **{p: "plans_axioms" for p in ("C21", "C22", "C23", "C24")},
}
with contextlib.suppress(FileNotFoundError):
    with open(os.path.join(HERE, "plan_modules.json")) as _f:
        MODULES.update(json.load(_f))


CPU_LIMIT = 60.0        # seconds of CPU time per recorded input; ordinary inputs need milliseconds


def too_long(signum, frame):
    raise TimeoutError("no result after 60 s of CPU time")


def where(e):
    fr = traceback.extract_tb(e.__traceback__)[-1]
    return f"{os.path.basename(fr.filename)}:{fr.lineno}"


class Ctx:
    def __init__(self, plan, tier, seed, shard, nshards):
        self.plan, self.tier, self.seed, self.shard, self.nshards = plan, tier, seed, shard, nshards
        self.thorough = tier == "thorough"
        self.scale = 8 if self.thorough else 1
        self._n = 0

    def rng(self):
        self._n += 1
        return random.Random(f"{self.plan}/{self.seed}/{self._n}")

    def histories(self, module):
        """behaviours that TLC generated from a specification module"""
        with open(os.path.join(os.environ["VERIF_HIST"], module)) as f:
            return [json.loads(x) for x in f]

    def mine(self, idx):
        return idx % self.nshards == self.shard


def main():
    plan, tier, seed, shard, nshards, outfile, limit, start = sys.argv[1:9]
    shard, nshards, limit, start = int(shard), int(nshards), float(limit), int(start)
    signal.signal(signal.SIGPROF, too_long)
    with contextlib.suppress(Exception):
        cores = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cores[shard % len(cores)]})
    t0 = time.time()
    ctx = Ctx(plan, tier, int(seed), shard, nshards)
    mod = importlib.import_module(MODULES[plan])
    n = calls = 0
    truncated = False
    realout = sys.stdout
    with open(outfile, "a") as out, open(outfile + ".pos", "w") as pos:
        for no, thunk in enumerate(getattr(mod, plan)(ctx)):
            if no < start:
                continue
            if time.time() - t0 > limit:
                truncated = True
                break
            os.pwrite(pos.fileno(), f"{no:12d}".encode(), 0)
            random.seed(f"{plan}/{seed}/{no}")
            with contextlib.redirect_stdout(io.StringIO()):
                signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
                try:
                    recs = thunk()
                except Exception as e:        # outside the recorded calls: judged as a violation
                    recs = [{"id": f"x{no}", "kind": "error", "err": " ".join(f"{type(e).__name__}: {e} at {where(e)}".split())[:300]
                             .replace('"', "'").replace("\\", "/").replace("|", "/"), "calls": []}]
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
            for rec in recs:
                out.write(json.dumps(rec, separators=(",", ":")) + "\n")
                out.flush()
                n += 1
                calls += len(rec.get("calls", [])) or 1
    print(json.dumps({"records": n, "calls": calls, "truncated": truncated, "wall": time.time() - t0}), file=realout)


if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(3)
