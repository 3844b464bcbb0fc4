#!/usr/bin/env python3
"""check.py PROPERTY            runs the check of one property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE       runs a scenario file again in fresh processes
check.py --setup             builds every simulator variant

Exit 0: the property held on everything explored. Exit 1: a VIOLATION line was printed. Exit 2: no answer."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "driver"))
from scenario import Scenario, run_text, run_file, shrink
from plan import PLAN, RULES, REAL, STUBS, ASSUMPTIONS, seconds
from wide import wide

REPO = os.environ.get("DSIM_REPO", "/repo")
BUILD = os.environ.get("DSIM_BUILD", os.path.join(HERE, "build"))
VARIANTS = ["std", "fast", "noopt", "inf", "pool", "poolinf", "datalog"]


def source_key():
    h = hashlib.sha256()
    files = []
    for top, pats in ((REPO, ("*.c", "*.h", "DuckLib/*.c", "DuckLib/*.h")), (os.path.join(HERE, "sim"), ("*",))):
        for p in pats:
            files += glob.glob(os.path.join(top, p))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
    return h.hexdigest()


def build(variants):
    """Builds what is out of date with /repo's working tree. Returns nothing; raises when a build fails."""
    key = source_key()
    todo = []
    for v in variants:
        k = os.path.join(BUILD, v, "key")
        if not (os.path.exists(k) and open(k).read() == key and os.path.exists(os.path.join(BUILD, v, "dsim"))):
            todo.append(v)
            if os.path.exists(k):
                os.unlink(k)
    if not todo:
        return
    p = subprocess.run([os.path.join(HERE, "sim", "build.sh")] + todo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write(p.stdout.decode("utf-8", "replace")[-4000:])
        print("the simulator does not build")
        sys.exit(2)
    for v in todo:
        open(os.path.join(BUILD, v, "key"), "w").write(key)


def exe(variant):
    return os.path.join(BUILD, variant, "dsim")


def findings(prop):
    """Known findings: lines `finding: property=ID scenario=FILE class=CLASS | what fails`."""
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) class=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((os.path.join(HERE, m.group(2)), m.group(3), m.group(4)))
    return out


class Worker:
    def __init__(self, scratch, prop, n, kind, variant, first, stride, tier, secs, count):
        self.kind, self.variant, self.tier = kind, variant, tier
        self.out = os.path.join(scratch, "w%d" % n)
        self.log = open(self.out + ".log", "wb")
        self.prop = prop
        self.p = subprocess.Popen([exe(variant), "batch", kind, prop, str(first), str(count), str(stride), str(tier), self.out, "%.1f" % secs],
                                  stdout=self.log, stderr=subprocess.STDOUT)

    def result(self):
        """(stats or None, seed of a violation or crash or None, message)"""
        self.log.close()
        text = open(self.out + ".log", errors="replace").read()
        stats = None
        m = re.search(r"^J (\{.*\})$", text, re.M)
        if m:
            stats = json.loads(m.group(1))
        v = re.search(r"^V (\d+) (.*)$", text, re.M)
        if v:
            return stats, int(v.group(1)), v.group(2)
        if stats is None:
            try:
                seed = int(open(self.out + ".progress").read().split()[0])
            except (OSError, IndexError, ValueError):
                return None, None, "no result"
            return None, seed, "crash: " + (re.findall(r"ERROR: (.*)", text) or ["exit status %s" % self.p.returncode])[0][:200]
        return stats, None, None

    def digests(self):
        out = {}
        try:
            for line in open(self.out + ".digests"):
                f = line.split()
                if len(f) == 3:
                    out[int(f[0])] = (f[1], f[2] == "1")
        except OSError:
            pass
        return out


def generate(kind, variant, prop, seed, tier):
    p = subprocess.run([exe(variant), "gen", kind, prop, str(seed), str(tier)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.stdout.decode("utf-8", "surrogateescape") if p.returncode == 0 else None


def merge(total, stats):
    for k, v in stats.items():
        if k in ("secs",):
            continue
        total[k] = total.get(k, 0) + v


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier_name = os.environ.get("VERIF_TIER", "quick")
    if tier_name not in ("quick", "thorough"):
        tier_name = "quick"
    tier = 1 if tier_name == "thorough" else 0
    workers = PLAN[prop]
    build(sorted({v for _, v in workers} | {"std"}))
    built = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="dsim-")
    total, violation, unrepeatable = {}, None, []
    per = {}
    allDigests, samples = {}, []
    try:
        for path, cls, what in findings(prop):
            s = Scenario.parse(open(path, errors="surrogateescape").read())
            r = run_file(exe(s.head.get("variant", "std")), path)
            if r.bad and r.kind == cls:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
            elif r.bad:
                violation = ("known-finding scenario", s.head.get("variant", "std"), None, open(path, errors="surrogateescape").read(), r)
        # Scenarios that once exposed a defect: repaired or planted. Each is run first.
        n_reg = 0
        for path in sorted(glob.glob(os.path.join(HERE, "scenarios", prop, "*.scen"))):
            text = open(path, errors="surrogateescape").read()
            v = Scenario.parse(text).head.get("variant", "std")
            if v not in {x for _, x in workers}:
                v = "std"
            r = run_file(exe(v), path)
            n_reg += 1
            if r.bad and violation is None:
                violation = ("recorded scenario " + os.path.basename(path), v, None, text, r)
        if violation is None:
            for name, text in wide(prop):
                v = Scenario.parse(text).head["variant"]
                if v not in {x for _, x in workers}:
                    v = "std"
                r = run_text(exe(v), text, scratch, timeout=120)
                n_reg += 1
                if r.bad and violation is None:
                    violation = (name, v, None, text, r)
        budget = seconds(prop, tier_name)
        end = time.time() + budget
        base = seed * 1000000000
        running = []
        n = len(workers)
        pending = []
        if violation is None:
            for i, (kind, variant) in enumerate(workers):
                running.append(Worker(scratch, prop, i, kind, variant, base + i, n, tier, budget, 10 ** 9))
        serial = n
        while running and violation is None:
            time.sleep(0.1)
            for w in list(running):
                if w.p.poll() is None:
                    if time.time() > end + 120:
                        w.p.kill()
                        w.p.wait()
                    else:
                        continue
                running.remove(w)
                stats, bad, message = w.result()
                d = w.digests()
                key = "%s/%s" % (w.kind, w.variant)
                if stats:
                    merge(total, stats)
                    merge(per.setdefault(key, {}), {k: stats[k] for k in ("runs", "distinct", "states")})
                for s_, (dg, nt) in d.items():
                    allDigests[(w.kind, w.variant, s_)] = (dg, nt)
                if bad is None:
                    continue
                text = generate(w.kind, w.variant, prop, bad, tier)
                for v in (["std"] if w.variant == "fast" else []) + [w.variant]:  # the sanitizer says more
                    r = run_text(exe(v), text, scratch) if text else None
                    if r is not None and r.bad:
                        violation = (message, v, bad, text, r)
                        break
                if violation is not None:
                    break
                unrepeatable.append({"seed": bad, "variant": w.variant, "kind": w.kind, "message": message})
                left = end - time.time()
                if left > 2 and len(unrepeatable) < 50:
                    running.append(Worker(scratch, prop, serial, w.kind, w.variant, bad + n, n, tier, left, 10 ** 9))
                    serial += 1
        for w in running:
            w.p.kill()
            w.p.wait()
            for s_, v_ in w.digests().items():
                allDigests[(w.kind, w.variant, s_)] = v_
        # The simulator itself has to be deterministic: a sample of the runs is repeated in fresh processes.
        repeated = differing = 0
        keys = sorted(allDigests)
        if violation is None and keys:
            for k in keys[:: max(1, len(keys) // 12)][:12]:
                text = generate(k[0], k[1], prop, k[2], tier)
                r = run_text(exe(k[1]), text, scratch)
                if r.bad:
                    r2 = run_text(exe(k[1]), text, scratch)
                    if r2.bad:
                        violation = ("repetition", k[1], k[2], text, r)
                        break
                repeated += 1
                if r.digest != allDigests[k][0]:
                    differing += 1
                    unrepeatable.append({"seed": k[2], "variant": k[1], "kind": k[0], "message": "another digest when repeated"})
                if len(samples) < 3 and allDigests[k][1]:
                    samples.append({"seed": k[2], "variant": k[1], "digest": r.digest, "scenario": text[:1500]})
        rc = 0
        report = None
        if violation is not None:
            message, variant, vseed, text, r = violation
            small = shrink(exe(variant), text, r.kind, 60, scratch)
            a, b = run_text(exe(variant), small, scratch), run_text(exe(variant), small, scratch)
            if not (a.kind == b.kind == r.kind and (a.digest == b.digest)):
                small = text
                a = run_text(exe(variant), small, scratch)
            s = Scenario.parse(small)
            s.head["prop"], s.head["variant"] = prop, variant
            os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
            path = os.path.join(HERE, "evidence", "replays", "%s-%s.scen" % (prop, vseed if vseed is not None else "recorded"))
            open(path, "w", errors="surrogateescape").write(s.text())
            print("seed %s, variant %s: %s" % (vseed, variant, a.message or r.message))
            print("minimised schedule and fault trace (replay with: python3 %s/check.py --replay %s):" % (HERE, path))
            sys.stdout.write(s.text().encode("utf-8", "backslashreplace").decode()[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
            report = {"seed": vseed, "variant": variant, "message": a.message or r.message, "replay": path}
        runs = total.get("runs", 0)
        distinct = len({(k[0], dg) for k, (dg, nt) in allDigests.items() if nt})
        wall = time.time() - t0
        search = max(0.001, wall - built)
        faults = {k: v for k, v in total.items() if k in FAULTS}
        cov = {
            "evaluations": len(allDigests),
            "distinct_nontrivial": distinct,
            "rule": " ".join(RULES[k] for k in sorted({k for k, _ in workers})),
            "samples": samples or [{"seed": base, "scenario": (generate(workers[0][0], workers[0][1], prop, base, tier) or "")[:1500]}],
            "runs_per_hour": int(len(allDigests) / search * 3600),
            "first_seed": base,
            "recorded_scenarios": n_reg,
            "skipped_runs_outside_the_model": total.get("skipped", 0),
            "simulated_instructions": total.get("instructions", 0),
            "faults_injected": faults,
            "work": {k: v for k, v in sorted(total.items()) if k not in FAULTS and k not in ("runs", "distinct", "nontrivial", "states", "skipped", "instructions")},
            "states": total.get("states", 0),
            "state_measure": "distinct rendered host-visible states (or abstract structure states), counted per worker and added",
            "runs_by_variant": per,
            "repeated_in_fresh_process": repeated,
            "repetitions_that_differed": differing,
            "unrepeatable": unrepeatable[:20],
            "real_components": REAL,
            "stubbed_components": STUBS,
            "build_s": round(built, 1),
        }
        if report:
            cov["violation"] = report
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump({"property": prop, "tier": tier_name, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUMPTIONS,
                   "wall_s": round(wall, 2), "violations": 1 if rc else 0}, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        if rc == 0:
            print("%s held: %d runs, %d distinct, %d instructions, %.0f s" % (prop, len(allDigests), distinct, total.get("instructions", 0), wall))
            if not allDigests:
                print("nothing was explored")
                return 2
            if unrepeatable:
                print("not repeatable: %s" % json.dumps(unrepeatable[:3]))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


FAULTS = {"alloc_failure", "callback_failure", "abort_at_instruction", "heap_exhausted", "gc_forced", "gc_from_callback", "reset_exhausted",
          "init_failure", "memory_fill_changed", "pool_exhausted", "preemptions", "bad_requests", "api_errors", "malformed_sources", "vm_discarded", "compiler_discarded"}


def replay(path):
    text = open(path, errors="surrogateescape").read()
    s = Scenario.parse(text)
    v = s.head.get("variant", "std")
    build([v])
    a = run_file(exe(v), path, trace=True)
    b = run_file(exe(v), path)
    sys.stdout.write(a.output.encode("utf-8", "backslashreplace").decode()[-6000:])
    if a.bad:
        print("repeated with the same outcome: %s" % (a.kind == b.kind and a.digest == b.digest))
        print("VIOLATION property=%s replay=%s" % (s.head.get("prop", "?"), path))
        return 1
    print("no violation")
    return 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--replay"]:
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:] == ["--setup"]:
        build(VARIANTS)
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[1]))
