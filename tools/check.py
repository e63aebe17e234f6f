#!/usr/bin/env python3
"""Decides one property by seeded simulation.  usage: check.py PROPERTY [quick|thorough]

exit 0: held on everything explored (known findings are printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 3: the check could not give an answer
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import worlds as W

REPO = os.environ.get("OM_REPO", "/repo")
OUT = os.path.join(HERE, "out")
BUILD = os.path.join(HERE, "build")
NCPU = min(8, os.cpu_count() or 1)
CXX = os.environ.get("CXX", "g++")


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(3)


# ------------------------------------------------------------------ building
class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "sim")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as s:
                    h.update(s.read())
    return h.hexdigest()


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[:4000]))


def prune():
    d = os.path.join(BUILD, "obj")
    fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    for _, f in fs[:-400]:
        os.unlink(os.path.join(d, f))


def build(world, prop, tree):
    spec = W.build_spec(world, prop)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    prune()
    jobs, objs = [], []
    for src, defs in spec["tus"]:
        cmd = [CXX] + W.SIMFLAGS + spec["flags"] + ["-I" + os.path.join(REPO, "include")] + defs
        key = hashlib.sha256((tree + " ".join(cmd) + src).encode()).hexdigest()[:24]
        obj = os.path.join(BUILD, "obj", key + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            jobs.append((cmd + ["-c", src, "-o", tmp], tmp, obj))
    key = hashlib.sha256((" ".join(objs) + " ".join(spec["link"])).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s" % (world, key))
    if os.path.exists(exe):
        return exe, spec

    def one(j):
        run_cmd(j[0])
        os.replace(j[1], j[2])

    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()
    for f in os.listdir(BUILD):  # one executable per world is kept
        if f.startswith(world + "-") and time.time() - os.path.getmtime(os.path.join(BUILD, f)) > 3600:
            os.unlink(os.path.join(BUILD, f))
    run_cmd([CXX] + objs + spec["link"] + ["-o", exe + ".tmp%d" % os.getpid()])
    os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe, spec


# ------------------------------------------------------------ known findings
def known_findings(prop):
    """lines: 'finding: property=<id> kind=<kind> match=<regex over the violation text> :: <what fails>'"""
    r = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", line.strip())
                if m and m.group(1) == prop:
                    r.append(m.groups()[1:])
    except FileNotFoundError:
        pass
    return r


# ------------------------------------------------------------------- running
def main():
    if sys.argv[1:] == ["--selftest"]:
        for world, prop in W.SELFTEST:
            try:
                build(world, prop, tree_hash())
            except BuildError as e:
                print(e, file=sys.stderr)
        return
    if len(sys.argv) < 2 or sys.argv[1] not in W.CHECKS:
        die("usage: check.py PROPERTY [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = float(os.environ.get("OM_TIME", "60" if tier == "quick" else "900"))
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    base = int.from_bytes(hashlib.sha256(("%s/%d" % (prop, seed)).encode()).digest()[:7], "big")
    plan = W.CHECKS[prop]
    tree = tree_hash()
    built = []
    not_built = []
    for (world, quick, thorough) in plan:
        try:
            exe, spec = build(world, prop, tree)
        except BuildError as e:
            # a world that uses internals may not fit a changed tree: the others still decide
            not_built.append(world)
            print("NOTE: world %s does not build against this tree and was left out of %s\n%s" % (world, prop, str(e)[-1500:]), file=sys.stderr)
            continue
        built.append((world, exe, spec, quick if tier == "quick" else thorough))
    if not built:
        die("no world of %s builds" % prop)
    t_build = time.time() - t0
    known = known_findings(prop)
    violation = None
    cov = dict(worlds={}, worlds_not_built=not_built)
    total = dict(runs=0, nontrivial=0, events=0, steps=0, plan_ops=0, wall=0.0)
    probes = {}
    hashes = set()
    states = set()
    samples = []
    twice_n = 0
    known_hit = {}
    try:
        for wi, (world, exe, spec, count) in enumerate(built):
            per = max(1, count // NCPU)
            limit = budget / len(built)
            procs = []
            tw = time.time()
            for w in range(NCPU):
                res = os.path.join(work, "%s-%d" % (world, w))
                cmd = [exe, "--world", world, "--prop", prop, "--seed", str(base), "--start", str(w * per), "--count", str(per),
                       "--tier", tier, "--time", "%.1f" % limit, "--replay-out", res + ".replay", "--hash-out", res + ".hash",
                       "--min-time", "20", "--twice-first", "25"]
                ig = ",".join(k for k, rx, what in known if rx == "*")
                if ig:
                    cmd += ["--ignore", ig]
                procs.append((w, res, subprocess.Popen(cmd, stdout=open(res + ".json", "w"), stderr=open(res + ".err", "w"), cwd=HERE)))
            left = list(procs)
            bad = None
            first_bad = None
            while left:
                for it in list(left):
                    rc = it[2].poll()
                    if rc is None:
                        continue
                    left.remove(it)
                    if rc == 1 and first_bad is None:
                        first_bad = it
                        for o in left:  # the others are no longer needed
                            o[2].terminate()
                    elif rc not in (0, 1) and first_bad is None:
                        bad = (it, rc)
                time.sleep(0.02)
            wsum = dict(total_runs=0)
            for it in procs:
                try:
                    d = json.load(open(it[1] + ".json"))
                except ValueError:
                    continue
                for k in total:
                    total[k] += d.get(k, 0)
                twice_n += d.get("twice", 0)
                wsum["total_runs"] += d["runs"]
                for k, v in d["probes"].items():
                    probes[k] = probes.get(k, 0) + v
                for suffix, s in (("", hashes), (".states", states)):
                    b = open(it[1] + ".hash" + suffix, "rb").read()
                    s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                if len(samples) < 2:
                    samples.append(d["sample"])
            cov["worlds"][world] = dict(runs=wsum["total_runs"], wall_s=round(time.time() - tw, 2), real_code=spec["real"], stubs=spec["stub"])
            if first_bad:
                d = json.load(open(first_bad[1] + ".json"))
                violation = dict(d["violation"])
                dst = os.path.join(OUT, "%s-%s-%d.replay" % (prop, world, seed))
                shutil.copy(first_bad[1] + ".replay", dst)
                # the replay file must fail in a fresh process, the same way
                again = []
                for _ in range(2):
                    r = subprocess.run([exe, "--replay", dst], stdout=subprocess.PIPE, text=True, cwd=HERE)
                    try:
                        again.append(json.loads(r.stdout))
                    except ValueError:
                        again.append({})
                if not all(a.get("failed") and a.get("kind") == violation["kind"] for a in again):
                    die("the violation does not reproduce: %s %s" % (violation, again))
                violation["replay"] = dst
                violation["exe"] = exe
                violation["same_hash"] = all(a.get("hash") == violation["hash"] for a in again)
                break
            if bad:
                die("worker ended with %s: %s" % (bad[1], open(bad[0][1] + ".err").read()[-2000:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    sim_wall = max(0.001, wall - t_build)
    faults = {k: v for k, v in sorted(probes.items()) if k.startswith(("fault.", "init.std", "init.bad_alloc", "init.output", "abort.", "init.search", "error.", "init.missing"))}
    cov.update(
        evaluations=total["runs"],
        distinct_nontrivial=len(hashes),
        rule=W.RULES.get(prop, W.RULES["*"]),
        samples=samples[:2],
        distinct_states=len(states),
        runs_per_hour=int(total["runs"] / sim_wall * 3600),
        seeds_per_hour=int(total["runs"] / sim_wall * 3600),
        nontrivial_runs=total["nontrivial"],
        plan_operations=total["plan_ops"],
        logged_events=total["events"],
        simulated_time="no clock in the code under test; simulated time is the count of logged events",
        runs_executed_twice_with_identical_logs=twice_n,
        faults_and_errors=faults,
        probes=dict(sorted(probes.items())),
        build_s=round(t_build, 2),
        base_seed=base,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=W.ASSUMPTIONS, wall_s=round(wall, 2),
              violations=1 if violation else 0)
    if violation:
        ev["violation"] = violation
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, rx, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d states, %.0f runs/s, build %.1f s, wall %.1f s" % (
        prop, tier, seed, total["runs"], len(hashes), len(states), total["runs"] / sim_wall, t_build, wall))
    if violation:
        print("  %s: %s" % (violation["kind"], violation["msg"]))
        print("  minimised to %d operations; replay with: %s --replay %s --log /dev/stdout" % (violation["ops"], violation["exe"], violation["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        sys.exit(1)
    sys.exit(0)


main()
