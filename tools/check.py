#!/usr/bin/env python3
"""Decides one property: model checks the specification over its domains, runs
the same cases and random ones against the implementation in /repo, and has the
specification judge what was observed.

  check.py PROPERTY quick|thorough
  check.py PROPERTY --replay FILE     judge the cases of a replay file again

Exit status: 0 held, 1 violated, 2 no answer."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import gen
from plan import PLAN

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = max(2, min(8, os.cpu_count() or 2))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------- toolchain
def build_driver(work):
    """the driver, built from /repo's working tree"""
    src = os.path.join(work, "driver")
    shutil.copytree(os.path.join(VERIF, "driver"), src)
    with open(os.path.join(REPO, "go.mod")) as f:
        mod = re.sub(r"(?m)^module .*$", "module verif/driver", f.read())
    with open(os.path.join(src, "go.mod"), "w") as f:
        f.write(mod + "\nrequire github.com/freerware/negotiator v0.0.0\n"
                "replace github.com/freerware/negotiator => %s\n" % REPO)
    shutil.copy(os.path.join(REPO, "go.sum"), src)
    exe = os.path.join(work, "drv")
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd '%s' && go build -o '%s' ." % (src, exe)],
                       capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise NoAnswer("the driver cannot be built:\n" + p.stdout + p.stderr)
    return exe


def build_detector(work):
    """the driver with Go's race detector, if it can be had"""
    src = os.path.join(work, "detector")
    shutil.copytree(os.path.join(work, "driver"), src)
    exe = os.path.join(work, "drvrace")
    try:
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd '%s' && CGO_ENABLED=1 go build -race -o '%s' ." % (src, exe)],
                           capture_output=True, text=True, timeout=300)
        probe = os.path.join(work, "probe")
        write_cases(probe, [])
        if p.returncode == 0 and subprocess.run([exe, probe, probe + ".out"], capture_output=True, timeout=60).returncode == 0:
            return exe
        log("no race detection: " + (p.stdout + p.stderr)[-300:])
    except subprocess.TimeoutExpired:
        log("no race detection: building took too long")
    return None


def detect(work, pool, exe, cases):
    """runs cases with the race detector"""
    groups = [cases[i::WORKERS] for i in range(WORKERS)]
    env = dict(os.environ, GORACE="halt_on_error=0 exitcode=0 log_path=" + os.path.join(work, "race"))
    def some(i):
        return drive(work, exe, groups[i], "race%d" % i, env=env)
    lines = []
    for f in [pool.submit(some, i) for i in range(WORKERS) if groups[i]]:
        try:
            lines += f.result()
        except Crash as e:
            # the cases are executed without the detector all the same
            log("race detection came to no end: %s" % str(e)[:300])
    return lines


def run_tlc(work, name, module, cfg, env, timeout):
    path = os.path.join(work, name)
    os.makedirs(path)
    with open(path + ".cfg", "w") as f:
        f.write(cfg)
    with open(path + ".log", "w") as out:
        try:
            subprocess.run(
                ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss16m", "-Xmx2500m", "-Djava.io.tmpdir=" + path,
                 "-cp", JARS, "tlc2.TLC", "-workers", "1", "-noGenerateSpecTE", "-metadir", os.path.join(path, "meta"),
                 "-config", path + ".cfg", module],
                cwd=SPEC, stdout=out, stderr=subprocess.STDOUT, env=dict(os.environ, **env), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise NoAnswer("TLC took too long: " + name)
    with open(path + ".log", errors="replace") as f:
        text = f.read()
    if "Model checking completed. No error has been found." not in text:
        raise NoAnswer("TLC %s:\n%s" % (name, text[-4000:]))
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, 0 states left", text)
    if not m:
        raise NoAnswer("TLC %s reports no states" % name)
    generated, distinct = [int(x.replace(",", "")) for x in m[-1]]
    return text, distinct, generated


# -------------------------------------------------------------- model checking
def model_check(work, family, invariants, temporal, deep, part, parts, timeout):
    name = "mc_%s_%d" % (family, part)
    vectors = os.path.join(work, name + ".ndjson")
    cfg = ["CONSTANT Deep = %s" % str(deep).upper(), "CONSTANT Part = %d" % part, "CONSTANT Parts = %d" % parts,
           "CHECK_DEADLOCK FALSE"]
    if family == "codec":
        module = "MCCodec.tla"
        cfg += ["SPECIFICATION CodecSpec", "CONSTANT Codecs <- CodecCases", "CONSTANT Known <- NoKnown",
                "INVARIANTS CodecTypeOK " + " ".join(invariants)]
        if temporal: cfg.append("PROPERTY CodecTerminates")
    elif family == "pool":
        module = "MCPool.tla"
        cfg += ["SPECIFICATION PoolSpec", "CONSTANT Pools <- PoolCases", "CONSTANT Known <- NoKnown", "CONSTANT TakeTurns = TRUE",
                "INVARIANTS " + " ".join(invariants), "PROPERTY HandsOverOnce"]
        if temporal: cfg.append("PROPERTY PoolTerminates")
    else:
        module = "MC.tla"
        cfg += ["SPECIFICATION Spec", "CONSTANT Cases <- FamilyCases", 'CONSTANT Family = "%s"' % family,
                "CONSTANT TakeTurns = TRUE", "INVARIANTS TypeOK " + " ".join(invariants)]
        if temporal: cfg.append("PROPERTY Terminates")
    _, states, transitions = run_tlc(work, name, module, "\n".join(cfg) + "\n",
                                     {"VECTORS": vectors}, timeout)
    with open(vectors) as f:
        cases = [json.loads(l) for l in f if l.strip()]
    for c in cases:
        c["fam"] = c["fam"] or family
    return family, cases, states, transitions


# -------------------------------------------------------------------- execution
def write_cases(path, cases):
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")


def read_lines(path):
    with open(path) as f:
        return [l for l in f.read().split("\n") if l]


class Crash(Exception):
    pass


def drive(work, exe, cases, tag, dead=False, timeout=400, env=None):
    given, out = os.path.join(work, tag + ".in"), os.path.join(work, tag + ".out")
    write_cases(given, cases)
    args = [exe] + (["--dead"] if dead else []) + [given, out]
    try:
        p = subprocess.run(args, capture_output=True, text=True, timeout=timeout, errors="replace", env=env)
    except subprocess.TimeoutExpired:
        raise Crash("timeout")
    if p.returncode != 0:
        if "driver: " in p.stderr[:400]:
            raise NoAnswer("driver failed:\n" + p.stderr[:4000])
        raise Crash(p.stderr[:4000])
    lines = read_lines(out)
    if len(lines) != len(cases):
        raise NoAnswer("driver returned %d of %d cases" % (len(lines), len(cases)))
    return lines


def execute(work, exe, cases, tag="run", depth=0):
    """runs the cases; those that bring the process down are singled out"""
    try:
        return drive(work, exe, cases, tag)
    except Crash as e:
        log("the implementation brought its process down (%d cases): %s" % (len(cases), str(e).split("\n")[0]))
        if len(cases) == 1 or depth > 20:
            return drive(work, exe, cases, tag + "d", dead=True)
        half = len(cases) // 2
        parts = [cases[:half], cases[half:]]
        lines, crashed = [], False
        for i, p in enumerate(parts):
            try:
                lines.append(drive(work, exe, p, "%s_%d" % (tag, i)))
            except Crash:
                crashed = True
                lines.append(execute(work, exe, p, "%s_%d" % (tag, i), depth + 1))
        if not crashed and len(cases) <= 64:
            # it depends on the schedule; the cases with concurrency are to blame
            blamed = [c for c in cases if c.get("conc")]
            if not blamed:
                raise NoAnswer("the process of the driver ended:\n" + str(e))
            return drive(work, exe, blamed[:1], tag + "d", dead=True) + \
                drive(work, exe, [c for c in cases if c is not blamed[0]], tag + "r")
        return lines[0] + lines[1]


# --------------------------------------------------------------------- judgement
def judge(work, prop, kind, lines, name, known, timeout):
    trace = os.path.join(work, name + ".trace")
    with open(trace, "w") as f:
        f.write("\n".join(lines) + "\n")
    if kind == "pool":
        module = "TracePool.tla"
        cfg = ["INIT TracePoolInit", "NEXT TracePoolNext", "CONSTANT Pools <- TracePools", "CONSTANT Known <- KnownFormats",
               "CONSTANT TakeTurns = FALSE", "INVARIANTS EndsAsAlone KeepsWhatWasHanded"]
    elif kind == "codec":
        module = "TraceCodec.tla"
        cfg = ["INIT TraceCodecInit", "NEXT TraceCodecNext", "CONSTANT Codecs <- TraceCodecs", "CONSTANT Known <- KnownFormats",
               "INVARIANTS CodecTypeOK CodedAsDeclared RefusedIfUnsupported Inverts"]
    else:
        module = "Trace.tla"
        cfg = ["INIT TraceInit", "NEXT TraceNext", "CONSTANT Cases <- TraceCases", "CONSTANT TakeTurns = FALSE", "INVARIANTS TypeOK"]
    cfg += ["CHECK_DEADLOCK FALSE", 'CONSTANT Prop = "%s"' % prop]
    text, states, transitions = run_tlc(work, name, module, "\n".join(cfg) + "\n", {"TRACE": trace, "KNOWN": known}, timeout)
    verdicts = {}
    for l in text.split("\n"):
        if l.startswith('"@@'):
            d = json.loads(json.loads(l)[2:])
            verdicts[d["id"]] = d
    if len(verdicts) != len(lines):
        raise NoAnswer("%d verdicts for %d cases" % (len(verdicts), len(lines)))
    return verdicts, states, transitions


def judge_all(work, pool, prop, kind, lines, known, timeout):
    shards = max(1, min(WORKERS, len(lines) // 40 + 1)) if len(lines) < 8000 else -(-len(lines) // 1000)
    parts = [lines[i::shards] for i in range(shards)]
    futures = [pool.submit(judge, work, prop, kind, p, "judge_%s%d" % (kind, i), known, timeout)
               for i, p in enumerate(parts) if p]
    verdicts, states, transitions = {}, 0, 0
    for f in futures:
        v, s, t = f.result()
        verdicts.update(v); states += s; transitions += t
    return verdicts, states, transitions


# ----------------------------------------------------------------- known findings
def findings():
    """[property, {coding: format}, text] of the defects on record"""
    out = []
    with open(KNOWN) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) formats=(\S+) (.*)", l)
            if m:
                out.append((m[1], dict(x.split(":") for x in m[2].split(",")), m[3]))
    return out


def known_formats(work):
    path = os.path.join(work, "known.ndjson")
    write_cases(path, [{"coding": c, "format": f} for p, formats, _ in findings() for c, f in formats.items()])
    return path


def sample(line, verdict):
    d = json.loads(line)
    if d["kind"] == "codec":
        return {"family": d["fam"], "type": d["ct"], "codings": d["enc"], "observed": {k: d["cobs"][k] for k in ("ser", "sererr", "layers", "back")}}
    if d["kind"] == "pool":
        return {"family": d["fam"], "concurrent": d["conc"], "subjects": [[c["ct"], c["enc"]] for c in d["subjects"]],
                "operations": [[o["op"], o["of"], o["hurt"], p["ret"]] for o, p in zip(d["ops"], d["pobs"])], "races": d["races"]}
    x, o = d["exch"][0], d["obs"][0]
    return {"family": d["fam"], "negotiator": d["negs"][x["neg"] - 1]["kind"], "exchanges": len(d["exch"]),
            "headers": {h: x[h]["l"] for h in "alcefn" if x[h]["p"]},
            "candidates": [[r["ct"], r["lang"], r["cs"], r["enc"], r["qs"]] for r in x["reps"]],
            "observed": {"ret": o["ret"], "status": o["status"], "body": o["body"]["k"], "is": o["body"]["is"]},
            "applied": verdict["applied"]}


# -------------------------------------------------------------------------- main
def check(prop, tier, seed, replay=None):
    began = time.time()
    plan = PLAN[prop]
    deep = tier == "thorough"
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, replay, began, plan, deep, work)
    finally:
        os.environ.get("VERIF_KEEP") or shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, replay, began, plan, deep, work):
    limit = 6 * 3600 if deep else 780
    pool = ThreadPoolExecutor(WORKERS)
    building = pool.submit(build_driver, work)
    cases, states, transitions, families = [], 0, 0, {}
    if replay:
        cases = [json.loads(l) for l in read_lines(replay)]
    else:
        jobs = []
        for family, invariants in plan["model"].items():
            parts = plan.get("parts", {}).get(family, 1) * (plan.get("deepparts", 6) if deep else 1)
            for part in range(parts):
                jobs.append(pool.submit(model_check, work, family, invariants, deep, deep, part, parts, limit))
        for j in jobs:
            family, cs, s, t = j.result()
            cases += cs; states += s; transitions += t
            families[family] = families.get(family, 0) + len(cs)
        for family, n in plan["random"].items():
            cs = gen.generate(family, seed, n * (plan.get("deepfactor", 36) if deep else 3))
            cases += cs
            families["random:" + family] = len(cs)
    exe = building.result()
    races = []
    if plan["race"] and not replay:
        for family, n in plan["race"].items():
            cs = gen.generate(family, "race%d" % seed, n * (10 if deep else 1))
            for c in cs:
                # a schedule would order what is to be found unordered
                c.update(conc=True, sched=[], rounds=4, fam="races:" + family)
            races += cs
        for family in plan["race"]: families["races:" + family] = plan["race"][family] * (10 if deep else 1)
    elif replay and any(c.get("races") for c in cases):
        races, cases = [c for c in cases if c.get("races")], [c for c in cases if not c.get("races")]
    for i, c in enumerate(cases + races):
        c["id"] = i + 1
        c["races"] = 0
    lines = []
    step = 20000
    for i in range(0, len(cases), step):
        lines += execute(work, exe, cases[i:i + step], "run%d" % i)
    detector = build_detector(work) if races else None
    found_races = ""
    if detector:
        raced = detect(work, pool, detector, races)
        lines += raced
        for name in sorted(os.listdir(work)):
            if name.startswith("race.") and not found_races:
                with open(os.path.join(work, name), errors="replace") as f:
                    found_races = f.read(3000)
        have = {json.loads(l)["id"] for l in raced}
        races = [c for c in races if c["id"] not in have]
    if races:
        lines += execute(work, exe, races, "unraced")
    by_id = {}
    for l in lines:
        by_id[json.loads(l)["id"]] = l
    known = known_formats(work)
    verdicts = {}
    mstates, mtransitions = states, transitions
    for kind in ("exchange", "codec", "pool"):
        some = [l for l in lines if json.loads(l)["kind"] == kind]
        if some:
            v, s, t = judge_all(work, pool, prop, kind, some, known, limit)
            verdicts.update(v); states += s; transitions += t
    applied = sum(v["applied"] for v in verdicts.values())
    if applied == 0 and not replay:
        raise NoAnswer("the property applied to none of the cases")
    if not replay:
        for family in families:
            if not any(v["applied"] for i, v in verdicts.items() if family_of(by_id[i]) == family):
                raise NoAnswer("the property applied to no case of the family " + family)
    bad = sorted(i for i, v in verdicts.items() if v["bad"])
    evidence_dir = os.path.join(VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)
    found = {}
    for i, v in verdicts.items():
        for k in v.get("known", []):
            found.setdefault(k, i)
    for p, formats, text in findings():
        met = [k for k in formats if k in found]
        if met and p == prop:
            log("KNOWN-FINDING: property=%s %s (case %d)" % (prop, text, found[met[0]]))
    replay_path = None
    if bad:
        # smallest first
        bad.sort(key=lambda i: len(by_id[i]))
        replay_path = replay or os.path.join(evidence_dir, "replay-%s.ndjson" % prop)
        if not replay:
            with open(replay_path, "w") as f:
                for i in bad[:20]:
                    f.write(by_id[i] + "\n")
        for i in bad[:3]:
            v = verdicts[i]
            log("case %d: exchanges %s, expected %s" % (i, v["bad"], json.dumps(v["want"])[:600]))
            log("  observed %s" % json.dumps(sample(by_id[i], v))[:1200])
        if found_races:
            log("data races were detected, the first:\n" + found_races)
        log("VIOLATION property=%s replay=%s" % (prop, replay_path))
    if not replay:
        picks, seen = [], set()
        for i, l in by_id.items():
            f = family_of(l)
            if f not in seen and verdicts[i]["applied"]:
                seen.add(f); picks.append(sample(l, verdicts[i]))
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": transitions, "traces_validated_against_impl": len(verdicts),
                "model_states": mstates, "model_transitions": mtransitions,
                "cases_by_family": families, "exchanges_judged": applied,
                "invariants": sorted({i for inv in plan["model"].values() for i in inv}),
                "temporal_properties_checked": deep, "race_detector": bool(detector),
                "known_findings_met": sorted(found), "samples": picks[:8],
            },
            "assumptions": plan["assumptions"], "wall_s": round(time.time() - began, 1), "violations": len(bad),
        }
        with open(os.path.join(evidence_dir, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1); f.write("\n")
    log("%s %s: %d states, %d cases, %d judgements, %d violations, %.1f s" % (
        prop, tier, states, len(verdicts), applied, len(bad), time.time() - began))
    return 1 if bad else 0


def family_of(line):
    return json.loads(line)["fam"]


def main():
    prop = sys.argv[1]
    replay, tier = None, os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay": replay = sys.argv[3]
        else: tier = sys.argv[2]
    try:
        code = check(prop, tier, int(os.environ.get("VERIF_SEED", "1")), replay)
    except NoAnswer as e:
        log("no answer for %s: %s" % (prop, e))
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
