#!/usr/bin/env python3
"""check.py PROPERTY [TIER]        decide one property on /repo's working tree
   check.py --replay FILE          execute a replay file again and judge it
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vals, plan  # noqa: E402

BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(TARGET, "debug", "pgdt-harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = 8
SESSIONS = 8


class Broken(Exception):
    out = ""


def build():
    env = dict(os.environ, CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    os.makedirs(BUILD, exist_ok=True)
    sh = "[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; export CARGO_TARGET_DIR=%s; exec cargo build --offline --locked" % TARGET
    p = subprocess.run(["bash", "-c", sh], cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        raise Broken("the harness does not build")


def tlc(tmp, module, cfg, extra=(), env=None, workers=WORKERS, heap="6g"):
    """Run TLC; returns its output. Anything but success is Broken."""
    meta = tempfile.mkdtemp(prefix="meta", dir=tmp)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg] + list(extra) + [module]
    p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    if p.returncode != 0:
        lines = [l for l in p.stdout.split("\n") if not re.match(r"(Parsing|Semantic|Linting|State \d+:|\"STEP|\"MISM)", l)]
        print("\n".join(lines)[-5000:])
        e = Broken("TLC failed on %s / %s (exit %d)" % (module, cfg, p.returncode))
        e.out = p.stdout
        raise e
    return p.stdout


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    n = int(m[-1].replace(",", "")) if m else 0
    return n, n


def execute(tmp, ops, sessions=SESSIONS, tag="run"):
    """Run operations against the library. Returns the records in order (fewer if a call never returned)."""
    inp, out = os.path.join(tmp, tag + ".in"), os.path.join(tmp, tag + ".out")
    with open(inp, "w") as f:
        for op, a in ops:
            f.write(json.dumps({"op": op, "a": a}, separators=(",", ":")) + "\n")
    try:
        p = subprocess.run([HARNESS, "record", inp, out, str(sessions)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=600)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    if rc != 0:
        return rc, []
    with open(out) as f:
        return 0, [json.loads(l) for l in f]


def bisect_crash(tmp, ops):
    """The process died (not a panic: an abort, a stack overflow...): find one operation that kills it."""
    if len(ops) == 1:
        return ops[0]
    h = len(ops) // 2
    for part in (ops[:h], ops[h:]):
        rc, _ = execute(tmp, part, 1, "bis")
        if rc != 0:
            return bisect_crash(tmp, part)
    return None


BATCH = 150000


def validate(tmp, recs, tag="trace"):
    """Check records against the specification; returns ([(index, expectation)], (generated, distinct))."""
    bad, gen, dist, unjudged = [], 0, 0, []
    for start in range(0, len(recs), BATCH) or [0]:
        part = list(range(start, min(start + BATCH, len(recs))))
        while True:
            try:
                b, (g, d) = validate_batch(tmp, [recs[i] for i in part], tag)
                break
            except Broken as e:
                # a record the specification cannot evaluate: the others are still judged
                m = re.findall(r"^/\\ pos = (\d+)", e.out, re.M)
                if len(unjudged) == 8 or not m or int(m[-1]) >= len(part):
                    raise
                unjudged.append((recs[part.pop(int(m[-1]))], e))
        bad += [(part[i], w) for i, w in b]
        gen, dist = gen + g, dist + d
    if unjudged and not bad:
        raise Broken("not evaluated: %s\n%s" % unjudged[0])
    return bad, (gen, dist)


def validate_batch(tmp, recs, tag):
    path = os.path.join(tmp, tag + ".ndjson")
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    out = tlc(tmp, "Trace.tla", "Trace.cfg", env={"TRACE": path})
    gen, dist = tlc_counts(out)
    chains = 16
    clen = (len(recs) + chains - 1) // chains
    inits = len({(min(c * clen, len(recs)), min((c + 1) * clen, len(recs))) for c in range(chains)})
    if dist != len(recs) + inits:
        print(out[-3000:])
        raise Broken("TLC visited %d states for %d records" % (dist, len(recs)))
    bad = []
    for m in re.finditer(r'^"MISMATCH (\d+) (.*)"$', out, re.M):
        bad.append((int(m.group(1)) - 1, m.group(2).replace('\\"', '"')))
    return sorted(bad), (gen, dist)


def show(op, a):
    """Arguments with texts readable."""
    def one(x):
        return bytes(x).decode("utf8", "replace") if isinstance(x, list) and len(x) > 0 else x
    if re.search(r"_(parse|unjson)$", op):
        return [one(a[0])] + a[1:]
    return a


def known():
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) op=(\S+) args=(\S+)\s*(.*)", l)
            if m:
                out.append((m.group(1), m.group(2), json.loads(m.group(3)), m.group(4)))
    return out


def run(prop, tier, seed):
    t0 = time.time()
    p = plan.PLAN[prop]
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    replays = os.path.join(BUILD, "replay")
    os.makedirs(replays, exist_ok=True)
    try:
        build()
        states = transitions = 0
        notes = []
        ops = []
        # 1. the property as theorems of the specification, checked by TLC; its steps are kept for replay
        for mc in p.models(prop, tier):
            out = tlc(tmp, mc["module"], mc["cfg"], mc.get("extra", lambda s: [])(seed), env=mc.get("env"))
            g, d = tlc_counts(out)
            steps = []
            for m in re.finditer(r'^"STEPS? (.*)"$', out, re.M):   # a call, or calls one after the other
                r = json.loads(m.group(1).replace('\\"', '"'))
                steps += [(x["op"], x["a"]) for x in (r if isinstance(r, list) else [r])]
            if mc.get("steps") and not steps:
                raise Broken("no steps from " + mc["cfg"])
            notes.append({"model": mc["module"] + " " + json.dumps(mc.get("env", {})), "states": d, "generated": g, "steps_replayed": len(steps)})
            states += d
            transitions += g
            ops += steps
        nmodel = len(ops)
        # 2. further executions of the implementation, made from the seed
        g = vals.G(seed, prop + tier)
        ops += p.ops(g, tier)
        rc, recs = execute(tmp, ops)
        crash = None
        if rc != 0:
            crash = bisect_crash(tmp, ops) or ("?", [])
        bad = []
        if not crash:
            # 3. every recorded execution is judged by the specification
            bad, (gs, ds) = validate(tmp, recs)
            states += ds
            transitions += gs
            if len(recs) < len(ops) and not any(r["k"] == "hang" for r in recs):
                raise Broken("records are missing")
        cal = None
        if p.extra:
            cal = p.extra(sys.modules[__name__], tmp, tier, seed)
            states += cal.get("states", 0)
            transitions += cal.get("transitions", 0)
        kf = known()
        found, seen_known = [], []
        if crash:
            found.append({"op": crash[0], "a": crash[1], "k": "process died (%s)" % rc, "v": [], "want": "an answer"})
        for i, want in bad:
            r = dict(recs[i], want=want)
            hit = [x for x in kf if x[0] == prop and x[1] == r["op"] and x[2] == r["a"]]
            if hit:
                seen_known.append(hit[0])
            else:
                # does it need the calls before it?
                rc1, one = execute(tmp, [(r["op"], r["a"])], 1, "one")
                if len(found) < 40 and rc1 == 0 and (one[0]["k"], one[0]["v"]) == (r["k"], r["v"]):
                    r["history"] = []
                else:
                    per = (len(ops) + SESSIONS - 1) // SESSIONS
                    r["history"] = [list(o) for o in ops[(i // per) * per:i]]
                found.append(r)
                if len(found) > 60:
                    break
        found += (cal or {}).get("violations", [])
        for x in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, x[3]))
        kinds, opcount = {}, {}
        for r in recs:
            kinds[r["k"]] = kinds.get(r["k"], 0) + 1
            opcount[r["op"]] = opcount.get(r["op"], 0) + 1
        distinct = len({(r["op"], json.dumps(r["a"])) for r in recs})
        step = max(1, len(recs) // 6)
        samples = [{"call": r["op"], "args": show(r["op"], r["a"]), "outcome": r["k"], "value": r["v"]}
                   for r in recs[::step][:6]]
        cov = {"states": states, "transitions": transitions, "traces_validated_against_impl": len(recs) + (cal or {}).get("replayed", 0),
               "samples": samples, "distinct_calls": distinct, "calls_from_model_steps": nmodel,
               "calls_by_operation": opcount, "outcomes": kinds, "models": notes}
        if cal:
            cov["table_replay"] = {k: v for k, v in cal.items() if k != "violations"}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": p.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(found)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if found:
            path = os.path.join(replays, prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": prop, "violations": found}, f, indent=1)
            for r in found[:10]:
                print("  %s%s -> %s %s, specified: %s" % (r["op"], show(r["op"], r["a"]), r["k"], r["v"], r["want"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("ok %s %s: %d calls validated, %d states, %.1f s" % (prop, tier, len(recs), states, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    tmp = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        build()
        bad_any = False
        for r in json.load(open(path))["violations"]:
            ops = [tuple(x) for x in r.get("history", [])] + [(r["op"], r["a"])]
            rc, recs = execute(tmp, ops, 1)
            if rc != 0:
                print("process died:", r["op"], show(r["op"], r["a"]))
                bad_any = True
                continue
            bad, _ = validate(tmp, recs)
            for i, want in bad:
                bad_any = True
                x = recs[i]
                print("%s%s -> %s %s, specified: %s" % (x["op"], show(x["op"], x["a"]), x["k"], x["v"], want))
        return 1 if bad_any else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            build()
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(run(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
    except Broken as e:
        print("BROKEN:", e)
        sys.exit(2)
