"""Per property: models for TLC, executions of the implementation, sizes."""
import os
import gens
import vary


class P:
    def __init__(self, gen, quick, thorough, models=None, extra=None, assumptions=()):
        self.gen, self.quick, self.thorough = gen, quick, thorough
        self._models = models
        self.extra = extra
        self.assumptions = list(assumptions) or [
            "values are put into the library and read back through its i32/i64 conversions and its binary serde form"]

    def models(self, prop, tier):
        """The laws of the property over the specification; every step is made on the real code too."""
        law = {"module": "Laws.tla", "cfg": "Laws.cfg", "env": {"LAW": prop, "TIER": tier}, "steps": True}
        return [law] if self._models is None else self._models(tier)

    def ops(self, g, tier):
        n = self.quick if tier == "quick" else self.thorough
        ops = vary.again(g.r, self.gen(g, n))
        return ops if any(op == "soak" for op, _ in ops) else vary.at_once(g.r, ops, 12 if tier == "quick" else 60)


def calendar(what):
    """The calendar counted day by day in the specification, compared with the library over many cycles."""
    def extra(check, tmp, tier, seed):
        import os, re, subprocess, json
        out = check.tlc(tmp, "CalendarWalk.tla", "CalendarWalk.cfg")
        g, d = check.tlc_counts(out)
        rows = sorted(tuple(int(x) for x in m.group(1).split(", ")) for m in re.finditer(r'^"DAY <<(.*)>>"$', out, re.M))
        if [r[0] for r in rows] != list(range(146097)):
            raise check.Broken("the counted calendar has %d days" % len(rows))
        table = os.path.join(tmp, "calendar")
        with open(table, "w") as f:
            f.writelines(" ".join(map(str, r)) + "\n" for r in rows)
        last = 730 if what in ("parts", "trunc") else 14682
        if tier != "quick":                      # every date there is
            cycles = "-17:%d:1" % last
        elif last == 730:
            cycles = "-17:-16:1,-5:0:1,730:730:1,%d:730:83" % (-15 + seed % 83)
        else:
            cycles = "-17:-16:1,-5:0:1,14682:14682:1,%d:14682:1499" % (-15 + seed % 1499)
        p = subprocess.run([check.HARNESS, "calendar", table, cycles, what, "8"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise check.Broken("calendar replay failed: " + p.stderr[-500:])
        r = json.loads(p.stdout)
        return {"states": d, "transitions": g, "replayed": r["replayed"], "cycles": cycles, "violations": r["violations"]}
    return extra


def machine(tier):
    """The API as a state machine: everything a few steps deep, and long random walks."""
    deep = tier != "quick"
    mod = {"module": "Machine.tla", "cfg": "Machine.cfg", "steps": True}
    num, depth = (100, 300) if deep else (25, 120)
    return [dict(mod, env={"MODE": "all", "DEPTH": "3" if deep else "2", "TIER": tier}),
            dict(mod, env={"MODE": "walk", "DEPTH": str(depth), "TIER": tier},
                 extra=lambda seed: ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)])]


def words(tier):
    """The laws of C14, and the graph of a slot of the word cache."""
    laws = {"module": "Laws.tla", "cfg": "Laws.cfg", "env": {"LAW": "C14", "TIER": tier}, "steps": True}
    return [laws, {"module": "TokenCache.tla", "cfg": "TokenCache.cfg", "steps": True,
                   "env": {"TIER": tier, "PAIRS": "400" if tier == "quick" else "20", "SEED": os.environ.get("VERIF_SEED", "1")}}]


PLAN = {
    "C01": P(gens.c01, 24000, 300000, extra=calendar("ymd")),
    "C02": P(gens.c02, 24000, 300000),
    "C03": P(gens.c03, 40000, 250000),
    "C04": P(gens.c04, 40000, 250000),
    "C05": P(gens.c05, 16000, 200000, extra=calendar("read")),
    "C06": P(gens.c06, 32000, 200000),
    "C07": P(gens.c07, 10000, 100000),
    "C08": P(gens.c08, 60000, 400000),
    "C09": P(gens.c09, 60000, 400000),
    "C10": P(gens.c10, 60000, 400000),
    "C11": P(gens.c11, 80000, 500000),
    "C12": P(gens.c12, 80000, 500000),
    "C13": P(gens.c13, 20000, 120000),
    "C14": P(gens.c14, 40000, 400000, models=words),
    "C15": P(gens.c15, 30000, 300000),
    "C16": P(gens.c16, 80000, 400000),
    "C17": P(gens.c17, 80000, 400000),
    "C18": P(gens.c18, 80000, 400000),
    "C19": P(gens.c19, 80000, 400000),
    "C20": P(gens.c20, 30000, 300000),
    "C21": P(gens.c21, 60000, 300000),
    "C22": P(gens.c22, 20000, 200000),
    "C23": P(gens.c23, 20000, 200000),
    "C24": P(gens.c24, 30000, 300000, extra=calendar("trunc")),
    "C25": P(gens.c25, 60000, 300000),
    "C26": P(gens.c26, 30000, 300000, extra=calendar("parts")),
    "C27": P(gens.c27, 30000, 300000),
    "C28": P(gens.c28, 16000, 150000),
    "C29": P(gens.c29, 80000, 400000),
    "C30": P(gens.c30, 80000, 400000),
    "C31": P(gens.c31, 60000, 1200000, models=machine),
}
