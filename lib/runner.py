"""One check: runs the engines of a property, confirms what they report, writes the evidence."""
import json, multiprocessing, os, random, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="cmcheck")
        self.tools = {}
        self.violations = []                 # dict(what=, replay=)
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.notes = []

    def left(self):
        return (1500 if self.thorough else 240) - (time.time() - self.t0)

    def build(self, *what):
        for w in what:
            if w in self.tools:
                continue
            d = os.path.join(self.tmp, "b_" + w)
            if w == "conmand":
                self.tools[w] = build.conmand(d)
            elif w == "conman":
                self.tools[w] = build.conman(d, shim="cshim.c")
            elif w == "kconmand":            # gated at the calls that matter to who runs
                self.tools[w] = build.conmand(d, shim=("kshim.c", "fakeipmi.c"), wraps=build.KWRAPS)
            elif w == "tpollh":
                self.tools[w] = build.tpollh(d)
            elif w == "tpollt":
                self.tools[w] = build.tpollt(d)
            else:
                self.tools[w] = build.harness(w, d)
        return self.tools

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, dict):
                o = self.cov.setdefault(k, {})
                for a, b in v.items():
                    o[a] = o.get(a, 0) + b
            else:
                self.cov[k] = self.cov.get(k, 0) + v

    def listed(self, key):
        """The text of a recorded finding, if known-findings.txt lists it."""
        for l in known_findings(self.id):
            t = l.split(" ", 2)[2]
            if t.startswith("[%s]" % key):
                return t

    def violation(self, what, data):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = os.path.join("replays", "%s-%d-%d.json" % (self.id, self.seed, len(self.violations)))
        json.dump(dict(property=self.id, what=what, **data), open(os.path.join(VERIF, p), "w"), indent=1)
        self.violations.append(dict(what=what, replay=p))


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                out.append(l.strip())
    return out


def main(argv):
    import plans
    args = [a for a in argv if not a.startswith("--")]
    if "--replay" in argv:
        return plans.replay(args[0])
    pid = args[0]
    tier = "thorough" if "--thorough" in argv else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(pid, tier, seed)
    try:
        plan = plans.PLANS[pid]
        for eng in plan["engines"]:
            if ctx.violations and not ctx.thorough:
                break
            t = time.time()
            eng(ctx)
            ctx.notes.append("%s: %.1f s" % (getattr(eng, "label", getattr(eng, "__name__", "engine")), time.time() - t))
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=plan.get("level", "model_checking"), coverage=ctx.cov,
              wall_s=round(time.time() - ctx.t0, 2), assumptions=plan.get("assumptions", plans.ASSUME),
              violations=len(ctx.violations))
    ev["coverage"]["samples"] = ev["coverage"].pop("sample_cases", []) or ["none"]
    ev["coverage"]["engines"] = ctx.notes
    ev["coverage"]["found"] = [v["what"][:400] for v in ctx.violations]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for v in ctx.violations:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        print("  " + v["what"][:1500].replace("\n", "\n  "))
    if not ctx.violations:
        print("OK property=%s %s" % (pid, json.dumps({k: v for k, v in ctx.cov.items() if not isinstance(v, (dict, list))})))
    sys.stdout.flush()
    return 1 if ctx.violations else 0
