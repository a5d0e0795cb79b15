"""Model checking of the specification itself with TLC (independent of the code)."""
import os, re, tempfile
from concurrent.futures import ThreadPoolExecutor
import tlc


def engine(label, module, quick, thorough, invariants, properties=(), split=False, spec="Spec", timeout=(240, 700), base=None, view=None, walks=None):
    """quick, thorough: the constants of the model.  split: run it in as many parts (constants Part, Parts) as there are cores.
    walks: (quick, thorough, length): random walks through the model instead of all of it, so many on each core."""
    def run(ctx):
        consts = dict(BufMax=16383, ReplayMax=4096)
        consts.update(base or {})
        consts.update(thorough if ctx.thorough else quick)
        n = tlc.CORES if split or walks else 1

        def one(i):
            d = tempfile.mkdtemp(prefix="mc", dir=ctx.tmp)
            c = dict(consts, **({"Part": i, "Parts": n} if split else {}))
            with open(d + "/m.cfg", "w") as f:
                f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" % spec)
                f.write("".join("  %s = %s\n" % kv for kv in c.items()))
                if invariants:
                    f.write("INVARIANTS %s\n" % " ".join(invariants))
                if properties:
                    f.write("PROPERTIES %s\n" % " ".join(properties))
                if view:
                    f.write("VIEW %s\n" % view)
            args = ["-simulate", "num=%d" % walks[1 if ctx.thorough else 0], "-depth", str(walks[2]), "-seed", str(ctx.seed * 100 + i)] if walks else []
            rc, out = tlc.run(module + ".tla", d + "/m.cfg", d, workers=1 if n > 1 else tlc.CORES, timeout=timeout[1 if ctx.thorough else 0], args=args)
            w = re.search(r"The number of states generated: (\d+)", out)
            if walks and rc == 0 and w:
                return int(w.group(1)), 0
            m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
            if rc != 0 or not m:
                raise tlc.TlcError("%s: %s" % (label, out[-3000:]))
            return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

        with ThreadPoolExecutor(n) as ex:
            r = list(ex.map(one, range(n)))
        ctx.add(states=sum(x[1] for x in r), transitions=sum(x[0] for x in r))
        if walks:
            consts["walks"] = "%d of up to %d steps" % (walks[1 if ctx.thorough else 0] * n, walks[2])
        ctx.cov.setdefault("models", []).append(dict(model=module, constants={k: v for k, v in consts.items()}, distinct_states=sum(x[1] for x in r),
                                                     states_generated=sum(x[0] for x in r), invariants=list(invariants) + list(properties)))
    run.label = label
    return run
