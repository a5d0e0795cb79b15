"""Engines that run the real programs and check their traces against the specification."""
import collections, itertools, json, multiprocessing, os, random, subprocess, time, traceback
import cdrv, cfgd, cgen, ctld, gen, scen, tlc, tpolld


class Daemon:
    kind, tools, module = "daemon", ("conmand", "conhelp"), "TraceConMan"

    @staticmethod
    def execute(sc, tools, tmp):
        r = scen.execute(sc, tools, tmp)
        return r.trace, r.err


class Client:
    kind, tools, module = "client", ("conman",), "TraceClient"

    @staticmethod
    def execute(sc, tools, tmp):
        return cdrv.execute(sc, tools["conman"], tmp), ""


class Config:
    kind, tools, module = "config", ("conmand", "conhelp"), "TraceConfig"

    @staticmethod
    def execute(sc, tools, tmp):
        return cfgd.execute(sc, tools, tmp)


class Control:
    kind, tools, module = "control", ("kconmand",), "TraceControl"

    @staticmethod
    def execute(sc, tools, tmp):
        return ctld.execute(sc, tools, tmp)


class TPoll:
    kind, tools, module = "tpoll", ("tpollh",), "TraceTPoll"

    @staticmethod
    def execute(sc, tools, tmp):
        return tpolld.execute(sc, tools, tmp)


TARGETS = {t.kind: t for t in (Daemon, Client, Config, Control, TPoll)}


def _exec(job):
    i, sc, tools, tmp, deadline, target = job
    if time.time() > deadline:
        return i, None, "skipped", ""
    try:
        tr, err = target.execute(sc, tools, tmp)
        return i, tr, None, err
    except Exception:
        return i, None, traceback.format_exc(), ""


def execute_all(ctx, scs, budget, target=Daemon):
    dl = time.time() + budget
    jobs = [(i, sc, ctx.tools, ctx.tmp, dl, target) for i, sc in enumerate(scs)]
    res = [None] * len(scs)
    with multiprocessing.Pool(tlc.CORES) as p:
        for r in p.imap_unordered(_exec, jobs, chunksize=4):
            res[r[0]] = r
    return res


def shorten(e):
    return {k: (v if not isinstance(v, str) or len(v) < 200 else v[:120] + "...(%d bytes)" % len(v))
            for k, v in e.items() if k not in ("long", "short", "tz", "p", "rx")}


def engine(label, make, budget=(60, 400), target=Daemon):
    """make(ctx) -> list of scenarios"""
    def run(ctx):
        ctx.build(*target.tools)
        scs = make(ctx)
        res = execute_all(ctx, scs, budget[1 if ctx.thorough else 0], target)
        errs = [r for r in res if r[2] and r[2] != "skipped"]
        # an execution the driver could not carry through is tried again by itself
        for r in errs:
            q = _exec((r[0], scs[r[0]], ctx.tools, ctx.tmp, time.time() + 60, target))
            if q[2]:
                raise RuntimeError("scenario %d: %s" % (r[0], q[2]))
            res[r[0]] = q
        judge(ctx, label, scs, res, target)
    run.label = label
    return run


def judge(ctx, label, scs, res, target=Daemon):
    module = target.module
    traces = [r[1] or [] for r in res]
    rej, total, states = tlc.check_traces(module, traces, ctx.tmp)
    ev = collections.Counter()
    for t in traces:
        for e in t:
            ev[e["e"] + (":" + e["ty"] if "ty" in e else "") + (":" + str(e.get("r")) if e["e"] in ("try", "so") else "")] += 1
    n_ok = sum(1 for t in traces if t) - len(rej)
    ctx.add(states=states, transitions=total, traces_validated_against_impl=n_ok, events=dict(ev),
            skipped=sum(1 for r in res if r[2] == "skipped"))
    sam = ctx.cov.setdefault("sample_cases", [])
    for r in res:
        if r[1] and len(sam) < 2:
            sam.append(dict(engine=label, world={k: v for k, v in scs[r[0]].items() if k != "steps"}, steps=scs[r[0]].get("steps", [])[:12],
                            trace=[shorten(e) for e in r[1][min(1, len(r[1]) - 1):14]]))
    bad = 0
    for i, n, txt in rej:
        # believed only if it happens again
        again = None
        for _ in range(3):
            q = _exec((i, scs[i], ctx.tools, ctx.tmp, time.time() + 120, target))
            if not q[1]:
                continue
            r2, _t, _s = tlc.check_traces(module, [q[1]], ctx.tmp)
            if r2:
                again = (q, r2[0])
                break
        if again is None:
            ctx.notes.append("%s: scenario %d rejected once, not repeated" % (label, i))
            continue
        q, (_, n, txt) = again
        t = q[1]
        what = "%s, scenario %d: after %d events the specification does not allow %s" % (
            label, i, n, json.dumps(shorten(t[n])) if n < len(t) else "?")
        ctx.violation(what, dict(engine=label, kind=target.kind, scenario=scs[i], event=n, trace=t[max(0, n - 40):n + 1], tlc=txt,
                                 stderr=q[3][-3000:]))
        bad += 1
        if bad >= 3:
            break


def random_engine(profiles, budget=(60, 400)):
    """profiles: list of (name, profile, quick count, thorough count)"""
    def make(ctx):
        out = []
        for name, prof, nq, nt in profiles:
            for i in range(nt if ctx.thorough else 2 * nq):
                out.append(gen.make(random.Random("%s/%s/%d/%d" % (ctx.id, name, ctx.seed, i)), prof))
        return out
    return engine("random scenarios (" + ", ".join(p[0] for p in profiles) + ")", make, budget)


def every_engine(label, kind, logs, quick, thorough, budget=(60, 400)):
    """quick, thorough: (alphabet, length) of the words the device sends"""
    def make(ctx):
        out = []
        for a, n in (thorough if ctx.thorough else quick):
            out += gen.every(random.Random("%s/every/%d" % (ctx.id, ctx.seed)), kind, logs, a, n)
        return out
    return engine(label, make, budget)


def client_random(profiles, budget=(60, 400)):
    def make(ctx):
        return [cgen.scenario(random.Random("%s/%s/%d/%d" % (ctx.id, name, ctx.seed, i)), prof)
                for name, prof, nq, nt in profiles for i in range(nt if ctx.thorough else nq)]
    return engine("random scenarios (" + ", ".join(p[0] for p in profiles) + ")", make, budget, Client)


def config_random(profiles, budget=(60, 400)):
    def make(ctx):
        return [cfgd.scenario(random.Random("%s/%s/%d/%d" % (ctx.id, name, ctx.seed, i)), prof)
                for name, prof, nq, nt in profiles for i in range(nt if ctx.thorough else nq)]
    return engine("random configurations (" + ", ".join(p[0] for p in profiles) + ")", make, budget, Config)


def control_random(profiles, budget=(60, 400)):
    def make(ctx):
        return [ctld.scenario(random.Random("%s/%s/%d/%d" % (ctx.id, name, ctx.seed, i)), prof)
                for name, prof, nq, nt in profiles for i in range(nt if ctx.thorough else nq)]
    return engine("daemons and requests (" + ", ".join(p[0] for p in profiles) + ")", make, budget, Control)


def _batch(job):
    scs, exe, tmp = job
    return tpolld.run(exe, [sc["script"] for sc in scs], tmp)


def tpoll_engine(label, make, size=20000):
    """Scripts for tpoll.c; make(ctx): an iterable of scenarios, run and checked some thousands at a time."""
    def run(ctx):
        ctx.build(*TPoll.tools)
        it = iter(make(ctx))
        while not ctx.violations:
            scs = list(itertools.islice(it, size))
            if not scs:
                return
            k = max(1, min(100, len(scs) // 16 + 1))
            jobs = [(scs[i:i + k], ctx.tools["tpollh"], ctx.tmp) for i in range(0, len(scs), k)]
            with multiprocessing.Pool(tlc.CORES) as p:
                trs = [t for b in p.map(_batch, jobs, chunksize=1) for t in b]
            if len(trs) != len(scs):
                raise RuntimeError("%d scripts, %d traces" % (len(scs), len(trs)))
            judge(ctx, label, scs, [(i, t, None, "") for i, t in enumerate(trs)], TPoll)
    run.label = label
    return run


def tpoll_random(profiles):
    def make(ctx):
        for name, prof, nq, nt in profiles:
            for i in range(nt if ctx.thorough else nq):
                yield tpolld.scenario(random.Random("%s/%s/%d/%d" % (ctx.id, name, ctx.seed, i)), prof)
    return tpoll_engine("random scripts (" + ", ".join(p[0] for p in profiles) + ")", make)


def tpoll_short(quick, thorough):
    """Every short script.  quick, thorough: lists of (alphabet, length, head, tail)"""
    def make(ctx):
        for a, n, head, tail in (thorough if ctx.thorough else quick):
            yield from tpolld.short(a, n, tail, head)
    return tpoll_engine("every short script", make)


def threads_engine(quick, thorough):
    """The specification's steps are atomic: real threads under ThreadSanitizer, for some seconds."""
    def run(ctx):
        ctx.build("tpollt")
        secs = thorough if ctx.thorough else quick
        probe = lambda pre: subprocess.run(pre + [ctx.tools["tpollt"], "0", "1"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        pre = []
        if b"unexpected memory mapping" in probe([]).stderr:
            pre = ["setarch", "-R"]
            if b"FATAL" in probe(pre).stderr:
                ctx.notes.append("ThreadSanitizer cannot run here")
                return
        ps = [subprocess.Popen(pre + [ctx.tools["tpollt"], str(secs), str(ctx.seed * 100 + i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0")) for i in range(4)]
        for p in ps:
            try:
                out, err = p.communicate(timeout=secs + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                err = b"hangs\n" + err
            err = err.decode("utf-8", "replace")
            if p.returncode == 0:
                ctx.add(calls_with_real_threads=int(out))
            elif "ThreadSanitizer: data race" in err or "ThreadSanitizer: heap-use-after-free" in err or err.startswith("hangs"):
                ctx.violation("threads share what the lock should guard: " + err[:1200], dict(engine="real threads", kind="threads", secs=secs, stderr=err[-6000:]))
                return
            elif "ThreadSanitizer" in err and "DEADLYSIGNAL" not in err and "SEGV" not in err:
                raise RuntimeError(err[-2000:])
            else:
                ctx.violation("real threads: ends with status %d: %s" % (p.returncode, err[:1000]), dict(engine="real threads", kind="threads", secs=secs, stderr=err[-6000:]))
                return
    run.label = "real threads"
    return run


def known_engine(target, cases):
    """cases: (key, scenario, what(event) -> the recorded finding shows).  A finding that is listed is printed, not raised."""
    def run(ctx):
        ctx.build(*target.tools)
        for key, sc, hit in cases:
            q = _exec((0, sc, ctx.tools, ctx.tmp, time.time() + 60, target))
            if q[2]:
                raise RuntimeError(q[2])
            rej, total, states = tlc.check_traces(target.module, [q[1]], ctx.tmp, env={"STRICT": "1"})
            ctx.add(states=states, transitions=total)
            if not rej:
                continue
            e = q[1][rej[0][1]] if rej[0][1] < len(q[1]) else {}
            text = ctx.listed(key)
            if hit(e) and text:
                ctx.known.append(text)
            else:
                ctx.violation("%s: the specification does not allow %s" % (key, json.dumps(shorten(e))),
                              dict(engine="recorded findings", kind=target.kind, scenario=sc, event=rej[0][1], trace=q[1], tlc=rej[0][2], stderr=q[3][-3000:]))
    run.label = "recorded findings"
    return run


def client_words(quick, thorough, budget=(60, 400)):
    """Every word over an alphabet, typed in sessions.  quick, thorough: lists of (alphabet, length, keyword arguments)"""
    def make(ctx):
        out = []
        for al, n, kw in (thorough if ctx.thorough else quick):
            out += cgen.sessions(list(cgen.words_over(al, n)), **kw)
        return out
    return engine("all short inputs", make, budget, Client)
