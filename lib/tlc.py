"""Running TLC: checking recorded traces, model checking, and generating behaviours."""
import json, os, re, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class TlcError(Exception):
    pass


def run(module, cfg, meta, env=None, workers=1, timeout=600, java=(), args=()):
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx2g" if workers == 1 else "-Xmx10g"]
    if workers == 1:
        cmd += ["-XX:TieredStopAtLevel=1"]
    cmd += list(java) + ["-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
                         "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace")


def _stuck(out, n):
    """Index of the event the specification did not allow (None: all accepted)."""
    if "Model checking completed. No error has been found." in out:
        return None
    m = re.search(r'"REJECT", *(\d+)', out)
    if m:
        return int(m.group(1)) - 1
    m = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        return int(m.group(1)) - 1
    m = re.search(r"(\d+) states generated", out)
    if m:
        return int(m.group(1)) - 1
    raise TlcError(out[-3000:])


def check_traces(module, traces, tmp, timeout=600, env=None):
    """Checks each trace against the trace specification.

    Returns (list of (trace index, event index, TLC's explanation), events examined, states).
    """
    cost = [sum(len(e["text"]) if e["e"] == "conf" else 1 for e in t) for t in traces]
    order = sorted((i for i in range(len(traces)) if traces[i]), key=lambda i: -cost[i])
    total = sum(len(traces[i]) for i in order)
    k = max(1, min(CORES, sum(cost) // 1500 + 1))
    bins = [[] for _ in range(k)]
    load = [0] * k
    for i in order:
        j = load.index(min(load))
        bins[j].append(i)
        load[j] += cost[i]
    rejects, states = [], 0

    def one(j):
        todo, out, st, rounds = sorted(bins[j]), [], 0, 0
        while todo and rounds < 6:
            rounds += 1
            d = tempfile.mkdtemp(prefix="tlc", dir=tmp)
            f = d + "/trace.ndjson"
            at = []
            with open(f, "w") as h:
                for i in todo:
                    for n, e in enumerate(traces[i]):
                        h.write(json.dumps(e) + "\n")
                        at.append((i, n))
            rc, txt = run(module + ".tla", module + ".cfg", d, env=dict(env or {}, TRACE=f), timeout=timeout)
            if rc is None:
                raise TlcError("timeout checking traces")
            p = _stuck(txt, len(at))
            if p is None:
                st += len(at)
                break
            if p >= len(at):
                raise TlcError(txt[-3000:])
            st += p
            i, n = at[p]
            m = re.search(r'<<\s*"REJECT"', txt)
            m = m.start() if m else -1
            todo = todo[todo.index(i) + 1:]
            if "StackOverflowError" in txt or "OutOfMemoryError" in txt:
                continue                     # nothing decided about this trace
            out.append((i, n, txt[m if m >= 0 else max(0, txt.find("Error:")):][:6000]))
        return out, st

    with ThreadPoolExecutor(k) as ex:
        for out, st in ex.map(one, range(k)):
            rejects += out
            states += st
    return sorted(rejects), total, states
