"""Waiting and timers: scripts for harness/tpollh.c, checked against spec/TPoll.tla.

A script is a line: SIZE TICK NOW WORD...  A word is set:FD:EV clr:FD:EV is:FD:EV zero:HOW rel:MS abs:US can:K rdy:FD:EV adv:US
tpoll:MS null, with "<", "!" or ">" before it when another thread does it just before poll() looks at the array, while it sleeps,
or just before it returns ("+": while it sleeps, together with the word before); !intr interrupts the sleep.  What a timer does when it runs stands in { } after the word that set it.
"""
import itertools, json, os, subprocess, tempfile

FDS = [20, 21, 22, 30, 255, 256, 257, 300, 520, 1030, 4100]


def run(exe, lines, tmp):
    """The traces of some scripts."""
    f = tempfile.NamedTemporaryFile(dir=tmp, delete=False)
    f.close()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77")
    subprocess.run([exe, f.name], input="".join(l + "\n" for l in lines).encode(), env=env, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, timeout=600)
    out, cur = [], []
    for l in open(f.name):
        try:
            e = json.loads(l)
        except ValueError:                   # cut short by a crash
            continue
        if e["e"] == "--":
            out.append(cur)
            cur = []
        else:
            cur.append(e)
    os.unlink(f.name)
    return out


def execute(sc, tools, tmp):
    t = run(tools["tpollh"], [sc["script"]], tmp)
    return (t[0] if t else []), ""


def words(r, prof):
    """One random script's words."""
    fds = r.sample(FDS, r.randint(1, 4)) if r.random() < prof.get("far", 0.5) else [20, 21, 22][:r.randint(1, 3)]
    nt = [0]

    def fd():
        return r.choice(fds)

    def ev():
        return r.choice(["i", "i", "o", "io"])

    def when():
        return r.choice([0, 0, 1, 1, 2, 5, 10, 100, 999, 1000, 1001, 60000, 3600000, 2000000000, 2147483647])

    def op(depth=0, other=False):
        x = r.random()
        if x < 0.25:
            return ["set:%d:%s" % (fd(), ev())]
        if x < 0.42:
            return ["clr:%d:%s" % (fd(), ev())]
        if x < 0.5:
            return ["rdy:%d:%s" % (fd(), r.choice(["i", "o", "io", "h", "e", "0", "0", "ih", "n"]))]
        if x < 0.72:
            nt[0] += 1
            if r.random() < 0.6:
                w = "rel:%d" % r.choice([when(), when(), -1])
            else:
                w = "abs:%d" % r.choice([-5000000, -1, 0, 1, 500, 1000, 1500, 999999, 1000000, 10 ** 7, 86400 * 10 ** 6, 2160000 * 10 ** 6, 10 ** 14])
            if depth < 2 and r.random() < 0.5:
                b = []
                for _ in range(r.randint(1, 3)):
                    b += op(depth + 1)
                return [w, "{"] + b + ["}"]
            return [w]
        if x < 0.84:
            return ["can:%d" % r.choice([r.randint(1, nt[0] + 1), r.randint(1, nt[0] + 1), nt[0], 0, -1])]
        if x < 0.88:
            return ["zero:%d" % r.choice([1, 1, 2, 2, 3, 0, 4, -1])]
        if x < 0.93 and not other:
            return ["adv:%d" % r.choice([1, 999, 1000, 5000, 1000000, 10 ** 8])]
        return ["is:%d:%s" % (r.choice([fd(), fd(), 25, 3000, -1]), r.choice(["i", "o", "io", "ioehn"]))]

    out = []
    for _ in range(r.randint(*prof.get("steps", (4, 24)))):
        if r.random() < 0.45:
            out.append("tpoll:%d" % r.choice([-1, -1, -1, 0, 0, 1, 2, 10, 1000, 60000, 2147483647]))
            if r.random() < prof.get("other", 0.7):
                for _ in range(r.choice([1, 1, 2, 3, 5])):
                    c = r.choice(prof.get("phases", "<!!!!>"))
                    if c == "!" and out[-1][0] in "!+" and r.random() < 0.4:
                        c = "+"
                    if c == "!" and r.random() < 0.25:
                        out.append("!adv:%d" % r.choice([1, 400, 1000, 1500, 10000, 10 ** 6, 10 ** 8]))
                    elif c == "!" and r.random() < 0.06:
                        out.append("!intr")
                    else:
                        w = op(other=c != "!")
                        if w[0][:4] == "adv:":
                            w = ["rdy:%d:%s" % (fd(), ev())]
                        if "{" in w and r.random() < 0.7:
                            w = w[:1]
                        out += [c + w[0]] + w[1:]
            for f in fds:
                if r.random() < 0.6:
                    out.append("is:%d:%s" % (f, r.choice(["io", "ioehn"])))
            if r.random() < 0.3:
                out.append("rdy:%d:0" % fd())
        elif r.random() < 0.02:
            out.append("null")
        else:
            out += op()
    return out


def scenario(r, prof):
    tick = r.choice([0, 0, 0, 1, 1, 50])
    now = r.choice([10 ** 15, 10 ** 15 + 999999, 10 ** 15 + 1, 10 ** 15 + r.randrange(10 ** 6)])
    size = r.choice([0, 0, 0, 0, 1, 2, 7, 16, 64])
    return dict(script="%d %d %d %s" % (size, tick, now, " ".join(words(r, prof))))


def short(alphabet, n, tail, head=()):
    """Every script of up to n of these words, followed by the tail."""
    for k in range(0, n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield dict(script="0 0 %d %s" % (10 ** 15 + 999000, " ".join(list(head) + list(w) + list(tail))))
