"""Random scenarios.  A profile weights what happens; every choice comes from the given rng."""
from scen import hello, request

PR = "".join(chr(i) for i in range(32, 127))
ESCS = "BDFJMLQRZ"
NAMES = ["alpha", "beta", "node1", "node2", "node10", "n01", "n2", "n10", "x", "x9", "Node1", "web-1", "web.2", "a_b",
         "rack1 n1", "it's", "q]z", "foo[1]", "star*", "plus+", "hat^", "sl/ash", "tilde~", "12", "7", "a12b", "a12b3"]


KEYWORDS = ["OK", "ERROR", "CONSOLE", "console=", "OPTION", "QUIET", "HELLO", "USER", "CODE", "MESSAGE", "EOF", "12", "-1", "a\\b", "\\", "#", "&.", "%41", "=", "a,b", " "]


def printable(r, quotes=3):
    """Any printable text; quotes: 1 no double, 2 no single, 3 both allowed."""
    if r.random() < 0.2:
        s = r.choice(KEYWORDS) + r.choice(["", "x", " y"])
    else:
        s = "".join(r.choice("abcxyz019" if r.random() < 0.3 else PRINT) for _ in range(r.choice([1, 2, 3, 5, 8, 20, 40])))
    if quotes == 1:
        s = s.replace('"', "'")
    elif quotes == 2:
        s = s.replace("'", '"')
    return s if s.strip() else "x" + s


PRINT = "".join(map(chr, range(32, 127)))


def text(r, n):
    return "".join(r.choice(PR) for _ in range(n))


def lines(r, n):
    """Console-like output with all sorts of line ends."""
    out = ""
    while len(out) < n:
        out += text(r, r.randrange(0, 12)) + r.choice(["\r\n", "\n", "\r", "\n\r", "\r\r\n", "\r\0", "\n\0", "\n\n", "\0", "\t",
                                                       "\x7f", "\x80", "\xff", "\x8d", "\x8a", "\xa0", "", "", ""])
    return out[:n] if n else ""


def raw(r, n):
    return "".join(chr(r.randrange(256)) for _ in range(n))


def telnetish(r, n):
    out = ""
    I = "\xff"
    while len(out) < n:
        out += r.choice([text(r, r.randrange(1, 8)), I + I, I + r.choice("\xfb\xfc\xfd\xfe") + chr(r.choice([0, 1, 3, 5, 24, 31, 34, 255, 200])),
                         I + "\xfa" + chr(r.choice([24, 31])) + r.choice(["", "ab", I + I, "x" + I + I + "\xf0", I + "q"]) + I + "\xf0",
                         I + chr(r.choice([240, 241, 242, 243, 246, 249, 10, 65])), "\r\0", "\r\n"])
    return out


def payload(r, kind, size):
    f = r.choice([text, lines, raw] if kind != "telnet" else [text, lines, telnetish, telnetish, raw])
    return f(r, min(size, 300) if f in (raw,) else size)


CORE = dict(kinds=["unix"], ncons=(1, 3), nlogs=0.7, san=0.3, ts=0.3, steps=(14, 34), maxcli=5, reset=0.0, tstamp=0.0,
            w=dict(newcli=5, cdata=8, kdata=8, esc=8, block=3, unblock=3, part=2, kclose=3, khalf=1, ceof=1, cback=2, adv=2,
                   burst=3, norun=6, cap=2, big=1, hup=0.4, logerr=0.3, conblock=1, badhs=0.4, reset=0, partrun=2,
                   conc=0.4, query=0.2, slices=0.3, fault=0, fill=0.3),
            esc=ESCS, opts=dict(FORCE=2, JOIN=2, NONE=4, QUIET=1), cmds=dict(CONNECT=5, MONITOR=2, BCAST=1, QUERY=0.5))


def merge(p):
    out = dict(CORE)
    for k, v in p.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict) and k == "w":
            out[k] = dict(out[k], **v)
        else:
            out[k] = v
    return out


LINES = [("9600", "9600,8N1"), ("115200,8n1", "115200,8N1"), ("1200,7E2", "1200,7E2"), ("300,5o1", "300,5O1"), ("19200,8", "19200,8N1"),
         ("38400,7e", "38400,7E1"), ("57600,6O2", "57600,6O2"), ("4800,8E1", "4800,8E1"), ("2400,5n2", "2400,5N2"), ("110,6e1", "110,6E1")]
TIO = dict(i=["IGNCR", "INLCR", "ICRNL", "IUCLC", "ISTRIP", "PARMRK", "INPCK", "IXON", "BRKINT"], o=["OPOST", "ONLCR", "OCRNL", "OLCUC"],
           c=["PARODD", "CSTOPB", "HUPCL"], l=["ICANON", "ECHO", "ECHOE", "ISIG", "IEXTEN", "ECHONL", "TOSTOP"])
TIO["-c"] = ["CLOCAL"]


def serial(r, c):
    """Settings for a serial console, and what its line is set to before the daemon opens it."""
    if r.random() < 0.6:
        c["line"] = r.choice(LINES)
    if r.random() < 0.7:
        c["tio"] = {k: [f for f in v if r.random() < 0.3] for k, v in TIO.items()}
        c["tio"]["bps"] = r.choice(["B300", "B38400", "B9600", "B115200"])


def bruijn(a, n):
    """A string in which every word of n characters of a occurs (a de Bruijn sequence, unrolled)."""
    k, out, w = len(a), [], [0] * (n * len(a))

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(w[1:p + 1])
            return
        w[t] = w[t - p]
        db(t + 1, p)
        for j in range(w[t - p] + 1, k):
            w[t] = j
            db(t + 1, t)
    db(1, 1)
    out += out[:n - 1]
    return "".join(a[j] for j in out)


def every(r, kind, logs, a, n, size=500):
    """Scenarios in which the device sends every word of n of the bytes a, cut into reads at random."""
    s = bruijn(a, n)
    scs = []
    for i in range(0, len(s), size):
        p = s[i:i + size + n - 1]
        steps = [["lis", "c0"]] * (kind != "serial") + [["cli"], ["hs", "k0", hello("u"), request("MONITOR", ["a"], [])], ["run"]]
        while p:
            m = r.choice([1, 2, 3, 5, 40])
            steps += [["cs", "c0", p[:m]]] + [["run"]] * (r.random() < 0.8)
            p = p[m:]
        scs.append(dict(world=dict(cons=[dict(name="a", kind=kind, log=dict(logs[len(scs) % len(logs)]))]), steps=steps + [["run"]]))
    return scs


class Gen:
    def __init__(self, r, prof):
        self.r, self.p = r, merge(prof)
        self.steps = []
        self.k = []                          # per client: dict(dead=, open=)
        self.blocked = set()
        self.rxs = {}

    def pick(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def world(self):
        r, p = self.r, self.p
        n = r.randint(*p["ncons"])
        names = r.sample(p.get("names", NAMES[:10]), n)
        if p.get("wire"):
            names = sorted({printable(r, r.choice([1, 2])) for _ in range(n)})
            r.shuffle(names)
            n = len(names)
        cons = []
        for i in range(n):
            kind = p["kinds"][i] if p.get("eachkind") and i < len(p["kinds"]) else r.choice(p["kinds"])
            c = dict(name=names[i], kind=kind)
            if kind == "serial":
                serial(r, c)
                if r.random() < p.get("lkdev", 0.02):
                    c["lk"] = ["dev"]
            if r.random() < p["nlogs"]:
                c["log"] = {}
                if r.random() < p["san"]:
                    c["log"]["san"] = True
                if r.random() < p["ts"]:
                    c["log"]["ts"] = True
                if r.random() < 0.15:
                    c["log"]["lock"] = r.random() < 0.3
                if r.random() < p.get("lklog", 0) and not p.get("tmpl"):
                    c["lk"] = c.get("lk", []) + ["log"]
                if r.random() < p.get("tmpl", 0):
                    c["log"]["tmpl"] = r.choice(["%N", "x%Y%m%d", "%H%M%S", "%H/%M-%S", "%N/%D.%j/%H.log", "%%N%q%", "%P", "%D",
                                                 "%d/%g%G%u%U/%V%w%W%y", "%s", "n%M", "%Sx/y", "%H%%/%n%M"])
            cons.append(c)
        w = dict(cons=cons, preopen=[i for i in range(n) if cons[i]["kind"] == "unix" and r.random() < p.get("pre", 0.85)
                                     or cons[i]["kind"] == "telnet" and r.random() < p.get("pre", 0.85)])
        if p["reset"] and r.random() < p["reset"]:
            w["reset"] = r.choice(p.get("resetcmds", ["@H@ reset %N"]))
        if p["tstamp"] and r.random() < p["tstamp"]:
            w["tstamp"] = r.choice([1, 2, 5, 7, 60, 90, 1440])
        w["t0"] = p.get("t0", 1500000000) + r.randrange(0, 100000) * p.get("t0r", 1)
        if p.get("tz") and r.random() < p["tz"]:
            w["tzname"] = r.choice(["IST-5:30", "MST7", "LINT-14", "XXX3:15", "<+0545>-5:45"])
        if p.get("zero") and r.random() < p["zero"]:
            w["zero"] = True
        self.cons = cons
        return w

    # ---- pieces
    def run(self):
        r = self.r
        if r.random() < 0.1 * self.p["w"]["norun"] / 2:
            return
        if r.random() < 0.1 * self.p["w"]["partrun"]:
            self.steps.append(["run", r.randrange(1, 3)])
        else:
            self.steps.append(["run"])

    def alive(self):
        return [i for i, k in enumerate(self.k) if not k["dead"]]

    def newcli(self):
        r, p = self.r, self.p
        if len(self.alive()) >= p["maxcli"] or len(self.k) > 12:
            return self.kdata() if self.alive() else None
        i = len(self.k)
        self.k.append(dict(dead=False))
        self.steps.append(["cli"])
        user = r.choice(["bob", "amy", "root", "o'brien", "u\"x", "a b"])
        tty = r.choice([None, "pts/1", "tty0", "/dev/pts/9"])
        if p.get("wire"):
            user, tty = printable(r), printable(r) if r.random() < 0.8 else None
        cmd = self.pick(p["cmds"])
        opts = []
        if cmd == "BCAST":
            cmd = "CONNECT"
            opts.append("BROADCAST")
            pats = r.choice([["*"], [self.glob_lit(c["name"]) for c in self.cons], [self.glob_lit(r.choice(self.cons)["name"])]])
        elif cmd == "QUERY":
            pats = r.choice([[], ["*"], [self.glob_lit(self.cons[0]["name"])], ["[an]*"]])
        else:
            pats = [self.glob_lit(r.choice(self.cons)["name"])]
            if r.random() < 0.06:
                pats = r.choice([["*"], ["nosuch"], []])
        o = self.pick(p["opts"])
        if o != "NONE":
            opts.append(o)
        if r.random() < 0.1:
            opts.append("QUIET")
        h = hello(user, tty)
        q = request(cmd, pats, opts)
        cuts = sorted(r.sample(range(1, 20), 2)) if r.random() < 0.15 else []
        self.steps.append(["hs", "k%d" % i, h, q] + ([cuts] if cuts else []))

    def glob_lit(self, n):
        return "".join("\\" + c if c in "*?[\\" else c for c in n)

    def badhs(self):
        r = self.r
        i = len(self.k)
        if len(self.alive()) >= self.p["maxcli"] + 2 or len(self.k) > 14:
            return
        self.k.append(dict(dead=True))
        self.steps.append(["cli"])
        k = "k%d" % i
        what = r.randrange(8)
        if what == 0:
            self.steps += [["s", k, raw(r, r.randrange(1, 200)).replace("\n", "?") + "\n"], ["run"], ["close", k, 0]]
        elif what == 1:
            self.steps += [["close", k, r.randrange(2)]]
        elif what == 2:
            self.steps += [["s", k, hello("bob")], ["run"], ["close", k, r.randrange(2)]]
        elif what == 3:
            self.steps += [["s", k, hello("bob")[:r.randrange(1, 12)]], ["run"], ["half", k]]
        elif what == 4:
            self.steps += [["s", k, hello("")], ["run"]]
        elif what == 5:
            self.steps += [["s", k, hello("bob")], ["run"], ["s", k, raw(r, 100).replace("\n", "?") + "\n"], ["run"], ["close", k, 0]]
        elif what == 6:
            self.steps += [["s", k, hello("bob")], ["run"], ["cr", k, 0], ["s", k, request("QUERY")], ["run"], ["close", k, r.randrange(2)]]
        else:
            self.steps += [["s", k, hello("bob") + request("MONITOR", [self.glob_lit(self.cons[0]["name"])])], ["run"]]
            self.k[i]["dead"] = False

    def size(self):
        r = self.r
        return r.choice([1, 2, 5, 20, 60]) if r.random() < 0.9 else r.choice([200, 400])

    def cdata(self):
        c = self.r.randrange(len(self.cons))
        self.steps.append(["cs", "c%d" % c, payload(self.r, self.cons[c]["kind"], self.size())])
        self.run()

    def big(self):
        r = self.r
        c = r.randrange(len(self.cons))
        n = r.choice([4095, 4096, 4097, 8191, 8192, 12000, 16383, 16384, 16385, 20000])
        self.steps.append(["cap", "c%d" % c, 0])
        self.steps.append(["cs", "c%d" % c, (text(r, 97) * (n // 97 + 1))[:n]])
        self.run()

    def fill(self):
        """Output that ends at, or next to, the end of an object's ring buffer."""
        r = self.r
        c = r.randrange(len(self.cons))
        a = ["k%d" % i for i in self.alive()] + (["l%d" % c] * 2 if "log" in self.cons[c] else [])
        if not a:
            return
        self.steps += [["run"], ["cap", "c%d" % c, 0], ["fill", r.choice(a), "c%d" % c, r.choice([0, 0, 0, -1, 1, 2, -2, 4095, 4096, 4097])], ["run"]]
        if self.alive() and r.random() < 0.6:
            self.steps += [["s", "k%d" % r.choice(self.alive()), "\xffL"], ["run"]]
        self.cdata()

    def kdata(self):
        a = self.alive()
        if not a:
            return self.newcli()
        r = self.r
        s = "".join(r.choice([text(r, r.randrange(1, 6)), "\xff\xff", "\r", "\0", "\xfe", raw(r, 3).replace("\xff", "\xff\xff")]) for _ in range(r.randrange(1, 5)))
        self.steps.append(["s", "k%d" % r.choice(a), s])
        self.run()

    def esc(self):
        a = self.alive()
        if not a:
            return self.newcli()
        r = self.r
        k = "k%d" % r.choice(a)
        s = ""
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            s += r.choice(["", "", text(r, 3)]) + "\xff" + (r.choice(self.p["esc"]) if r.random() < 0.93 else r.choice("aXb?\0\n\xfe"))
        s += r.choice(["", "", "tail", "\xff"])
        if r.random() < 0.35:
            for ch in s:                     # one byte per read
                self.steps += [["s", k, ch], ["run", 2]]
            self.steps.append(["run"])
        else:
            self.steps.append(["s", k, s])
            self.run()

    def block(self):
        a = self.alive()
        if a:
            k = "k%d" % self.r.choice(a)
            self.steps.append(["cr", k, 0])
            self.blocked.add(k)

    def unblock(self):
        if self.blocked:
            k = self.r.choice(sorted(self.blocked))
            self.blocked.discard(k)
            self.steps.append(["cr", k, -1])
            self.run()

    def part(self):
        a = self.alive()
        if a:
            k = "k%d" % self.r.choice(a)
            self.steps.append(["cr", k, self.r.choice([1, 2, 10, 100, 5000])])
            self.blocked.add(k)
            self.run()

    def cap(self):
        r = self.r
        a = ["k%d" % i for i in self.alive()] + ["c%d" % i for i in range(len(self.cons))]
        self.steps.append(["cap", r.choice(a), r.choice([1, 2, 3, 7, 100, 0])])

    def kclose(self):
        a = self.alive()
        if a:
            i = self.r.choice(a)
            self.k[i]["dead"] = True
            self.steps.append(["close", "k%d" % i, self.r.randrange(2)])
            self.run()

    def khalf(self):
        a = self.alive()
        if a:
            i = self.r.choice(a)
            self.k[i]["dead"] = True
            self.steps.append(["half", "k%d" % i])
            self.run()

    def ceof(self):
        r = self.r
        c = r.randrange(len(self.cons))
        o = "c%d" % c
        if self.cons[c]["kind"] == "ipmi":
            self.steps.append(["ceof", o])
        elif r.random() < 0.3 and self.cons[c]["kind"] in ("unix", "telnet"):
            self.steps += [["unl", o], ["ceof", o, 0]]
        else:
            self.steps.append([r.choice(["ceof", "ceof", "chalf"]), o])
        self.run()

    def cback(self):
        r = self.r
        c = r.randrange(len(self.cons))
        o = "c%d" % c
        kd = self.cons[c]["kind"]
        if kd == "unix":
            x = r.random()
            if x < 0.1:
                self.steps.append(["reg", o])
            elif x < 0.3:
                self.steps.append(["touch", r.choice(["s1x", "s0", "xs", "S", "s1.new", "sx"])])
            elif x < 0.4:
                self.steps += [["bind", o], ["run"], ["lisb", o]]
            else:
                self.steps.append(["lis", o, int(r.random() < 0.3)])
        elif kd == "telnet":
            self.steps.append(["lis", o])
        elif kd == "ipmi":
            self.steps.append(["ipmi", o, r.choice(["ok", "ok", "err", "submitfail", "createfail"])])
        self.run()

    def adv(self):
        r = self.r
        self.steps += [["run"], ["jump" if r.random() < self.p.get("jump", 0) else "adv", r.choice([1, 500, 999, 1000, 1001, 2500, 14999, 15000, 31000, 59999, 60001, 61500, 130000, 600000, 1800000, 4000000]
                                                 [:self.p.get("advmax", 16)])]]

    def burst(self):
        """Several things at once, then one poll."""
        r = self.r
        for _ in range(r.randrange(2, 5)):
            n = len(self.steps)
            getattr(self, r.choice(["cdata", "kdata", "esc", "cdata"]))()
            self.steps = self.steps[:n] + [s for s in self.steps[n:] if s[0] != "run"]
        self.run()

    def hup(self):
        r = self.r
        c = r.randrange(len(self.cons))
        if "log" in self.cons[c]:            # the log is moved away, or another process locks what is to be opened
            w = r.random()
            if w < 0.35:
                self.steps += [["run"], ["mvlog", "l%d" % c]]
            if w < 0.15 and not self.cons[c]["log"].get("tmpl"):
                self.steps += [["lkl", "c%d" % c]]
            elif w > 0.7:
                self.steps += [["ulk", "c%d" % c]]
        w = r.randrange(10)
        if w < 4:
            self.steps += [["run"], ["hup"], ["run"]]
        elif w < 6:
            self.steps += [["run"]] * r.randrange(2) + [["late", 1], ["run"]]
        elif w < 8:                          # another while logs are reopened, or while something else goes on
            self.steps += [["run"], ["strike", "o", r.choice([1, 1, 2, 3]), 1], ["hup"], ["run"]]
        else:
            self.steps += [["strike", r.choice("rw"), r.choice([1, 1, 2, 3]), 1]]
            self.cdata()
            self.steps += [["run"], ["nof"]]

    def logerr(self):
        r = self.r
        c = r.randrange(len(self.cons))
        if "log" in self.cons[c]:
            self.steps.append(r.choice([["flt", "w", 28, "l%d" % c, 1], ["lflt", "c%d" % c, r.choice([13, 24, 28, 30])], ["cr", "l%d" % c, r.choice([0, 1, 7])], ["cr", "l%d" % c, -1]]))
            if self.steps[-1][0] == "lflt":
                self.steps += [["run"], ["hup"], ["run"]]
            self.cdata()

    def conblock(self):
        r = self.r
        c = r.randrange(len(self.cons))
        self.steps.append(["cr", "c%d" % c, r.choice([0, 1, 5, -1, -1])])

    def reset(self):
        a = self.alive()
        r = self.r
        if a and r.random() < 0.6:
            self.steps += [["s", "k%d" % r.choice(a), r.choice(["", "ab"]) + "\xffR" + r.choice(["", "\xffR", "cd"])], ["run"]]
        else:
            self.steps += [["run"], ["rexit", "c%d" % r.randrange(len(self.cons))], ["run"]]

    def make(self):
        w = self.world()
        if self.p.get("script"):
            self.p["script"](self)
        for _ in range(self.p.get("first", 2)):
            self.newcli()
        for _ in range(self.r.randint(*self.p["steps"])):
            getattr(self, self.pick(self.p["w"]))() if True else None
        for k in sorted(self.blocked):
            self.steps.append(["cr", k, -1])
        for i, c in enumerate(self.cons):
            self.steps.append(["cr", "c%d" % i, -1])
            if "log" in c:
                self.steps.append(["cr", "l%d" % i, -1])
        self.steps.append(["run"])
        if self.rxs:
            w["rx"] = self.rxs
        if self.r.random() < self.p.get("term", 0.1):
            self.steps += [["run"]] * self.r.randrange(2) + [self.r.choice([["term"], ["late", 15]]), ["run"]]
        return dict(world=w, steps=self.steps)

    def norun(self):
        self.cdata()

    def partrun(self):
        self.steps.append(["run", self.r.randrange(1, 4)])


    # ---- several handshakes at the same time, with replies held up
    def conc(self):
        r = self.r
        n = r.choice([2, 2, 3])
        if len(self.alive()) + n > self.p["maxcli"] + 2 or len(self.k) > 12:
            return
        ks = []
        for _ in range(n):
            i = len(self.k)
            self.k.append(dict(dead=False))
            ks.append("k%d" % i)
            self.steps.append(["cli", 1])
        self.steps.append(["run"])
        c = r.choice(self.cons)["name"]
        todo = []
        for k in ks:
            h = hello(r.choice(["bob", "amy", "root"]), r.choice([None, "pts/1"]))
            o = self.pick(self.p["opts"])
            cmd = r.choice(["CONNECT", "CONNECT", "CONNECT", "MONITOR"])
            opts = [] if o == "NONE" else [o]
            pats = [self.glob_lit(c)]
            if cmd == "CONNECT" and r.random() < 0.2:
                opts.append("BROADCAST")
                pats = ["*"]
            q = request(cmd, pats, opts)
            if r.random() < 0.3:             # both lines in one segment
                todo.append([["s", k, h + q], ["run", 2]])
            elif r.random() < 0.4:           # the request's reply is held up
                todo.append([["s", k, h], ["run"], ["cr", k, r.choice([0, 0, 1])], ["s", k, q], ["run"]])
                self.blocked.add(k)
            else:
                todo.append([["s", k, h], ["run", 3], ["s", k, q], ["run", 3]])
        while todo:
            t = r.choice(todo)
            self.steps.append(t.pop(0))
            if not t:
                todo.remove(t)
        if r.random() < 0.3:
            k = r.choice(ks)
            self.k[int(k[1:])]["dead"] = True
            self.steps.append(["close", k, r.randrange(2)])
        if r.random() < 0.5:
            for k in sorted(self.blocked & set(ks)):
                self.steps += [["cr", k, -1], ["run", r.randrange(1, 3)]]
                self.blocked.discard(k)
        self.run()

    # ---- requests that select consoles in all sorts of ways
    def globpat(self, n):
        r = self.r
        out = ""
        i = 0
        while i < len(n):
            c = n[i]
            x = r.random()
            if x < 0.12:
                out += "?"
            elif x < 0.24:
                out += "*"
                i += r.randrange(0, 3)
                continue
            elif x < 0.36 and c.isalnum():
                lo, hi = chr(max(48, ord(c) - r.randrange(3))), chr(min(122, ord(c) + r.randrange(3)))
                if not (lo.isalnum() and hi.isalnum() and lo.isdigit() == hi.isdigit() and lo.isupper() == hi.isupper()):
                    lo = hi = c
                out += r.choice(["[%s-%s]" % (lo, hi), "[%sz]" % c, "[!%s]" % c, "[!q]", "[^q]", "[]%s]" % c])
            elif c in "*?[\\" or x < 0.4:
                out += "\\" + c
            else:
                out += c.swapcase() if r.random() < 0.04 else c
            i += 1
        if r.random() < 0.1:
            out = r.choice([out + "*", "*" + out, out[:-1], out + "x", ""]) or "*"
        return out

    META = ".[]\\(){}*+?^$|"

    def rx(self, n, depth=0):
        """A regular expression for something like n: (text, syntax tree)."""
        r = self.r
        parts = []
        i = 0
        while i < len(n):
            c = n[i]
            x = r.random()
            esc = "\\" + c if c in self.META else c
            if x < 0.12:
                parts.append((".", ["any"]))
            elif x < 0.2:
                parts.append((".*", ["star", ["any"]]))
                i += r.randrange(0, 3)
                continue
            elif x < 0.28 and c.isalnum():
                neg = r.random() < 0.3
                st = "".join(sorted(set(r.choice("abcdn0123") for _ in range(2)) | {c}))
                parts.append(("[" + ("^" if neg else "") + st + "]", ["cls", neg, st]))
            elif x < 0.36:
                op = r.choice("*+?")
                parts.append((esc + op, [{"*": "star", "+": "plus", "?": "opt"}[op], ["c", c]]))
            elif x < 0.42 and depth < 2:
                j = min(len(n), i + r.randrange(1, 4))
                a = self.rx(n[i:j], depth + 1)
                b = self.rx(r.choice(["ab", "1", "no", "x9"]), depth + 1)
                op = r.choice(["", "*", "+", "?"])
                t = ["alt", [a[1], b[1]]]
                if op:
                    t = [{"*": "star", "+": "plus", "?": "opt"}[op], t]
                parts.append(("(" + a[0] + "|" + b[0] + ")" + op, t))
                i = j
                continue
            elif x < 0.5 and c.isalpha():
                parts.append((c.swapcase(), ["c", c]))
            else:
                parts.append((esc, ["c", c]))
            i += 1
        return "".join(p[0] for p in parts), ["cat", [p[1] for p in parts]]

    def query(self):
        r = self.r
        if len(self.k) > 40:
            return
        i = len(self.k)
        self.k.append(dict(dead=True))
        self.steps.append(["cli"])
        k = "k%d" % i
        names = [c["name"] for c in self.cons]
        n = r.choice([0, 1, 1, 1, 2, 3])
        cmd = r.choice(["QUERY", "QUERY", "QUERY", "CONNECT", "MONITOR"])
        opts = ["BROADCAST"] if r.random() < 0.3 else []
        rxmode = r.random() < 0.4
        if rxmode:
            opts.append("REGEX")
            ps = [self.rx(r.choice(names)) for _ in range(n)]
            if n == 1 and r.random() < 0.2:
                ps[0] = (r.choice(["(", "a[", "x(", "[z-a]", "n[[:foo:]]"]), ["bad"])
            if self.p.get("wire") and n and r.random() < 0.06:
                a, b = self.rx(r.choice(names)), "z" * r.choice([900, 1000, 1020, 1023, 1024, 1500])
                ps[0] = (b + "|" + a[0], ["alt", [["cat", [["c", c] for c in b]], a[1]]])
            pats = [p[0] for p in ps]
            key = "|".join(pats)
            if any("" == p for p in pats):
                return self.steps.pop() and self.k.pop() and None
            bad = any(p[1] == ["bad"] for p in ps)
            self.rxs[key] = ["bad"] if bad else ["alt", [p[1] for p in ps]]
        else:
            pats = [self.globpat(r.choice(names)) for _ in range(n)]
            if self.p.get("wire") and n and r.random() < 0.06:
                x = r.choice(names)
                pats[0] = "[%s]*" % ("z" * r.choice([1010, 1020, 1021, 1022, 1500]) + (x[0] if x[0] not in "!^]\\-" else "z"))
        if r.random() < 0.3:
            opts.append(r.choice(["FORCE", "JOIN", "QUIET"]))
        r.shuffle(opts)
        user, tty = r.choice(["bob", "o'brien", 'u"x', "a b", "x\\y", "#1"]), r.choice([None, "pts/1", "t 'y\""])
        if self.p.get("wire"):
            user, tty = printable(r), printable(r) if r.random() < 0.8 else None
        self.steps.append(["hs", k, hello(user, tty),
                           request(cmd, pats, opts)])
        if cmd != "QUERY":
            if r.random() < 0.4:
                self.steps += [["s", k, "hi"], ["run"]]
            self.steps += [["close", k, r.randrange(2)], ["run"]]
        else:
            self.steps += [["close", k, 0]]

    # ---- one stream in many reads, with time passing in between
    def slices(self):
        r = self.r
        c = r.randrange(len(self.cons))
        d = payload(r, self.cons[c]["kind"], r.choice([20, 60, 150]))
        i = 0
        while i < len(d):
            n = r.choice([1, 1, 2, 3, 7, 30])
            self.steps += [["cs", "c%d" % c, d[i:i + n]], ["run", 2]]
            if r.random() < 0.15:
                self.steps += [["run"], ["adv", r.choice([300, 1000, 61000])]]
            i += n
        self.steps.append(["run"])

    # ---- system calls that fail
    def fault(self):
        r = self.r
        w = r.randrange(10)
        if w == 9:                           # a call that is to be made again, and a child that ends right then
            k = r.choice("rrw")
            c = r.randrange(len(self.cons))
            self.steps += [["flt", k, r.choice([11, 11, 4]), "c%d" % c, 1], ["strike", k, 1, 17]]
            self.burst()
            self.steps += [["cs", "c%d" % c, payload(r, self.cons[c]["kind"], 9)], ["run"], ["nof"], ["run"]]
        elif w <= 2 and len(self.k) < 14:
            self.steps.append(r.choice([["flt", "a", r.choice([24, 103, 23, 4, 11, 71]), None, r.randrange(1, 3)],
                                        ["flt", "p", 11, None, 1], ["flt", "g", 107, None, 1]]))
            i = len(self.k)
            self.k.append(dict(dead=True))
            self.steps += [["cli"], ["hs", "k%d" % i, hello("bob"), request("QUERY")], ["nof"], ["adv", 6000], ["run"]]
            if r.random() < 0.5:
                self.newcli()
        elif w == 3 and self.alive():
            i = r.choice(self.alive())
            e = r.choice([104, 110, 5, 4, 11])
            self.steps += [["flt", "r", e, "k%d" % i, 1], ["s", "k%d" % i, "abc\xffMd"], ["run"], ["nof"]]
            if e not in (4, 11):
                self.k[i]["dead"] = True
        elif w == 4 and self.alive():
            i = r.choice(self.alive())
            e = r.choice([32, 104, 110, 4, 11])
            self.steps += [["flt", "w", e, "k%d" % i, 1], ["s", "k%d" % i, "\xffQ\xffL"]]
            self.cdata()
            self.steps += [["run"], ["nof"]]
            if e not in (4, 11):
                self.k[i]["dead"] = True
        elif w in (5, 6):
            c = r.randrange(len(self.cons))
            self.steps += [["flt", r.choice("rw"), r.choice([104, 110, 5, 4, 11, 32]), "c%d" % c, 1],
                           ["cs", "c%d" % c, payload(r, self.cons[c]["kind"], 20)]]
            self.kdata()
            self.steps += [["run"], ["nof"]]
        else:
            c = r.randrange(len(self.cons))
            if self.cons[c]["kind"] in ("unix", "telnet"):
                self.steps += [["flt", r.choice("cS"), r.choice([111, 110, 24, 13, 113]), None, r.randrange(1, 4)], ["ceof", "c%d" % c], ["run"],
                               ["adv", r.choice([1000, 20000, 100000])], ["nof"]]
            elif self.cons[c]["kind"] == "process":
                self.steps += [["flt", *r.choice([["2", 24, None, 1], ["f", 11, None, 1]])], ["ceof", "c%d" % c], ["run"],
                               ["adv", r.choice([1000, 61000, 100000])], ["nof"]]


def make(r, prof):
    return Gen(r, prof).make()
