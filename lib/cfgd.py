"""Configuration files: random texts, what the real daemon makes of them, checked against spec/Config.tla."""
import array, fcntl, json, os, pty, random, re, select, shutil, signal, socket, stat, struct, subprocess, sys, termios, time, tty
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv, scen
from drv import L, SPEEDS

MARK = re.compile(rb"@(\d+)@(\x01|\^A)")
FM = "dgGHjmMsSuUVwWyYP"


class ConfWorld(drv.World):
    """A directory of devices of every kind, and a daemon started with a given configuration text."""

    def __init__(self, sc, tools, tmp):
        super().__init__(tools["conmand"], [], tmp=tmp, conhelp=tools["conhelp"], trace=False, t0=sc.get("t0", drv.T0))
        self.env.update(CONSHIM_BIND0="1")
        d = self.dir
        self.x, self.lsn, self.sub = {}, [], {"@D@": d, "@H@": self.conhelp}
        self.socks, self.tags, self.helpers_used = [], [], set()
        self.bytag, self.ser, self.ipm, self.keep, self.hosts = {}, {}, {}, [], []
        self.bound = None
        self.ka, self.tkeep = {}, {}
        self.fdwhat, self.resets = {}, []
        for p in ("s", "pa", "pb", "logs", "core"):
            os.mkdir(d + "/" + p)
            self.x[d + "/" + p] = "dir"
        os.mkdir(d + "/pb/dd")
        self.x[d + "/pb/dd"] = self.x[d] = self.x[d + "/bin"] = "dir"
        for p in ("pa/a", "pa/b", "pb/b", "pb/c", "a", "pa/n"):
            shutil.copy(tools["conhelp"], d + "/" + p)
            os.chmod(d + "/" + p, 0o755 if p != "pa/n" else 0o644)
            self.x[d + "/" + p] = "exe" if p != "pa/n" else "file"
        self.x[self.conhelp] = "exe"
        for p in ("pa/", "pb/", ""):
            os.symlink(d + "/bin/h.sock", d + "/" + p + "h.sock")
        for i in range(4):
            s = socket.socket(socket.AF_UNIX)
            s.bind(d + "/s/u%d" % i)
            s.listen(20)
            s.setblocking(False)
            self.lsn.append((["unix", d + "/s/u%d" % i], s))
        for i in range(3):
            s = socket.socket()
            h = "127.0.0.%d" % (i + 2)
            s.bind((h, 0))
            s.listen(20)
            s.setblocking(False)
            self.sub["@T%d@" % i] = "%s:%d" % s.getsockname()
            self.sub["@t%d@" % i] = "%d" % s.getsockname()[1]
            self.lsn.append((["telnet", "%s:%d" % s.getsockname()], s))
        self.ptys = {}
        for i in range(3):
            m, s = pty.openpty()
            tty.setraw(m)
            os.set_blocking(m, False)
            n = os.ttyname(s)
            self.sub["@P%d@" % i] = n
            self.x[n] = "chr"
            self.ptys[n] = (m, s)
        self.text = sc["text"]
        for k, v in self.sub.items():
            self.text = self.text.replace(k, v)
        open(self.conf, "w", encoding=L, newline="").write(self.text)
        self.extra_args = [a.replace("@D@", d) for a in sc.get("args", [])]
        self.before = self.files()

    def files(self):
        out = {}
        for b, ds, fs in os.walk(self.dir):
            for f in fs:
                p = b + "/" + f
                if stat.S_ISREG(os.lstat(p).st_mode):
                    out[p] = os.lstat(p).st_size
        return out

    def cfg(self):
        return dict(e="start")

    def _flush(self, lines):
        lines = [l for l in lines if l != "i"]
        for l in lines:
            if l.startswith("f "):
                self._await_helper(int(l[2:]))
        for l in lines:
            f = l.split(" ")
            t = f[0]
            if t == "o":
                self.fdwhat[int(f[1])] = bytes.fromhex(f[3]).decode(L)
            elif t == "T":
                n = self.fdwhat.get(int(f[1]))
                if n in self.ptys:
                    self.ser[n] = [int(x, 16) for x in f[2:6]] + [int(x) for x in f[6:8]]
            elif t == "B":
                self.bound = [f[2], int(f[3]), int(f[4])]
            elif t in ("c", "tc"):
                self.ka.pop(int(f[1]), None)
            elif t == "a":
                self.ka[int(f[1])] = [0]
                self.keep.append(self.ka[int(f[1])])
            elif t == "ka":
                self.ka.setdefault(int(f[1]), [0])[0] = int(f[2])
            elif t == "n" and f[3][:1] == "i":
                self.tkeep.setdefault(f[3][1:], []).append(self.ka.get(int(f[1]), [0])[0])
            elif t == "hw":
                self.hosts.append(f[1])
            elif t == "Icreate":
                self.ipm.setdefault(f[2].replace("\x01", " "), []).append([x.replace("\x01", " ") for x in f[3:]])
            elif t == "f":
                h = self.helpers.get(int(f[1]))
                if h and h[2]["argv"][1:2] == ["reset"]:
                    self.resets.append(h[2]["argv"])

    def collect(self):
        """Takes every connection the daemon has made, and marks each with a number of its own."""
        for tag, s in self.lsn:
            while True:
                try:
                    c, _ = s.accept()
                except OSError:
                    break
                c.setblocking(False)
                self.mark(tag, c.send)
                self.socks.append(c)
        for n, (m, s) in self.ptys.items():
            if n in self.ser and ("serial", n) not in self.helpers_used:
                self.helpers_used.add(("serial", n))
                self.mark(["serial", n], lambda b, m=m: os.write(m, b))
        for pid, h in list(self.helpers.items()):
            if h[1] >= 0 and h[2]["argv"][1:2] != ["reset"] and h[2]["pid"] not in self.helpers_used:
                self.helpers_used.add(h[2]["pid"])
                c = socket.socket(fileno=os.dup(h[1]))
                c.setblocking(False)
                self.mark(["process"] + h[2]["argv"], c.send)
                self.socks.append(c)

    def mark(self, tag, put):
        self.tags.append((tag, put))

    def up_ipmi(self):
        for n, h in enumerate(sorted(self.ipm)):
            s = socket.socket(socket.AF_UNIX)
            p = self.dir + "/s/i%d" % n
            s.bind(p)
            s.listen(5)
            self.cmd("X %s ok %s" % (h, p))
            self.run()
            s.setblocking(False)
            try:
                c, _ = s.accept()
                c.setblocking(False)
                self.mark(["ipmi", h], c.send)
                self.socks.append(c)
            except OSError:
                pass
            self.socks.append(s)

    def quiet(self, socks, want=None):
        """Runs the daemon until nothing more arrives."""
        got = [b""] * len(socks)
        calm = 0
        for _ in range(200):
            self.run()
            new = False
            for i, s in enumerate(socks):
                try:
                    d = s.recv(65536)
                    new = new or bool(d)
                    got[i] += d
                except OSError:
                    pass
            done = want(got) if want else False
            calm = 0 if new else calm + 1
            if not self.alive or (done and calm >= 2) or calm >= (12 if want else 3):
                break
            if calm > 1:
                time.sleep(0.004)
        return got

    def dial(self, line, user="u"):
        s = socket.socket()
        s.connect(("127.0.0.1", self.bound[2]))
        s.setblocking(False)
        s.send(scen.hello(user).encode(L) + line.encode(L))
        self.socks.append(s)
        return s

    def observe(self, sc):
        o = dict(alive=self.alive, errs=[], names=[], got={}, logs={}, ser={}, ipmi={}, reset=[])
        err = self.stderr()
        o["errs"] = [int(n) for n in re.findall(r"CONFIG\[%s:(\d+)\]" % re.escape(self.conf), err)]
        if not self.alive:
            o["rc"] = self.exit_code if isinstance(self.exit_code, int) else 999
            return o
        o["ip"], o["port"] = self.bound[:2]
        self.run()
        self.up_ipmi()
        self.run()
        self.collect()
        lim = open("/proc/%d/limits" % self.proc.pid).read()
        o["nofile"] = lim.split("Max open files")[1].split()[:2]
        o["core"] = lim.split("Max core file size")[1].split()[0] != "0"
        q = self.dial(scen.request("QUERY"))
        r = self.quiet([q], lambda g: b"\nOK" in g[0] or b"ERROR" in g[0])[0].decode(L)
        o["names"] = sorted(x.translate({0xa7: 39, 0xa2: 34}) for x in re.findall(r"CONSOLE='([^']*)'", r))
        mon = [self.dial(scen.request("MONITOR", [n])) for n in o["names"]]
        self.quiet(mon, lambda g: all(b"\nOK" in x or b"ERROR" in x for x in g))
        for i, (tag, put) in enumerate(self.tags):
            try:
                put(b"@%d@\x01\n" % i)
            except OSError:
                pass
        n = len(self.tags)
        got = self.quiet(mon, lambda g: sum(len(MARK.findall(x)) for x in g) >= n)
        for name, g in zip(o["names"], got):
            o["got"][name] = [self.tags[int(k)][0] for k, _ in MARK.findall(g)]
        self.run()
        # what has been written where
        o["files"] = {}
        for p, size in self.files().items():
            if p in (self.dir + "/stderr", self.conf) or self.before.get(p) == size:
                continue
            d = open(p, "rb").read()
            if b"Console [" in d or MARK.search(d) or (not d and ("log" in os.path.basename(p))):
                m = re.search(rb"Console \[(.*?)\] log (?:opened|at)", d)
                k = [(self.tags[int(a)][0], b) for a, b in MARK.findall(d)]
                f = open(p, "r+b")
                lk = struct.unpack("hhqqi", fcntl.fcntl(f, 36, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))[:28])[0] != fcntl.F_UNLCK
                f.close()
                ts = re.search(rb"(?m)^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [^\n]*@\d+@", d)
                o["logs"][p] = dict(name=m.group(1).decode(L) if m else "", devs=[a for a, _ in k], san=any(b == b"^A" for _, b in k),
                                    ts=bool(ts), lock=lk)
            else:
                o["files"][p] = d.decode(L)
        for n, v in self.ser.items():
            cs = v[2]
            o["ser"][n] = dict(bps=SPEEDS.get(v[5], -1), ibps=SPEEDS.get(v[4], -1),
                               db={termios.CS5: 5, termios.CS6: 6, termios.CS7: 7, termios.CS8: 8}[cs & termios.CSIZE],
                               par="N" if not cs & termios.PARENB else "O" if cs & termios.PARODD else "E",
                               sb=2 if cs & termios.CSTOPB else 1)
        for h, vs in self.ipm.items():
            v = vs[0]
            o["ipmi"][h] = dict(u=v[0], p=v[1], k=v[2], l=int(v[3]), c=int(v[4]), w=int(v[5]))
        o["keep"] = sorted({k[0] for k in self.keep})
        o["tkeep"] = self.tkeep
        o["wrap"] = bool(self.hosts)
        o["pid"] = str(self.proc.pid)
        if o["names"]:
            c = self.dial(scen.request("CONNECT", [o["names"][0]]))
            self.quiet([c], lambda g: b"\nOK" in g[0] or b"ERROR" in g[0])
            c.send(b"\xffR")
            self.quiet([c], lambda g: len(g[0]) > 0)
            o["reset"] = self.resets[0] if self.resets else []
        self.advance(200000)                 # the timers of the consoles run out
        o["passed"] = 200
        rem = getattr(self, "remaining", -1)
        o["rem"] = rem // 1000 if rem > 0 else rem
        o["quit"] = ""
        if sc.get("quit"):
            os.kill(self.proc.pid, signal.SIGQUIT)
            self._sigwait()
            for _ in range(20):
                if self.alive:
                    self.run()
            m = re.search(r"Terminating on signal=3(?: \(check \"(.*)\" for core\))?", self.stderr())
            o["quit"] = "?" if not m else m.group(1) or "-"
        return o

    def close(self):
        for s in self.socks + [s for _, s in self.lsn]:
            s.close()
        for m, s in self.ptys.values():
            os.close(m)
            os.close(s)
        for h in self.helpers.values():
            if h[1] >= 0:
                try:
                    os.close(h[1])
                except OSError:
                    pass
                h[1] = -1
        super().close()


def execute(sc, tools, tmp=None):
    w = ConfWorld(sc, tools, tmp)
    try:
        w.start()
        o = w.observe(sc)
        err = w.stderr()
        lt = w.local(w.t0)
        fm = {c: time.strftime("%" + c, lt) for c in FM}
        fm["P"] = str(w.proc.pid)
        env = dict(cwd=w.dir, x=w.x, fm=fm, hard=int(HARD), soft=int(SOFT), sec=lt.tm_hour * 3600 + lt.tm_min * 60 + lt.tm_sec)
        a = w.extra_args
        fixed = dict(port=int(a[a.index("-p") + 1]) if "-p" in a else -1,
                     pid=(lambda p: p if p[:1] == "/" else w.dir + "/" + p)(a[a.index("-P") + 1]) if "-P" in a else "")
        return [dict(e="conf", text=w.text, env=env, fixed=fixed, obs=o)], err
    finally:
        w.stop()


import resource
SOFT, HARD = resource.getrlimit(resource.RLIMIT_NOFILE)


# ---------------------------------------------------------------- generation
NAMES = ["aa", "b2", "con 3", "d.e", "f-g_h", "it's", "j/k", "x%Ny", "K9", "log"]
DEVS = {
    "unix": ["unix:@D@/s/u0", "UNIX:@D@/s/u1", "unix:s/u2", "Unix:s/u3", "unix:@D@/s/u2", "unix:"],
    "telnet": ["@T0@", "@T1@", "@T2@", "127.0.0.3:0@t1@", ":2000", "127.0.0.1:0", "h:", "127.0.0.1:99999", "127.0.0.1:5x", "127.0.0.2:65536"],
    "serial": ["@P0@", "@P1@", "@P2@", "@P0@ x"],
    "process": ["@D@/pa/a", "a x 'y z' \"%N\"", "b one", "c %N '%N'", "@D@/pb/c", "pa/b q", "n", "dd", "@D@/pb/b \"\" z", "nothing x",
                "@D@/pa/n", "b 'x' y'z", "c \"un matched", "pb/dd"],
    "ipmi": ["ipmi:bmc0", "IPMI:bmc1", "ipmi:", "ipmi:bmc0 x"],
    "test": ["test:", "TEST:", "test:x"],
    "none": ["", "  ", "zz", "/nonexistent", "@D@/s", "\\x"],
}
LOGS = ["%N", "log.%N", "sub/%N.log", "@D@/logs/l0", "logx", "@D@/logs/%N", "log%D", "log-%Y%m%d-%H%M%S", "log%%N", "log%q%", "", " ", "a&b",
        "log%P", "logs/log%j%U%w", "log.%N", "l-%N-%N"]
GLOGS = ["%N.log", "@D@/logs/%N", "", "  ", "log%D.%N", "nospec", "&%N", "logs/g-%N-%Y"]
LOPTS = ["sanitize", "timestamp", "lock", "nolock", "nosanitize,notimestamp", "Sanitize,TIMESTAMP", "bogus", "lock.sanitize;timestamp nolock",
         " ", "timestamp, nolock", "san"]
SOPTS = ["9600", "115200,8n1", "1200,7E2", "300,5o1", "19200,8", "57600,8x1", "foo", "9600,9n1", "9600,8n3", "0", "40", "500000,8N2", "9600,",
         "9600,x", "38400,7e", "+2400", "-300", " 9600", "9600,8n1junk", "9600, 8n1", "9600,+8n 2", " 1200 ,8", "1200,8 n1", "300,  7o\t2", "9601", "7"]
IOPTS = ["U:admin", "u:root,p:secret", "K:0x0102ff", "k:key", "L:user", "l:OPERATOR", "L:2", "L:3", "c:3", "C:4", "C:17", "w:solpayloadsize",
         "W:intel20,W:sun20", "w:none", "W:3", "W:bogus", "x:1", "U:12345678901234567", "P:123456789012345678901", "", "joe,pw,0x1f", "joe",
         "-,pw", "U:,P:", "K:0x0", "W:default", "w:2,w:", "u:a,u:b,L:,C:", "l:admin,c:11,k:0xabc", "a,b,c,d", "U", "U:x,joe", "P:0x6162630064", "C:x", "P:0xzz"]
TOPTS = ["B:10", "m:100,n:5", "p:50", "B:x", "z:1", "", "B:", "B:1,M:2,N:3,P:4", "p:101"]


def quote(r, s):
    if '"' in s or (r.random() < 0.25 and "'" not in s):
        return "'%s'" % s
    return '"%s"' % s


def word(r, s):
    """A keyword in some capitalization."""
    k = r.random()
    return s.upper() if k < 0.3 else s.lower() if k < 0.7 else s.capitalize() if k < 0.8 else "".join(r.choice((c.upper(), c.lower())) for c in s)


def kv(r, k, v, raw=False):
    return [word(r, k), "=", v if raw or (re.fullmatch(r"[A-Za-z_]\w*", v) and r.random() < 0.5) else quote(r, v)]


def console(r, st, p):
    kinds = p.get("kinds") or dict(unix=6, telnet=3, serial=3, process=4, ipmi=2, test=0.2, none=0.7)
    k = r.choices(list(kinds), list(kinds.values()))[0]
    name = r.choice(NAMES) if r.random() < 0.3 else st["names"].pop() if st["names"] else "n%d" % r.randrange(40)
    out = [kv(r, "name", name), kv(r, "dev", r.choice(DEVS[k]))]
    if r.random() < 0.5:
        out.append(kv(r, "log", r.choice(LOGS)))
    if r.random() < 0.3:
        out.append(kv(r, "logopts", r.choice(LOPTS)))
    if r.random() < (0.6 if k == "serial" else 0.08):
        out.append(kv(r, "seropts", r.choice(SOPTS)))
    if r.random() < (0.6 if k == "ipmi" else 0.08):
        out.append(kv(r, "ipmiopts", r.choice(IOPTS)))
    if r.random() < (0.6 if k == "test" else 0.03):
        out.append(kv(r, "testopts", r.choice(TOPTS)))
    if r.random() < 0.4:
        r.shuffle(out)
    if r.random() < 0.05:
        out.append(r.choice(out))
    return [word(r, "console")] + sum(out, [])


def glob(r, st, p):
    out = [word(r, "global")]
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.choices(["log", "logopts", "seropts", "ipmiopts", "testopts"], [5, 4, 3, 2, 0.4])[0]
        out += kv(r, k, r.choice(dict(log=GLOGS, logopts=LOPTS, seropts=SOPTS, ipmiopts=IOPTS, testopts=TOPTS)[k]))
    return out


def server(r, st, p):
    out = [word(r, "server")]
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.choice(["coredump", "keepalive", "loopback", "tcpwrappers", "coredumpdir", "execpath", "logdir", "logfile", "nofile", "pidfile",
                      "port", "resetcmd", "syslog", "timestamp"] + ["execpath", "logdir", "timestamp"] * 2)
        if k in ("coredump", "keepalive", "loopback", "tcpwrappers"):
            out += kv(r, k, word(r, r.choice(("on", "off", "on", "off", "on", "off", "maybe"))), True)
        elif k == "coredumpdir":
            out += kv(r, k, r.choice(("@D@/core", "core", "", "@D@/nope", "@D@/a")))
        elif k == "execpath":
            out += kv(r, k, r.choice(("@D@/pa", "@D@/pa:@D@/pb", "@D@/pb:@D@/pa", "pb", "", "@D@/nope:@D@/pb", ":@D@/pa:", "@D@/pa/a:pa")))
        elif k == "logdir":
            out += kv(r, k, r.choice(("@D@/logs", "logs", "", "@D@/logs/deep/er", "sub")))
        elif k == "logfile":
            out += kv(r, k, r.choice(("dlog", "@D@/dlog,info", "dlog,bogus", "x,warning", "  ")))
        elif k == "nofile":
            out += kv(r, k, r.choice(("0", "-1", "256", "300", "+400", "512", "x", '"300"')), True)
        elif k == "pidfile":
            out += kv(r, k, r.choice(("@D@/p.pid", "my.pid", "logs/p.pid", " ")))
        elif k == "port":
            out += kv(r, k, r.choice(("0", "7891", "1024", "65535", "65536", "-1", "+99", "99999", '"80"', "2000000000")), True)
        elif k == "resetcmd":
            out += kv(r, k, r.choice(("@H@ reset one", "@D@/a reset two 3", "@H@ reset &", " ", "@H@  reset  x y")))
        elif k == "syslog":
            out += kv(r, k, r.choice(("daemon", "LOCAL3", "user", "bogus", "  local0", "", "kern")))
        else:
            out += kv(r, k, r.choice(("0", "1", "5", "30", "90", "-1", "x", "1500000", "2147483647", "2")), True)
            if r.random() < 0.5:
                out.append(r.choice(("m", "h", "d", "M", "H", "D", "x", '"h"', "7", "hh", "=")))
    return out


JUNK = ['"', "'", "=", "foo", "12", "on", "CONSOLE", "\\\n", "#x", "&", "server", "\t", "-", "log", "\\", "dev", '""', "\x00", "\x0b", "\\\r\n"]


def spoil(r, t):
    t = list(t)
    i = r.randrange(len(t))
    k = r.random()
    if k < 0.3:
        del t[i]
    elif k < 0.4:
        t.insert(i, t[i])
    elif k < 0.7:
        t[i] = r.choice(JUNK)
    elif k < 0.9:
        t.insert(i, r.choice(JUNK))
    else:
        t = t[:i]
    return t


def join(r, t):
    s = ""
    for i, x in enumerate(t):
        if i and (r.random() < 0.12 or (x not in "=" and s[-1:] not in "=\"'") and not x[:1] in "\"'" or (s[-1:] in "\"'" and x != "=" and r.random() < 0.9)):
            s += r.choice((" ", " ", " ", "  ", "\t", " \\\n", " \\\n  "))
        s += x
    return s


def scenario(r, p=None):
    p = p or {}
    st = dict(names=r.sample(NAMES, len(NAMES)))
    lines = []
    for _ in range(r.randint(*p.get("lines", (2, 9)))):
        k = r.choices(["c", "g", "s", "j", "b"], p.get("w", (6, 1.6, 2.2, 0.4, 0.7)))[0]
        if k == "b":
            lines.append(r.choice(("", "   ", "# note", "#console name=\"z\" dev=\"unix:s/u3\"", "\t# x")))
            continue
        t = dict(c=console, g=glob, s=server, j=lambda *a: [r.choice(("frob", "=", "name=\"aa\"", "log", "12 console", "\"x\"", "'", "\""))])[k](r, st, p)
        if r.random() < p.get("spoil", 0.15):
            t = spoil(r, t)
        s = join(r, t)
        if r.random() < 0.1:
            s = r.choice((" ", "\t")) + s
        if r.random() < 0.1:
            s += r.choice((" # end", "#", " "))
        lines.append(s)
    eol = lambda: r.choices(["\n", "\r\n", "\r"], [20, 2, 1])[0]
    text = "".join(l + eol() for l in lines)
    if r.random() < 0.2:
        text = text.rstrip("\r\n")
    args = []
    if r.random() < 0.15:
        args += ["-p", r.choice(("0", "7892", "4000"))]
    if r.random() < 0.15:
        args += ["-P", r.choice(("@D@/c.pid", "c2.pid"))]
    return dict(text=text, args=args, quit=r.random() < 0.3, t0=drv.T0 + r.choice((0, 0, 17, 4000, 86399)))
