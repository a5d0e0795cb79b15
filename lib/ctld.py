"""Starts, crashes and control requests: real daemons and requests, released call by call, checked against spec/Control.tla."""
import os, random, re, select, shutil, signal, socket, subprocess, sys, tempfile, time

KINDS = ("start", "term", "hup", "query")
SIG = dict(term=int(signal.SIGTERM), hup=int(signal.SIGHUP), query=0)


class Proc:
    def __init__(self, i, kind):
        self.i, self.kind = i, kind
        self.pid = self.pgid = 0             # of the process that does the work
        self.sock = None
        self.pend = None                     # the call waiting to be released
        self.gone = self.returned = self.up = self.told = self.ending = False
        self.launch = None                   # what was started (for a daemon in the background, not the daemon)
        self.buf = []


class Control:
    def __init__(self, sc, tools, tmp):
        self.sc, self.exe = sc, tools["kconmand"]
        self.dir = tempfile.mkdtemp(prefix="cmk", dir=tmp)
        self.lsn = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.lsn.bind(self.dir + "/ctl")
        self.lsn.listen(50)
        self.res = socket.socket()
        self.res.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.res.bind(("127.0.0.1", 0))
        self.port = self.res.getsockname()[1]
        self.w = self.dir + "/w"
        os.mkdir(self.w)
        self.conf, self.pidf = self.w + "/c.conf", self.w + "/run/d.pid"
        self.inodes = []
        self.edit()
        self.ps, self.trace = [], []
        self.bystander = None
        self.deny = 0

    def edit(self):
        """The configuration file is replaced, as editors do it."""
        with open(self.conf + ".new", "w") as f:
            f.write('server port=%d\nserver loopback=on\n%sconsole name="a" dev="unix:%s/none"\n' % (
                self.port, 'server pidfile="%s"\n' % self.pidf if self.sc["pidconf"] else "", self.w))
        os.rename(self.conf + ".new", self.conf)

    # ------------------------------------------------ events
    def pf(self):
        """Whose the process id file is: 0 none, k that of the k-th process, -1 another."""
        try:
            t = open(self.pidf, encoding="latin-1").read()
        except FileNotFoundError:
            return 0
        for p in self.ps:
            if t == "%d\n" % p.pid:
                return p.i
        return -1

    def ev(self, e, **kw):
        self.trace.append(dict(e=e, pf=self.pf(), **kw))

    def byid(self, pid):
        for p in self.ps:
            if p.pid == pid and pid > 0:
                return p.i
        return 0

    # ------------------------------------------------ processes
    def spawn(self, kind, pidopt, fg):
        p = Proc(len(self.ps) + 1, kind)
        self.ps.append(p)
        a = [self.exe, "-c", self.conf] + dict(start=[], term=["-k"], hup=["-r"], query=["-q"])[kind]
        a += ["-P", self.pidf] if pidopt else []
        a += ["-F"] if fg else []
        p.out, p.err = self.dir + "/out%d" % p.i, self.dir + "/err%d" % p.i
        p.fg = fg
        p.launch = subprocess.Popen(a, cwd=self.w, stdin=subprocess.DEVNULL, stdout=open(p.out, "wb"), stderr=open(p.err, "wb"), start_new_session=True,
                                    env=dict(PATH=os.environ["PATH"], CTL_SOCK=self.dir + "/ctl", CTL_ID=str(p.i), CTL_DIR=self.w, LC_ALL="C"))
        self.ev("spawn", p=p.i, k=kind, own=kind == "start" and (self.sc["pidconf"] or pidopt), named=pidopt, fg=fg)
        self.settle(p)

    def incoming(self, t=0):
        while select.select([self.lsn], [], [], t)[0]:
            c, _ = self.lsn.accept()
            h = c.recv(200).decode().split()
            p = self.ps[int(h[1]) - 1]
            if p.sock:
                p.sock.close()
            p.sock, p.pid, p.pgid = c, int(h[2]), int(h[3])
            t = 0

    def settle(self, p, limit=4.0):
        """Until it waits at a call, or is up and idle, or has gone."""
        end = time.time() + limit
        while time.time() < end and not p.pend:
            if p.gone and (p.returned or not p.fg and self.ret(p)):
                return
            self.incoming()
            fds = [self.lsn] + ([p.sock] if p.sock and not p.gone else [])
            r = select.select(fds, [], [], 0.004 if p.gone or not p.sock else 0.05)[0]
            if p.sock in r:
                m = p.sock.recv(5000)
                if not m:
                    self.went(p)
                elif m[:2] == b"G ":
                    p.pend = m[2:].decode("latin-1").split(" ")
                elif m[:2] == b"D ":
                    p.last = [int(x) for x in m[2:].split()]
                    return "done" if self.waiting_result else None
            elif not p.sock and self.ret(p):
                p.gone = True                # it ended without ever doing anything
                self.ev("gone", p=p.i)
                return
            if p.up and not p.pend and not r and not p.ending:
                return
        if not p.gone and not p.pend and not p.up:
            pass                             # blocked in a call

    waiting_result = False

    def went(self, p):
        p.gone = True
        p.pend = None
        if p.fg:                             # wait for its status
            try:
                p.launch.wait(5)
            except subprocess.TimeoutExpired:
                pass
        self.ev("gone", p=p.i)
        self.ret(p)

    def ret(self, p):
        """The command has returned to its caller."""
        if p.returned:
            return True
        rc = p.launch.poll()
        if rc is None:
            return False
        p.returned = True
        out = open(p.out).read().strip()
        err = open(p.err, encoding="latin-1").read()
        self.ev("ret", p=p.i, rc=rc if rc >= 0 else 256 - rc, out=self.byid(int(out)) if re.fullmatch(r"\d+", out) else (-1 if out else 0),
                err=bool(re.search(r"ERROR|appear to be active|in use|cannot be sent|Unable", err)))
        return True

    def release(self, p):
        c, p.pend = p.pend, None
        if c[0] == "up":
            p.up = True
            self.ev("up", p=p.i)
            self.go(p)
            time.sleep(0.002)
            self.settle(p, 0.01)
            if p.kind == "start" and not p.fg:
                end = time.time() + 3
                while not self.ret(p) and time.time() < end:
                    time.sleep(0.002)
            return
        if c[0] == "kill":
            return self.killing(p, int(c[1]), int(c[2]))
        if c[0] in ("unlink", "rename") and not all(x.startswith(self.w + "/") for x in c[1:]):
            self.ev("strange", p=p.i, what=" ".join(c))
            p.sock.send(b"f 0 0")
        else:
            self.go(p)
            self.settle_result(p)
            if not p.gone:
                self.ev("step", p=p.i)
        self.settle(p)

    def go(self, p):
        try:
            p.sock.send(b"g")
        except OSError:
            pass

    def settle_result(self, p):
        self.waiting_result = True
        p.last = None
        self.settle(p, 2.0)
        self.waiting_result = False

    def killing(self, p, pid, sig):
        own = self.byid(pid)
        if pid < 0 and -pid == p.pgid and p.kind == "start":
            p.sock.send(b"f 0 0")            # its own process group: nothing of it is left in these tests
        elif own and not (self.deny and own):
            t = self.ps[own - 1]
            self.go(p)
            self.settle_result(p)
            r = p.last or [-1, 0]
            self.ev("sig", p=p.i, to=own, s=sig, r=0 if r[0] == 0 else r[1])
            if sig:
                t.told = t.told or sig == SIG["term"]
                self.struck(t)
        elif own:
            self.deny -= 1
            p.sock.send(b"f -1 1")
            self.ev("sig", p=p.i, to=own, s=sig, r=1)
        elif self.bystander and pid == self.bystander:
            p.sock.send(b"f 0 0")
            self.ev("sig", p=p.i, to=-2, s=sig, r=0)
        else:
            dead = pid > 1 and not os.path.exists("/proc/%d" % pid)
            p.sock.send(b"f -1 3" if dead else b"f 0 0")
            self.ev("sig", p=p.i, to=0, s=sig, r=3 if dead else 0)
        self.settle(p)

    def struck(self, t):
        """Lets the one that was signalled act on it."""
        time.sleep(0.003)
        t.ending = True
        if t.up and not t.pend:
            self.settle(t, 0.15)
        t.ending = False

    def crash(self, p):
        if p.gone or not p.pid:
            return
        self.ev("crash", p=p.i)
        os.kill(p.pid, signal.SIGKILL)
        p.pend = None
        while not p.gone:
            m = p.sock.recv(5000)
            if not m:
                self.went(p)
        if not p.fg:
            end = time.time() + 3
            while not self.ret(p) and time.time() < end:
                time.sleep(0.002)

    def pending(self):
        return [p for p in self.ps if p.pend]

    def listening(self):
        want = any(p.up and not p.gone for p in self.ps)
        end = time.time() + 3
        while self.connects() != want and time.time() < end:
            time.sleep(0.005)
        return self.connects()

    def connects(self):
        s = socket.socket()
        try:
            s.settimeout(2)
            s.connect(("127.0.0.1", self.port))
            return True
        except OSError:
            return False
        finally:
            s.close()

    # ------------------------------------------------ a scenario
    def run(self):
        self.ev("start")
        for st in self.sc["steps"]:
            k = st[0]
            if k == "spawn" and len(self.ps) < 9:
                self.spawn(*st[1:])
            elif k == "rel":
                q = self.pending()
                if q:
                    self.release(q[st[1] % len(q)])
            elif k == "all":                 # to quiescence
                for _ in range(400):
                    q = self.pending()
                    if not q:
                        break
                    self.release(q[0])
            elif k == "newest":              # the last started one goes on until it is done or in service
                for _ in range(60):
                    q = [p for p in self.pending() if p is self.ps[-1]]
                    if not q:
                        break
                    self.release(q[0])
            elif k == "crash":
                q = [p for p in self.ps if p.kind == "start" and not p.gone and p.pid]
                if q:
                    self.crash(q[st[1] % len(q)])
            elif k == "edit":
                self.edit()
                self.ev("edit")
            elif k == "deny":
                self.deny = 1
            elif k == "stale" and not any(p.kind == "start" and not p.gone for p in self.ps):
                os.makedirs(os.path.dirname(self.pidf), exist_ok=True)
                t = st[1]
                if t == "bystander":
                    self.bystander = os.getppid()
                    t = "%d\n" % self.bystander
                open(self.pidf, "w").write(t)
                self.ev("stale", other=st[1] == "bystander")
        while self.pending():
            self.release(self.pending()[0])
        self.end()
        # what runs is brought to an end by the request made for it
        if self.sc.get("finish") and any(p.up and not p.gone for p in self.ps):
            self.deny = 0
            self.spawn("term", True, True)
            while self.pending():
                self.release(self.pending()[0])
            self.end()
        return self.trace

    def end(self):
        for p in self.ps:
            if p.told and not p.gone:
                p.ending = True
                self.settle(p, 4.0)
                while p.pend:
                    self.release(p)
        self.ev("end", alive=[p.i for p in self.ps if p.kind == "start" and not p.gone], listening=self.listening())

    def close(self):
        for p in self.ps:
            if not p.gone and p.pid:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                p.launch.kill()
            except OSError:
                pass
            p.launch.wait()
            if p.sock:
                p.sock.close()
        self.lsn.close()
        self.res.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def execute(sc, tools, tmp=None):
    c = Control(sc, tools, tmp)
    try:
        tr = c.run()
        return tr, "".join("--- %d %s\n%s" % (p.i, p.kind, open(p.err, encoding="latin-1").read()) for p in c.ps)
    finally:
        c.close()


STALE = ["", "x\n", "0\n", "1\n", "-5\n", "4194303\n", "4194302 7\n", " 4194301", "99999999999\n"]


def scenario(r, p=None):
    p = p or {}
    pidconf = r.random() < 0.6
    w = dict(dict(spawn=10, rel=40, all=5, newest=5, crash=1.2, edit=0.6, deny=0.3, stale=0.7), **p.get("w", {}))
    kinds = p.get("kinds", dict(start=5, term=3, hup=1.5, query=3))
    fgp = p.get("fg", 0.5)
    st = []
    new = lambda k=None: ["spawn", k or r.choices(list(kinds), list(kinds.values()))[0], r.random() < 0.5, r.random() < fgp]
    if r.random() < p.get("first", 0.8):
        st += [new("start"), ["all"]]
    for _ in range(r.randint(*p.get("steps", (10, 50)))):
        k = r.choices(list(w), list(w.values()))[0]
        if k == "spawn":
            st.append(new())
        elif k in ("rel", "crash"):
            st.append([k, r.randrange(60)])
        elif k == "stale":
            st.append([k, r.choice(STALE)])
        else:
            st.append([k])
    return dict(pidconf=pidconf, steps=st, finish=r.random() < 0.5)
