"""Runs the real client program under control and records what it does."""
import fcntl, os, pty, pwd, select, shutil, signal, socket, subprocess, tempfile, termios, time, tty

L = "latin-1"
T0 = 1500000000
KNOWN = {"127.0.0.1": "127.0.0.1", "10.1.2.3": "10.1.2.3", "127.0.0.9": "127.0.0.9"}


def hosts():
    h = {k: dict(ip=v, name=k) for k, v in KNOWN.items()}
    for i in range(1, 10):
        for s in ("", ".example.net", ".b"):
            n = "h%d%s" % (i, s)
            h[n] = dict(ip="10.9.%d.1" % i, name="h7" if i == 7 else n)
    return h


class Client:
    def __init__(self, exe, sc, tmp=None):
        self.exe, self.sc = exe, sc
        self.dir = tempfile.mkdtemp(prefix="cc", dir=tmp)
        self.trace = []
        self.net = self.srv = None
        self.fd = {}                         # descriptor -> n i o l
        self.alive = False
        self.sent = self.got = self.typed = self.read = 0
        self.eofs = self.eofr = False
        self.blk = {}
        self.stopped = False
        self.nout = 0
        self.buf = b""

    def ev(self, **kw):
        self.trace.append(kw)

    def start(self):
        sc = self.sc
        for n, c in sc.get("files", {}).items():
            open(os.path.join(self.dir, n), "w", encoding=L).write(c)
        self.lsn = socket.socket()
        self.lsn.bind(("127.0.0.1", 0))
        if not sc.get("refuse"):
            self.lsn.listen(5)
        ctl = socket.socket(socket.AF_UNIX)
        ctl.bind(self.dir + "/ctl")
        ctl.listen(1)
        self.master, self.slave = pty.openpty()
        self.attr0 = termios.tcgetattr(self.slave)
        self.attr0[1] &= ~termios.OPOST
        self.attr0[0] |= termios.ICRNL | termios.IXON
        self.attr0[3] |= termios.ECHO | termios.ICANON | termios.ISIG | termios.IEXTEN
        termios.tcsetattr(self.slave, termios.TCSANOW, self.attr0)
        self.attr0 = termios.tcgetattr(self.slave)
        os.set_blocking(self.master, False)
        istty = sc.get("istty", True)
        me = pwd.getpwuid(os.getuid()).pw_name
        env = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "USER": sc.get("user", me), "CSHIM_SOCK": self.dir + "/ctl",
               "CSHIM_T0": str(T0), "CSHIM_PORT": str(self.lsn.getsockname()[1])}
        tt = os.ttyname(self.slave)
        if sc.get("who"):
            me, tt = sc["who"]
            env["CSHIM_USER"], env["CSHIM_TTY"] = sc["who"]
        for k, v in sc.get("env", {}).items():
            env["CONMAN_" + {"host": "HOST", "port": "PORT", "esc": "ESCAPE"}[k]] = v
        env = {k.encode(L): v.encode(L) for k, v in env.items()}
        self.null = open("/dev/null", "rb")
        self.errf = open(self.dir + "/stderr", "wb")
        self.proc = subprocess.Popen([self.exe.encode()] + [a.encode(L) for a in sc["args"]], cwd=self.dir, env=env,
                                     stdin=self.slave if istty else self.null, stdout=self.slave, stderr=self.errf,
                                     start_new_session=True)
        self.ev(e="start", args=sc["args"], env=sc.get("env", {}), files=sc.get("files", {}), user=me,
                tty=(tt[5:] if tt.startswith("/dev/") else tt) if istty else "", istty=istty, hosts=hosts(),
                now=time.strftime("%Y-%m-%d %H:%M:%S UTC", time.gmtime(T0)))
        ctl.settimeout(10)
        self.alive = True
        try:
            self.ctl, _ = ctl.accept()
        finally:
            ctl.close()
        self.ctl.settimeout(20)
        self.fd = {0: "i", 1: "o", 2: "e"}
        self.step_to_gate()

    # ---- terminal
    def cooked(self):
        return termios.tcgetattr(self.master)[:4] == self.attr0[:4] if True else None

    def raw(self):
        a = termios.tcgetattr(self.master)
        return not (a[0] & (termios.ICRNL | termios.IXON | termios.ISTRIP | termios.BRKINT | termios.INPCK)
                    or a[1] & termios.OPOST or a[3] & (termios.ICANON | termios.ISIG | termios.IEXTEN))

    def echo(self):
        return bool(termios.tcgetattr(self.master)[3] & termios.ECHO)

    def drain(self):
        d = b""
        try:
            while True:
                x = os.read(self.master, 65536)
                if not x:
                    break
                d += x
        except OSError:
            pass
        return d

    # ---- the client's side
    def cmd(self, s):
        try:
            self.ctl.sendall(s.encode() + b"\n")
        except OSError:
            pass

    def lines(self):
        """Next line from the shim; None when the client has ended."""
        while b"\n" not in self.buf:
            try:
                x = self.ctl.recv(65536)
            except socket.timeout:
                self.ev(e="anom", what="hang")
                self.proc.kill()
                return None
            except OSError:
                x = b""
            if not x:
                return None
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def step_to_gate(self):
        while True:
            l = self.lines()
            self.screen = getattr(self, "screen", b"") + self.drain()
            if l is None:
                self.ended()
                return None
            f = l.split(" ")
            t = f[0]
            if t == "P":
                self.gate = f[1]
                return f[1]
            self.event(t, f)

    def event(self, t, f):
        if os.environ.get("DBG"): print(f)
        if t in ("r", "w"):
            d = bytes.fromhex(f[2]).decode(L)
            k = self.fd.get(int(f[1]))
            if t == "r":
                if k == "n":
                    self.got += len(d)
                    self.ev(e="rx", d=d)
                elif k == "i":
                    self.read += len(d)
                    self.ev(e="key", d=d)
            elif k == "n":
                self.ev(e="tx", d=d)
            elif k == "o":
                self.nout += len(d)
                self.ev(e="out", d=d)
            elif k == "l":
                self.ev(e="log", d=d)
            if t == "w" and k and self.blk.get(k, -1) > 0:
                self.blk[k] -= len(d)
        elif t == "e":
            k = self.fd.get(int(f[1]))
            if k == "n":
                self.eofr = True
                self.ev(e="rxeof")
            elif k == "i":
                self.ev(e="keyeof")
        elif t in ("x", "y"):
            k = self.fd.get(int(f[1]))
            n = {"xn": "rxerr", "yn": "txerr", "xi": "keyerr", "yo": "outerr", "yl": "logerr"}.get(t + (k or ""))
            if k == "n" and t == "x" and int(f[2]) != 4:
                self.eofr = True
            if n:
                self.ev(e=n, r=int(f[2]))
        elif t == "h":
            if f[2] in "12":
                self.ev(e="shut")
        elif t == "n":
            self.fd[int(f[1])] = "n"
            self.ev(e="conn", ip=f[2], port=int(f[3]), r=int(f[4]))
            if f[4] == "0":
                self.lsn.settimeout(5)
                self.srv, _ = self.lsn.accept()
                self.srv.setblocking(False)
                self.srv.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        elif t == "o":
            fl = int(f[2])
            if fl & 3:
                fd = int(f[1])
                self.ev(e="lopen", path=bytes.fromhex(f[3]).decode(L), app=bool(fl & os.O_APPEND), trunc=bool(fl & os.O_TRUNC), r=int(fd < 0))
                if fd >= 0:
                    self.fd[fd] = "l"
        elif t == "N":
            n = bytes.fromhex(f[1]).decode(L)
            if n not in hosts():
                self.ev(e="nohost", name=n)
        elif t == "k":
            pass
        elif t == "c":
            self.fd.pop(int(f[1]), None)
        elif t[0] == "Z":
            self.ev(e="anom", what=t)

    def ended(self):
        if not self.alive:
            return
        self.alive = False
        try:
            rc = self.proc.wait(10)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            rc = self.proc.wait()
        self.screen = getattr(self, "screen", b"") + self.drain()
        if self.nout == 0 and self.screen and self.typed == 0:
            self.ev(e="printed", d=self.screen.decode(L))
        self.errf.close()
        self.ev(e="exit", rc=rc if rc >= 0 else 128 - rc, cooked=self.cooked(), err=open(self.dir + "/stderr", encoding=L, newline="").read())

    def unread(self):
        if not self.alive or self.stopped or self.gate == "w":
            return 0
        n = self.typed - self.read
        if self.srv is not None:
            n += self.sent - self.got + int(self.eofs and not self.eofr)
        return n

    def run(self):
        """Lets the client go on until it has nothing more to do."""
        if not self.alive:
            return
        slept = 0.0
        self.stopped = False
        while True:
            self.cmd("R")
            g = self.step_to_gate()
            if g is None:
                return
            self.snet()
            if g == "z":
                self.stopped = True
                self.typed = self.read       # what was typed ahead is dropped with the change of mode
                self.ev(e="stop", cooked=self.cooked())
                return
            if not self.unread() or slept > 3:
                break
            d = 0.001 if slept < 0.05 else 0.02
            time.sleep(d)
            slept += d
        u = self.unread()
        self.ev(e="wait", raw=self.raw(), echo=self.echo(), unread=u, **{"blk" + k: self.blk.get(k, -1) == 0 for k in "nol"})
        if u:
            self.proc.kill()
            self.alive = False

    def snet(self):
        if self.srv is not None:
            try:
                while self.srv.recv(65536):
                    pass
            except OSError:
                pass

    def fdof(self, k):
        for fd, v in self.fd.items():
            if v == k:
                return fd
        return None

    def step(self, st):
        t, a = st[0], st[1:]
        if not self.alive:
            return
        if t == "run":
            self.run()
        elif t == "srv":
            if self.srv is not None and not self.eofs:
                try:
                    self.sent += self.srv.send(a[0].encode(L))
                except OSError:
                    pass
        elif t in ("srveof", "srvrst"):
            if self.srv is not None and not self.eofs:
                self.eofs = True
                if t == "srvrst":
                    self.sent = self.got         # a reset overtakes what was on its way
                    self.srv.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                    self.srv.close()
                    self.srv = socket.socket()   # nothing
                else:
                    try:
                        self.srv.shutdown(socket.SHUT_WR)
                    except OSError:
                        pass             # the client has gone
        elif t == "key":
            if self.raw() and not self.stopped:
                d = a[0].encode(L)
                self.typed += os.write(self.master, d)
        elif t == "term":
            if self.raw():
                self.ev(e="term")
                os.kill(self.proc.pid, signal.SIGTERM)
                l = self.lines()             # the interruption
                if l is not None and l != "i":
                    raise RuntimeError("not interrupted: " + l)
                g = self.step_to_gate()
                if g is not None:
                    self.ev(e="wait", raw=self.raw(), echo=self.echo(), unread=0, **{"blk" + k: self.blk.get(k, -1) == 0 for k in "nol"})
        elif t == "sig":
            if self.raw() and not self.stopped:
                os.kill(self.proc.pid, a[0])
        elif t == "flt":                     # flt kind which err n
            fd = self.fdof(a[1]) if a[1] else -1
            if fd is not None:
                self.cmd("F%s %d %d %d" % (a[0], fd, a[2], a[3]))
        elif t == "cr":
            fd = self.fdof(a[0])
            if fd is not None:
                self.blk[a[0]] = a[1]
                self.cmd("C%d %d" % (fd, a[1]))
        elif t == "cap":
            fd = self.fdof(a[0])
            if fd is not None:
                self.cmd("M%d %d" % (fd, a[1]))
        else:
            raise ValueError(t)

    def go(self):
        try:
            self.start()
            for st in self.sc["steps"]:
                if not self.alive:
                    break
                self.step(st)
            if self.alive:
                for k in "nol":
                    if self.blk.get(k, -1) != -1:
                        self.step(["cr", k, -1])
                self.run()
        finally:
            if self.alive or getattr(self, "proc", None) and self.proc.poll() is None:
                self.alive = False
                self.proc.kill()
                self.proc.wait()
            for s in (self.lsn, getattr(self, "ctl", None), self.srv):
                if s is not None:
                    s.close()
            for f in (getattr(self, "master", -1), getattr(self, "slave", -1)):
                if f >= 0:
                    os.close(f)
            self.null.close()
            shutil.rmtree(self.dir, ignore_errors=True)
        return self.trace


def execute(sc, exe, tmp=None):
    c = Client(exe, sc, tmp)
    c.go()
    return c.trace
