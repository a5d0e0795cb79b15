"""Drives a shim-linked conmand deterministically and records the trace of everything it does.

The driver owns the environment (clients, console devices, clock, blocking, faults) and decides
every scheduling choice; the trace lists the daemon's externally visible actions in order, for
checking against the TLA+ specification (spec/TraceConMan.tla).
"""
import array, errno, fcntl, json, os, pty, re, select, shutil, signal, socket, stat, struct, subprocess
import sys, tempfile, termios, time, tty

T0 = 1500000000          # default start of virtual time: 2017-07-14 02:40:00 UTC
L = "latin-1"


class Crash(Exception):
    pass


SPEEDS = {getattr(termios, "B%d" % v): v for v in (50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400,
                                                   57600, 115200, 230400, 460800)}


F_OFD_GETLK, F_OFD_SETLK = 36, 37


def LK(fd, op):
    """Takes a write lock and tells whether it was given; or asks who else holds one: 0 nobody, -1 an open file."""
    try:
        b = fcntl.fcntl(fd, op, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))
    except OSError:
        return False
    l = struct.unpack("hhqqi", b[:28])
    return op == F_OFD_SETLK or (0 if l[0] == fcntl.F_UNLCK else l[4])


def _setnb(s):
    s.setblocking(False)
    return s


class Con:
    """Driver side of one console."""
    def __init__(self, idx, name, kind, **kw):
        self.id, self.name, self.kind = "c%d" % idx, name, kind
        self.log = kw.get("log")            # None or dict(san=,ts=)
        self.path = kw.get("path")          # device path / program
        self.host = kw.get("host", "127.0.0.%d" % (idx + 1))
        self.port = kw.get("port")
        self.args = kw.get("args", [])
        self.opts = kw.get("opts", "")      # extra text in the console directive
        self.lsn = None                     # listening socket of the device
        self.sock = None                    # driver's end of the data connection
        self.fd = -1                        # daemon's descriptor
        self.sent = self.got = 0            # bytes sent to / read by the daemon on this connection
        self.eof_sent = self.eof_seen = False
        self.noread = False                 # daemon saw an error, byte counts do not matter
        self.rx = b""                       # what the device received on this connection
        self.pid = None
        self.ctl = None                     # control connection of the helper program
        self.master = self.slave = None     # serial
        self.line = kw.get("line")          # its configured settings, as (directive, meaning)
        self.tio = kw.get("tio") or {}      # what the device was set to before: flags by word
        self.logpath = None
        self.logfd = -1
        self.lklog, self.lkdev = None, False     # locked by another process
        self.lk = kw.get("lk", [])               # ... from the start


class Cli:
    def __init__(self, idx):
        self.id = "k%d" % idx
        self.sock = None
        self.fd = -1
        self.sent = self.got = 0
        self.rx = b""
        self.eof_sent = self.eof_seen = False
        self.noread = False
        self.closed = False                 # daemon closed it
        self.dead = False                   # driver closed it completely
        self.accepted = False
        self.tidx = None


class World:
    def __init__(self, exe, cons, t0=T0, tzname="UTC", reset=None, server="", glob="", conhelp=None,
                 loopback=False, args=(), keepdir=False, tstamp=0, tmp=None, env=None, trace=True, preopen=(),
                 nolisten=False):
        self.exe, self.t0, self.tzname = exe, t0, tzname
        self.dir = tempfile.mkdtemp(prefix="cm", dir=tmp)
        self.now = 0                        # ms since t0
        self.usec = t0 * 1000000
        self.trace = []
        self.cons, self.clis = [], []
        self.byid = {}
        self.fds = {}                       # daemon fd -> object ("k", Cli) / ("c", Con) / ("l", Con)
        self.alive = False
        self.blocked = {}                   # object key -> credit
        self.reset = reset
        self.extra_args = list(args)
        self.buf = b""
        self.raw = []
        self.helpers = {}                   # pid -> (sock, fd, info)
        self.forks = []
        self.pids = set()
        self.stalled = set()
        self.anoms = []
        self.faults_on = False
        self.reset_pids = {}                # pid -> con
        self.reset_F = set()
        self.rgone = set()
        self.prog = None                    # process console being started
        self.tstamp, self.tnext = tstamp, None
        if tstamp:
            lt = self.local(t0)
            d = (lt.tm_hour * 60 + lt.tm_min) // tstamp + 1
            self.tnext = self.mktime(lt, d * tstamp)
        self.rx = {"": ["bad"]}
        self.pend_fork = []
        self.env = dict(os.environ, TZ=tzname)
        for v in ("CONMAN_HOST", "CONMAN_PORT", "CONMAN_ESCAPE"):
            self.env.pop(v, None)
        self.env.update(env or {})
        self.hold = False
        self.held = {}
        self.tot = {}                        # bytes taken out of each object's buffer
        self.last_sp = None
        self.ipmi = {}
        self.expect_exit = False
        self.exit_code = None
        self.loghooks = []
        if conhelp:
            os.mkdir(self.dir + "/bin")
            self.conhelp = self.dir + "/bin/conhelp"
            shutil.copy(conhelp, self.conhelp)
            os.chmod(self.conhelp, 0o755)
            self.hsock = socket.socket(socket.AF_UNIX)
            self.hsock.bind(self.dir + "/bin/h.sock")
            self.hsock.listen(100)
            _setnb(self.hsock)
        else:
            self.conhelp = None
        out = ["SERVER port=0", "SERVER loopback=%s" % ("on" if loopback else "off"), "SERVER tcpwrappers=off",
               "SERVER nofile=0"] if not server.startswith("!") else []
        if reset:
            out.append("SERVER resetcmd=\"%s\"" % reset.replace("@H@", self.conhelp or ""))
        if tstamp:
            out.append("SERVER timestamp=%d" % tstamp)
        out += [server.lstrip("!")] if server.lstrip("!") else []
        out += [glob] if glob else []
        for i, c in enumerate(cons):
            c = dict(c)
            con = Con(i, c.pop("name"), c.pop("kind"), **c)
            self.cons.append(con)
            self.byid[con.id] = con
            q = con.name.replace('"', '')
            line = 'CONSOLE name="%s"' % q if '"' not in con.name else "CONSOLE name='%s'" % con.name
            if con.kind == "unix":
                con.path = con.path or self.dir + "/s" + "1" * i     # each name is the beginning of the next one's
                line += ' dev="unix:%s"' % con.path
            elif con.kind == "telnet":
                if con.port is None:
                    t = socket.socket()
                    t.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    t.bind((con.host, 0))
                    con.port = t.getsockname()[1]
                    con.reserve = t
                line += ' dev="%s:%d"' % (con.host, con.port)
            elif con.kind == "process":
                if con.path is None:
                    con.path = self.dir + "/bin/prog%d" % i
                    self.mkprog(con)
                con.argv = [con.path, con.id] + con.args
                line += ' dev="%s"' % " ".join(con.argv)
            elif con.kind == "serial":
                con.master, con.slave = pty.openpty()
                tty.setraw(con.master)
                con.path = os.ttyname(con.slave)
                os.set_blocking(con.master, False)
                a = termios.tcgetattr(con.slave)
                for j, k in enumerate(("i", "o", "c", "l")):
                    for fl in con.tio.get(k, []):
                        a[j] |= getattr(termios, fl, 0o1000 if fl == "IUCLC" else 0)
                    for fl in con.tio.get("-" + k, []):
                        a[j] &= ~getattr(termios, fl, 0o1000 if fl == "IUCLC" else 0)
                if "bps" in con.tio:
                    a[4] = a[5] = getattr(termios, con.tio["bps"])
                termios.tcsetattr(con.slave, termios.TCSANOW, a)
                con.own = termios.tcgetattr(con.slave)[:6]
                line += ' dev="%s"' % con.path
                if con.line:
                    line += ' seropts="%s"' % con.line[0]
            elif con.kind == "ipmi":
                con.host = c.get("host") or "bmc%d" % i
                line += ' dev="ipmi:%s"' % con.host
                con.ictx = set()
            if con.log is not None:
                con.logpath = con.log.get("path") or self.dir + "/log%d" % i
                con.logpre = None
                if con.log.get("tmpl"):
                    con.logpre = self.dir + "/log%d-" % i
                    con.logpath = con.logpre + con.log["tmpl"]
                line += ' log="%s"' % (con.log.get("conf") or con.logpath)
                o = []
                for k, nm in (("san", "sanitize"), ("ts", "timestamp"), ("lock", "lock")):
                    if k in con.log:
                        o.append(nm if con.log[k] else "no" + nm)
                if o:
                    line += ' logopts="%s"' % ",".join(o)
            else:
                line += ' log=""'
            out.append(line + (" " + con.opts if con.opts else ""))
        for con in self.cons:
            for what in con.lk:
                self.lock_other(con, what)
        self.conf = self.dir + "/conman.conf"
        open(self.conf, "w", encoding=L).write("\n".join(out) + "\n")
        for i in preopen:
            self.listen(self.cons[i], quiet=True)
        self.ev = self._ev if trace else (lambda **k: None)

    def mkprog(self, con):
        shutil.copy(self.conhelp, con.path)
        os.chmod(con.path, 0o755)

    # ------------------------------------------------------------ trace
    def _ev(self, **k):
        self.trace.append(k)

    def _tz(self, f):
        old = os.environ.get("TZ")
        os.environ["TZ"] = self.tzname
        time.tzset()
        try:
            return f()
        finally:
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()

    def local(self, t):
        return self._tz(lambda: time.localtime(t))

    def mktime(self, lt, minutes):
        """The instant `minutes` after local midnight of the day of lt."""
        return int(self._tz(lambda: time.mktime((lt.tm_year, lt.tm_mon, lt.tm_mday, 0, minutes, 0, 0, 0, lt.tm_isdst))))

    def times(self):
        def f():
            lt = time.localtime(self.usec // 1000000)
            return dict(long=time.strftime("%Y-%m-%d %H:%M:%S", lt), short=time.strftime("%m-%d %H:%M", lt),
                        tz=time.strftime("%Y-%m-%d %H:%M:%S %Z", lt))
        return self._tz(f)

    def cfg(self):
        cons = {}
        for c in self.cons:
            dev = c.path or ""
            if c.kind == "telnet":
                dev = "%s:%d" % (c.host, c.port)
            elif c.kind == "process":
                dev = os.path.basename(c.path)
            elif c.kind == "ipmi":
                dev = c.host
            cons[c.id] = dict(name=c.name, kind=c.kind, dev=dev, logged=c.log is not None, tmpl=(c.log or {}).get("tmpl") or "",
                              line=c.line[1] if c.line else "9600,8N1",
                              san=bool(c.log and c.log.get("san")), ts=bool(c.log and c.log.get("ts")))
        host = socket.gethostbyaddr("127.0.0.1")[0].split(".")[0]
        t = self.times()
        return dict(e="cfg", cons=cons, reset=bool(self.reset), host=host, now=0, rx=self.rx, zero=self.zero,
                    env=sorted([k, self.env[k]] for k in ("DEBUG", "TZ") if k in self.env), **t)

    # ------------------------------------------------------------ process
    def start(self, wait=True):
        path = self.dir + "/ctl"
        s = socket.socket(socket.AF_UNIX)
        s.bind(path)
        s.listen(1)
        self.errfile = open(self.dir + "/stderr", "wb")
        env = dict(self.env, CONSHIM_SOCK=path, CONSHIM_T0=str(self.t0))
        self.proc = subprocess.Popen([self.exe, "-F", "-c", self.conf] + self.extra_args, stdin=subprocess.DEVNULL,
                                     stdout=self.errfile, stderr=self.errfile, env=env, cwd=self.dir,
                                     start_new_session=True)
        s.settimeout(20)
        self.ctl, _ = s.accept()
        s.close()
        self.ctl.settimeout(60)
        self.alive = True
        self.trace.append(self.cfg())
        self._collect(startup=True)
        m = re.search(rb"Listening on TCP port (\d+)", open(self.dir + "/stderr", "rb").read())
        self.port = int(m.group(1)) if m else None
        if self.alive:
            self._post()
        return self

    def stderr(self):
        return open(self.dir + "/stderr", "rb").read().decode(L)

    def _line(self, timeout=60):
        while b"\n" not in self.buf:
            self.ctl.settimeout(timeout)
            try:
                d = self.ctl.recv(1 << 16)
            except socket.timeout:
                return None
            except OSError:
                d = b""
            if not d:
                self.alive = False
                return ""
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode(L)

    def _collect(self, startup=False, sig=False):
        """Reads events up to the next gate and translates them."""
        lines = []
        gotR = startup
        while True:
            l = self._line(30)
            if l is None:
                self.ev(e="hang")
                self.kill()
                break
            if l == "" and not self.alive:
                self._flush(lines)
                try:
                    rc = self.proc.wait(10)
                except subprocess.TimeoutExpired:
                    rc = "closed"
                self.exit_code = rc
                self.ev(e="exit", rc=rc if isinstance(rc, int) else 999)
                return
            if l == "R":
                gotR = True
                continue
            if l.startswith("P "):
                if sig == "wait" and not any(x == "i" for x in lines):
                    continue
                if gotR:
                    self.remaining = int(l[2:])
                    break
                continue
            lines.append(l)
        self._flush(lines)

    def cmd(self, *lines):
        for l in lines:
            try:
                self.ctl.sendall((l + "\n").encode())
            except OSError:
                pass

    # ------------------------------------------------------------ event translation
    def _flush(self, lines):
        lines = [l for l in lines if l != "i"]
        self.raw.append(lines)
        i = 0
        out = self.trace
        n = len(lines)
        # forks: learn what each child is before translating
        for l in lines:
            if l.startswith("f "):
                self._await_helper(int(l[2:]))
        # resets requested by one read appear after it: attach their pids
        for i, l in enumerate(lines):
            self._tr(l, lines, i)

    def _obj(self, fd):
        return self.fds.get(fd)

    def _tr(self, l, lines, i):
        f = l.split(" ")
        t = f[0]
        if t in ("r", "tr", "w", "tw"):
            fd = int(f[1])
            o = self.fds.get(fd)
            d = bytes.fromhex(f[2])
            if o is None:
                return                       # not one of ours (inotify, pipes)
            k, x = o
            if t[-1] == "r":
                if k == "l":
                    return
                x.got += len(d)
                e = dict(e="rd", ty=k, o=x.id, d=d.decode(L), th=(t == "tr"))
                if t == "tr" and self.trace and self.trace[-1].get("e") == "rd" and self.trace[-1].get("th") \
                        and self.trace[-1]["o"] == x.id and not self.trace[-1]["d"].endswith("\n"):
                    self.trace[-1]["d"] += e["d"]
                    return
                if k == "k" and t == "r":
                    e["p"] = split_ff(d)
                    e["pids"], e["ferr"] = self._reset_pids(lines, i)
                elif k == "c":
                    if x.kind == "telnet" or (x.log and (x.log.get("san") or x.log.get("ts"))):
                        e["p"] = split_print(d)
                    else:
                        e["p"] = [d.decode(L)]
                self.ev(**e)
            else:
                key = (k, x.id)
                if self.blocked.get(key, -1) > 0:
                    self.blocked[key] = max(0, self.blocked[key] - len(d))
                e = dict(e="wr", ty=k, o=x.id, d=d.decode(L))
                if t == "w":
                    self.tot[key] = self.tot.get(key, 0) + len(d)
                if t == "tw" and self.trace and self.trace[-1].get("e") == "wr" and self.trace[-1]["o"] == x.id \
                        and self.trace[-1]["ty"] == k:
                    self.trace[-1]["d"] += e["d"]
                    return
                self.ev(**e)
                if k == "l" and self.blocked.get(key) == 0:
                    self.ev(e="full", o=x.id, f=True)
        elif t in ("e", "te"):
            o = self.fds.get(int(f[1]))
            if o:
                o[1].eof_seen = True
                self.ev(e="eof", ty=o[0], o=o[1].id)
        elif t in ("x", "tx") and len(f) == 3:
            o = self.fds.get(int(f[1]))
            if o:
                o[1].noread = True
                self.ev(e="rerr", ty=o[0], o=o[1].id, err=int(f[2]))
        elif t == "tx":
            pass
        elif t in ("y", "ty"):
            o = self.fds.get(int(f[1]))
            if o:
                self.ev(e="werr", ty=o[0], o=o[1].id, err=int(f[2]))
        elif t in ("c", "tc"):
            o = self.fds.pop(int(f[1]), None)
            if o and o[0] != "u":
                k, x = o
                self.blocked.pop((k, x.id), None)
                if k == "k":
                    x.closed = True
                    x.fd = -1
                elif k == "c":
                    x.fd = -1
                    self._con_closed(x)
                elif k == "l":
                    x.logfd = -1
                self.ev(e="cl", ty=k, o=x.id)
        elif t == "a":
            port = int(f[2])
            for c in self.clis:
                if c.fd < 0 and not c.closed and c.lport == port:
                    c.fd = int(f[1])
                    c.accepted = True
                    self.fds[c.fd] = ("k", c)
                    self.ev(e="acc", o=c.id)
                    break
        elif t == "A":
            self.accfail = self.now
            self.ev(e="accfail", err=int(f[1]))
        elif t == "t":
            self.last_thr = int(f[1])
            for e in reversed(self.trace):
                if e["e"] == "acc":
                    self.byid[e["o"]].tidx = int(f[1])
                    break
        elif t == "pg":
            o = self.fds.get(int(f[1]))
            if o and o[0] == "k":
                self.ev(e="nothread", o=o[1].id, err=int(f[2]))
        elif t == "pt":
            for e in reversed(self.trace):
                if e["e"] == "acc":
                    self.ev(e="nothread", o=e["o"], err=int(f[1]))
                    break
        elif t == "hp":
            self.ev(e="hup")
        elif t in ("o", "to"):
            path = bytes.fromhex(f[3]).decode(L) if len(f) > 3 else ""
            fd, fl = int(f[1]), int(f[2])
            c = self._log_by_path(path)
            if c:
                r = errno.EAGAIN if c.lklog is not None and self._shut_next(fd, lines, i) else 0
                self.ev(e="opn", o=c.id, r=r, trunc=bool(fl & os.O_TRUNC), app=bool(fl & os.O_APPEND),
                        **self._logname(c, path))
                if r == 0:
                    self.fds[fd] = ("l", c)
                    c.logfd = fd
                return
            for c in self.cons:
                if c.kind == "serial" and c.path == path and c.lkdev and self._shut_next(fd, lines, i):
                    self.ev(e="try", o=c.id, r="fail", why="")
                    return
                if c.kind == "serial" and c.path == path and c.fd < 0:
                    self.fds[fd] = ("c", c)
                    c.fd = fd
                    self._fresh(c)
                    self.ev(e="try", o=c.id, r="ok", why="")
                    self._apply_block(("c", c.id), fd)
                    return
        elif t in ("O", "tO"):
            path = bytes.fromhex(f[3]).decode(L)
            c = self._log_by_path(path)
            if c:
                self.ev(e="opn", o=c.id, r=int(f[1]), trunc=bool(int(f[2]) & os.O_TRUNC), app=True,
                        **self._logname(c, path))
                return
            for c in self.cons:
                if c.kind == "serial" and c.path == path:
                    self.ev(e="try", o=c.id, r="fail", why="")
        elif t == "s":
            path = bytes.fromhex(f[3]).decode(L) if len(f) > 3 else ""
            for c in self.cons:
                if c.kind == "process" and c.path == path:
                    self.prog = c
                    if f[1] != "0":
                        self._pfail('"%s" stat error: %s' % (os.path.basename(path), os.strerror(int(f[1]))))
                    elif f[2] != "1":
                        self._pfail('"%s" not a regular file' % os.path.basename(path))
                if c.kind == "unix" and c.path == path:
                    self.last_target = c
                    if (f[1] != "0" or f[2] != "2") and self.last_sp != (c.id, len(self.trace)):
                        self.ev(e="try", o=c.id, r="fail", why="")
                        self.last_sp = (c.id, len(self.trace))
        elif t == "x?":
            if self.prog and f[1] != "0":
                self._pfail('"%s" not executable' % os.path.basename(self.prog.path))
        elif t == "k!":
            if self.prog:
                self._pfail("socketpair error: " + os.strerror(int(f[1])))
        elif t == "n":
            fd, err, a = int(f[1]), int(f[2]), f[3] if len(f) > 3 else ""
            c = None
            if a.startswith("u"):
                path = bytes.fromhex(a[1:]).decode(L)
                c = next((c for c in self.cons if c.kind == "unix" and c.path == path), None)
            elif a.startswith("i"):
                h, p = a[1:].rsplit(":", 1)
                c = next((c for c in self.cons if c.kind == "telnet" and c.port == int(p)), None)
            if not c:
                return
            if err == 0 or err == errno.EINPROGRESS:
                if c.fd >= 0 and self.fds.get(c.fd) == ("c", c):
                    self.ev(e="double", o=c.id)
                self.fds[fd] = ("c", c)
                c.fd = fd
                self._fresh(c)
                if c.kind == "telnet" and self.hold_conn:
                    self.blocked[("c", c.id)] = 0
                self._accept_con(c)
                self._apply_block(("c", c.id), fd)
                self.ev(e="try", o=c.id, r="ok" if err == 0 else "pend", why="")
            else:
                self.ev(e="try", o=c.id, r="fail" if c.kind == "telnet" else "cfail", why="")
                self.fds[fd] = ("c", c) if c.kind == "telnet" else ("u", c)
                if c.kind == "telnet":
                    c.fd = fd
        elif t == "H":
            if True:
                h = bytes.fromhex(f[2]).decode(L)
                c = next((c for c in self.cons if c.kind == "telnet" and c.host == h), None)
                if c and f[1] != "0":
                    self.ev(e="try", o=c.id, r="resolve", why="")
                if c:
                    self.last_target = c
        elif t == "S":
            c = self.last_target
            if c:
                self.ev(e="try", o=c.id, r="fail" if c.kind == "unix" else "cfail", why="")
        elif t == "g":
            o = self.fds.get(int(f[1]))
            if o and o[0] == "c":
                self.ev(e="so", o=o[1].id, r=int(f[2]))
        elif t == "f":
            pid = int(f[1])
            self._fork(pid, lines, i)
        elif t == "F":
            if id(lines) * 1000 + i not in self.reset_F and self.prog:
                self._pfail("fork error: " + os.strerror(int(f[1])))
        elif t == "k":
            self.pair = (int(f[1]), int(f[2]))
        elif t == "K":
            pid, sig, r = int(f[1]), int(f[2]), int(f[3])
            o = ""
            for c in self.cons:
                if c.lastpid == abs(pid) if hasattr(c, "lastpid") else False:
                    o = c.id
            if abs(pid) in self.reset_pids:
                o = self.reset_pids[abs(pid)].id
            if sig == signal.SIGKILL:
                self.rgone.add(abs(pid))
                self._wait_gone(abs(pid))
            self.ev(e="kill", o=o, pid=abs(pid), grp=pid < 0, sig=sig, r=r, reset=abs(pid) in self.reset_pids)
        elif t == "b":
            o = self.fds.get(int(f[1]))
            if o:
                self.ev(e="brk", o=o[1].id)
        elif t == "T":
            o = self.fds.get(int(f[1]))
            if o and o[0] == "c":
                self.ev(e="line", o=o[1].id, **self._tty(o[1], [int(x, 16) for x in f[2:6]] + [int(x) for x in f[6:8]]))
        elif t == "clk":
            self.usec = int(f[1])
            self.now = (self.usec - self.t0 * 1000000) // 1000
            n = 0
            while self.tnext is not None and self.tnext * 1000000 <= self.usec:
                n += 1
                self.tnext += 60 * self.tstamp
            self.ev(e="clk", now=self.now, mark=n, **self.times())
        elif t[0] == "Z":
            self.anoms.append(l)
            if t != "Zsleep":
                self.ev(e="anom", what=t)
        elif t[0] == "I":
            self._ipmi_ev(f)

    def _ipmi_ev(self, f):
        h = f[-1] if f[0] in ("Icreatefail", "Isubmitfail", "Isubmit", "Ierr", "Ibreak", "Idestroy") else f[2] if len(f) > 2 else ""
        c = next((c for c in self.cons if c.kind == "ipmi" and c.host == h), None)
        if c is None:
            return
        t = f[0]
        if t == "Icreate":
            c.ictx.add(int(f[1]))
            c.iconf = f[3:]
            if len(c.ictx) > 1:
                self.ev(e="double", o=c.id)
        elif t == "Idestroy":
            c.ictx.discard(int(f[1]))
        elif t in ("Icreatefail", "Isubmitfail"):
            self.ev(e="try", o=c.id, r="fail", why="")
        elif t == "Isubmit":
            self.ev(e="try", o=c.id, r="pend", why="")
        elif t == "Ierr":
            self.ev(e="so", o=c.id, r=1)
        elif t == "Ibreak":
            self.ev(e="brk", o=c.id)
        elif t == "Iup":
            self.ev(e="so", o=c.id, r=0)
        elif t == "Ifd":
            fd = int(f[3])
            self.fds[fd] = ("c", c)
            c.fd = fd
            self._fresh(c)
            while True:                      # an abandoned session may have left its connection behind
                try:
                    a, _a = c.lsn.accept()
                except BlockingIOError:
                    break
                if c.sock is not None:
                    c.sock.close()
                c.sock = a
                _setnb(c.sock)

    def ipmi_do(self, c, what):
        """Outcome of the pending session attempt: ok, err, submitfail, createfail."""
        if what == "ok" and c.lsn is None:
            c.lsn = socket.socket(socket.AF_UNIX)
            c.ipath = self.dir + "/i" + c.id
            c.lsn.bind(c.ipath)
            c.lsn.listen(8)
            _setnb(c.lsn)
        self.cmd("X %s %s %s" % (c.host, what, getattr(c, "ipath", "")))

    def _logname(self, c, path):
        """The name a log was opened under and, for names with specifiers, what these stand for now."""
        if not c.logpre:
            return dict(path=path)
        c.curlog = path
        fm = self._tz(lambda: {k: time.strftime("%" + k, time.localtime(self.usec // 1000000)) for k in "dgGHjmMsSuUVwWyY"})
        fm["P"] = str(self.proc.pid)
        return dict(path=path[len(c.logpre):], fm=fm)

    def _log_by_path(self, path):
        for c in self.cons:
            if c.log is not None and (path.startswith(c.logpre) if c.logpre else c.logpath == path):
                return c
        for h in self.loghooks:
            c = h(path)
            if c:
                return c
        return None

    hold_conn = False
    accfail = -100000                        # a failed accept may be retried a little later
    last_target = None
    zero = False
    mark_next = None
    pair = (-1, -1)

    def _fresh(self, c):
        c.sent = c.got = 0
        c.eof_sent = c.eof_seen = c.noread = False
        c.rx = b""

    def _apply_block(self, key, fd):
        pass

    def _con_closed(self, c):
        if c.sock is not None and c.kind != "serial":
            try:
                self._drain(c)
            except OSError:
                pass
            c.sock.close()
            c.sock = None

    def _accept_con(self, c):
        if c.lsn is None:
            return
        for _ in range(200):
            try:
                c.sock, _a = c.lsn.accept()
                _setnb(c.sock)
                return
            except BlockingIOError:
                time.sleep(0.005)

    def _await_helper(self, pid):
        if not self.conhelp or pid in self.helpers:
            return
        end = time.time() + 5
        while time.time() < end:
            r, _, _ = select.select([self.hsock], [], [], 0.05)
            if r:
                try:
                    s, _ = self.hsock.accept()
                except BlockingIOError:
                    continue
                s.settimeout(5)
                msg, anc, _fl, _ad = s.recvmsg(16384, socket.CMSG_SPACE(4))
                fd = -1
                for lv, ty, dat in anc:
                    if lv == socket.SOL_SOCKET and ty == socket.SCM_RIGHTS:
                        fd = array.array("i", dat[:4])[0]
                w = msg.decode().split()
                argv = ["" if x == "-" else bytes.fromhex(x).decode(L) for x in w[9:]]
                env = [bytes.fromhex(x).decode(L).partition("=") for x in w[7].split(",")[:-1]]
                info = dict(pid=int(w[0]), pgrp=int(w[1]), sid=int(w[2]), ino=w[3:6], argv=argv,
                            fds=[] if w[6] == "-" else w[6].split(","),
                            env=sorted([k, v] for k, _, v in env))
                self.helpers[info["pid"]] = self.helpers[info["pgrp"]] = [s, fd, info]
                if pid in self.helpers:
                    return
            else:
                if not os.path.exists("/proc/%d" % pid):
                    return
                try:
                    st = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0]
                    if st == "Z":
                        return
                except OSError:
                    return

    def _reset_pids(self, lines, i):
        """pids of the reset commands started while processing the read at line i, in order"""
        out, err = [], ""
        for l in lines[i + 1:]:
            t = l.split(" ")[0]
            if t in ("r", "e", "x", "w") and self.fds.get(int(l.split(" ")[1])) is None:
                continue                     # one of the daemon's own (the pipe its signal handlers write)
            if t in ("r", "e", "x", "a", "clk", "w", "s", "n"):
                break
            if t == "f":
                out.append(int(l.split(" ")[1]))
            elif t == "F":
                out.append(-1)
                err = os.strerror(int(l.split(" ")[1]))
                self.reset_F.add(id(lines) * 1000 + lines.index(l, i))
        return out, err

    def _pfail(self, why):
        c, self.prog = self.prog, None
        self.ev(e="try", o=c.id, r="fail", why=why)

    def resetcmd(self, c):
        """The arguments a reset command of console c must be run with."""
        t = self.reset.replace("@H@", self.conhelp or "").replace("%N", san_name(c.name)).replace("%%", "%")
        return t.split()

    def rexit(self, pid):
        """The reset command with this pid ends."""
        h = self.helpers[pid]
        self.rgone.add(pid)
        try:
            h[0].sendall(b"x")
        except OSError:
            pass
        self._wait_gone(pid)
        self._sigwait()
        self.ev(e="rdead", o=self.reset_pids[pid].id, pid=pid)

    def _wait_gone(self, pid):
        end = time.time() + 5
        while time.time() < end:
            try:
                if open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] == "Z":
                    return
            except OSError:
                return
            time.sleep(0.001)

    def _fork(self, pid, lines, i):
        self.prog = None
        h = self.helpers.get(pid)
        self.pids.add(pid)
        argv = h[2]["argv"] if h else []
        given = dict(fds=h[2]["fds"], env=h[2]["env"]) if h else dict(fds=["?"], env=[])
        c = self.byid.get(argv[1]) if len(argv) > 1 else None
        if h and len(argv) > 1 and argv[1] == "reset":
            c = next((x for x in self.cons if san_name(x.name) == argv[2]), None)
            self.reset_pids[pid] = c
            self.ev(e="fork", o=c.id if c else "", why="reset", pid=pid, **given,
                    ok=c is not None and argv == self.resetcmd(c) and h[2]["pgrp"] == pid)
            if h[1] >= 0:
                os.close(h[1])
                h[1] = -1
            return
        if c:
            c.pid = c.lastpid = pid
            c.hinfo = h[2]
            fd = self.pair[0]
            # which of the pair stays open in the daemon
            for l in lines[i + 1:]:
                f = l.split(" ")
                if f[0] in ("c", "tc") and int(f[1]) in self.pair:
                    fd = self.pair[1] if int(f[1]) == self.pair[0] else self.pair[0]
                    break
            self.fds[fd] = ("c", c)
            c.fd = fd
            self._fresh(c)
            c.sock = _setnb(socket.socket(fileno=h[1]))
            h[1] = -1
            c.ctl = h[0]
            c.alive = True
            self._apply_block(("c", c.id), fd)
            self.ev(e="fork", o=c.id, why="con", pid=pid, **given, ok=argv == c.argv and len(set(h[2]["ino"])) == 1)
            return
        self.ev(e="fork", o="", why="unknown", pid=pid, **given, ok=False)

    # ------------------------------------------------------------ environment actions
    def client(self):
        c = Cli(len(self.clis))
        s = socket.socket()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.connect(("127.0.0.1", self.port))
        c.sock = _setnb(s)
        c.lport = s.getsockname()[1]
        self.clis.append(c)
        self.byid[c.id] = c
        return c

    def send(self, c, data):
        if isinstance(data, str):
            data = data.encode(L)
        if c.closed or c.dead:
            return
        try:
            n = 0
            while n < len(data):
                try:
                    k = c.sock.send(data[n:])
                except BlockingIOError:
                    break
                n += k
            c.sent += n
        except OSError:
            c.noread = True

    def chalf(self, c):
        """The client stops sending (half close)."""
        if not c.closed and not c.dead:
            try:
                c.sock.shutdown(socket.SHUT_WR)
                c.eof_sent = True
            except OSError:
                pass

    def cclose(self, c, rst=False):
        if c.dead:
            return
        self._drain(c)
        self.credit(c, -1)                  # the daemon's next write fails
        if rst:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            c.noread = True
        c.sock.close()
        c.dead = True
        c.eof_sent = True

    def _drain(self, x):
        s = x.sock
        if s is None:
            return
        while True:
            try:
                d = s.recv(1 << 16)
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                return
            if not d:
                return
            x.rx += d

    def listen(self, c, quiet=False, backlog=16, moved=False):
        """The device of console c becomes reachable."""
        if c.lsn:
            return
        if c.kind == "unix":
            c.lsn = socket.socket(socket.AF_UNIX)
            if not self.plain(c, False):
                os.unlink(c.path)
            if moved:
                if os.path.exists(c.path + ".mv"):
                    os.unlink(c.path + ".mv")
                c.lsn.bind(c.path + ".mv")
                c.lsn.listen(backlog)
                os.rename(c.path + ".mv", c.path)
            else:
                c.lsn.bind(c.path)
                c.lsn.listen(backlog)
            if not quiet:
                self.ev(e="nfy", o=c.id)
        elif c.kind == "telnet":
            if getattr(c, "reserve", None):
                c.lsn, c.reserve = c.reserve, None
            else:
                c.lsn = socket.socket()
                c.lsn.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                c.lsn.bind((c.host, c.port))
            c.lsn.listen(backlog)
        _setnb(c.lsn)

    def plain(self, c, make=True):
        """Is there no ordinary file in place of c's socket?  Puts one there if wanted."""
        try:
            if not stat.S_ISSOCK(os.stat(c.path).st_mode):
                return False
        except OSError:
            if make:
                open(c.path, "w").close()
                self.ev(e="nfy", o=c.id)
        return True

    def bind_only(self, c):
        """The socket file appears before anyone listens on it."""
        s = socket.socket(socket.AF_UNIX)
        if not self.plain(c, False):
            os.unlink(c.path)
        s.bind(c.path)
        self.ev(e="nfy", o=c.id)
        c.unbound = s

    def listen_bound(self, c):
        c.lsn = c.unbound
        c.lsn.listen(16)
        _setnb(c.lsn)

    def unlisten(self, c):
        if c.kind == "unix":
            try:
                os.unlink(c.path)
            except OSError:
                pass
            if getattr(c, "unbound", None):
                c.unbound.close()
                c.unbound = None
        if c.lsn:
            if c.kind == "telnet":
                c.reserve = socket.socket()
                c.lsn.close()
                c.reserve.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                c.reserve.bind((c.host, c.port))
            else:
                c.lsn.close()
            c.lsn = None

    def csend(self, c, data):
        if isinstance(data, str):
            data = data.encode(L)
        if c.kind == "serial":
            n = 0
            try:
                while n < len(data):
                    n += os.write(c.master, data[n:])
            except BlockingIOError:
                pass
            c.sent += n
            return
        if c.sock is None:
            return
        n = 0
        try:
            while n < len(data):
                try:
                    n += c.sock.send(data[n:])
                except BlockingIOError:
                    break
        except OSError:
            pass
        c.sent += n

    def _tty(self, c, v):
        """What a call sets a serial line to; v: iflag oflag cflag lflag ispeed ospeed."""
        t = termios
        word = "%s,%d%s%d" % (SPEEDS.get(v[5], -1) if v[4] == v[5] else "?", {t.CS5: 5, t.CS6: 6, t.CS7: 7, t.CS8: 8}[v[2] & t.CSIZE],
                              "N" if not v[2] & t.PARENB else "O" if v[2] & t.PARODD else "E", 2 if v[2] & t.CSTOPB else 1)
        iucl = 0o1000
        raw = (not v[0] & (t.BRKINT | t.PARMRK | t.INPCK | t.ISTRIP | t.INLCR | t.IGNCR | t.ICRNL | t.IXON | iucl) and not v[1] & t.OPOST
               and v[2] & t.CLOCAL and not v[3] & (t.ECHO | t.ICANON | t.IEXTEN | t.ISIG))
        return dict(s=word, raw=bool(raw), own=v == c.own)

    def ceof(self, c, rst=False):
        """The device drops the connection (or the program exits)."""
        if c.sock is None:
            return
        self._drain(c)
        self.credit(c, -1)
        if c.kind == "process":
            c.sock.close()
            c.sock = None
            try:
                c.ctl.sendall(b"x")
            except OSError:
                pass
            self._wait_dead(c)
            c.eof_sent = True
            return
        if rst and c.kind == "telnet":
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            c.noread = True
        c.sock.close()
        c.sock = None
        c.eof_sent = True

    def chalfc(self, c):
        """The device stops sending but still takes data."""
        if c.sock is not None:
            try:
                c.sock.shutdown(socket.SHUT_WR)
                c.eof_sent = True
            except OSError:
                pass

    def _wait_dead(self, c):
        self._wait_gone(c.pid)

    def key(self, x, log=False):
        if isinstance(x, Cli):
            return ("k", x.id), x.fd
        return (("l", x.id), x.logfd) if log else (("c", x.id), x.fd)

    def credit(self, x, n, log=False):
        """Allow n more bytes to be written to x (-1: no limit)."""
        k, fd = self.key(x, log)
        if fd < 0:
            return
        if n < 0:
            self.blocked.pop(k, None)
        else:
            self.blocked[k] = n
        if k[0] == "l":
            self.ev(e="full", o=x.id, f=(n == 0))
        self.cmd("C %d %d" % (fd, n))

    def rcap(self, x, n):
        k, fd = self.key(x)
        if fd >= 0:
            self.cmd("M %d %d" % (fd, n))

    def fault(self, kind, err, x=None, n=1, path="", log=False):
        fd = -1
        if x is not None:
            fd = self.key(x, log)[1]
            if fd < 0:
                return
        self.cmd("F %s %d %d %d %s" % (kind, fd, err, n, path))

    def nofault(self):
        self.cmd("f")

    def adv(self, ms):
        self.cmd("T %d" % (ms * 1000))

    def advance(self, ms):
        """Lets ms pass, stopping at every instant at which the daemon has something due."""
        left = ms * 1000
        while self.alive:
            r = getattr(self, "remaining", -1)
            if 0 < r <= left:
                self.cmd("T %d" % r)
                left -= r
                self.run()
            else:
                break
        if left and self.alive:
            self.cmd("T %d" % left)
            self.run()
        if self.alive and 0 < getattr(self, "remaining", -1) <= 1000:     # poll's granularity
            self.cmd("T %d" % self.remaining)
            self.run()

    def signal(self, sig, wait=True):
        if sig == signal.SIGHUP:
            self.ev(e="hup")
        os.kill(self.proc.pid, sig)
        if wait:
            self._sigwait()

    def late(self, sig):
        """A signal arrives when main has done all but enter poll()."""
        self.ev(e="hup" if sig == signal.SIGHUP else "term")
        self.cmd("G %d" % sig)

    def strike(self, kind, n, sig):
        """A signal will arrive right after the n-th call of some kind."""
        self.cmd("A %s %d %d" % (kind, n, sig))

    def _sigwait(self):
        """A signal was sent while main is at its gate: wait until it went round once."""
        pre = []
        while True:
            l = self._line(2)
            if l is None:
                break                        # not interrupted: nobody handles this signal
            if l == "":
                self.buf = b"".join((x + "\n").encode() for x in pre) + self.buf
                return self._collect()
            pre.append(l)
            if l.startswith("P ") and "i" in pre:
                break
        self.buf = b"".join((x + "\n").encode() for x in pre if not x.startswith("P ")) + self.buf
        self.cmd("R0")
        self._collect()

    def _unread(self):
        out = []
        for x in self.clis:
            if x.accepted and not x.closed and not x.noread and x.fd >= 0:
                if self.blocked.get(("k", x.id)) == 0 and not re.match(rb"[^\n]*\nOK[^\n]*\n", x.rx):
                    continue                 # its handshake may be held up by a reply
                if x.got < x.sent or (x.eof_sent and not x.eof_seen):
                    out.append(("k", x))
            if not x.accepted and not x.dead and self.now - self.accfail > 5000:
                out.append(("k", x))
        for x in self.cons:
            if x.fd >= 0 and not x.noread and self.fds.get(x.fd) == ("c", x):
                if x.got < x.sent or (x.eof_sent and not x.eof_seen):
                    out.append(("c", x))
        return [o for o in out if (o[0], o[1].id) not in self.stalled]

    def run(self, n=None, idle=True):
        """Lets the daemon run until nothing is left to do (or for n poll returns)."""
        if not self.alive:
            return
        self.cmd("R" if n is None else "R%d" % n)
        self._collect()
        self._post()
        if n is None:
            slept = 0.0
            while self.alive and slept < 3.0 and self._unread():
                d = 0.002 if slept < 0.05 else 0.02
                time.sleep(d)
                slept += d
                self.cmd("R")
                self._collect()
                self._post()
            if self.alive and idle:
                self.idle()

    def _shut_next(self, fd, lines, i):
        """The descriptor just opened is closed again before anything else is done with it."""
        for l in lines[i + 1:]:
            f = l.split(" ")
            if len(f) > 1 and f[0].lstrip("t") in ("c", "r", "w", "e", "T", "x", "y") and f[1] == str(fd):
                return f[0] in ("c", "tc")
        return False

    def _locked(self, fd, other):
        """The daemon holds a lock on a file of its own; other: we have tried to."""
        try:
            f = os.open("/proc/%d/fd/%d" % (self.proc.pid, fd), os.O_RDWR | os.O_NOCTTY | os.O_NONBLOCK)
        except OSError:
            return True
        k = LK(f, F_OFD_GETLK)
        os.close(f)
        return k > 0 or (k < 0 and not other)

    def lock_other(self, c, what):
        """Another process takes a lock on the log, or the device, of c."""
        p = (getattr(c, "curlog", None) or c.logpath) if what == "log" else c.path
        if p is None or (what == "log" and c.lklog is not None) or (what == "dev" and c.lkdev):
            return
        try:
            f = c.slave if what == "dev" else os.open(p, os.O_RDWR | os.O_CREAT | os.O_NONBLOCK)
        except OSError:
            return
        ok = LK(f, F_OFD_SETLK)
        if what == "dev":
            c.lkdev = ok
        elif ok:
            c.lklog = f
        else:
            os.close(f)

    def idle(self):
        unread = ["%s" % x.id for _, x in self._unread() if _ == "c" or x.accepted]
        unacc = [x.id for _, x in self._unread() if _ == "k" and not x.accepted]
        unlk = ["l" + c.id for c in self.cons if c.logfd >= 0 and (c.log or {}).get("lock", True) and not self._locked(c.logfd, c.lklog is not None)]
        unlk += ["c" + c.id for c in self.cons if c.kind == "serial" and c.fd >= 0 and not self._locked(c.fd, c.lkdev)]
        self.ev(e="idle", unlk=unlk, blk=[list(k) for k, v in self.blocked.items() if v == 0], unread=unread, unacc=unacc)
        if unread or unacc:
            self.kill()                      # the trace ends with what the daemon left undone

    def _post(self):
        for x in self.clis:
            if not x.dead and x.sock is not None:
                self._drain(x)
        for x in self.cons:
            if x.sock is not None:
                self._drain(x)
            if x.kind == "serial" and x.master is not None:
                try:
                    x.rx += os.read(x.master, 65536)
                except OSError:
                    pass

    def kill(self):
        if self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                self.proc.kill()
            self.proc.wait()
        self.alive = False

    def stop(self, expect_term=True):
        """SIGTERM and wait; records an orderly exit."""
        if self.alive:
            self.kill_now = False
            self.kill()
        self.close()

    def term(self):
        """Ask the daemon to terminate and let it."""
        if not self.alive:
            return
        self.ev(e="term")
        os.kill(self.proc.pid, signal.SIGTERM)
        self._sigwait()

    def close(self):
        if self.proc.poll() is None:
            self.kill()
        for pid, h in self.helpers.items():
            if h[1] >= 0:
                os.close(h[1])
            try:
                h[0].close()
            except OSError:
                pass
        for x in self.clis:
            if x.sock:
                x.sock.close()
        for x in self.cons:
            for s in (x.sock, x.lsn, getattr(x, "reserve", None), getattr(x, "unbound", None)):
                if s:
                    s.close()
            for m in (x.master, x.slave):
                if m is not None:
                    try:
                        os.close(m)
                    except OSError:
                        pass
        if self.conhelp:
            self.hsock.close()
        self.ctl.close()
        self.errfile.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def san_name(s):
    return "".join(c if 33 <= ord(c) <= 126 and c != "/" else "_" for c in s)


def split_ff(d):
    """Pieces that are either the single byte 0xFF or a run without it."""
    out = []
    for p in re.findall(rb"\xff|[^\xff]+", d, re.S):
        out.append(p.decode(L))
    return out


def split_print(d):
    return [p.decode(L) for p in re.findall(rb"[ -~]+|[^ -~]", d, re.S)]


def dump(traces, path):
    with open(path, "w") as f:
        f.write(json.dumps(dict(e="const", b="".join(map(chr, range(256))))) + "\n")
        for t in traces:
            for e in t:
                f.write(json.dumps(e) + "\n")
