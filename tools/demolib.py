"""Small real-time harness: a conmand from ./_build with consoles played by this process."""
import os, re, shutil, signal, socket, subprocess, sys, tempfile, time, select


class Dev:
    """A console reached through a Unix or TCP socket."""
    def __init__(self, d, name, tcp=False, listen=True):
        self.name, self.tcp = name, tcp
        self.path = os.path.join(d, name + ".sock")
        self.lsn = self.conn = None
        self.buf = b""
        if tcp:
            self.res = socket.socket()
            self.res.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.res.bind(("127.0.0.1", 0))
            self.port = self.res.getsockname()[1]
        if listen:
            self.listen()

    def dev(self):
        return "127.0.0.1:%d" % self.port if self.tcp else "unix:" + self.path

    def listen(self):
        if self.tcp:
            self.lsn = self.res
        else:
            self.lsn = socket.socket(socket.AF_UNIX)
            if os.path.exists(self.path):
                os.unlink(self.path)
            self.lsn.bind(self.path)
        self.lsn.listen(5)

    def accept(self, t=10):
        self.lsn.settimeout(t)
        self.conn, _ = self.lsn.accept()
        self.buf = b""
        return self

    def send(self, b):
        self.conn.sendall(b)

    def recv(self, n=None, until=None, t=3):
        self.buf += take(self.conn, t, lambda b: (n is not None and len(b) >= n) or (until is not None and until in b), self.buf)
        r, self.buf = self.buf, b""
        return r

    def close(self):
        self.conn.close()
        self.conn = None


def take(s, t, done, have=b""):
    out = b""
    end = time.time() + t
    while not done(have + out):
        left = end - time.time()
        if left <= 0 or not select.select([s], [], [], left)[0]:
            break
        try:
            d = s.recv(65536)
        except OSError:
            break
        if not d:
            break
        out += d
    return out


class Daemon:
    def __init__(self, lines, d, args=(), env=None):
        self.dir = d
        conf = os.path.join(d, "conman.conf")
        with open(conf, "w") as f:
            f.write("SERVER port=0\nSERVER loopback=on\nSERVER tcpwrappers=off\n" + "\n".join(lines) + "\n")
        self.err = os.path.join(d, "stderr")
        self.p = subprocess.Popen([os.path.abspath("_build/conmand"), "-F", "-c", conf] + list(args), cwd=d,
                                  stdin=subprocess.DEVNULL, stdout=open(self.err, "wb"), stderr=subprocess.STDOUT,
                                  env=dict(os.environ, TZ="UTC", **(env or {})), start_new_session=True)
        end = time.time() + 10
        self.port = None
        while time.time() < end and self.port is None:
            m = re.search(rb"Listening on TCP port (\d+)", open(self.err, "rb").read())
            if m:
                self.port = int(m.group(1))
            elif self.p.poll() is not None:
                break
            else:
                time.sleep(0.02)
        if self.port is None:
            raise SystemExit("daemon did not start: " + open(self.err).read())

    def alive(self):
        return self.p.poll() is None

    def hup(self):
        self.p.send_signal(signal.SIGHUP)

    def stop(self):
        if self.alive():
            self.p.terminate()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()


class Clock:
    """A settable clock for the daemon: Daemon(..., env=clock.env); clock.jump(seconds, daemon)."""
    SRC = r"""
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/time.h>
static char path[4096];
__attribute__((constructor)) static void init(void)
{
    snprintf(path, sizeof(path), "%s", getenv("DEMO_CLOCK") ? getenv("DEMO_CLOCK") : "");
}
static long off(void)
{
    FILE *f = *path ? fopen(path, "r") : NULL;
    long o = 0;
    if (f) { if (fscanf(f, "%ld", &o) != 1) o = 0; fclose(f); }
    return o;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    int k = syscall(SYS_clock_gettime, c, t);
    t->tv_sec += off();
    return k;
}
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p)
{
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}
"""
    def __init__(self, d):
        self.f = os.path.join(d, "clock")
        self.off = 0
        open(self.f, "w").write("0")
        c = os.path.join(d, "clock.c")
        open(c, "w").write(self.SRC)
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(d, "clock.so"), c], check=True)
        self.env = dict(LD_PRELOAD=os.path.join(d, "clock.so"), DEMO_CLOCK=self.f)

    def now(self):
        return time.time() + self.off

    def jump(self, sec, daemon):
        """Sets the clock forward and makes the daemon look at it."""
        self.off += sec
        open(self.f + ".new", "w").write("%d" % self.off)
        os.rename(self.f + ".new", self.f)
        time.sleep(0.05)
        for _ in range(2):
            c = socket.create_connection(("127.0.0.1", daemon.port))
            time.sleep(0.1)
            c.close()
            time.sleep(0.2)


class Client:
    """Speaks the client protocol; reply is the first line of the answer to the request."""
    def __init__(self, daemon, cmd=None, cons=(), opts=(), user="bob", tty="pts/1", raw=None, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.connect(("127.0.0.1", daemon.port))
        self.buf = b""
        if cmd:
            self.s.sendall(("HELLO USER='%s' TTY='%s'\n" % (user, tty)).encode())
            self.hello = self.line()
            self.request(cmd, cons, opts)

    def request(self, cmd, cons=(), opts=()):
        self.s.sendall((cmd + "".join(" OPTION=" + o for o in opts) + "".join(" CONSOLE='%s'" % c for c in cons) + "\n").encode("latin-1"))
        self.reply = self.line()

    def line(self, t=5):
        self.buf += take(self.s, t, lambda b: b"\n" in b, self.buf)
        l, _, self.buf = self.buf.partition(b"\n")
        return l.decode("latin-1")

    def ok(self):
        return self.reply.startswith("OK")

    def send(self, b):
        self.s.sendall(b)

    def recv(self, n=None, until=None, t=2):
        """Everything that arrives until the condition holds, or for t seconds."""
        b = self.buf + take(self.s, t, lambda b: (n is not None and len(b) >= n) or (until is not None and until in b), self.buf)
        self.buf = b""
        return b

    def eof(self, t=3):
        """Does the daemon close the connection within t seconds?"""
        end = time.time() + t
        while time.time() < end:
            if select.select([self.s], [], [], max(0, end - time.time()))[0]:
                try:
                    if not self.s.recv(65536):
                        return True
                except OSError:
                    return True
        return False

    def close(self):
        self.s.close()


def run(test):
    """test(dir) returns None when all is well, or says what is wrong."""
    d = tempfile.mkdtemp(prefix="conman-demo")
    try:
        bad = test(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if bad:
        print("FAILED:", bad)
        sys.exit(1)
    print("passed")
    sys.exit(0)


class Cli:
    """The client program on a pseudo-terminal, its daemon played by this process."""
    def __init__(self, args, env=None, istty=True, cwd=None):
        import pty, termios
        self.dir = cwd or tempfile.mkdtemp(prefix="cdemo")
        self.l = socket.socket()
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(5)
        self.port = self.l.getsockname()[1]
        self.m, self.s = pty.openpty()
        self.mode0 = termios.tcgetattr(self.s)
        b = next(os.path.abspath(x) for x in ("_build/conman", "conman", "src/conman") if os.path.exists(x))
        a = [x.replace("%P", str(self.port)) for x in args]
        e = dict(os.environ, **{k: v.replace("%P", str(self.port)) for k, v in (env or {}).items()})
        self.p = subprocess.Popen([b] + a, stdin=self.s if istty else subprocess.DEVNULL, stdout=self.s, stderr=subprocess.PIPE, env=e, cwd=self.dir,
                                  start_new_session=True)
        self.screen = b""

    def accept(self, t=10):
        self.l.settimeout(t)
        self.c, _ = self.l.accept()
        self.net = b""
        return self

    def hello(self, reply=b"OK CONSOLE='c1' OPTION=RESET\n"):
        self.accept()
        g = self.recv(until=b"\n")
        self.c.sendall(b"OK\n")
        r = self.recv(until=b"\n")
        self.c.sendall(reply)
        self.greeting, self.request = g, r
        return self

    def session(self, **kw):
        self.hello(**kw)
        self.see(b"opened.\r\n")
        return self

    def recv(self, n=None, until=None, t=5):
        self.net += take(self.c, t, lambda b: (n is not None and len(b) >= n) or (until is not None and until in b), self.net)
        r, self.net = self.net, b""
        return r

    def key(self, b):
        os.write(self.m, b)

    def see(self, x, t=5):
        """What is shown up to x."""
        end = time.time() + t
        while x not in self.screen:
            left = end - time.time()
            if left <= 0 or not select.select([self.m], [], [], left)[0]:
                break
            try:
                self.screen += os.read(self.m, 65536)
            except OSError:
                break
        i = self.screen.find(x)
        i = len(self.screen) if i < 0 else i + len(x)
        r, self.screen = self.screen[:i], self.screen[i:]
        return r

    def restored(self):
        import termios
        return termios.tcgetattr(self.s)[:4] == self.mode0[:4]

    def end(self, t=10):
        """Exit status and error output."""
        try:
            _, e = self.p.communicate(timeout=t)
            return self.p.returncode, e
        except subprocess.TimeoutExpired:
            self.p.kill()
            return None, b""
