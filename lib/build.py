"""Builds conmand/conman (with the shim) and small harnesses from /repo's working tree."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("CONMAN_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")

COMMON = ["common.c", "lex.c", "list.c", "log.c", "util-file.c", "util-net.c", "util-str.c", "util.c"]
SERVER = ["inevent.c", "server-conf.c", "server-esc.c", "server-logfile.c", "server-obj.c",
          "server-process.c", "server-serial.c", "server-sock.c", "server-telnet.c", "server-test.c",
          "server-unixsock.c", "server.c", "tpoll.c", "server-ipmi.c"]
CLIENT = ["client-conf.c", "client-sock.c", "client-tty.c", "client.c"]

WRAPS = ("poll gettimeofday time clock_gettime nanosleep usleep sleep read __read_chk readv recv write writev send "
         "accept accept4 socket getpeername getsockopt connect socketpair shutdown close open open64 tcsendbreak "
         "tcsetattr fork kill killpg gethostbyname realloc pthread_create stat access ppoll sendto recvfrom bind setsockopt hosts_ctl").split()

CWRAPS = ("select poll read recv write send connect shutdown close open open64 kill raise time gettimeofday clock_gettime "
          "gethostbyname gethostbyaddr getpwuid getpwnam getlogin ttyname").split()


KWRAPS = "open open64 fopen fopen64 fcntl fcntl64 kill killpg unlink remove rename bind poll ppoll select epoll_wait".split()


class BuildError(Exception):
    pass


def _sources(var, fallback):
    """The .c files that Makefile.am lists, so that a new source file is picked up."""
    try:
        mk = open(os.path.join(REPO, "Makefile.am")).read()
        out, todo = [], [var]
        while todo:
            m = re.search(r"^%s\s*=\s*((?:.*\\\n)*.*)$" % re.escape(todo.pop()), mk, re.M)
            if not m:
                return fallback
            for w in m.group(1).replace("\\\n", " ").split("#")[0].split():
                if w.startswith("$("):
                    todo.append(w[2:-1])
                elif w.endswith(".c"):
                    out.append(os.path.basename(w) if w.startswith("src/") else w)
        return out or fallback
    except OSError:
        return fallback


def server_sources():
    s = _sources("conmand_SOURCES", SERVER + COMMON)
    if "server-ipmi.c" not in s:
        s = s + ["server-ipmi.c"]
    return s


def client_sources():
    return _sources("conman_SOURCES", CLIENT + COMMON)


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _compile(out, srcs, flags, cc="gcc"):
    objs = []
    jobs = []
    for s in srcs:
        path = s if os.path.isabs(s) else os.path.join(REPO, "src", s)
        o = os.path.join(out, os.path.basename(path)[:-2] + ".o")
        objs.append(o)
        jobs.append([cc, "-c", path, "-o", o] + flags)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    return objs


def base_flags(extra=()):
    return ["-DHAVE_CONFIG_H", "-I" + HARN, "-I" + os.path.join(REPO, "src"),
            "-DSYSCONFDIR=/usr/local/etc",
            "-DWITH_OOMF", "-DWITH_PTHREADS", "-U_FORTIFY_SOURCE", "-g", "-w"] + list(extra)


def conmand(out, opt="-O1", san=(), shim=("shim.c", "fakeipmi.c"), wraps=WRAPS):
    """Returns the path of a conmand linked with a shim."""
    os.makedirs(out, exist_ok=True)
    fl = base_flags([opt] + list(san))
    objs = _compile(out, server_sources() + [os.path.join(HARN, s) for s in shim], fl)
    exe = os.path.join(out, "conmand")
    _run(["gcc"] + list(san) + ["-o", exe] + objs + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-lwrap"])
    return exe


def conman(out, opt="-O1", san=(), shim=None):
    os.makedirs(out, exist_ok=True)
    fl = base_flags([opt] + list(san))
    extra = [os.path.join(HARN, shim)] if shim else []
    objs = _compile(out, client_sources() + extra, fl)
    exe = os.path.join(out, "conman")
    _run(["gcc"] + list(san) + ["-o", exe] + objs + (["-Wl,--wrap=" + w for w in CWRAPS] if shim else []) + ["-lpthread"])
    return exe


TWRAPS = "poll gettimeofday clock_gettime pthread_mutex_lock pthread_mutex_unlock".split()


def tpollh(out):
    """tpoll.c (with what it needs of the daemon) under harness/tpollh.c, with AddressSanitizer."""
    os.makedirs(out, exist_ok=True)
    fl = base_flags(["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"])
    objs = _compile(out, [s for s in server_sources() if os.path.basename(s) != "server.c"] + [os.path.join(HARN, "tpollh.c")], fl)
    lib, exe = os.path.join(out, "libcm.a"), os.path.join(out, "tpollh")
    _run(["ar", "rcs", lib] + [o for o in objs if not o.endswith("tpollh.o")])
    _run(["gcc", "-fsanitize=address", "-o", exe, os.path.join(out, "tpollh.o"), lib] + ["-Wl,--wrap=" + w for w in TWRAPS] + ["-lpthread", "-lwrap"])
    return exe


def tpollt(out):
    """tpoll.c under harness/tpollt.c, with ThreadSanitizer."""
    os.makedirs(out, exist_ok=True)
    fl = base_flags(["-O1", "-fsanitize=thread"])
    objs = _compile(out, [s for s in server_sources() if os.path.basename(s) != "server.c"] + [os.path.join(HARN, "tpollt.c")], fl)
    lib, exe = os.path.join(out, "libcm.a"), os.path.join(out, "tpollt")
    _run(["ar", "rcs", lib] + [o for o in objs if not o.endswith("tpollt.o")])
    _run(["gcc", "-fsanitize=thread", "-o", exe, os.path.join(out, "tpollt.o"), lib, "-Wl,--wrap=poll", "-lpthread", "-lwrap"])
    return exe


def harness(name, out):
    """A stand-alone helper program from /verif/harness."""
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, name)
    _run(["gcc", "-O1", "-w", "-o", exe, os.path.join(HARN, name + ".c")])
    return exe


if __name__ == "__main__":
    print(conmand(sys.argv[1]))
