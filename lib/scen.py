"""Scenarios: a world and a list of environment steps, as plain JSON, and their interpreter."""
import os, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv
from drv import World, L

ENC = {39: "\xa7", 34: "\xa2"}


def enc(s):
    """Quotes travel with the high bit set."""
    return s.translate(ENC)


def hello(user, tty=None):
    return "HELLO USER='%s'" % enc(user) + (" TTY='%s'" % enc(tty) if tty else "") + "\n"


def request(cmd, pats=(), opts=()):
    return cmd + "".join(" OPTION=" + o for o in opts) + "".join(" CONSOLE='%s'" % enc(p) for p in pats) + "\n"


class Run:
    """Executes a scenario on the real daemon and keeps the trace."""

    def __init__(self, sc, tools, tmp=None):
        w = dict(sc["world"])
        self.sc = sc
        if w.pop("conhelp", True):
            w["conhelp"] = tools["conhelp"]
        zero = w.pop("zero", False)
        rx = w.pop("rx", None)
        if zero:
            w["args"] = list(w.get("args", ())) + ["-z"]
        self.w = World(tools["conmand"], w.pop("cons"), tmp=tmp, **w)
        self.w.zero = bool(zero)
        if rx:
            self.w.rx.update(rx)

    def obj(self, o):
        w = self.w
        n = int(o[1:])
        if o[0] == "k":
            return (w.clis[n] if n < len(w.clis) else None), False
        return (w.cons[n] if n < len(w.cons) else None), o[0] == "l"

    def go(self):
        w = self.w
        try:
            w.start()
            w.run()
            for st in self.sc["steps"]:
                if not w.alive:
                    break
                self.step(st)
            if w.alive and not self.sc.get("noend"):
                w.run()
        finally:
            self.trace = list(w.trace)
            self.err = w.stderr()
            w.stop()
        return self.trace

    def step(self, st):
        w, t, a = self.w, st[0], st[1:]
        if t == "run":
            w.run(*a)
        elif t == "cli":
            w.client()
            if not a:
                w.run()
        elif t == "s":
            x, _ = self.obj(a[0])
            if x:
                w.send(x, a[1])
        elif t == "hs":                      # hs k hello request [pieces]
            x, _ = self.obj(a[0])
            if x is None:
                return
            for line in a[1:3]:
                cuts = a[3] if len(a) > 3 else []
                for i in range(len(cuts) + 1):
                    lo = cuts[i - 1] if i else 0
                    hi = cuts[i] if i < len(cuts) else len(line)
                    w.send(x, line[lo:hi])
                    if i < len(cuts):
                        w.run()
                w.run()
        elif t == "half":
            x, _ = self.obj(a[0])
            if x:
                w.chalf(x)
        elif t == "close":
            x, _ = self.obj(a[0])
            if x:
                w.cclose(x, rst=bool(a[1]) if len(a) > 1 else False)
        elif t == "cr":
            x, lg = self.obj(a[0])
            if x:
                w.credit(x, a[1], log=lg)
        elif t == "cap":
            x, _ = self.obj(a[0])
            if x:
                w.rcap(x, a[1])
        elif t == "adv":
            w.advance(a[0])
        elif t == "jump":
            w.adv(a[0])
            w.run()
        elif t == "cs":
            x, _ = self.obj(a[0])
            if x:
                w.csend(x, a[1])
        elif t == "fill":                    # fill obj con slack: bring obj's buffer to a chosen place
            x, lg = self.obj(a[0])
            c, _ = self.obj(a[1])
            if x and c and c.sock is not None:
                n = (16384 - w.tot.get(("l" if lg else "k" if a[0][0] == "k" else "c", x.id), 0) + a[2]) % 16384
                w.csend(c, "".join(chr(65 + (i // 64 + i) % 26) for i in range(n)))
        elif t == "ceof":
            x, _ = self.obj(a[0])
            if x:
                w.ceof(x, rst=bool(a[1]) if len(a) > 1 else False)
        elif t == "chalf":
            x, _ = self.obj(a[0])
            if x:
                w.chalfc(x)
        elif t == "lis":
            x, _ = self.obj(a[0])
            if x and not x.lsn:
                w.listen(x, moved=bool(a[1:] and a[1]))
        elif t == "reg":                     # an ordinary file where the socket belongs
            x, _ = self.obj(a[0])
            if x and x.kind == "unix" and not x.lsn and not getattr(x, "unbound", None):
                w.plain(x)
        elif t == "touch":                   # some other file in the directory of the sockets
            open(os.path.join(w.dir, a[0]), "w").close()
        elif t == "unl":
            x, _ = self.obj(a[0])
            if x:
                w.unlisten(x)
        elif t == "bind":
            x, _ = self.obj(a[0])
            if x and not x.lsn and not getattr(x, "unbound", None):
                w.bind_only(x)
        elif t == "lisb":
            x, _ = self.obj(a[0])
            if x and getattr(x, "unbound", None) and not x.lsn:
                w.listen_bound(x)
        elif t == "hup":
            w.signal(signal.SIGHUP)
        elif t == "late":
            w.late(a[0])
        elif t == "strike":
            w.strike(*a)
        elif t == "flt":                     # flt kind err obj n path
            o = self.obj(a[2]) if len(a) > 2 and a[2] else (None, False)
            if len(a) > 2 and a[2] and o[0] is None:
                return
            w.fault(a[0], a[1], o[0], a[3] if len(a) > 3 else 1, a[4] if len(a) > 4 else "", log=o[1])
        elif t == "lflt":                    # the next opening of that console's log fails
            x, _ = self.obj(a[0])
            if x and x.logpath:
                w.fault("o", a[1], None, 1, x.logpre + "*" if x.logpre else x.logpath)
        elif t == "nof":
            w.nofault()
        elif t == "rexit":
            x, _ = self.obj(a[0])
            for pid, c in list(w.reset_pids.items()):
                if c is x and pid not in w.rgone:
                    w.rexit(pid)
        elif t == "ipmi":
            x, _ = self.obj(a[0])
            if x:
                w.ipmi_do(x, a[1])
        elif t == "term":
            w.term()
        elif t == "rmprog":
            x, _ = self.obj(a[0])
            if x and os.path.exists(x.path):
                os.rename(x.path, x.path + ".off")
        elif t == "mkprog":
            x, _ = self.obj(a[0])
            if x and os.path.exists(x.path + ".off"):
                os.rename(x.path + ".off", x.path)
        elif t == "mvlog":
            x, _ = self.obj(a[0])
            f = x and (getattr(x, "curlog", None) or x.logpath)
            if f and os.path.exists(f):
                os.rename(f, f + ".%d" % len(w.trace))
        elif t == "lkl":                     # another process locks the log; ulk: no longer
            x, _ = self.obj(a[0])
            if x:
                w.lock_other(x, "log")
        elif t == "ulk":
            x, _ = self.obj(a[0])
            if x and x.lklog is not None:
                os.close(x.lklog)
                x.lklog = None
        elif t == "rmdevs":
            pass
        else:
            raise ValueError(t)


def execute(sc, tools, tmp=None):
    r = Run(sc, tools, tmp)
    r.go()
    return r
