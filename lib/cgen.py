"""Scenarios for the client program: command lines, what the daemon answers, what is typed."""
import itertools, random, signal
from gen import printable

L = "latin-1"
ERRNO = dict(EIO=5, EPIPE=32, ECONNRESET=104, ETIMEDOUT=110, ENOSPC=28, EINTR=4, ECONNREFUSED=111)
COMMANDS = ".BDEF?IJLMQRZ"
NAMES = ["c1", "c2", "node[1-3]", "a b", "it's", "*", "tty\\n", "x=y", "OK", "CONSOLE", "%41", "&", "foo.bar", "#3", "-c", "node+", "q\"uote", "e\texc"]


def pick(r, d):
    k = list(d)
    return r.choices(k, [d[x] for x in k])[0]


def cut(r, s, p=0.3):
    """s in pieces."""
    if not s or r.random() > p:
        return [s]
    k = sorted(r.sample(range(len(s) + 1), min(len(s), r.randint(1, 4))))
    return [x for x in (s[a:b] for a, b in zip([0] + k, k + [len(s)])) if x]


def esc_char(r):
    return r.choice(["&", "&", "~", "\x1d", "\x01", "B", ".", "E", "?", "%", "\xe4", "\xff", "\x80", "\x7f", " ", "\n", "\r", "x", "\x00" if False else "@"])


def case(r, s):
    return "".join(r.choice([c.lower(), c]) for c in s) if r.random() < 0.15 else s


def words(r, ws):
    return r.choice(["", "", " "]) + r.choice([" ", " ", "  ", "\t"]).join(ws) + r.choice(["", "", " "]) + r.choice(["\n", "\n", "\r\n"])


def enc(s):
    return "".join(chr(ord(c) + 128) if c in "'\"\n\r" else c for c in s)


def qname(r, s):
    return "CONSOLE='%s'" % enc(s)


def gargs(r, p):
    """Arguments, environment, files."""
    opts, names, env, files = [], [], {}, {}
    cmd = pick(r, p.get("cmds", {"c": 6, "m": 2, "q": 1}))
    if cmd != "c":
        opts.append("-" + cmd)
    for o in "bfjQrv":
        if r.random() < (0.12 if o != "b" or cmd == "m" else p.get("b", 0.12)):
            opts.append("-" + o)
    def dest():
        return r.choice(["h1", "h2.example.net", "h7.b", "127.0.0.1", "10.1.2.3", "h3:1234", ":99", "h4:0", "h5:", "h6:abc", "h8: 77x", "h9:-4", "", "nohost", "h1:80:90", "h2:+60"])
    if r.random() < 0.35:
        d = dest()
        opts.append("-d" + d if d and r.random() < 0.5 else ("-d", d))
    if r.random() < p.get("esc", 0.45):
        e = esc_char(r) + r.choice(["", "", "zz"])
        opts.append("-e" + e if r.random() < 0.5 else ("-e", e))
    if r.random() < p.get("log", 0.4):
        l = r.choice(["log", "l og", "no/dir/log"] if r.random() < 0.2 else ["log"])
        opts.append("-l" + l if r.random() < 0.5 else ("-l", l))
        if l == "log" and r.random() < 0.3:
            files["log"] = "before\n"
    if r.random() < 0.1:
        files["names"] = r.choice(["c1\nc2\n", "# none\n", "  c1 \t\n#c2\nc3", "\n\n", "a,b\n c d\n"])
        opts.append(r.choice([("-F", "names"), "-Fnames", ("-F", "nofile")]))
    if r.random() < 0.04:
        opts.append(r.choice(["-h", "-L", "-V", "-z", "-"+"\xe4", "-k", "--help"]))
    pool = NAMES
    if p.get("wire"):
        names = []
        pool = [printable(r) for _ in range(6)] + ["n" * r.choice([1022, 1023, 1024, 2000])] * (r.random() < 0.1)
    for _ in range(r.choice([0, 1, 1, 1, 2, 3] if cmd == "q" else [1, 1, 1, 2, 3] if r.random() < 0.95 else [0])):
        names.append(",".join(r.choice(pool) for _ in range(r.choice([1, 1, 1, 2, 3]))))
    if r.random() < 0.1 and names:
        names[-1] = "," + names[-1] + ",,"
    for k, v in (("host", [dest]), ("port", ["", "5", "0", "x", "0123"]), ("esc", ["", "~", "%%", "\xe4", "B"])):
        if r.random() < 0.12:
            v = r.choice(v)
            env[k] = v() if callable(v) else v
    if r.random() < 0.15:                    # options that can be written together
        single = [o for o in opts if isinstance(o, str) and len(o) == 2]
        rest = [o for o in opts if o not in single]
        if single:
            opts = rest + ["-" + "".join(o[1] for o in single)]
    items = [list(o) if isinstance(o, tuple) else [o] for o in opts]
    r.shuffle(items)
    ns = [[n] for n in names]
    if r.random() < 0.25:
        items = [x for _, x in sorted([(r.random(), x) for x in items + ns], key=lambda t: t[0])]
    else:
        items = items + ([["--"]] if any(n[0].startswith("-") for n in ns) or r.random() < 0.05 else []) + ns
    return [a for i in items for a in i], env, files


def gok(r, names=(), reset=False):
    ws = [case(r, "OK")]
    for n in names:
        ws.append(case(r, "CONSOLE") + "='%s'" % enc(n))
    if reset:
        ws.insert(r.randint(1, len(ws)), case(r, "OPTION") + "=" + case(r, "RESET"))
    if r.random() < 0.1:
        ws.insert(r.randint(1, len(ws)), r.choice(["OPTION=QUIET", "CODE=3", "FOO", "12", "=", "CONSOLE=9", "OPTION", "HELLO", "'str'"]))
    return words(r, ws)


def gerr(r):
    ws = [case(r, "ERROR")]
    if r.random() < 0.9:
        ws.append("CODE=%d" % r.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 9, 12]))
    if r.random() < 0.9:
        ws.append("MESSAGE='%s'" % enc(r.choice(["Found 3 consoles", "x", "it's 100%", "", "two\nlines", "tab\there"])))
    return words(r, ws)


def greply(r, ok):
    """What the daemon answers: (text, whether the connection then ends)."""
    if r.random() < 0.95:
        return ok
    return r.choice([gerr(r), gerr(r), "\n", "garbage\n", "NOOK\n", "ok\n", "x OK\n", "OKAY CONSOLE='a'\n", "ERRORS\n", "HELLO OK\n", "# comment OK\n", ""])


def keys(r, esc, n, rot=None):
    """Keystrokes in units; a suspension ends its unit."""
    units, u = [], ""
    for _ in range(n):
        k = r.random()
        if k < 0.35:
            c = r.choice([c for c in COMMANDS if c not in ".Z"] + ["Z"] if r.random() < 0.97 else ["."])
            u += esc + c
            if c == "Z":
                units.append(u)
                u = ""
        elif k < 0.5:
            u += esc
        elif k < 0.6:
            u += "&"
        elif k < 0.75:
            u += r.choice("\r\n\x00\x03\x04\x1a\x11\x13\x7f\xff\x80\xe4 %~\x1c")
        else:
            u += r.choice("abxyBDELMQR.?IFJ")
        if r.random() < 0.25:
            units.append(u)
            u = ""
    units.append(u)
    return [x for x in units if x]


def suspends(esc, unit, pend):
    """Whether and where the unit suspends; pend: an escape is pending."""
    for i, c in enumerate(unit):
        if pend:
            pend = False
            if c == "Z":
                return i, False
        elif c == esc:
            pend = True
    return -1, pend


def sdata(r):
    return r.choice([
        "hello\r\n", "x", "\xff\xfb\x01", "&", "&&.", "\x00\x00", "&Z", "line one\r\nline two\r\n", "\r\n<ConMan> Console [c1] log at \"x\".\r\n",
        "".join(chr(r.randrange(256)) for _ in range(r.randint(1, 60))), "y" * r.choice([1023, 1024, 1025, 3000])])


def scenario(r, p=None):
    p = p or {}
    args, env, files = gargs(r, p)
    sc = dict(args=args, env=env, files=files, istty=r.random() < 0.96, refuse=r.random() < 0.02, steps=[["run"]])
    st = sc["steps"]
    if p.get("wire"):
        sc["who"] = [printable(r), "/dev/" * r.randrange(2) + printable(r)]
    esc = "&"
    from_env = env.get("esc", "")
    if from_env:
        esc = from_env[0]
    # the escape character in force only steers what is typed; the specification finds its own
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--":
            break
        if a == "-e" and i + 1 < len(args):
            esc = args[i + 1][0]
            i += 1
        elif a.startswith("-e") and len(a) > 2:
            esc = a[2]
        elif a in ("-d", "-l", "-F"):
            i += 1
        i += 1

    def feed(s, end=False):
        for x in cut(r, s):
            st.append(["srv", x])
            st.append(["run"])

    def fault(kind, which, errs, n=1):
        st.append(["flt", kind, which, ERRNO[r.choice(errs)], n])

    if r.random() < 0.05:
        st.append(["cap", "n", r.choice([1, 2, 5])])
    for stage in (0, 1):
        k = r.random()
        if k < 0.03:
            st.append([r.choice(["srveof", "srvrst"])])
            st.append(["run"])
            return sc
        if k < 0.05:
            fault("r", "n", ["ETIMEDOUT", "EINTR", "ECONNRESET"])
        if k > 0.97:
            fault("w", "n", ["EPIPE", "ECONNRESET", "EINTR"])
        pool = [printable(r) for _ in range(4)] + ["n" * r.choice([300, 500, 900])] * (r.random() < 0.1) if p.get("wire") else None
        names = [r.choice(pool or ["c1", "c2", "node-1", "it's", "a b", "100%"])]
        if "-b" in args or any(a.startswith("-") and not a.startswith("--") and "b" in a for a in args) or r.random() < 0.15:
            names = names * 0 + r.sample(pool or ["c1", "c2", "c3", "x y"], r.choice([1, 2, 3]))
        if "-q" in args:
            names = r.sample(pool or ["c1", "c2", "c3", "x y", "%s"], r.choice([0, 1, 2, 3]))
        ok = gok(r) if stage == 0 else gok(r, names, r.random() < 0.6)
        rep = greply(r, ok)
        if pool and stage and r.random() < 0.3:
            rep = words(r, ["ERROR", "CODE=%d" % r.choice([5, 6, 7, 8]), "MESSAGE='%s'" % enc(printable(r))])
        # anything may follow an error or the reply to the request at once
        more = ""
        if stage == 1 and r.random() < 0.2:
            more = sdata(r)
        if "ERROR" in rep.upper():
            more = r.choice(["", "some more\n", "\x00\xff", "x" * 2000])
        feed(rep + more)
        if rep is not ok:
            st.append([r.choice(["srveof", "srveof", "srvrst"])] if r.random() < 0.9 else ["run"])
            st.append(["run"])
            return sc
    pend = False
    for _ in range(r.randint(2, p.get("steps", 16))):
        k = pick(r, dict(dict(key=10, srv=5, sig=0.4, flt=0.5, cr=1, cap=0.7, end=0.35, term=0.15, eintr=0.4), **p.get("w", {})))
        if k == "key":
            for u in keys(r, esc, r.randint(1, 12)):
                while u:
                    j, pend = suspends(esc, u, pend)
                    x = u if j < 0 else u[:j + 1]
                    u = u[len(x):]
                    st.append(["key", x])
                    st.append(["run"])
                    if j >= 0:
                        if r.random() < 0.5:
                            st.append(["srv", sdata(r)])
                        if r.random() < 0.15:
                            st.append([r.choice(["srveof", "srvrst"])])
                        st.append(["run"])
                        pend = False
            if r.random() < 0.2 and st[-1] == ["run"] and pend is False:
                pass
        elif k == "srv":
            st.append(["srv", sdata(r)])
            if r.random() < 0.8:
                st.append(["run"])
        elif k == "sig":
            st.append(["sig", int(r.choice([signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGPIPE, signal.SIGWINCH]))])
        elif k == "flt":
            w = r.choice("nnoli")
            kind = "w" if w in "ol" else "r" if w == "i" else r.choice("rw")
            fault(kind, w, {"o": ["EIO", "EPIPE", "EINTR"], "l": ["ENOSPC", "EIO", "EINTR"], "i": ["EIO", "EINTR"], "n": ["EPIPE", "ECONNRESET", "ETIMEDOUT", "EINTR"]}[w])
        elif k == "eintr":
            fault(r.choice("rws"), None, ["EINTR"], r.choice([1, 2]))
        elif k == "cr":
            w = r.choice("nol")
            st.append(["cr", w, r.choice([-1, 0, 1, 2, 5, 40])])
            if r.random() < 0.6:
                st.append(["run"])
        elif k == "cap":
            st.append(["cap", r.choice("nni"), r.choice([0, 1, 1, 2, 7])])
        elif k == "term":
            st.append(["term"])
            break
        else:
            st.append([r.choice(["srveof", "srveof", "srvrst"])])
            st.append(["run"])
            break
    if r.random() < 0.5:
        st.append(["key", esc + "."] if not pend else ["key", "."])
        st.append(["run"])
        if r.random() < 0.3:
            st += [["srv", sdata(r)], ["run"]]
        if r.random() < 0.3:
            st += [["key", "x"], ["run"]]
        st += [["srveof"], ["run"]]
    return sc


def words_over(alphabet, n):
    for k in range(1, n + 1):
        yield from itertools.product(alphabet, repeat=k)


def sessions(words, per=40, mode="c", names=("c1",), reset=True, esc="&", log=True):
    """Every word typed in sessions, each of which begins as given."""
    out = []
    for i in range(0, len(words), per):
        st = [["run"], ["srv", "OK\n"], ["run"],
              ["srv", "OK " + " ".join("CONSOLE='%s'" % n for n in names) + (" OPTION=RESET" if reset else "") + "\n"], ["run"]]
        for w in words[i:i + per]:
            w = "".join(w)
            pend = False
            while w:
                j, pend = suspends(esc, w, pend)
                x = w if j < 0 else w[:j + 1]
                w = w[len(x):]
                st += [["key", x], ["run"]]
                if j >= 0:
                    st += [["srv", "~"], ["run"]]
            if pend:
                st += [["key", "x"], ["run"]]
        args = (["-l", "log"] if log else []) + ["-e" + esc] + {"c": [], "m": ["-m"], "b": ["-b"]}[mode] + list(names)
        out.append(dict(args=args, steps=st + [["srveof"], ["run"]]))
    return out
