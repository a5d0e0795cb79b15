"""What each check runs."""
import json, os, sys, tempfile, shutil
import daemon, gen, model, tlc

ASSUME = [
    "the daemon is built from the repository's sources with gcc -O1 and run on this kernel; system calls are intercepted at link time (ld --wrap), which lets the driver decide scheduling, time, blocking and faults",
    "TLC evaluates the specification correctly; traces are finite and come from generated scenarios",
]

CASSUME = [
    "the client is built from the repository's sources with gcc -O1 and run on a pseudo-terminal of this kernel; reads, writes, names and connections are intercepted at link time (ld --wrap)",
    ASSUME[1],
]

ALLK = ["unix", "telnet", "process", "serial", "ipmi"]
CORE = dict(kinds=["unix"], steps=(16, 40))
MIXED = dict(kinds=ALLK, steps=(16, 40), tstamp=0.2, reset=0.3, w=dict(reset=1))


def P(base, w=None, **kw):
    out = dict(base)
    for k, v in kw.items():
        out[k] = v
    if w:
        out["w"] = dict(base.get("w", {}), **w)
    return out


ONE = dict(ncons=(1, 1))
# slow readers and large amounts
SLOW = P(CORE, dict(fill=2, big=5, part=6, block=5, cdata=14, cap=3, esc=3), nlogs=0.5)
# several writers of few consoles
SHARE = P(CORE, dict(newcli=12, conc=2, kclose=5, esc=5), ncons=(1, 2), maxcli=7, opts=dict(FORCE=4, JOIN=4, NONE=6, QUIET=1),
          cmds=dict(CONNECT=7, MONITOR=2, BCAST=2, QUERY=0.7))
BCAST = P(CORE, dict(newcli=8, kdata=14, esc=8, kclose=4), ncons=(2, 4), maxcli=6, opts=dict(FORCE=3, JOIN=4, NONE=5, QUIET=1),
          cmds=dict(CONNECT=4, MONITOR=1, BCAST=5, QUERY=0.3))
TEAR = P(CORE, dict(newcli=9, kclose=7, khalf=4, block=5, part=4, unblock=4, esc=8, ceof=2, cback=3, cdata=6), maxcli=6,
         opts=dict(FORCE=5, JOIN=3, NONE=4, QUIET=1), esc="ZZFFJMQLBD")
NOTICE = P(CORE, dict(newcli=8, kclose=5, ceof=4, cback=4, esc=7, adv=4), kinds=["unix", "telnet", "process"], ncons=(1, 3),
           maxcli=6, opts=dict(FORCE=4, JOIN=4, NONE=3, QUIET=3), esc="QQQFJMZLBD", pre=0.6)
ESC = P(CORE, dict(esc=26, newcli=4, kdata=4, cdata=5), opts=dict(FORCE=2, JOIN=4, NONE=4, QUIET=1))
REPLAY = P(CORE, dict(esc=18, big=2, fill=4, cdata=16, hup=1.5, logerr=1, adv=3), nlogs=0.85, esc="LLLLLQZM", tstamp=0.4,
           steps=(16, 46))
QUERY = dict(ncons=(4, 10), pre=0.3, names=gen.NAMES, maxcli=30, w=dict(query=40, conc=1), steps=(10, 24))
ROBUST = P(MIXED, dict(badhs=8, fault=6, conc=3, kclose=4, newcli=6, adv=2))
LOGS = P(CORE, dict(fill=1, cdata=20, slices=2, ceof=3, cback=4, hup=2, logerr=3, big=3, esc=4), nlogs=1.0)
LINES = P(LOGS, dict(slices=6, adv=3, logerr=1, hup=1), san=0.6, ts=0.6)
HUP = P(LOGS, dict(hup=8, logerr=2, adv=3), lklog=0.05, zero=0.3, tmpl=0.4, tz=0.4)
MARKS = P(MIXED, dict(adv=14, hup=1), tz=0.4, tstamp=1.0, nlogs=0.9, steps=(14, 30), t0r=1)
# the clock makes jumps (no other timers are running then)
JUMPS = P(CORE, dict(adv=14, hup=1, ceof=0, cback=0, reset=0), kinds=["unix", "serial", "telnet"], pre=1.0, tstamp=1.0, nlogs=0.9,
          steps=(14, 30), t0r=1, jump=0.6)
TELNET = P(CORE, dict(cdata=20, slices=4, conblock=2, kdata=8, ceof=2, cback=3, esc=4), kinds=["telnet"])


def kind(k, **kw):
    return P(CORE, dict(ceof=7, cback=7, adv=12, newcli=5, cdata=8, fault=1, conblock=2, kclose=3), kinds=[k], jump=0.1, **kw)


def daemon_plan(*profiles, **kw):
    return dict(engines=[daemon.random_engine(list(profiles))] + list(kw.get("more", [])), **{k: v for k, v in kw.items() if k != "more"})


def mixed(q=400, t=5000):
    return ("mixed", MIXED, q, t)


# both are told that the console is free before either has it
RACE = ("simultaneous", dict(world=dict(cons=[dict(name="a", kind="unix")]), steps=[
    ["lis", "c0"], ["cli"], ["cli"], ["hs", "k0", "HELLO USER='u'\n", ""], ["hs", "k1", "HELLO USER='v'\n", ""],
    ["cr", "k0", 0], ["s", "k0", "CONNECT CONSOLE='a'\n"], ["run"], ["s", "k1", "CONNECT CONSOLE='a'\n"], ["run"], ["cr", "k0", 100000], ["run"]]),
    lambda e: e.get("e") == "wr" and e.get("ty") == "k" and e.get("d", "").startswith("OK"))

PLANS = {
    "S01": daemon_plan(("core", CORE, 700, 9000), ("slow", SLOW, 400, 5000), mixed()),
    "S02": daemon_plan(("broadcast", BCAST, 600, 8000), ("telnet", TELNET, 200, 3000), ("core", CORE, 400, 5000), mixed()),
    "S03": daemon_plan(("sharing", SHARE, 900, 9000), ("broadcast", BCAST, 400, 5000), more=[daemon.known_engine(daemon.Daemon, [RACE])]),
    "S04": daemon_plan(("teardown", TEAR, 1000, 9000), ("broadcast", BCAST, 300, 4000), mixed(300, 3000)),
    "S05": daemon_plan(("notices", NOTICE, 900, 9000), ("sharing", SHARE, 300, 4000), mixed(300, 3000)),
    "S06": daemon_plan(("escapes", ESC, 900, 9000), ("broadcast", BCAST, 300, 4000), mixed(300, 3000)),
    "S07": daemon_plan(("replay", REPLAY, 900, 9000), mixed(300, 3000)),
    "S08": daemon_plan(("queries", QUERY, 700, 9000)),
    "S09": daemon_plan(("hostile", ROBUST, 900, 9000), ("queries", QUERY, 150, 2000)),
    "L01": daemon_plan(("logs", LOGS, 900, 9000), mixed(300, 3000)),
    "L02": daemon_plan(("lines", LINES, 1000, 9000), mixed(200, 3000)),
    "L03": daemon_plan(("reopen", HUP, 800, 8000)),
    "L04": daemon_plan(("marks", MARKS, 600, 6000), ("jumps", JUMPS, 300, 3000)),
    "T01": daemon_plan(("telnet", TELNET, 900, 9000), ("reconnect", kind("telnet"), 300, 3000)),
    "T02": daemon_plan(("reconnect", kind("telnet"), 900, 9000), mixed(300, 3000)),
    "R01": daemon_plan(("process", kind("process"), 800, 8000), mixed(300, 3000)),
    "R02": daemon_plan(("unix", kind("unix", pre=0.5), 900, 9000), mixed(300, 3000)),
    "R03": daemon_plan(("reset", P(MIXED, dict(reset=8, adv=8, esc=3, newcli=6), reset=1.0), 900, 9000)),
    "R04": daemon_plan(("ipmi", kind("ipmi"), 900, 9000), mixed(200, 2000)),
    "R05": daemon_plan(("serial", kind("serial", lkdev=0.08), 700, 7000), mixed(200, 2000)),
}


# the specification itself: sessions, the life of a console, the byte-wise machines
SMALL = dict(ReplayMax=60)
E1, E2 = '{"F", "J", "M", "Q", "Z"}', '{"F", "J", "M", "Q", "Z", "L", "B", "D"}'
SESSIONS = dict(S01=["Delivered", "DeliveredAll"], S02=["InputRight"], S03=["Exclusive", "NoTwice", "Asked"], S04=["Attachments", "CanGoOn", "ConGoesOn"],
                S05=["LogKnows", "AllKnow"], L01=["InLog"])
for k, inv in SESSIONS.items():
    PLANS[k]["engines"] += [
        model.engine("two sessions", "MCConMan", dict(Clients=2, Slow=1, Ops=5, Pre=0, Escapes=E1), dict(Clients=2, Slow=1, Ops=6, Pre=0, Escapes=E2), inv,
                     base=SMALL),
        model.engine("four sessions, random walks", "MCConMan", dict(Clients=4, Slow=2, Ops=40, Pre=0, Escapes=E2),
                     dict(Clients=4, Slow=2, Ops=60, Pre=0, Escapes=E2), inv, base=SMALL, walks=(30, 1000, 70))]
LIFE = dict(T02=(["telnet"], ["NotForgotten", "NotTooOften", "Quiet1", "Forgiven", "Goes", "DelayOk", "TriedForIt"], ["Doubling"]),
            R01=(["process"], ["NotForgotten", "NotTooOften", "Quiet1", "Forgiven", "OneProgram", "Goes", "DelayOk", "TriedForIt"], ["Doubling"]),
            R02=(["unix"], ["NotForgotten", "NotTooOften", "Quiet1", "Forgiven", "Goes", "DelayOk", "TriedForIt"], ["Doubling"]),
            R03=(["process", "serial", "ipmi"], ["OneReset", "ShortReset", "Goes"], []),
            R04=(["ipmi"], ["NotForgotten", "NotTooOften", "Quiet1", "Forgiven", "Goes", "DelayOk", "TriedForIt"], ["Doubling"]),
            R05=(["serial"], ["Quiet1", "Goes", "TriedForIt"], []))
for k, (kinds, inv, props) in LIFE.items():
    ks = "{%s}" % ", ".join('"%s"' % x for x in kinds)
    PLANS[k]["engines"].append(model.engine("the life of a console", "MCLife", dict(Kinds=ks, Ops=4 if k == "R03" else 3, Fails=4 if k == "R03" else 6), dict(Kinds=ks, Ops=4 if k in ("R02", "T02") else 5, Fails=8),
                                            inv, props, base=SMALL))
for k, what, q, t in (("T01", "telnet", 5, 6), ("L02", "log", 5, 6), ("S06", "input", 4, 5)):
    PLANS[k]["engines"].append(model.engine("all short strings", "MCBytes", dict(What='"%s"' % what, MaxLen=q), dict(What='"%s"' % what, MaxLen=t), ["Right"],
                                            base=SMALL, split=True))
TN = "\xff\xfa\xf0a\r"
PLANS["T01"]["engines"].append(daemon.every_engine("every sequence of telnet bytes", "telnet", [{}, {"san": True}],
    [(TN, 6), (TN + "\xfd\xfb\x01", 4)], [(TN, 7), (TN + "\xfd\xfe\x01\x03\0", 5)]))
LN = "a\r\n\0"
PLANS["L02"]["engines"].append(daemon.every_engine("every sequence of line bytes", "unix", [{"san": True}, {"san": True, "ts": True}, {"ts": True}],
    [(LN, 6), (LN + "\x81\x7f\x1b", 4)], [(LN, 8), (LN + "\x81\x7f\x1b\x8a\xff", 5)]))

# the client program
SESS = dict(cmds=dict(c=6, m=2), steps=30, b=0.25, esc=0.6, log=0.3, w=dict(key=14, srv=6, flt=0.1, term=0.05, end=0.1, cr=0.5))
OUTCOME = dict(cmds=dict(c=5, m=2, q=3), steps=8, log=0.6, w=dict(key=5, srv=7, flt=1, term=0.3, end=0.8))
A = "BDEFIJLMQRZ?"
WORDS_Q = [(list("&x" + A), 3, {}), (list("&xB" + A[2:]), 2, dict(mode="m")), (list("&x" + A), 2, dict(mode="b", names=("a", "b"))),
           (list("~&\xff\n" + A), 2, dict(esc="~")), (list("\xff&\x80B"), 3, dict(esc="\xff")), (list("B&D"), 4, dict(esc="B")),
           (list("\x80&\x00B"), 3, dict(esc="\x80")), (list("?&x\r"), 4, dict(esc="?", mode="m"))]
WORDS_T = [(list("&x" + A), 4, {}), (list("&x" + A), 3, dict(mode="m")), (list("&x" + A), 3, dict(mode="b", names=("a", "b"))),
           (list("&x" + A), 3, dict(reset=False)), (list("~&\xff\n" + A), 3, dict(esc="~")), (list("\xff&\x80B"), 5, dict(esc="\xff")),
           (list("B&D\x00"), 5, dict(esc="B")), (list("\x80&\x00B"), 5, dict(esc="\x80")), (list("?&x\r"), 5, dict(esc="?", mode="m"))]
WORDS_T += [([chr(c) for c in range(256)], 1, dict(esc=chr(e))) for e in range(1, 256)]
WORDS_Q += [([chr(c) for c in range(256)], 1, dict(esc=e)) for e in "&\x01\x7f\xff"]
WORDS_Q += [(["&" + chr(c) for c in range(256) if chr(c) not in "."], 1, {})]

PLANS["K01"] = dict(engines=[daemon.client_words(WORDS_Q, WORDS_T, (100, 600)), daemon.client_random([("sessions", SESS, 3000, 20000)])],
                    assumptions=CASSUME)
PLANS["K02"] = dict(engines=[daemon.client_random([("outcomes", OUTCOME, 8000, 50000)])], assumptions=CASSUME)
# what is said and what is understood
WIRE_D = dict(kinds=["unix"], ncons=(3, 8), nlogs=0, wire=1, pre=0.7, maxcli=30, w=dict(query=20, newcli=15, kdata=1, cdata=1, fill=0), steps=(10, 24))
WIRE_C = dict(wire=1, log=0.2, steps=3, esc=0.1, cmds=dict(q=3, c=3, m=2))
PLANS["S10"] = dict(engines=[
    daemon.client_random([("wire", WIRE_C, 4000, 40000)]),
    daemon.random_engine([("wire", WIRE_D, 900, 9000)]),
    model.engine("composition of both programs", "Wire", dict(PairMax=1, LongMax=3), dict(PairMax=2, LongMax=4),
                 ["RequestRead", "GreetingRead", "ReplyRead", "ErrorRead"], split=True)], assumptions=ASSUME + CASSUME[:1])
PLANS["C01"] = dict(engines=[
    daemon.config_random([("mixed", {}, 1500, 12000), ("consoles", dict(w=(8, 1.5, 0.7, 0.1, 0.3), spoil=0.05), 900, 8000),
                          ("settings", dict(w=(2, 3, 5, 0.3, 0.3), spoil=0.1), 600, 6000), ("spoilt", dict(spoil=0.6), 600, 6000),
                          ("options", dict(kinds=dict(serial=6, ipmi=4), w=(5, 3, 0.3, 0.1, 0.1), spoil=0.02, lines=(3, 7)), 500, 5000)]),
    model.engine("all short configurations", "MCConfig", dict(MaxLines=3), dict(MaxLines=4), ["Unique", "Errs", "Skipped"], ["Later"], split=True)],
    assumptions=ASSUME)

# who runs, and who is told
PLANS["C02"] = dict(engines=[
    daemon.control_random([("mixed", {}, 900, 9000), ("requests", dict(kinds=dict(start=3, term=2, hup=2, query=5), w=dict(crash=0.4)), 400, 4000),
                           ("starts", dict(kinds=dict(start=9, term=2, hup=0.5, query=1), steps=(20, 70)), 400, 4000),
                           ("crashes", dict(w=dict(crash=5, stale=2, edit=2)), 300, 3000),
                           ("handing over", dict(kinds=dict(start=4, term=4), w=dict(newest=12, rel=12, all=1, crash=0.3), first=1), 500, 5000)]),
    daemon.known_engine(daemon.Control, [("recycled", dict(pidconf=True, finish=False, steps=[["spawn", "start", True, False], ["all"], ["crash", 0],
                                                            ["stale", "bystander"], ["spawn", "term", True, True], ["all"]]),
                                          lambda e: e.get("e") == "sig" and e.get("to") == -2)]),
    model.engine("two processes", "MCControl", dict(N=2, Edits=1, Crashes=1, Stales=1, Hups="TRUE"), dict(N=2, Edits=2, Crashes=2, Stales=2, Hups="TRUE"),
                 ["Allowed", "OneLock", "Right", "Quiet"]),
    model.engine("three processes", "MCControl", dict(N=3, Edits=0, Crashes=0, Stales=0, Hups="FALSE"), dict(N=3, Edits=0, Crashes=1, Stales=0, Hups="FALSE"),
                 ["Allowed", "OneLock", "Right", "Quiet"])],
    assumptions=["processes are released one call at a time at the calls that decide who runs (opening the configuration and the process id file, locks, bind, kill, unlink, the first poll), linked in by ld --wrap",
                 "the kernel reports the oldest of several conflicting locks",
                 "TLC and the operators of the specification are right"])

# waiting and timers
FD_W = ["set:20:i", "clr:20:i", "rdy:20:i", "rdy:20:0", "tpoll:-1", "tpoll:0", "tpoll:2", "<set:20:i", "<clr:20:i", "<set:300:i", "!set:20:i", "!clr:20:i", "!set:300:i",
        "!rdy:20:i", "!zero:1", "<zero:1", ">zero:1", ">set:20:i", ">clr:20:i", ">set:300:i", "+clr:20:i", "+rdy:20:i", "!intr"]
TM_W = ["rel:0", "rel:1", "rel:1 { can:2 rel:0 }", "rel:3", "can:1", "can:2", "tpoll:-1", "tpoll:0", "tpoll:2", "<rel:0", "<rel:1", "<can:1", "!rel:1", "!can:1", "!zero:2",
        ">rel:0", ">can:1", "!adv:1000", "adv:1000", "abs:500", "abs:-1"]
END_W = ["tpoll:0", "is:20:ioehn", "is:300:ioehn", "set:20:io", "is:20:ioehn", "tpoll:3", "is:20:ioehn"]
PLANS["M01"] = dict(engines=[
    daemon.tpoll_random([("mixed", {}, 12000, 200000), ("alone", dict(other=0), 3000, 40000), ("near", dict(far=0, phases="<!!+>"), 5000, 80000)]),
    daemon.tpoll_short([(FD_W, 3, [], END_W), (TM_W, 3, [], END_W), (FD_W, 2, ["set:20:i", "tpoll:-1"], END_W)],
                       [(FD_W, 4, [], END_W), (TM_W, 4, [], END_W), (FD_W, 3, ["set:20:i", "tpoll:-1"], END_W)]),
    daemon.threads_engine(4, 40),
    model.engine("the sleeper and the others", "MCTPoll", dict(Ops=3, Calls=1, Ticks=2, Timers=2, Fds="{1, 2}"), dict(Ops=4, Calls=2, Ticks=2, Timers=1, Fds="{1, 2}"),
                 ["Same", "Kept", "Rightly", "Told", "Pipe"], spec="MSpec")],
    assumptions=["one thread calls tpoll(), as in conmand; what other threads do is done where the lock is free: just before poll() reads the array, while it sleeps, just before it returns",
                 "poll(), the clock and the lock are played by the harness (ld --wrap); the kernel writes its report to the array it was given",
                 "the clock does not go backwards", "TLC and the operators of the specification are right"])


def replay(path):
    import runner
    d = json.load(open(path))
    ctx = runner.Ctx(d["property"], "quick", 1)
    try:
        if d.get("kind") in daemon.TARGETS:
            t = daemon.TARGETS[d["kind"]]
            ctx.build(*t.tools)
            q = daemon._exec((0, d["scenario"], ctx.tools, ctx.tmp, 1e18, t))
            print(q[3])
            r, n, s = tlc.check_traces(t.module, [q[1]], ctx.tmp)
            for _, n, txt in r:
                for e in q[1][max(0, n - 30):n + 1]:
                    print(json.dumps(daemon.shorten(e)))
                print(txt)
            print("REJECTED" if r else "accepted")
            return 1 if r else 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
