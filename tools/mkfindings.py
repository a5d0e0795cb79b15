#!/usr/bin/env python3
"""Generates known-findings.txt: what was repaired, and what stands recorded."""
import os
FIXED = [
 ("S09", "1d915fe", "a mode escape (F, J, M) already in transit from a client whose session had just been stolen crashed the daemon"),
 ("S06", "757ed1b", "a force or join escape from a read-write client made it read-only, and a monitor escape from a read-only client made it a writer whatever writers there were"),
 ("S04", "b9bcd41", "a client whose session had ended while it was suspended or had nothing to flush was never disconnected"),
 ("S04", "45492c4", "an object at end of file with buffered data was torn down without flushing (or spun) instead of being flushed and shut down"),
 ("T01", "f182c78", "a telnet connection lost in the middle of a telnet command left its parsing state to the next connection"),
 ("T01", "9c9d360", "a telnet subnegotiation was ended by any command byte instead of IAC SE, leaking its payload into console data"),
 ("S07", "e5adc11", "after a log write error a replay showed nothing or stale data"),
 ("R03", "acc24d0", "a reset within 60 s of the previous one was refused as still active although that one had terminated"),
 ("C01", "3f4eec4", "a timestamp directive without a unit swallowed the end of its line, so that the next directive was rejected"),
 ("L03", "874d9cc", "a log or reset format string ending in a single '%' was read past its end"),
 ("S09", "f8d7903", "a client disconnecting before getpeername() terminated the daemon"),
 ("S09", "242ebe3", "a failing accept() or pthread_create() terminated the daemon"),
 ("T02", "d0e5579", "a failing socket() for a telnet console terminated the daemon"),
 ("S06", "3cd53dc", "typed bytes before an escape in the same read were delivered after the escape had acted"),
 ("T01", "4b07a38", "a byte 0xFF typed by a client was sent undoubled to a telnet console and so taken as a telnet command"),
 ("L01", "c21ae95", "log data was overwritten when sanitising or timestamping expanded it beyond the log's buffer"),
 ("S04", "d7b711d", "a suspend escape arriving after the session's end kept the client connected for ever"),
 ("K01", "8854572", "an escape character with the high bit set was never recognised by the client"),
 ("K01", "85d3709", "toggling the client's echo discarded what had been typed after the toggle"),
 ("K01", "a79f0d7", "the client's echo stayed off after a suspension although it was enabled"),
 ("K02", "dc83dc2", "a connection reset by the daemon's host ended the client with an error instead of ending the session"),
 ("K02", "c70601c", "a client ending on an error left the terminal in raw mode"),
 ("K02", "e477273", "closing a session that the daemon had already reset ended the client with an error"),
 ("S10", "3003404", "a pattern of 1024 or more characters was silently cut to 1023 and selected other consoles than it matches"),
 ("C01", "28bd84e", "a console whose log file was refused was kept, without its log"),
 ("C01", "34fc311", "two consoles could share a log file when the names differed before the expansion of their specifiers"),
 ("C01", "ed532b7", "a timestamp directive in error replaced the interval in force"),
 ("C01", "bedc8ef", "a logfile directive with a bad priority replaced the log file in force"),
 ("C01", "33afd6f", "a console device of the form ':PORT' aborted the daemon instead of being reported"),
 ("C01", "1b09e65", "ports out of range were wrapped around instead of being reported"),
 ("C01", "9b00dc1", "serial options not starting with a number were accepted silently"),
 ("C01", "5920f88", "valid test options were refused after an earlier error"),
 ("C02", "a3997b6", "a daemon that could not bind its port had already replaced, and then removed, the process id file of the one that held it"),
 ("L03", "c96c1b5", "a SIGHUP or SIGTERM that arrived between the check of its flag and poll() was not acted upon until something else happened, and a SIGHUP during the reopening of the logs was forgotten"),
 ("R01", "cdcbef7", "a child that ended right after a read or write was interrupted or would block made the daemon close that connection (errno clobbered by the SIGCHLD handler)"),
 ("M01", "49aacbf", "the kernel wrote to freed memory when another thread's registration of a descriptor made the table grow while poll() was using it"),
 ("M01", "9b73a37", "waiting for a timer more than 24.8 days away spun (the time left overflowed to a negative number)"),
 ("M01", "607fef0", "a table made for fewer descriptors than the number of its own pipe was written past its end"),
 ("M01", "436bd0f", "a descriptor registered again was reported ready with what an earlier registration had been about to report"),
 ("S09", "0ce444e", "the socket of a client being served was inherited by console programs and reset commands started meanwhile, so that the client never saw the end of its reply or session while they ran"),
 ("R05", "5df2e4e", "a device left with INLCR, IGNCR, IUCLC or PARMRK set had its input altered: opening it did not turn these off"),
 ("R05", "5c69dea", "a serial console on a device that can change its settings no further (a pty with 7 data bits), when reopened after a read error, terminated the daemon"),
 ("M01", "32cdf12", "a wait returned 1 with nothing ready when another thread zeroed the descriptors as its own pipe woke it"),
]
KNOWN = []
exec(open(os.path.join(os.path.dirname(__file__), "known.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), "known.py")) else None
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/known-findings.txt", "w") as f:
    for p, t in KNOWN:
        f.write("known: property=%s %s\n" % (p, t))
    for p, c, t in FIXED:
        f.write("fixed: property=%s %s %s\n" % (p, c, t))
