#!/usr/bin/env python3
"""Generates properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": tests, "anchors": a})

T0 = "The only test starts a daemon with self-generating test consoles and runs one query; "

prop("S01", "Console output reaches every attached session in order, exactly once",
 "Every byte a console produces while a client is attached to it in interactive or monitor mode is delivered to that client unmodified, in order and exactly once; broadcast (write-only) clients receive none of it. The only data a slow or suspended client may lose is the oldest unsent data beyond the most recent 16383 unsent bytes, and a slow, suspended or departing client never delays or alters what any other session, console or log receives.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of console output, client arrival/departure, mode changes, short writes and stalled clients, for every size of pending data including buffer wrap-around",
 T0 + "no client session is ever opened, so no byte of console output is ever observed by a test.",
 ["src/server-obj.c", "src/server.c", "src/server-test.c"],
 [("read_from_obj fan-out", "src/server-obj.c"), ("write_obj_data circular buffer", "src/server-obj.c"), ("write_to_obj drain", "src/server-obj.c"), ("mux_io loop", "src/server.c")],
 [("circular buffer", "bytes accepted for an object and not yet written to its descriptor", "server.h:base_obj")],
 ["bytes read by the daemon from each console and written to each client"])

prop("S02", "Client input reaches exactly the consoles the client may write to",
 "Every byte a client with write access sends (after removal of its escape sequences, with a doubled escape byte standing for one) is delivered in order and exactly once to the console it is attached to, or to every console of its broadcast set, and to nothing else. Input from a read-only client, from a client whose write access was stolen, or from a departed client never reaches any console.",
 ["schedules", "inputs", "histories"],
 "all histories of connect/monitor/broadcast/join/force sessions, mode switches and input, and all ways the input can be cut into reads",
 T0 + "nothing is ever typed into a console.",
 ["src/server-obj.c", "src/server-esc.c", "src/server-sock.c"],
 [("process_client_escapes", "src/server-esc.c"), ("read_from_obj fan-out to readers", "src/server-obj.c"), ("link_objs/unlink_objs", "src/server-obj.c")],
 None, ["bytes read from clients and bytes written to each console"])

prop("S03", "Write access to a console is exclusive unless explicitly joined or forced",
 "A request for write access to one or more consoles of which any already has a writer is refused, naming every writer of every busy console, and changes nothing, unless the request asks to join or to force. A join adds the client beside the existing writers; a force ends the sessions of all existing writers of each requested console, so that only the forcing client (and later joiners) can write; monitoring is never refused and never grants or removes write access.",
 ["schedules", "histories"],
 "all sequences of connect, monitor, broadcast, join and force requests and departures by any number of clients over any set of consoles",
 T0 + "access conflicts need at least two sessions and no test opens one.",
 ["src/server-sock.c", "src/server-obj.c", "src/server-esc.c"],
 [("check_busy_consoles", "src/server-sock.c"), ("link_objs steal path", "src/server-obj.c"), ("perform_connect_cmd/perform_monitor_cmd", "src/server-sock.c")],
 [("readers/writers lists", "who receives from / writes to each object", "server.h:base_obj")],
 ["response line to each request; end-of-file on stolen sessions"])

prop("S04", "Every ended session is torn down and its consoles become free",
 "When a client closes or loses its connection, or its session is stolen, the session ends: data already accepted in either direction is still flushed where the peer can take it, a stolen client is then disconnected, and the consoles it held can be opened by others without force. This holds whatever state the session was in (suspended, quiet, read-only, broadcast, with undelivered data, or in mid-escape), and no other session is disturbed.",
 ["histories", "schedules", "fault_sequences"],
 "all session states crossed with all ways a session can end (half-close, full close, reset, theft) and all amounts of pending data",
 T0 + "no session is ever opened or closed by a test.",
 ["src/server-obj.c", "src/server-esc.c", "src/server.c"],
 [("shutdown_obj/unlink_obj", "src/server-obj.c"), ("gotEOF handling in read_from_obj/write_to_obj", "src/server-obj.c"), ("perform_suspend", "src/server-esc.c")],
 [("gotEOF", "no more data may be added; close once drained", "server.h:base_obj")],
 ["end-of-file seen by clients; subsequent non-forced connects"])

prop("S05", "Session participants are told exactly who joined, stole, and departed",
 "Whenever a client gains or gives up write access to a console, every other session attached to that console and its log receive exactly one notice naming the console and that user, host and terminal (joined or stolen; departed), the gaining client is told once about each writer it joins or displaces, and console connection changes are announced to all attached sessions. Sessions in quiet mode receive no such notices until they leave quiet mode, and notices never alter or reorder console data.",
 ["histories", "configurations"],
 "all histories of arrivals, departures, thefts, mode switches and console state changes with any mixture of quiet and non-quiet sessions",
 T0 + "no notice is ever generated in a test.",
 ["src/server-obj.c", "src/server-sock.c", "src/server-esc.c"],
 [("notify_console_objs", "src/server-obj.c"), ("link_objs/unlink_objs messages", "src/server-obj.c"), ("check_console_state", "src/server-sock.c"), ("perform_quiet_toggle", "src/server-esc.c")])

prop("S06", "Session escapes do exactly what is documented, however the input is split",
 "Within a session the mode escapes switch between read-only and read-write (by force or by join), quiet toggles notices, suspend and resume hold back and then release output, and break and delete send the equivalent control to every console being written; every other escape leaves the data stream untouched and none of them acts on another session beyond its documented effect. The effect depends only on the byte sequence sent by the client, not on how it is divided into network reads.",
 ["inputs", "histories"],
 "all byte sequences and all ways of cutting them, in every session mode and on every console type",
 T0 + "no escape is ever sent.",
 ["src/server-esc.c"],
 [("process_client_escapes", "src/server-esc.c"), ("perform_console_writer_linkage", "src/server-esc.c"), ("perform_serial_break", "src/server-esc.c"), ("perform_suspend", "src/server-esc.c")],
 [("gotEscape", "an escape byte was the last byte of the previous read", "server.h:client_obj")])

prop("S07", "Log replay shows exactly the most recent logged output",
 "The replay escape sends the requesting client, between its begin and end marks, exactly the last bytes placed in that console's log since the daemon started, up to 4096 of them, in order; for a console without an active log it says so instead. Replay sends nothing to anyone else, changes neither the log nor the pending data of other sessions, and is ignored in a broadcast session.",
 ["histories", "inputs"],
 "all amounts of logged data including every position around the wrap of the log's memory, with any log options",
 T0 + "replay is never requested.",
 ["src/server-esc.c", "src/server-obj.c", "src/server-logfile.c"],
 [("perform_log_replay", "src/server-esc.c"), ("get_console_logfile_obj", "src/server-logfile.c")],
 [("gotBufWrap", "the circular buffer has wrapped at least once", "server.h:base_obj")])

prop("S08", "A request selects exactly the consoles its patterns match",
 "The consoles a request applies to are exactly the configured consoles whose whole name matches at least one given pattern (case-sensitive shell globbing, or case-insensitive extended regular expression when requested; all consoles for an empty query), each once, listed in name order with trailing numbers compared as numbers. An interactive or monitor request matching several consoles is refused with the list of them, a request matching none or carrying a bad regular expression is refused with the matching error, and a broadcast that matches one console becomes an ordinary interactive session.",
 ["inputs", "configurations"],
 "all pattern lists, options and sets of console names",
 T0 + "one query over names of one fixed shape is made.",
 ["src/server-sock.c", "src/server-obj.c"],
 [("query_consoles_via_globbing/regex", "src/server-sock.c"), ("compare_objs", "src/server-obj.c"), ("check_too_many_consoles", "src/server-sock.c"), ("send_rsp", "src/server-sock.c")])

prop("S09", "The daemon survives every client and serves the others meanwhile",
 "No sequence of bytes, disconnects or stalls by clients at any stage (before, during or after the opening handshake, or inside a session) terminates, blocks or spins the daemon, leaks a connection, or changes the outcome of other clients' requests and sessions. A malformed greeting or request is answered with an error or ends that connection only.",
 ["inputs", "fault_sequences", "schedules"],
 "all byte streams cut at every point, connection resets before and after each handshake step, and clients that stall at any step",
 T0 + "only one well-formed client connects.",
 ["src/server-sock.c", "src/server.c", "src/lex.c", "src/util-file.c"],
 [("process_client thread", "src/server-sock.c"), ("accept_client", "src/server.c"), ("read_line/write_n", "src/util-file.c"), ("lexer", "src/lex.c")])

prop("S10", "Requests and replies survive the wire between client and daemon",
 "Whatever printable (ASCII) text a user supplies for user, terminal and console patterns, and whatever the console names are, the daemon acts on exactly the strings the client program was given and the client program displays exactly the names and messages the daemon sent, including names containing spaces and quote characters; options given on the client's command line arrive as given.",
 ["inputs"],
 "all argument lists and console names made of printable characters, including quotes, blanks and keywords of the protocol",
 T0 + "only simple alphanumeric names cross the wire.",
 ["src/client-sock.c", "src/client-conf.c", "src/server-sock.c", "src/lex.c"],
 [("lex_encode/lex_decode", "src/lex.c"), ("send_req/recv_rsp", "src/client-sock.c"), ("parse_cmd_opts/send_rsp", "src/server-sock.c")])

prop("L01", "Console logs receive all console output, in order, exactly once",
 "Every byte a logged console produces is appended to its log file in order and exactly once (transformed only as the log options say), together with one open mark per opening and the session notices, whatever clients do and however often the console reconnects, with existing file content preserved. If a write to the log fails or is short nothing is duplicated or reordered, and only that log stops until logs are reopened.",
 ["histories", "fault_sequences", "schedules"],
 "all interleavings of console output with client activity, reconnects, short writes and write errors, log reopening, and every position of the wrap of the pending-data memory",
 T0 + "log files are created but their content is never examined.",
 ["src/server-obj.c", "src/server-logfile.c", "src/server.c"],
 [("write_log_data", "src/server-logfile.c"), ("write_to_obj", "src/server-obj.c"), ("open_logfile_obj", "src/server-logfile.c"), ("shutdown_obj logfile branch", "src/server-obj.c")])

prop("L02", "Log line processing depends only on the bytes a console sends",
 "With sanitizing or timestamping enabled, the logged text is a fixed function of the console's byte stream and the time: line ends are normalised to CR LF, unprintable bytes become their two-character printable forms, and each new line begins with the time its first character arrived. The result does not depend on how the stream is divided into reads or on the sizes of the pieces, and with neither option the bytes are logged unchanged.",
 ["inputs", "schedules"],
 "all byte sequences over all 256 values and all ways to divide them, for all four option combinations",
 T0 + "console output in tests is printable text whose log is never read.",
 ["src/server-logfile.c"],
 [("write_log_data newline state machine", "src/server-logfile.c"), ("write_time_string", "src/util-str.c")],
 [("lineState", "position of the log within a line end", "server.h:logfile_obj")])

prop("L03", "Logs reopen on request and are truncated only at start-up, and only if asked",
 "On a hangup signal every console log and the daemon log is closed and opened again under its name as re-expanded at that time (conversion specifiers, log directory, missing directories created), and bytes before and after the reopening go to the old and new file with none lost or repeated; it is locked against other programs each time it is opened, unless that was turned off, and not used while another holds it locked. Existing log content is preserved at start-up and at every reopening unless truncation was requested, in which case it happens once at start-up only.",
 ["histories", "configurations", "crash_points"],
 "all placements of hangup signals, renames and clock changes between console output, for all name formats",
 T0 + "no signal other than the terminating one is sent and no log is read.",
 ["src/server-logfile.c", "src/server.c", "src/server-obj.c", "src/util-file.c"],
 [("reopen_logfiles", "src/server.c"), ("open_logfile_obj", "src/server-logfile.c"), ("format_obj_string", "src/server-obj.c"), ("create_dirs", "src/util-file.c"), ("open_daemon_logfile", "src/server.c")],
 [("gotTruncate", "truncation still due", "server.h:logfile_obj")])

prop("L04", "Periodic time marks appear in every log at each interval boundary",
 "When a time-mark interval is configured, every console log receives exactly one mark for each multiple of the interval counted from local midnight of the starting day, at that time and not before, regardless of traffic; with no interval configured none is written.",
 ["histories", "configurations"],
 "all intervals (minutes, hours, days), start times of day and traffic patterns",
 T0 + "it runs for seconds, and no interval elapses.",
 ["src/server.c", "src/server-conf.c", "src/tpoll.c"],
 [("schedule_timestamp/timestamp_logfiles", "src/server.c"), ("parse_server_directive timestamp", "src/server-conf.c")])

prop("T01", "Telnet protocol bytes never leak into console data, however they arrive",
 "Data from a telnet console reaches sessions and logs with all telnet commands, option requests and subnegotiations removed and a doubled command byte reduced to one, and each unsupported option request gets exactly one refusal while supported ones and refusals get none; this depends only on the byte stream of the connection, not on how it is divided into reads nor on earlier connections. On connecting the daemon sends its fixed option offers, and a break request is sent as the telnet break command.",
 ["inputs", "histories"],
 "all byte streams and divisions, across reconnects at any point",
 T0 + "no telnet console is configured.",
 ["src/server-telnet.c", "src/server-obj.c"],
 [("process_telnet_escapes", "src/server-telnet.c"), ("process_telnet_cmd", "src/server-telnet.c"), ("send_telnet_cmd", "src/server-telnet.c")],
 [("iac", "position within a telnet command", "server.h:telnet_obj")])

prop("T02", "Telnet consoles are reconnected with bounded exponential back-off",
 "A telnet console that is down or cannot be reached is retried for ever: the n-th successive failure is retried after 15, 30, 60, ... seconds, never more than 1800, the sequence restarting with an immediate retry after a connection has lasted 15 seconds, and a client arriving while it is down triggers an attempt at once. At most one connection to the device exists at a time, and sessions and logs are told of every change between connected and disconnected.",
 ["histories", "fault_sequences", "schedules"],
 "all sequences of refused, completed and broken connections, and client arrivals, at all times",
 T0 + "no telnet console is configured and no reconnection happens.",
 ["src/server-telnet.c", "src/server-sock.c", "src/tpoll.c"],
 [("connect_telnet_obj/disconnect_telnet_obj", "src/server-telnet.c"), ("reset_telnet_delay", "src/server-telnet.c"), ("check_console_state", "src/server-sock.c")],
 [("delay", "seconds before the next attempt", "server.h:telnet_obj"), ("state", "DOWN/PENDING/UP", "server.h:telnet_obj")])

prop("R01", "Process consoles: one live program, restarted with back-off, none left behind",
 "A process console runs at most one instance of its program, with exactly the configured arguments, its standard streams connected to the console, no other open file or connection of the daemon, and only a standard search path, TZ and DEBUG of its environment; when the program ends or closes its output it is killed and started again after 60, 120, ... up to 1800 seconds of delay (at once if it had run for at least 60 seconds), or at once when a client connects. A program that cannot be started is reported and retried in the same way, and sessions are told of each start and end.",
 ["histories", "fault_sequences"],
 "all sequences of program exits, missing or unexecutable programs, run durations and client arrivals",
 T0 + "no process console is configured.",
 ["src/server-process.c", "src/server-conf.c"],
 [("open_process_obj", "src/server-process.c"), ("connect_process_obj/disconnect_process_obj", "src/server-process.c"), ("reset_process_delay", "src/server-process.c")])

prop("R02", "Unix-socket consoles reconnect with back-off and as soon as the socket appears",
 "A Unix-socket console that is down is retried after 1, 2, 4, ... and never more than 60 seconds, the sequence restarting once a connection has lasted 60 seconds, and is also tried at once when its socket file is created and when a client connects; sessions are told of every connect and disconnect. Several consoles whose sockets share a directory each react to their own socket file only.",
 ["histories", "fault_sequences"],
 "all sequences of socket creation, removal, refusal and disconnection at all times, for several consoles in one or several directories",
 T0 + "no Unix-socket console is configured.",
 ["src/server-unixsock.c", "src/inevent.c"],
 [("connect_unixsock_obj/disconnect_unixsock_obj", "src/server-unixsock.c"), ("reset_unixsock_delay", "src/server-unixsock.c"), ("inevent_process", "src/inevent.c")])

prop("R03", "A reset request runs the reset command once per console, for bounded time",
 "The reset escape of a client with write access runs the configured command once for each console it is writing to, with that console's values substituted and no open file or connection of the daemon, and announces it to that console's sessions; a read-only client's request runs nothing. A console whose reset is still active gets no second one, and a reset command still running 60 seconds after its start is killed together with its children.",
 ["histories", "schedules"],
 "all sequences of reset requests, command durations and client modes over any set of consoles",
 T0 + "no reset is ever requested.",
 ["src/server-esc.c"],
 [("perform_reset", "src/server-esc.c"), ("kill_reset_cmd", "src/server-esc.c"), ("format_obj_string", "src/server-obj.c")],
 [("resetCmdPid", "reset command considered active", "server.h:base_obj")])

prop("R04", "IPMI consoles carry data and recover sessions with bounded back-off",
 "An IPMI console relays data and break requests through its serial-over-LAN session; when the session cannot be established or is lost it is retried for ever with delays growing from 60 to at most 1800 seconds (starting over after a session has lasted 60 seconds), an attempt not finished within 300 seconds is abandoned, and a client arriving while it is down triggers an attempt at once. At most one session per console is active at a time and session changes are announced.",
 ["histories", "fault_sequences"],
 "all sequences of session outcomes, losses, hangs and client arrivals at all times",
 T0 + "no IPMI console is configured and no BMC exists in a test environment.",
 ["src/server-ipmi.c"],
 [("open_ipmi_obj/connect_ipmi_obj/disconnect_ipmi_obj", "src/server-ipmi.c"), ("create_ipmi_ctx/complete_ipmi_connect/fail_ipmi_connect", "src/server-ipmi.c")])

prop("R05", "Serial consoles use the configured line settings and relay data transparently",
 "A serial console's device is opened exclusively, set to raw mode with the configured speed, data bits, parity and stop bits, and carries all 256 byte values unmodified in both directions, whatever the device was set to before; after the device fails it is reopened with the same settings, its sessions are told of the change, and nothing else is affected. At the end a device that has not failed is given back the settings it had.",
 ["inputs", "configurations", "fault_sequences"],
 "all option strings, byte values and device failures",
 T0 + "no serial console is configured.",
 ["src/server-serial.c", "src/common.c"],
 [("parse_serial_opts", "src/server-serial.c"), ("set_serial_opts/open_serial_obj", "src/server-serial.c"), ("get_tty_raw", "src/common.c")])

prop("M01", "Timers fire once, in order, never early, and never after cancellation",
 "A timer set for a time runs its action exactly once, not before that time and as soon as the poll is next able to run it, in order of expiry time and, for equal times, in order of setting; a timer cancelled before it ran never runs, and setting or cancelling timers from timer actions or other threads is honoured. Waiting reports exactly the requested events of the registered descriptors, and is woken when another thread changes the timers or descriptors so that the change takes effect immediately.",
 ["schedules", "histories", "inputs"],
 "all sequences of set, cancel, register, clear and wait operations, including equal, past and far-future times and concurrent calls",
 T0 + "timers are exercised only incidentally with a single periodic interval.",
 ["src/tpoll.c"],
 [("_tpoll_timeout_insert/tpoll_timeout_cancel", "src/tpoll.c"), ("tpoll", "src/tpoll.c"), ("_tpoll_signal_send", "src/tpoll.c")])

prop("C01", "Each valid configuration directive takes effect; a bad one harms only itself",
 "The set of consoles, their devices, options and logs, and the server settings in force are exactly those given by the valid directives of the configuration file, later global defaults applying only to later consoles and console settings overriding them; a directive with an error is reported with its line number and skipped, with the rest of the file still honoured. Duplicate console names, devices and log files are rejected so that no two consoles share a name, a local device or a log file.",
 ["inputs", "configurations"],
 "all configuration texts: any order, mixture and layout of valid, invalid and duplicate directives, quoting, comments and line continuations",
 T0 + "one generated configuration of one shape is used.",
 ["src/server-conf.c", "src/lex.c", "src/server-logfile.c"],
 [("parse_directive family", "src/server-conf.c"), ("process_console", "src/server-conf.c"), ("lexer", "src/lex.c"), ("create_*_obj duplicate checks", "src/server-*.c")])

prop("C02", "At most one daemon runs per configuration, and control options find that one",
 "While a daemon runs with a configuration file, starting a second one with the same file fails with an error and a nonzero status without disturbing the first or its files. The query, terminate and reopen options, given the same configuration or process-id file, act on exactly that daemon and report success, and report failure, affecting no process, when none is running; after termination the process-id file is gone and a new daemon can start.",
 ["histories", "crash_points"],
 "all sequences of starts, terminations, crashes and control requests, with and without a process-id file and with stale ones",
 T0 + "one daemon is started and stopped once; second starts, stale files and crashes are never exercised.",
 ["src/server-conf.c", "src/server.c", "src/util-file.c"],
 [("process_config locking", "src/server-conf.c"), ("signal_daemon/display_daemon_pid", "src/server-conf.c"), ("write_pidfile/read_pidfile", "src/server-conf.c"), ("begin_daemonize/end_daemonize", "src/server.c")])

prop("K01", "The client program passes terminal data through transparently",
 "What the user types reaches the daemon unchanged except for recognised escapes: the escape character followed by a recognised command character performs that command's documented action once (where the session's mode allows it) and sends nothing else; otherwise doubled it sends one, and followed by any other character it sends both; bytes equal to the protocol's own escape byte arrive as themselves, and a read-only session sends none of it. Everything the daemon sends appears on the terminal unchanged. This holds for all byte values, all escape characters, and every way either stream is divided into reads; only input typed ahead of a suspension or resumption is dropped.",
 ["inputs", "schedules"],
 "all input byte sequences, escape characters, session modes and divisions into reads",
 T0 + "the client program is only run in query mode.",
 ["src/client-tty.c"],
 [("read_from_stdin/process_escapes", "src/client-tty.c"), ("write_esc_char", "src/client-tty.c"), ("write_to_stdout", "src/client-tty.c")])

prop("K02", "The client reports outcomes faithfully: errors, exit status, session log",
 "The client program exits with zero status only if its request was accepted, prints the daemon's error text and list otherwise, prints query results one name per line in the daemon's order, and takes destination, port and escape character from the command line before the environment before the built-in defaults. A session that the daemon ends, in whatever way, is reported as terminated by the server. When a session log is requested the log is appended to and holds, between its start and finish messages, exactly what the daemon sent during the session, in order. The terminal's settings are restored whenever the client ends or is suspended, however it ends.",
 ["inputs", "configurations", "histories"],
 "all combinations of options, environment, daemon replies and disconnection points",
 T0 + "only a successful query is made.",
 ["src/client.c", "src/client-conf.c", "src/client-sock.c", "src/client-tty.c"],
 [("process_client_cmd_line/env_vars", "src/client-conf.c"), ("recv_rsp/display_error/display_consoles", "src/client-sock.c"), ("write log in client-tty", "src/client-tty.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
