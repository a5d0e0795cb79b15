HOOKS = dict(guard="(none)", enable="No hooks in /repo: the checks link the unmodified sources with link-time wrappers (ld --wrap) from /verif/harness.", source_commits=[])
NOTES = "TLA+ specification in /verif/spec, checked with TLC and bound to the code by trace validation."
_T = ("trace validation: generated scenarios are run on the real daemon (built from /repo, system calls intercepted) "
      "and every recorded behaviour is checked with TLC against the TLA+ specification spec/ConMan.tla")
_N = "Holds for every event of every trace explored; scenarios are generated, so coverage is bounded by their number and shape."
_M = {}
for _i in "S01 S02 S03 S04 S05 L01".split():
    _M[_i] = "; the specification itself is model-checked over all short histories of two sessions, and random walks of four, against invariants stated on histories (spec/MCConMan.tla)"
for _i in "T02 R01 R02 R03 R04 R05".split():
    _M[_i] = "; the specification itself is model-checked over the life of a console (attempts, losses, resets, time) against invariants on its histories (spec/MCLife.tla)"
for _i in "T01 L02 S06".split():
    _M[_i] = "; the specification's byte-wise machine is checked on all short strings, in every split, against a definition without states (spec/MCBytes.tla)"
for _i in "S01 S02 S03 S04 S05 S06 S07 S08 S09 L01 L02 L03 L04 T01 T02 R01 R02 R03 R04 R05".split():
    CHECKS[_i] = ("model_checking", _T + _M.get(_i, ""), _N)
_TC = ("trace validation: generated command lines, daemon replies and keystrokes (random, and every short input) are run on the real client "
       "program on a pseudo-terminal and every recorded behaviour is checked with TLC against the TLA+ specification spec/Client.tla")
CHECKS["S10"] = ("model_checking", _TC.replace("trace validation: ", "trace validation of both programs: ").replace("keystrokes (random, and every short input)", "names")
                 + "; the daemon's side likewise against spec/ConMan.tla, and their composition (what one writes the other reads) model-checked over all short texts (spec/Wire.tla)", _N)
for _i in "K01 K02".split():
    CHECKS[_i] = ("model_checking", _TC, _N)
CHECKS["C01"] = ("model_checking", "trace validation: generated configuration files are read by the real daemon and what it then does (consoles, devices, options, logs, "
                 "listening socket, limits, error lines) is checked with TLC against the meaning given by the TLA+ specification spec/Config.tla; "
                 "all short configurations are model-checked for uniqueness and for directives in error having no effect (spec/MCConfig.tla)", _N)
CHECKS["C02"] = ("model_checking", "trace validation: real daemons and real requests are started, released call by call in generated orders (also killed, with the configuration "
                 "replaced, with leftover process id files), and what they do to each other, say and return is checked with TLC against the TLA+ specification spec/Control.tla; "
                 "the calls conmand makes are model-checked against the same rules for every interleaving of two and three processes (spec/MCControl.tla)", _N)
CHECKS["M01"] = ("model_checking", "trace validation: the real tpoll.c is driven through scripts (random, and every short one) with the clock, poll() and the other threads' "
                 "changes at every point of a call played by a harness, and every recorded behaviour is checked with TLC against the TLA+ specification spec/TPoll.tla; "
                 "its waking protocol is model-checked for all interleavings against the same rules (spec/MCTPoll.tla); that its steps are atomic is checked with real threads under ThreadSanitizer", _N)
