KNOWN += [
 ("C02", "[recycled] conmand -k or -r with -P, when no daemon runs but a process id file was left behind by one that was killed, signals whatever process has that number now (history: start with a process id file, kill -9, the number is given to another process, conmand -k -P FILE)"),
 ("S03", "[simultaneous] two requests to connect, neither of them to join or force, both get write access when the second is checked before the first has been answered (history: two sessions ask for an idle console, the answer to the first is held up in its connection until the second has been answered)"),
]
