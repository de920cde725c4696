import json
notes={
"C01":("bounded exhaustive enumeration of import/export traces on the real code, stepwise against a reference model","keys x letter case x network prefixes"),
"C02":("bounded exhaustive enumeration of strings (all short strings, all one-edit neighbours) on the real code against a reference decoder","strings"),
"C03":("bounded exhaustive enumeration of payload shapes under valid checksums on the real code against a reference acceptor","payload length x version x key boundary x network"),
"C04":("bounded exhaustive enumeration of texts on the real code against a reference acceptor","length, foreign character at every position, boundary values"),
"C05":("exhaustive exploration of controlled random-source behaviours of the real generator","draw classes to a depth, single bit flips, chunkings"),
"C06":("exhaustive enumeration of operand pairs on the real code, stepwise against a reference model","ordered pairs of structured keys x networks"),
"C07":("exhaustive enumeration of operand pairs on the real code, stepwise against a reference model","ordered pairs of structured keys x networks"),
"C08":("exhaustive enumeration of structured scalars on the real code against a reference group model","scalars"),
"C09":("exhaustive enumeration of structured points and their encodings on the real code against a reference model","points incl. mined leading-zero coordinates"),
"C10":("bounded exhaustive enumeration of texts on the real code against a reference acceptor","lengths, prefixes, characters at every position, off-curve neighbours"),
"C11":("exhaustive enumeration of points x forms x network prefixes on the real code against a reference model","points incl. mined hash classes"),
"C12":("exhaustive enumeration of ordered point pairs on the real code against a reference group model","pairs from a set closed under negation and small multiples"),
"C13":("exhaustive exploration of two-route operation traces (commuting diagrams) on the real code with a reference model","pairs and triples of keys"),
"C14":("exhaustive exploration of controlled random-source behaviours x configurations of the real generator, against a reference model","entropy classes x lengths x wordlists, every entropy bit"),
"C15":("exhaustive fault enumeration: every failing read and every bounded chunking of the random source, on the real code","fault points and chunkings"),
"C16":("bounded exhaustive enumeration of phrases on the real code against a reference acceptor","phrases: last words, substitutions, spacing, counts"),
"C17":("bounded exhaustive enumeration of phrases x passphrases on the real code against a reference model","phrases x passphrases"),
"C18":("exhaustive enumeration of all words of all lists, generation and recognition on the real code","all 9x2048 words"),
"C19":("exhaustive exploration of call histories up to a depth, each in a fresh process of the real code, against a reference model","histories with caller mutations"),
"C20":("stateless model checking of the real code under a controlled scheduler, preemption-bounded, with happens-before race analysis of the explored schedules","schedules of operation pairs"),
"C21":("exhaustive self-composition: all operations x pairs of secrets on the real code, observing fds 1 and 2 and the default logger","operations x secrets"),
"C22":("explicit-state breadth-first search of the derivation graph, every transition executed on the real code against a state-machine model","derivation chains on several networks"),
}
common="Every behaviour within the bounds stated in DESIGN.md and in the evidence (%s) is executed on the code of /repo's working tree and compared with an independent reference model (mc/ref), itself checked against published vectors on each run. Values outside the enumerated alphabets are not covered; trusted: the reference model, Go's standard library and runtime."
checks=[dict(property=k,quick_cmd="./check.sh %s quick"%k,thorough_cmd="./check.sh %s thorough"%k,evidence_file="evidence/%s.json"%k,technique=v[0],level="model_checking",level_note=common%v[1]) for k,v in sorted(notes.items())]
json.dump(dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=[],notes="No hooks in /repo: the checks use the exported API only; C20 instruments a scratch copy of the working tree at build time."),open("/verif/MANIFEST.json","w"),indent=1)
