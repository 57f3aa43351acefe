SOUND = "Sound over all paths of the analysed functions under the assumptions listed in the evidence file (library contracts, no reflection/unsafe). "
CLAIMS = {
 "C01": ("typestate analysis of message files over disjunctive dataflow of the session loop (SSA)", SOUND + "Trusted: the analyzer, os file operation contracts, smtpd's documented Next()/reply behaviour."),
 "C02": ("typestate analysis of message files over disjunctive dataflow of the session loop (SSA)", SOUND + "Trusted: the analyzer, os file operation contracts."),
 "C03": ("event-order automaton over disjunctive dataflow of the session loop (SSA)", SOUND + "Trusted: the analyzer, smtpd's documented Next()/reply behaviour."),
 "C05": ("value-numbering dataflow of the session's envelope cells over SSA", SOUND + "Trusted: the analyzer, smtpd's documented Next()/reply behaviour."),
 "C06": ("disjunctive dataflow of Decide() over SSA with an evaluation-order automaton", SOUND + "Trusted: the analyzer; Rule.check()'s outcomes as decided by C12."),
 "C07": ("disjunctive dataflow of Decide() over SSA, one run per phase and postponed verdict", SOUND + "Trusted: the analyzer; Rule.check()'s outcomes as decided by C12."),
 "C08": ("disjunctive dataflow of Decide() over SSA with loop-index tracking of the recipients", SOUND + "Trusted: the analyzer; Rule.check()'s outcomes as decided by C12."),
 "C12": ("truth-table obligations over dataflow of the node Eval() methods and Rule.check(), an effect analysis of everything they reach, and a grammar automaton over the parser for the shape of what is built", SOUND + "Trusted: the analyzer."),
 "C15": ("disjunctive dataflow of the reverse-lookup code over SSA with forked resolver outcomes and a per-name obligation automaton", SOUND + "Trusted: the analyzer, net resolver contracts."),
 "C16": ("disjunctive dataflow of the domain validity code over SSA with forked resolver outcomes and a per-MX/per-address obligation automaton", SOUND + "Trusted: the analyzer, net resolver contracts."),
 "C10": ("disjunctive dataflow of the rule set loading code over SSA with forked read/parse outcomes and list-building ghosts", SOUND + "Trusted: the analyzer, os/bufio contracts; Parse()'s own outcome as decided by C11."),
 "C13": ("disjunctive dataflow of the pattern file reader and comparison code over SSA with a line-source model, plus case-folding taint analysis", SOUND + "Trusted: the analyzer, bufio/io contracts."),
 "C24": ("disjunctive dataflow of the -conncfg reader, lookup and session set-up over SSA with a line-source model", SOUND + "Trusted: the analyzer, bufio/io/tls contracts."),
 "C27": ("disjunctive dataflow of the blocklist operators over SSA with the resolver as an oracle, one run per combination of sources", SOUND + "Trusted: the analyzer, net resolver contracts."),
 "C20": ("disjunctive dataflow of the ipMap operations over SSA with a reference transition table, plus lock-held obligations", SOUND + "Trusted: the analyzer, time and map contracts."),
 "C11": ("grammar automaton over disjunctive dataflow of the parser's productions (SSA), tokens and sub-productions as oracles", SOUND + "Trusted: the analyzer; the lexer's tokens as decided by C31."),
 "C09": ("phase-requirement dataflow over the parser's productions (SSA), tokens and sub-productions as oracles", SOUND + "Trusted: the analyzer; the lexer's tokens as decided by C31."),
 "C14": ("disjunctive dataflow of each condition's Eval() over SSA from the state the parser leaves its node in, one run per operator and scenario", SOUND + "Trusted: the analyzer; the comparisons themselves; pattern lists and blocklists as decided by C13 and C27."),
 "C17": ("disjunctive dataflow of the session loop over SSA with a phase-reached automaton, one run per -minphase value", SOUND + "Trusted: the analyzer, smtpd's documented Next()/reply behaviour; the table operations as decided by C20."),
 "C18": ("disjunctive dataflow of the TLS configuration through the session loop over SSA, one run per tls-opt value", SOUND + "Trusted: the analyzer, smtpd's documented Next()/reply behaviour; the table operations as decided by C20."),
 "C28": ("grammar automaton over the parser plus disjunctive dataflow of each with option through Rule.check(), Decide() and the session loop (SSA)", SOUND + "Trusted: the analyzer, smtpd's documented Next()/reply behaviour."),
 "C23": ("disjunctive dataflow of main() over SSA with flags, files and loading as oracles, and a must-happen-before automaton on opening the ports", SOUND + "Trusted: the analyzer, flag/net/os contracts."),
 "C31": ("fixpoint over the scanner's state functions of a disjunctive dataflow (order relations between positions, excluded characters, SSA) run beside a reference accounting automaton", SOUND + "Trusted: the analyzer, strings.Index*/HasPrefix/TrimLeft contracts."),
 "C30": ("disjunctive dataflow of main() over SSA with flags as oracles and list-building ghosts for the rule set", SOUND + "Trusted: the analyzer, flag contracts; setupRules as decided by C10."),
 "C25": ("disjunctive dataflow with a text and hash model over the saving function and the session loop (SSA), one run per -save-hash value and record shape", SOUND + "Trusted: the analyzer, hash, os and net/mail contracts."),
 "C26": ("disjunctive dataflow with a text model over the saving and logging functions (SSA), one run per record shape, plus the session's cells at the call", SOUND + "Trusted: the analyzer, fmt/bufio/bytes/os contracts."),
 "C29": ("disjunctive dataflow with a text model over the session loop, the session logger and main() (SSA), with the logs as recorded sinks", SOUND + "Trusted: the analyzer, os/bufio/smtpd write contracts."),
 "C22": ("typestate analysis (connections, files, token streams) over disjunctive dataflow of every function that holds one (SSA)", SOUND + "Trusted: the analyzer, os/net/smtpd contracts; parse success as decided by C11."),
 "C19": ("lockset dataflow over the table code, plus an interprocedural sharing-taint (escape/ownership) analysis over everything sessions reach (SSA)", SOUND + "Trusted: the analyzer; expvar, net, os.File and crypto/tls values may be used concurrently."),
 "C04": ("disjunctive dataflow analysis of the session loop over SSA, with a reply automaton", SOUND + "Trusted: the analyzer, smtpd's documented Next()/reply behaviour."),
}
NOT_APPLICABLE = {
 "C21": "absence of every runtime panic needs, for each index, slice and dereference in the serving code, preconditions that hold only across functions (scanner positions, names and chains known to be non-empty, pointers set before a session starts); a bounds analysis of each function in isolation leaves such sites open, so it could be made quiet only by assuming what it should decide. The crashes found while trying were repaired",
 "C32": "the property is a relation between arbitrary pairs of strings computed by string slicing and comparison; no static domain in reach decides equality of such string functions with their documentation",
 "C33": "a round trip through a printer and a parser over unbounded syntax trees: needs induction over runtime values, not a dataflow or effect argument",
 "C34": "classification of arbitrary strings by regexp-like string tests; the set of strings accepted by the code is a runtime quantity no available static domain describes exactly",
 "C35": "real-time behaviour: depends on the clock and scheduler, not on the source",
}
