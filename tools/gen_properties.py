#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text lives here because JSONL is unpleasant to edit."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe), "hook_needed": None,
        }})

NOT = "No test that can run here touches this code (only the lexer's tests build), and the upstream tests sample "

prop("C01", "A message is acknowledged only after it has been stored",
 "When a save directory is in effect, a client that has sent a complete message gets a success (2xx) reply only if a file for that message was newly created, the whole record was written to it without error, a sync to disk was requested and the file was closed without error, or if a file of that name already existed. Any error while creating, writing or closing the file gives the client a temporary failure (4xx) reply instead, whatever the rules say.",
 ["fault_sequences", "inputs", "configurations"],
 "every message, every combination of create/write/close failures, every rule set",
 NOT + "no I/O failure at all: full disks and close errors cannot be provoked from a unit test.",
 ["sinksmtp.go"],
 [("the save routine's error flow", "sinksmtp.go handleMessage"), ("tempfail on save error", "sinksmtp.go process, GOTDATA case")],
 observe=["SMTP reply after the final dot", "files in the save directory"])

prop("C02", "Saved messages are never modified; failed saves leave nothing behind",
 "Saving a message never truncates, overwrites or appends to a file that already exists: a name collision counts as already saved and raises no error. A save that fails while writing or closing removes the file it created, so that a partial record can never later stand in for a saved message.",
 ["fault_sequences", "histories"],
 "every sequence of saves with equal or different names and every failure point within a save",
 NOT + "no saving of messages.",
 ["sinksmtp.go"],
 [("exclusive create", "sinksmtp.go handleMessage"), ("removal after a failed write", "sinksmtp.go handleMessage")],
 observe=["files in the save directory"])

prop("C03", "Every received message is recorded before it is judged",
 "Once a message has been fully received it is written to the message log (if there is one) and saved (if a save directory is in effect) before any message-phase rule is evaluated and before the client gets a reply, so a message that is then refused, for example because of -M, has been recorded all the same. Each received message is logged and saved once.",
 ["inputs", "configurations"],
 "every received message under every rule set and option combination",
 NOT + "no complete SMTP conversation.",
 ["sinksmtp.go"],
 [("handling precedes the rules", "sinksmtp.go process, GOTDATA case"), ("log then save", "sinksmtp.go handleMessage")],
 observe=["message log", "save directory", "SMTP replies"])

prop("C04", "Every SMTP step gets exactly the reply its rules decided",
 "For every HELO/EHLO, MAIL FROM, RCPT TO, DATA and fully received message the rules are consulted once, for that step's own phase: 'reject' gives a 5xx reply, 'stall' a 4xx reply, 'accept' or no match a success reply, and no step gets two replies. The only other refusals are the 4xx after a failed save and the 4xx-and-disconnect of a client that has exceeded its do-nothing allowance by repeated MAIL FROMs. A 'reject' at connect time drops the connection without reading any command.",
 ["inputs", "histories", "configurations"],
 "every client command sequence, every rule verdict in every phase",
 NOT + "no verdict-to-reply mapping; verdict, phase and save errors combine freely.",
 ["sinksmtp.go"],
 [("verdict driver", "sinksmtp.go decider"), ("accept driver", "sinksmtp.go doAccept"), ("event loop", "sinksmtp.go process")],
 observe=["SMTP replies"])

prop("C05", "The recorded envelope holds exactly what was accepted",
 "The HELO name, sender and recipients that get logged and saved are exactly the accepted ones: a refused command changes none of them, and an accepted command records its own argument, recipients in order. An accepted MAIL FROM or HELO/EHLO starts over with no recipients, and an accepted HELO/EHLO with no sender either, so nothing of an earlier transaction is ever attributed to a later message.",
 ["histories", "inputs"],
 "every sequence of accepted and refused commands within one connection, including several messages and RSETs",
 NOT + "no multi-transaction conversation.",
 ["sinksmtp.go"],
 [("envelope updates after acceptance", "sinksmtp.go process")],
 state=[("transaction record", "accepted HELO name, sender, recipients, data", "sinksmtp.go smtpTransaction")],
 observe=["message log", "saved files"])

prop("C06", "The first eligible matching rule decides",
 "In every phase the rules are taken in order, and a rule is evaluated exactly when the information it needs is available by that phase and, if it names a phase, when that is the current phase. The first evaluated accept, reject or stall rule that matches gives the result; set-with rules and rules that missed because of an empty pattern file never do, and with no match there is no result. With options and blocklist hits start out empty in every phase.",
 ["configurations", "inputs", "histories"],
 "every rule list, every phase, every outcome of every rule",
 NOT + "single rules in isolation; the decision loop itself has no test at all.",
 ["rules.go"],
 [("rule loop", "rules.go Decide")],
 observe=["verdict of each phase"])

prop("C07", "The null sender is never refused; its refusal moves to the recipients",
 "MAIL FROM:<> never gets a refusal: if the rules reject or stall it, it is accepted and that verdict, with its with options and blocklist hits, is given to every later step of that transaction instead, starting with the first RCPT TO. The postponed verdict is forgotten at the next MAIL FROM or HELO/EHLO, and the verdict for a non-null sender is never postponed.",
 ["histories", "configurations"],
 "every rule set and every sequence of commands after a null sender",
 NOT + "no conversation that spans more than one phase.",
 ["rules.go"],
 [("postponed result", "rules.go Decide")],
 state=[("postponed verdict", "result, with options and hits to hand out later", "rules.go Context")],
 observe=["replies to MAIL FROM:<> and the following RCPT TOs"])

prop("C08", "Recipient rules after RCPT TO look at every accepted recipient",
 "A rule that tests recipients and is evaluated in a phase after RCPT TO is tried with each accepted recipient in turn until one of them makes it match, and matches exactly if one does. In the RCPT TO phase it is tried only with the recipient just given.",
 ["inputs", "configurations"],
 "every number of accepted recipients, every recipient rule, both later phases",
 NOT + "no rule evaluation with more than one recipient.",
 ["rules.go"],
 [("per-recipient evaluation", "rules.go ruleForEachRcpt, Decide")],
 observe=["replies to DATA and to the message"])

prop("C09", "A rule waits until everything it tests is known",
 "No rule is evaluated before the SMTP commands that supply what its conditions test: HELO-name tests wait for HELO/EHLO, sender and TLS tests for MAIL FROM, recipient tests for RCPT TO, combined tests (source, dbl) for the latest of their parts, and the rule for the latest of all its conditions in all its clauses however they are nested. Naming an explicit phase earlier than that is a rule file error.",
 ["programs", "configurations"],
 "every rule that can be written, every combination and nesting of operators",
 NOT + "one rule with a too early phase; whether each operator's declared phase agrees with the data it reads is not tested.",
 ["rparse.go", "rnodes.go", "rules.go"],
 [("phase requirement table", "rparse.go minReq, pTerm"), ("phase check", "rparse.go pRule")],
 observe=["phase in which a rule takes effect"])

prop("C10", "Unusable rule files stall everything, never run a partial rule set",
 "If any rule file, or a file it includes, cannot be opened, read or parsed, that connection runs with just the 'stall everything' rules and a warning is issued; it never runs with some of the rules. Otherwise the rules in force are the command line's own rules followed by all the rules of every rule file in the order given, freshly loaded for that connection.",
 ["fault_sequences", "configurations", "histories"],
 "every subset of failing files at any point of the server's life",
 NOT + "no rule file loading.",
 ["sinksmtp.go", "rparse.go"],
 [("rule accumulation", "sinksmtp.go setupRules, accumRules, loadRules"), ("include", "rparse.go pInclude")],
 observe=["replies of a connection made while a rule file is broken"])

prop("C11", "No error in a rule file goes unnoticed",
 "Every lexical or grammatical error anywhere in a rule file or in a file it includes makes parsing of the whole text fail: no malformed condition, missing argument, unknown option, repeated with option, unbalanced parenthesis, condition-less clause, option-less set-with or stray text at the end of a rule is ever skipped or turned into a rule.",
 ["inputs"],
 "every rule text",
 "The parser tests, which cannot be built here, try some fifty bad lines; each parse routine's error path combines with every caller.",
 ["rparse.go", "rlex.go", "sinksmtp.go"],
 [("error propagation through the recursive descent parser", "rparse.go")],
 observe=["Parse result", "startup refusal, stall on bad rules"])

prop("C12", "Conditions combine as written",
 "A list of conditions matches exactly if all of them match, 'or' if either side does, 'not' if its operand does not; of a compact rule's clauses the first that matches wins, and exactly that clause's with options are set. A rule's action, phase and clauses are those written, and parentheses only group. If evaluating a rule consulted an empty or unreadable pattern file, the rule does not match, not even under 'not' or 'or', and sets no with options.",
 ["programs", "inputs"],
 "every expression tree and every outcome of its leaves",
 NOT + "some two dozen fixed expressions.",
 ["rnodes.go"],
 [("expression evaluation", "rnodes.go AndL, OrN, NotN, MatchN, Rule.check")],
 observe=["rule match outcome"])

prop("C13", "Pattern files are used whole, fresh and case-insensitively, or not at all",
 "Every line of a pattern file that is neither blank nor a comment is a pattern, including a last line without a newline, and patterns are compared with addresses and host names regardless of letter case. A file that is missing, unreadable or fails part-way counts as empty and is never used in part. Pattern files are read anew for each connection.",
 ["inputs", "fault_sequences", "histories"],
 "every file content, every read failure point, every pattern and subject",
 NOT + "one well-formed list.",
 ["sinksmtp.go", "rules.go"],
 [("list reading", "sinksmtp.go readList, loadList"), ("per-connection cache", "rules.go getMatchList, newContext"), ("case folding", "rules.go matchAddress, matchHost, getMatchList")],
 observe=["rule match outcome"])

prop("C14", "Every match operator examines exactly the data it is documented to",
 "'from' and 'from-has' examine the sender, 'to' and 'to-has' the current recipient, 'helo'/'ehlo' the HELO name, 'helo-has' the HELO command and name and the two IPs, 'host' the verified host names, 'dns' the reverse DNS results, 'ip' and 'dnsbl' the client IP, 'tls' the TLS state, 'source' verified host names, HELO name and sender, 'dbl' just the sources it lists, and 'all' nothing. Each operator uses its own argument and its own kind of comparison, and no other session data.",
 ["programs", "inputs"],
 "every operator with every argument",
 NOT + "a few rules per operator in one fixed session.",
 ["rparse.go", "rnodes.go", "rules.go"],
 [("operator construction", "rparse.go pTerm"), ("node evaluation", "rnodes.go")],
 observe=["rule match outcome"])

prop("C15", "Only forward-confirmed host names count as verified",
 "A reverse DNS name of the client counts as verified exactly if a forward lookup of that name succeeded and gave the client's IP; a name whose forward lookup failed is 'noforward', one that resolves but not to the client's IP is 'inconsistent', and every name falls into one class; if the reverse lookup fails there are no names. The attribute 'nodns' holds exactly if there is no verified name, 'exists' if there is one, and 'good' if there is one and no name is noforward or inconsistent.",
 ["inputs"],
 "every set of names and every outcome of every forward lookup",
 NOT + "fixed results; nothing tests the lookups.",
 ["rdns.go", "rules.go"],
 [("verified lookup", "rdns.go LookupAddrVerified"), ("attributes", "rules.go dnsGetter")],
 observe=["remote-dns lines of saved files", "host and dns rule outcome"])

prop("C16", "Mail domain verdicts follow from the MX and address records",
 "A host is good only if its lookup gave at least one address and every one of them is global unicast and outside 10/8, 172.16/12, 192.168/16, fc00::/7 and fec0::/10; a temporary DNS failure makes it unknown and anything else bad. A domain with MX records is bad if any of them is '.' or 'localhost.', and otherwise as good as its best MX host (good over unknown over bad); a temporary failure of the MX lookup makes it unknown, and a domain without MX records, or whose MX lookup fails for good, is judged by its own addresses.",
 ["inputs"],
 "every set of MX and address records and every DNS failure",
 "The one test needs the network and looks at five domains.",
 ["mxresolve.go"],
 [("host check", "mxresolve.go checkIP"), ("MX evaluation", "mxresolve.go ValidDomain")],
 observe=["resolves/unknown/baddom attributes"])

prop("C17", "Do-nothing clients are counted and stalled exactly as documented",
 "A session counts against its client's IP only if the feature is on, the rules loaded properly, the client was not already being stalled, no TLS error occurred and the session ended, or was restarted by a further MAIL FROM, without reaching the configured minimum phase; reaching it clears the IP's record. A client is stalled, slowed and left out of the SMTP log exactly when the feature is on, SMTP logging is on and its unexpired count has reached the limit.",
 ["histories", "configurations", "schedules"],
 "every sequence of sessions per IP and every way a session can end",
 NOT + "nothing of this.",
 ["sinksmtp.go"],
 [("session accounting", "sinksmtp.go process")],
 state=[("do-nothing table", "per-IP count and time", "sinksmtp.go yakkers")],
 observe=["4xx on everything", "SMTP log", "do-nothing log"])

prop("C18", "TLS is offered, restricted and withheld exactly as documented",
 "STARTTLS is available on a connection exactly when certificates are in force for it, its client IP has had fewer than two TLS failures within 72 hours, and no rule has switched TLS off; a client certificate is requested exactly when, in addition, the IP has had no recent TLS failure and no rule forbids it. Every TLS setup failure is recorded against the client's IP.",
 ["histories", "configurations"],
 "every TLS failure history and every certificate and rule configuration",
 NOT + "nothing of this.",
 ["sinksmtp.go"],
 [("TLS configuration", "sinksmtp.go process"), ("tls-opt", "sinksmtp.go decider")],
 observe=["STARTTLS in the EHLO response", "certificate request in the handshake"])

prop("C19", "Concurrent connections cannot corrupt or influence each other",
 "Every access to a table shared between connections happens under that table's lock, the lock is released on every path and never taken twice, and no table internals are handed out. Nothing that is set up for one connection (rules, pattern lists, verdict state) is ever stored in memory that another connection reads, and global settings do not change once connections are being served.",
 ["schedules"],
 "every interleaving of any number of connections and statistics requests",
 "No test starts two connections.",
 ["sinksmtp.go", "rules.go", "rparse.go"],
 [("table locks", "sinksmtp.go ipMap, dnsblCounts"), ("per-connection context", "rules.go newContext"), ("shared base rules", "sinksmtp.go accumRules")],
 observe=["rule decisions, counters and process survival under load"])

prop("C20", "Per-IP records count, expire and reset correctly",
 "Recording an event for an IP raises its count by one, or starts it again at one if there was no record or the record was last updated at least the time-to-live ago, and refreshes the record's time. A lookup reports a hit with the current count exactly if the record is younger than the time-to-live, and removes an expired record; forcing a count reports the previous unexpired count (zero if there was none), removal forgets the IP, and the empty IP is never recorded.",
 ["histories"],
 "every sequence of operations and every age of the records",
 NOT + "nothing of this.",
 ["sinksmtp.go"],
 [("table operations", "sinksmtp.go ipMap Add, Set, Del, Lookup")],
 observe=["when a client starts and stops being stalled or denied TLS"])

prop("C21", "No client, DNS or rule input can crash the server",
 "While connections are being handled, no index or slice expression can be out of range, no absent logger, missing TLS configuration or failed lookup result is dereferenced, and no deliberate panic is reachable, whatever clients send, DNS returns, and rule, pattern and configuration files and options contain. One crashed connection would take down the whole server.",
 ["inputs", "configurations"],
 "every byte string from clients, DNS and files, with every option combination",
 "Tests try a handful of strings; a crash needs a specific empty or odd value combined with a specific option.",
 ["sinksmtp.go", "rules.go", "rnodes.go", "rparse.go", "rlex.go", "rdns.go", "mxresolve.go", "conncfg.go"],
 [("guards before indexing", "all files"), ("nil-tolerant logging", "sinksmtp.go writeLog, decider")],
 observe=["process survival"])

prop("C22", "Connections, files and scanner goroutines are always released",
 "An accepted connection is closed whichever way its session ends, and a session ends as soon as the client has quit or is gone. Every file that is opened is closed on every path, and the goroutine that tokenizes a rule text has always finished or been drained when parsing returns, errors included.",
 ["histories", "fault_sequences"],
 "every way a session, load or parse can end",
 "A leak shows only after many connections; the one goroutine test drains by hand.",
 ["sinksmtp.go", "rparse.go", "rlex.go", "conncfg.go"],
 [("deferred closes", "sinksmtp.go process, loadList, loadRules; conncfg.go loadConnFile"), ("lexer drain", "rparse.go Parse"), ("end of session", "sinksmtp.go process")],
 observe=["open descriptors and goroutines over time"])

prop("C23", "The server refuses to start with unsafe or inconsistent settings",
 "No port is opened unless there is a save directory, -force-receive or -M; -save-hash is all, full or msg, the latter only with a message log; -dncount comes with -smtplog and a -dndur of at least one second, and -dnlog with -dncount; certificate and key are given together and load; all log files open; the save directory is writable; the -conncfg file loads; all rule files open and parse; and -minphase is a known phase. Otherwise the program exits with an error.",
 ["configurations"],
 "every combination of options and file states",
 "Nothing tests startup.",
 ["sinksmtp.go"],
 [("option validation", "sinksmtp.go main")],
 observe=["exit status, listening sockets"])

prop("C24", "Per-destination settings: first matching line wins, bad files change nothing",
 "The first line of the -conncfg file whose local part equals the connection's local IP:port or IP, is a CIDR containing that IP, or is '*', decides: its host name, if given, replaces the greeting name, and its certificates, even if it has none, replace the command line's; without a matching line or with an unusable file the command line's settings apply. A line with too many fields, an unknown or malformed key, a certificate without key or key without certificate, or an unloadable pair makes the whole file unusable, and a last line without a newline counts like any other.",
 ["inputs", "configurations"],
 "every file content and every local address",
 "Nothing tests this.",
 ["conncfg.go", "sinksmtp.go"],
 [("line selection", "conncfg.go find"), ("file parsing", "conncfg.go readConnFile"), ("application", "sinksmtp.go process")],
 observe=["greeting banner, certificate presented"])

prop("C25", "Saved file names depend on exactly the documented data",
 "With -save-hash=msg a saved message's name is a hash of the message data alone; with 'full' it is a hash of everything in the record except the id line, so neither the connection id, the time nor the client's port influence it; with 'all' it is a hash of the whole record. The recorded message hash and body hash are hashes of the data and of the body alone.",
 ["inputs", "histories"],
 "every message and every pair of messages that differ in one attribute",
 NOT + "no saving; a dependency on a further attribute shows only in a pair of runs.",
 ["sinksmtp.go"],
 [("name selection", "sinksmtp.go handleMessage"), ("record hash", "sinksmtp.go msgDetails, getHashes, genHash")],
 observe=["names in the save directory, ID in the reply"])

prop("C26", "Saved and logged records are complete and the message verbatim",
 "A saved record consists of the id, remote, reverse DNS, TLS (if used), from, one to line per accepted recipient, hash and bodyhash lines, then 'body' and the message data unchanged to the last byte as the end of the file; nothing is left in a buffer. A message log line names time, id, client address, sender, all recipients, size, both hashes, local address and HELO name.",
 ["inputs"],
 "every message content, envelope and TLS state",
 NOT + "no record.",
 ["sinksmtp.go"],
 [("record building", "sinksmtp.go msgDetails, logMessage")],
 observe=["saved files, message log"])

prop("C27", "Blocklist operators match exactly on a positive DNS answer",
 "'dnsbl' matches exactly if the client has an IPv4 address and the name made of its reversed octets and the blocklist domain resolves to at least one address; 'dbl' matches exactly if that holds for the name made of one of its source domains and the blocklist domain, and all sources are looked up. A failed lookup is no match, every match is recorded as a hit for its blocklist, no non-match is, and answers are remembered only within the connection.",
 ["inputs", "configurations"],
 "every client address, HELO name, sender and DNS answer",
 NOT + "prepared cache entries; lookups are not tested.",
 ["rnodes.go", "rules.go"],
 [("lookups", "rules.go getDnsblRes, addDnsblHit"), ("operators", "rnodes.go DNSblN, DblNode")],
 observe=["rule match outcome, '! dnsbl hit' log lines"])

prop("C28", "With options take effect as documented",
 "A matching rule's 'message' replaces the default text of the reply it leads to (other than the success reply to HELO/EHLO) and is sent literally, with the ID appended in the reply to an accepted or rejected message; 'savedir' redirects the saving of all later messages of the session; 'note' is logged; 'tls-opt off' disables TLS for the session and 'no-client' the certificate request; 'make-yakker' turns the client into a do-nothing client at the end of the session whatever else happened in it, unless the rules dropped the connection at connect time. The rule language accepts no other with options or tls-opt values, and every one it accepts has its effect.",
 ["configurations", "histories"],
 "every with option, set in any phase, with any later course of the session",
 NOT + "that options are stored on a match, not what they do.",
 ["sinksmtp.go", "rparse.go", "rnodes.go"],
 [("with options are applied", "sinksmtp.go decider, doAccept, process"), ("with options are parsed", "rparse.go pWClause")],
 observe=["SMTP replies, save location, SMTP log, TLS offer, do-nothing status"])

prop("C29", "Log records are written whole and tagged with their session",
 "Each record of the SMTP log, message log and do-nothing log goes to the log as a single write of the complete record, so records of concurrent sessions never interleave, and it carries the session's id (process id and a connection number no other connection of the process has). Log files are opened for appending. Nothing of a stalled do-nothing client's session goes to the SMTP log.",
 ["schedules", "inputs"],
 "every interleaving of sessions and every record size",
 "Nothing tests logging; interleaving needs concurrent sessions.",
 ["sinksmtp.go"],
 [("session logger", "sinksmtp.go smtpLogger"), ("message log", "sinksmtp.go logMessage"), ("do-nothing log", "sinksmtp.go yakLog")],
 observe=["log files"])

prop("C30", "Command line filters become rules ahead of all rule files",
 "Unless -nostdrules is given, the rules begin with 'reject from-has bad,route', 'reject to-has bad,route' and 'reject helo-has none'; -M adds '@message reject all', -fromreject FILE 'reject from file:FILE', -toaccept FILE 'reject not to file:FILE' and -heloreject FILE '@from reject helo file:FILE'. Each of these is present exactly if its option is, and they precede all rules from rule files.",
 ["configurations"],
 "every combination of options",
 "Nothing tests option translation.",
 ["sinksmtp.go"],
 [("rule generation", "sinksmtp.go buildRules"), ("rule order", "sinksmtp.go accumRules, setupRules, main")],
 observe=["verdicts with the options set"])

prop("C31", "Rule text is tokenized completely and scanning always ends",
 "Scanning any text ends, and the last token delivered is the end of the text or an error, after which the token stream is closed. No character is lost: everything that is not blank space, comment, blank line or line continuation ends up in exactly one token, every special character forms its own token, and scanning never goes back over or skips input.",
 ["inputs"],
 "every text",
 "The lexer tests try thirty texts.",
 ["rlex.go"],
 [("state functions", "rlex.go"), ("token stream", "rlex.go run, emit, errorf")],
 observe=["tokens delivered to the parser"])

prop("C32", "Address and host patterns match as documented",
 "An address pattern 'a@b', 'a@', '@b', '@.b', '@' or '<>' and a host pattern 'b' or '.b' match exactly the addresses and host names the documentation says.",
 ["inputs"], "every address, host name and pattern",
 NOT + "some thirty pairs.",
 ["rules.go"], [("matchers", "rules.go matchAddress, matchHost, matchIp")], observe=["rule match outcome"])

prop("C33", "Printed rules parse back to the same rule",
 "The printed form of any rule is a rule text that parses to a rule with the same meaning.",
 ["programs"], "every rule", NOT + "some sixty rules.",
 ["rnodes.go", "rparse.go"], [("printing", "rnodes.go String methods")], observe=["printed rules"])

prop("C34", "Address and HELO attributes classify as documented",
 "The attributes route, noat, quoted, unqualified and garbage of addresses and none, bogus, nodots, bareip, properip, myip, remip and otherip of HELO names hold for exactly the strings the documentation describes.",
 ["inputs"], "every address and HELO name", NOT + "some thirty strings.",
 ["rules.go"], [("classification", "rules.go getAddrOpts, heloGetter")], observe=["from-has, to-has, helo-has outcome"])

prop("C35", "Slow output and time windows are kept in real time",
 "With -S, and for stalled clients, replies go out at one character per tenth of a second, and time windows last as long as configured.",
 ["schedules"], "every connection", "Nothing tests timing.",
 ["sinksmtp.go"], [("delay setting", "sinksmtp.go process")], observe=["timing of output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
