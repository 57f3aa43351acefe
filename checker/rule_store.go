package main

import (
	"golang.org/x/tools/go/ssa"
)

// C01, C02, C03: storing a received message. The file operations between the
// arrival of a message (GOTDATA) and the next event are an automaton whose
// operations may each fail.

func init() {
	register(&property{id: "C01",
		rule: "Typestate of the message file over process() with its callees inlined, each create/write/close forked into success and failure: a success reply (explicit, or implicit at Next()) to a received message requires no save directory, an already existing file, or created+written+synced+closed; any failure requires a 4xx.",
		run:  runC01,
		assume: []string{
			"smtpd.Conn.Next() accepts a command that was not replied to (documented behaviour of the package)",
			"os.OpenFile, File.Write, File.Sync and File.Close report failure through their error result",
		}})
	register(&property{id: "C02",
		rule:   "Same typestate: every file created while a session is served is opened with O_CREATE|O_EXCL and without O_TRUNC/O_APPEND; 'already exists' is not an error; after a failed write or close the created path is removed before the step ends, and nothing else is ever removed, renamed or truncated.",
		run:    runC02,
		assume: []string{"O_CREATE|O_EXCL never opens an existing file (POSIX)"}})
	register(&property{id: "C03",
		rule: "Ordering automaton over the handling of a received message: message log write (unless there is no message log) and file creation attempt (unless there is no save directory) both precede the consultation of the rules and any reply, and happen exactly once.",
		run:  runC03})
}

const (
	oAccmode = 3
	oCreate  = 0x40
	oExcl    = 0x80
	oTrunc   = 0x200
	oAppend  = 0x400
)

// storeTrack follows the message file in st.A: "f" is its state.
func storeTrack(s *sess) {
	s.files = true
	start := s.onStart
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		for _, k := range []string{"f", "wr", "sy", "fail", "rm", "nopen"} {
			delete(st.A, k)
		}
		for _, k := range []string{"fh", "fname", "sd"} {
			delete(st.G, k)
		}
		if ev == "GOTDATA" {
			st.G["sd"] = s.field(st, "savedir")
		}
		if start != nil {
			start(e, st, ev, arg)
		}
	}
	user := s.onFile
	s.onFile = func(e *Eng, st *State, c *Call, op string, ok bool) {
		if user != nil {
			user(e, st, c, op, ok)
		}
		switch op {
		case "open", "open-exists":
			if !openWrites(st, c) {
				return
			}
			if st.A["nopen"] == "" {
				st.A["nopen"] = "1"
			} else {
				st.A["nopen"] = "many"
			}
			delete(st.A, "wr")
			delete(st.A, "sy")
			switch {
			case ok:
				st.A["f"] = "open"
				delete(st.A, "fail")
				st.G["fh"] = c.ret[0]
				st.G["fname"] = c.args[0]
			case op == "open-exists":
				st.A["f"] = "exists"
				delete(st.A, "fail")
			default:
				st.A["f"] = "failed"
				st.A["fail"] = "create"
			}
		case "write":
			if fh, h := st.G["fh"]; h && st.eqTo(fh, c.args[0]) {
				if ok {
					st.A["wr"] = "1"
					delete(st.A, "sy")
				} else {
					st.A["fail"] = "write"
				}
				if st.A["f"] == "closed" {
					st.A["fail"] = "write" // after close
				}
			}
		case "sync":
			if fh, h := st.G["fh"]; h && st.eqTo(fh, c.args[0]) && st.A["wr"] != "" {
				st.A["sy"] = "1"
			}
		case "close":
			if fh, h := st.G["fh"]; h && st.eqTo(fh, c.args[0]) {
				if ok {
					st.A["f"] = "closed"
				} else {
					st.A["f"] = "closed"
					st.A["fail"] = "close"
				}
			}
		case "remove":
			if fn, h := st.G["fname"]; h && st.eqTo(fn, c.args[0]) {
				st.A["rm"] = "1"
			}
		}
	}
}

// openWrites: the open call may open for writing.
func openWrites(st *State, c *Call) bool {
	if c.name != "os.OpenFile" {
		return true
	}
	if v, ok := st.norm(c.args[1]).intVal(); ok && v&oAccmode == 0 && v&(oCreate|oTrunc) == 0 {
		return false
	}
	return true
}

func runC01(cx *Cx) {
	s := newSess(cx)
	storeTrack(s)
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		if st.A["ev"] != "GOTDATA" {
			return
		}
		rep := st.A["rep"]
		cx.obligations++
		cx.count("message_outcomes_checked", 1)
		good := rep == "2" || rep == ""
		if st.A["fail"] != "" {
			if rep != "4" {
				cx.violPath(in.Pos(), "failed save is tempfailed", cx.path(st), "a message whose file could not be stored (%s failed) gets %s", st.A["fail"], repName(rep))
			}
			return
		}
		if !good {
			return
		}
		if sd, ok := st.G["sd"]; ok && st.isTrue(eq0(mkLen(sd))) {
			cx.count("no_save_directory", 1)
			return
		}
		if st.A["f"] == "exists" {
			return
		}
		switch {
		case st.A["f"] == "":
			cx.violPath(in.Pos(), "stored before acknowledged", cx.path(st), "a message gets %s although no file was created for it", repName(rep))
		case st.A["wr"] == "":
			cx.violPath(in.Pos(), "stored before acknowledged", cx.path(st), "a message gets %s although nothing was written to its file", repName(rep))
		case st.A["sy"] == "":
			cx.violPath(in.Pos(), "stored before acknowledged", cx.path(st), "a message gets %s although no sync of its file was requested after writing it", repName(rep))
		case st.A["f"] != "closed":
			cx.violPath(in.Pos(), "stored before acknowledged", cx.path(st), "a message gets %s although its file was not closed (%s)", repName(rep), st.A["f"])
		default:
			cx.count("stored_and_acknowledged", 1)
		}
	}
	s.onReply = func(e *Eng, st *State, c *Call, code string) {
		// the reply must come after the storing, not just before the next event
		if st.A["ev"] == "GOTDATA" && code == "2" && st.A["fail"] == "" {
			sd, ok := st.G["sd"]
			if ok && st.isTrue(eq0(mkLen(sd))) || st.A["f"] == "exists" || st.A["f"] == "closed" {
				return
			}
			cx.violPath(c.pos(), "stored before acknowledged", cx.path(st), "the success reply to a message is sent before its file is stored")
		}
	}
	s.run()
	cx.ob(cx.counts["stored_and_acknowledged"] > 0, s.proc.Pos(), "analysis completes", "no path stores a message")
}

func runC02(cx *Cx) {
	s := newSess(cx)
	s.onFile = func(e *Eng, st *State, c *Call, op string, ok bool) {
		switch op {
		case "open", "open-exists":
			if !openWrites(st, c) {
				return
			}
			cx.obligations++
			v, known := int64(0), false
			if c.name == "os.OpenFile" {
				v, known = st.norm(c.args[1]).intVal()
			}
			if c.name == "os.CreateTemp" {
				return
			}
			if !known || v&(oCreate|oExcl) != oCreate|oExcl || v&(oTrunc|oAppend) != 0 {
				cx.viol(c.pos(), "exclusive creation", "while serving a session %s can open an existing file for writing (flags %v)", c.name, c.args[1:])
			} else {
				cx.count("exclusive_creations", 1)
			}
		case "writefile", "rename", "symlink":
			cx.viol(c.pos(), "exclusive creation", "while serving a session %s can replace an existing file", c.name)
		case "remove":
			cx.obligations++
			fn, h := st.G["fname"]
			if !h || !st.eqTo(fn, c.args[0]) || st.A["f"] == "" || st.A["f"] == "exists" || st.A["f"] == "failed" {
				cx.violPath(c.pos(), "removes only its own file", cx.path(st), "a file is removed that this save did not create")
			} else if st.A["fail"] == "" {
				cx.violPath(c.pos(), "removes only its own file", cx.path(st), "the file of a successful save is removed")
			}
		}
	}
	storeTrack(s)
	s.interesting = func(n string) bool { return n == "os.Truncate" || n == "(*os.File).Truncate" }
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		if c.name == "os.Truncate" || c.name == "(*os.File).Truncate" || c.name == "os.RemoveAll" {
			cx.viol(c.pos(), "saved files stay", "%s is called while serving a session", c.name)
		}
		return false
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		if st.A["ev"] != "GOTDATA" {
			return
		}
		cx.obligations++
		f, fail := st.A["f"], st.A["fail"]
		if (fail == "write" || fail == "close") && st.A["rm"] == "" {
			cx.violPath(in.Pos(), "failed save leaves nothing", cx.path(st), "the file of a message whose %s failed is left behind", fail)
		}
		if fail == "" && st.A["rm"] != "" {
			cx.violPath(in.Pos(), "saved files stay", cx.path(st), "the file of a successful save is removed")
		}
		if f == "open" && fail == "" && how == "next" {
			// reported by C01 and C22
			cx.count("unclosed", 1)
		}
		if f == "exists" && fail == "" {
			cx.count("name_collisions_checked", 1)
			if st.A["dec"] == "" {
				cx.violPath(in.Pos(), "collision is no error", cx.path(st), "a message whose file already exists is not put to the rules but answered with %s", repName(st.A["rep"]))
			}
		}
	}
	s.run()
	cx.ob(cx.counts["exclusive_creations"] > 0, s.proc.Pos(), "analysis completes", "no file creation found in a session")
	cx.ob(cx.counts["name_collisions_checked"] > 0, s.proc.Pos(), "collision is no error", "no path treats an already existing file as saved")
}

func runC03(cx *Cx) {
	s := newSess(cx)
	storeTrack(s)
	var logf *Term
	// the message log is the first io.Writer parameter of process
	for i, p := range s.proc.Params {
		if typeStr(p.Type()) == "io.Writer" {
			logf = param(s.proc, i)
			break
		}
	}
	if logf == nil {
		cx.fail("anchor", "process has no message log parameter")
	}
	s.interesting = func(n string) bool { return writesTo[n] }
	old := s.onStart
	s.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		old(e, st, ev, arg)
		delete(st.A, "logged")
	}
	s.onCall = func(e *Eng, st *State, c *Call) bool {
		if writesTo[c.name] && len(c.args) > 0 && unIface(c.args[0]) == logf {
			if st.A["ev"] != "GOTDATA" {
				cx.violPath(c.pos(), "logged once", cx.path(st), "a message log record is written at %s", st.A["ev"])
			}
			if st.A["logged"] == "" {
				st.A["logged"] = "1"
			} else {
				st.A["logged"] = "many"
			}
			cx.count("log_writes", 1)
		}
		return false
	}
	recorded := func(st *State, in ssa.Instruction, what string) {
		if st.A["ev"] != "GOTDATA" || st.A["chk"] != "" {
			return
		}
		cx.obligations += 2
		if st.A["logged"] != "1" && !st.isTrue(mkEq(logf, tNil, logf.typ)) {
			if st.A["logged"] == "many" {
				cx.violPath(in.Pos(), "logged once", cx.path(st), "a message is logged more than once before %s", what)
			} else {
				cx.violPath(in.Pos(), "logged before judged", cx.path(st), "%s before the message is written to the message log", what)
			}
		}
		sd, ok := st.G["sd"]
		if st.A["nopen"] == "" && !(ok && st.isTrue(eq0(mkLen(sd)))) {
			cx.violPath(in.Pos(), "saved before judged", cx.path(st), "%s before the message is saved", what)
		}
		if st.A["nopen"] == "many" {
			cx.violPath(in.Pos(), "saved once", cx.path(st), "a message is saved more than once")
		}
		if st.A["f"] == "open" && st.A["fail"] == "" {
			cx.violPath(in.Pos(), "saved before judged", cx.path(st), "%s while the message's file is still being written", what)
		}
	}
	s.onDecide = func(e *Eng, st *State, c *Call, res string) {
		recorded(st, c.in, "the rules are consulted")
	}
	s.onReply = func(e *Eng, st *State, c *Call, code string) {
		recorded(st, c.in, "the client is answered")
	}
	s.onEnd = func(e *Eng, st *State, in ssa.Instruction, how string) {
		recorded(st, in, "the next event is handled")
		cx.count("step_ends", 1)
	}
	s.run()
	cx.ob(cx.counts["log_writes"] > 0, s.proc.Pos(), "analysis completes", "no message log write found")
}

var writesTo = map[string]bool{"(io.Writer).Write": true, "fmt.Fprintf": true, "fmt.Fprint": true, "fmt.Fprintln": true, "io.WriteString": true, "io.Copy": true}
