package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lineSrc models reading a text file line by line. The file's text is
// arbitrary: every read gives a line of any of the given classes, the last
// line with or without a newline, the end of the file or a read error.
type lineSrc struct {
	cx      *Cx
	classes []string
	facts   func(s *State, class string, line *Term)
	// called before each read and, by the rule, at returns
	endLine func(s *State, c *Call)
	block   *ssa.BasicBlock // where lines are read
}

const lineKeys = "cls,eof,failed"

func (l *lineSrc) eof(s *State) *Term {
	g := l.cx.P.lookupVar("io", "EOF")
	if g == nil {
		l.cx.fail("anchor", "io.EOF not found")
	}
	v := s.load(g, derefType(g.typ))
	s.assume(mkEq(v, tNil, v.typ), false)
	return v
}

// open forks the opening of a file; reading.
func (l *lineSrc) open(e *Eng, c *Call) {
	c.forks = append(c.forks, func(s *State) []*Term {
		f := e.fresh(s, c.in, ".0", c.sig.Results().At(0).Type())
		s.assume(mkEq(f, tNil, f.typ), false)
		s.A["open"] = "ok"
		s.G["file"] = f
		return []*Term{f, tNil}
	}, func(s *State) []*Term {
		er := e.fresh(s, c.in, ".err", c.sig.Results().At(1).Type())
		s.assume(mkEq(er, tNil, er.typ), false)
		s.A["open"] = "failed"
		return []*Term{tNil, er}
	})
}

// call handles reads; true if it did.
func (l *lineSrc) call(e *Eng, st *State, c *Call) bool {
	errT := types.Universe.Lookup("error").Type()
	str := types.Typ[types.String]
	set := func(s *State, cls string, last string) *Term {
		ln := e.fresh(s, c.in, ".line", str)
		s.redefine(ln)
		l.eof(s)
		s.A["cls"] = cls
		s.A["eof"] = last
		s.assume(eq0(mkLen(ln)), false)
		s.assume(mkEq(ln, mkStr(""), str), false)
		l.facts(s, cls, ln)
		s.G["line"] = ln
		return ln
	}
	badErr := func(s *State) *Term {
		er := e.fresh(s, c.in, ".err", errT)
		s.redefine(er)
		s.assume(mkEq(er, tNil, errT), false)
		s.assume(mkEq(er, l.eof(s), errT), false)
		s.assume(mk("app", "errors.Is", 0, types.Typ[types.Bool], er, l.eof(s)), false)
		s.A["failed"] = "1"
		return er
	}
	end := func(s *State) *Term {
		s.A["eof"] = "end"
		delete(s.A, "cls")
		delete(s.G, "line")
		return l.eof(s)
	}
	switch c.name {
	case "bufio.NewReader", "bufio.NewScanner", "bufio.NewReaderSize":
		l.cx.ob(st.G["file"] == nil || st.eqTo(unIface(c.args[0]), st.G["file"]), c.pos(), "the file is read", "something other than the opened file is read")
		return false
	case "(*bufio.Reader).ReadString":
		d, ok := c.args[1].intVal()
		l.cx.ob(ok && d == '\n', c.pos(), "the file is read by lines", "text is read up to something other than the end of the line")
		l.block = c.in.Block()
		l.endLine(st, c)
		l.cx.count("line_reads", 1)
		if st.A["eof"] != "" && st.A["eof"] != "line" {
			c.forks = append(c.forks, func(s *State) []*Term { er := end(s); return []*Term{mkStr(""), er} })
			return true
		}
		for _, k := range l.classes {
			k := k
			c.forks = append(c.forks, func(s *State) []*Term {
				return []*Term{set(s, k, "line"), tNil}
			}, func(s *State) []*Term {
				er := l.eof(s)
				s.assume(mk("app", "errors.Is", 0, types.Typ[types.Bool], er, er), true)
				return []*Term{set(s, k, "last"), er}
			})
		}
		c.forks = append(c.forks, func(s *State) []*Term {
			er := end(s)
			s.assume(mk("app", "errors.Is", 0, types.Typ[types.Bool], er, er), true)
			return []*Term{mkStr(""), er}
		}, func(s *State) []*Term {
			ln := set(s, l.classes[0], "line")
			delete(s.A, "cls")
			return []*Term{ln, badErr(s)}
		}, func(s *State) []*Term {
			delete(s.A, "cls")
			return []*Term{mkStr(""), badErr(s)}
		})
		return true
	case "(*bufio.Scanner).Scan":
		l.block = c.in.Block()
		l.endLine(st, c)
		l.cx.count("line_reads", 1)
		if st.A["eof"] == "" || st.A["eof"] == "line" {
			for _, k := range l.classes {
				k := k
				c.forks = append(c.forks, func(s *State) []*Term { set(s, k, "line"); return []*Term{tTrue} })
			}
			c.forks = append(c.forks, func(s *State) []*Term { delete(s.A, "cls"); badErr(s); s.A["eof"] = "end"; return []*Term{tFalse} })
		}
		c.forks = append(c.forks, func(s *State) []*Term { end(s); return []*Term{tFalse} })
		return true
	case "(*bufio.Scanner).Text":
		if st.G["line"] == nil {
			return false
		}
		c.ret = []*Term{st.G["line"]}
		return true
	case "(*bufio.Scanner).Err":
		if st.A["failed"] != "" {
			c.ret = []*Term{badErr(st)}
		} else {
			c.ret = []*Term{tNil}
		}
		return true
	case "(*os.File).Close":
		return true
	}
	for _, p := range []string{"(*bufio.Reader).", "(*bufio.Scanner).", "(*os.File).Read", "io.Read"} {
		if strings.HasPrefix(c.name, p) {
			l.cx.ob(false, c.pos(), "analysis completes", "the file is read in a way the analysis does not know: %s", c.name)
		}
	}
	return false
}

// sawEnd: the whole file has been read without error.
func sawEnd(s *State) bool {
	return s.A["failed"] == "" && (s.A["eof"] == "end" || s.A["eof"] == "last")
}

func (l *lineSrc) String() string { return fmt.Sprint(l.classes) }
