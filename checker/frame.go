package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Viol is one construct that breaks (or cannot be shown to keep) a property.
type Viol struct {
	pos  string
	fn   string
	rule string
	msg  string
	path []string
}

func (v *Viol) key() string { return fmt.Sprintf("%s in %s: %s", v.rule, v.fn, v.msg) }

func (v *Viol) text() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s: %s: [%s] %s\n", v.pos, v.fn, v.rule, v.msg)
	for _, p := range v.path {
		fmt.Fprintf(&sb, "\t%s\n", p)
	}
	return sb.String()
}

// Cx collects what one property's decision looked at and found.
type Cx struct {
	recur       map[*ssa.Function]bool
	P           *Prog
	id          string
	viols       []*Viol
	seen        map[string]bool
	obligations int
	failed      int
	counts      map[string]int
	fns         map[string]bool
	samples     []string
	assume      []string
}

type abort struct{}

// at gives a position for an instruction: its own or the nearest before it.
func at(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() && (*op).Parent() == in.Parent() {
			return (*op).Pos()
		}
	}
	b := in.Block()
	best := token.NoPos
	for _, x := range b.Instrs {
		if x == in {
			break
		}
		if x.Pos().IsValid() {
			best = x.Pos()
		}
	}
	if best.IsValid() {
		return best
	}
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return b.Parent().Pos()
}

func (cx *Cx) viol(pos token.Pos, rule, format string, a ...interface{}) {
	cx.violPath(pos, rule, nil, format, a...)
}

func (cx *Cx) violPath(pos token.Pos, rule string, path []string, format string, a ...interface{}) {
	v := &Viol{pos: "?", fn: "?", rule: rule, msg: fmt.Sprintf(format, a...), path: path}
	if cx.P != nil && pos.IsValid() {
		v.pos = cx.P.pos(pos)
		v.fn = cx.P.enclosing(pos)
	}
	k := v.pos + v.key()
	if cx.seen[k] {
		return
	}
	cx.seen[k] = true
	cx.failed++
	cx.viols = append(cx.viols, v)
}

// ob records an obligation; when it does not hold it is a violation.
func (cx *Cx) ob(ok bool, pos token.Pos, rule, format string, a ...interface{}) bool {
	cx.obligations++
	if !ok {
		cx.viol(pos, rule, format, a...)
	}
	return ok
}

func (cx *Cx) sample(format string, a ...interface{}) {
	if len(cx.samples) < 6 {
		cx.samples = append(cx.samples, fmt.Sprintf(format, a...))
	}
}

func (cx *Cx) count(k string, n int) { cx.counts[k] += n }

// fail gives up on a property: its anchor in the code was not found or the
// analysis could not be completed. That is reported as a violation, never
// passed over.
func (cx *Cx) fail(rule, format string, a ...interface{}) {
	cx.viol(0, rule, format, a...)
	panic(abort{})
}

func (P *Prog) enclosing(pos token.Pos) string {
	best := "?"
	var bl token.Pos
	for _, f := range P.funcs {
		s := f.Syntax()
		if s == nil {
			continue
		}
		if s.Pos() <= pos && pos <= s.End() && s.Pos() >= bl {
			best, bl = fnName(f), s.Pos()
		}
	}
	return best
}

// anchor finds a function by name; if it is gone, by its signature, provided
// exactly one function has it.
func (cx *Cx) anchor(name string, sig string) *ssa.Function {
	if f := cx.P.fn(name); f != nil {
		return f
	}
	if sig != "" {
		var c []*ssa.Function
		for _, f := range cx.P.funcs {
			if f.Parent() == nil && sigStr(f) == sig {
				c = append(c, f)
			}
		}
		if len(c) == 1 {
			return c[0]
		}
	}
	cx.fail("anchor", "cannot find the function %s (signature %s) this property is anchored in", name, sig)
	return nil
}

func sigStr(f *ssa.Function) string {
	var ps []string
	for _, p := range f.Params {
		ps = append(ps, typeStr(p.Type()))
	}
	var rs []string
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, typeStr(f.Signature.Results().At(i).Type()))
	}
	return "(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
}

// analyse runs the engine over fn with rule R and records the functions seen.
func (cx *Cx) analyse(fn *ssa.Function, R *Rule, setup func(e *Eng, st *State)) *Eng {
	e := newEng(cx.P, R)
	err := e.run(fn, func(st *State) {
		if setup != nil {
			setup(e, st)
		}
	})
	for f := range e.fnsSeen {
		cx.fns[fnName(f)] = true
	}
	cx.count("abstract_states", len(e.points))
	cx.count("transfer_steps", e.steps)
	if os.Getenv("CHECK_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %s: steps=%d points=%d merges=%d endings=%d terms=%d\n", cx.id, fnName(fn), e.steps, len(e.points), e.merges, e.endings, len(termList))
		fmt.Fprintln(os.Stderr, "  opaque:", e.opaque)
	}
	if err != nil {
		cx.fail("analysis completes", "%v", err)
	}
	return e
}

func (cx *Cx) constOf(name string) int64 {
	v, ok := cx.P.constInt(name)
	if !ok {
		cx.fail("anchor", "constant %s not found", name)
	}
	return v
}

func (cx *Cx) smtpdConst(name string) int64 {
	v, ok := cx.P.importedConst(smtpdPath, name)
	if !ok {
		cx.fail("anchor", "constant smtpd.%s not found", name)
	}
	return v
}

// namedType finds a type declared in the repository.
func (cx *Cx) namedType(name string) types.Type {
	o, ok := cx.P.pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		cx.fail("anchor", "type %s not found", name)
	}
	return o.Type()
}

// fieldAddr is the address of base.field for a struct type of the repository.
func (cx *Cx) fieldAddr(base *Term, st types.Type, field string) (*Term, types.Type) {
	u, ok := st.Underlying().(*types.Struct)
	if !ok {
		cx.fail("anchor", "%s is not a struct", typeStr(st))
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			return mkFaddr(base, st, i), u.Field(i).Type()
		}
	}
	cx.fail("anchor", "%s has no field %s", typeStr(st), field)
	return nil, nil
}

func (cx *Cx) loadField(s *State, base *Term, st types.Type, field string) *Term {
	a, t := cx.fieldAddr(base, st, field)
	return s.load(a, t)
}

// globalAddr is the address of a package-level variable.
func (cx *Cx) globalVar(name string) (*Term, types.Type) {
	g, ok := cx.P.ssa.Members[name].(*ssa.Global)
	if !ok {
		cx.fail("anchor", "package variable %s not found", name)
	}
	return globalTerm(g), derefType(g.Type())
}

func (cx *Cx) loadGlobal(s *State, name string) *Term {
	a, t := cx.globalVar(name)
	return s.load(a, t)
}

func (st *State) isTrue(t *Term) bool  { v, ok := st.evalBool(t); return ok && v }
func (st *State) isFalse(t *Term) bool { v, ok := st.evalBool(t); return ok && !v }

// eqTo: t is known to equal u.
func (st *State) eqTo(t, u *Term) bool {
	if t == nil || u == nil {
		return false
	}
	if t == u && !t.summ {
		return true
	}
	a, b := st.deepNorm(t), st.deepNorm(u)
	if a == b && !a.summ {
		return true
	}
	ty := t.typ
	if ty == nil {
		ty = u.typ
	}
	if ty == nil {
		ty = types.Typ[types.Int]
	}
	return st.isTrue(mkEq(a, b, ty))
}

func inSet(s string, l ...string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (cx *Cx) path(st *State) []string { return st.trailText(24) }

// listParts gives the contents of a slice term: elements, and "spread" terms
// for the contents of slices that are not known.
func (st *State) listParts(t *Term) []*Term {
	if st.isTrue(eq0(mkLen(t))) {
		return nil
	}
	switch t.op {
	case "nil":
		return nil
	case "slicelit":
		return t.args
	case "append":
		return append(append([]*Term{}, st.listParts(t.args[0])...), st.listParts(t.args[1])...)
	case "slice":
		if lo, ok := t.args[1].intVal(); ok && lo == 0 && (t.args[2] == tNil || t.args[2] == mkLen(t.args[0])) {
			return st.listParts(t.args[0])
		}
	}
	return []*Term{mk("spread", "", 0, t.typ, st.deepNorm(t))}
}

func (st *State) sameList(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !st.eqTo(a[i], b[i]) {
			return false
		}
	}
	return true
}
