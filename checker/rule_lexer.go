package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C31", run: runC31,
		rule:   "Fixpoint over the scanner's state functions. Each state function is analysed by disjunctive dataflow from every context it can be entered in (order relations between its integer fields, the text's length and an accounting pointer, and the characters excluded there); its returns give the contexts of the functions it returns. Beside it runs a reference automaton whose accounting pointer only moves over blanks, blank lines, comments at line starts, continuations and delivered tokens. Obligations: every token starts where the accounting pointer is; a token of a special character is exactly that character; a word contains no special character or blank; a quoted token runs from its quote over contiguous pieces to the first unescaped quote; the end token is delivered only when everything is accounted for; the scanner stops only right after an end or error token and never delivers another after it; every loop and every cycle of state functions moves forward; the driver calls what was returned until nothing is, and then closes the stream.",
		assume: []string{"strings.Index* and HasPrefix contracts", "the parser reads what is delivered (C22)"}})
}

// lexChars are the characters the scanner's language gives a meaning to.
const lexChars = " \t\n(),;\"#\\"

// lexSpecials end a word.
const lexSpecials = "(),;\n \t"

type lexRun struct {
	cx     *Cx
	T      types.Type // the scanner
	F      types.Type // its state functions
	ints   []int      // integer fields
	cur    []int      // those of them that say how far scanning is
	in, ch int        // the text, the token stream
	tokT   types.Type
	typ    int // fields of tokens
	val    int
	fns    map[*ssa.Function]bool
	ctxs   map[string]*lexCtx
	work   []*lexCtx
	final  bool
	edges  map[string]map[string]bool // context -> context (true: moves forward)
	bounds func(e *Eng, st *State, in ssa.Instruction)
	sites  map[ssa.Instruction]bool // obligations met while scanning
	check  bool                     // C31's obligations
	lexer  *Term                    // the scanner in the function analysed
}

type lexCtx struct {
	id   string
	fn   *ssa.Function
	mode string
	pk   string
	at   string         // the character at the accounting pointer, if known
	le   map[[2]int]int // x - y <= c for c in {-1,0}
	excl map[int]string // characters excluded at a position
	n    int
}

const lexInf = 99

func newLexRun(cx *Cx) *lexRun {
	r := &lexRun{cx: cx, in: -1, ch: -1, typ: -1, val: -1, fns: map[*ssa.Function]bool{}, ctxs: map[string]*lexCtx{}, edges: map[string]map[string]bool{}, sites: map[ssa.Instruction]bool{}}
	// a state function type: func(*T) itself
	sc := cx.P.pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		sig, ok := tn.Type().Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), tn.Type()) {
			continue
		}
		if p, ok := sig.Params().At(0).Type().(*types.Pointer); ok {
			r.F, r.T = tn.Type(), p.Elem()
		}
	}
	if r.F == nil {
		cx.fail("anchor", "no scanner built of state functions was found")
		return nil
	}
	stt, ok := r.T.Underlying().(*types.Struct)
	if !ok {
		cx.fail("anchor", "the scanner is not a structure")
		return nil
	}
	for i := 0; i < stt.NumFields(); i++ {
		switch u := stt.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 && r.in < 0 {
				r.in = i
			} else if u.Info()&types.IsInteger != 0 {
				r.ints = append(r.ints, i)
			}
		case *types.Chan:
			r.ch = i
			r.tokT = u.Elem()
		}
	}
	if r.in < 0 || r.ch < 0 {
		cx.fail("anchor", "the scanner's text or token stream was not found")
		return nil
	}
	if tt, ok := r.tokT.Underlying().(*types.Struct); ok {
		for i := 0; i < tt.NumFields(); i++ {
			if b, ok := tt.Field(i).Type().Underlying().(*types.Basic); ok {
				_, named := tt.Field(i).Type().(*types.Named)
				switch {
				case b.Info()&types.IsString != 0:
					r.val = i
				case b.Info()&types.IsInteger != 0 && named:
					r.typ = i
				}
			}
		}
	}
	if r.typ < 0 || r.val < 0 {
		cx.fail("anchor", "the tokens' type and text were not found")
		return nil
	}
	// fields that are only ever set to constants are no positions
	moved := map[int]bool{}
	for _, f := range cx.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(derefType(fa.X.Type()), r.T) {
						if _, c := s.Val.(*ssa.Const); !c {
							moved[fa.Field] = true
						}
					}
				}
			}
		}
	}
	for _, i := range r.ints {
		if moved[i] {
			r.cur = append(r.cur, i)
		}
	}
	sig := r.F.Underlying().(*types.Signature)
	for _, f := range cx.P.funcs {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, sig) {
			r.fns[f] = true
		}
	}
	return r
}

// vars: 0 is zero, then the integer fields, the accounting pointer, the length.
func (r *lexRun) nvars() int   { return len(r.ints) + 3 }
func (r *lexRun) acctVar() int { return len(r.ints) + 1 }
func (r *lexRun) lenVar() int  { return len(r.ints) + 2 }

var intT = types.Typ[types.Int]

func (r *lexRun) input() *Term { return mkSym("lex.input", types.Typ[types.String]) }

func (r *lexRun) value(st *State, l *Term, v int) *Term {
	switch {
	case v == 0:
		return mkInt(0)
	case v == r.acctVar():
		return st.G["acct"]
	case v == r.lenVar():
		return mkLen(r.input())
	}
	return st.load(mkFaddr(l, r.T, r.ints[v-1]), intT)
}

func (st *State) le(a, b *Term, c int64) bool { // a - b <= c
	return st.isTrue(lt0(linAdd(linAdd(a, b, -1, intT), mkInt(c+1), -1, intT)))
}

// aliases: positions known to be k.
func (r *lexRun) chr(k *Term) *Term {
	return charOf(r.input(), k, types.Typ[types.Byte])
}

// charIs: is the character at k known to be (1) or not to be (-1) c?
func (r *lexRun) charIs(st *State, k *Term, c byte) int {
	ask := func(k *Term) int {
		if b, ok := st.evalBool(mkEq(r.chr(k), mkInt(int64(c)), types.Typ[types.Byte])); ok {
			if b {
				return 1
			}
			return -1
		}
		return 0
	}
	if v := ask(k); v != 0 {
		return v
	}
	if st.le(mkLen(r.input()), k, 0) {
		return -1 // there is none
	}
	for _, x := range r.positions(st) {
		if x != k && st.eqTo(x, k) {
			if v := ask(x); v != 0 {
				return v
			}
		}
	}
	return 0
}

// positions lists the positions something is known about.
func (r *lexRun) positions(st *State) []*Term {
	m := map[*Term]bool{}
	for t := range st.facts {
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.op == "app" && t.aux == "charAt" && t.args[0] == r.input() {
				m[t.args[1]] = true
				return
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(t)
	}
	for t := range st.eqc {
		if t.op == "app" && t.aux == "charAt" && t.args[0] == r.input() {
			m[t.args[1]] = true
		}
	}
	var l []*Term
	for t := range m {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func (r *lexRun) setChar(st *State, k *Term, c byte, is bool) bool {
	switch r.charIs(st, k, c) {
	case 1:
		return is
	case -1:
		return !is
	}
	return st.assume(mkEq(r.chr(k), mkInt(int64(c)), types.Typ[types.Byte]), is)
}

// within: k is known to be inside the text.
func (r *lexRun) within(st *State, k *Term) bool {
	return st.le(k, mkLen(r.input()), -1)
}

// wordChar: the character at k is known to be neither special nor blank.
func (r *lexRun) notIn(st *State, k *Term, set string) bool {
	if !r.within(st, k) {
		return false
	}
	for i := 0; i < len(set); i++ {
		if r.charIs(st, k, set[i]) != -1 {
			return false
		}
	}
	return true
}

func (r *lexRun) oneOf(st *State, k *Term, set string) string {
	for i := 0; i < len(set); i++ {
		if r.charIs(st, k, set[i]) == 1 {
			return string(set[i])
		}
	}
	return ""
}

// apart: the characters at a and b are known to differ.
func (r *lexRun) apart(st *State, a, b *Term) bool {
	for i := 0; i < len(lexChars); i++ {
		if x, y := r.charIs(st, a, lexChars[i]), r.charIs(st, b, lexChars[i]); x*y == -1 {
			return true
		}
	}
	return false
}

func plus(t *Term, n int64) *Term { return linAdd(t, mkInt(n), 1, intT) }

func superset(set, of string) bool {
	for i := 0; i < len(of); i++ {
		if strings.IndexByte(set, of[i]) < 0 {
			return false
		}
	}
	return true
}

// region: the end of a stretch from k on that is known not to contain any of set.
func (r *lexRun) region(st *State, k *Term, set string) *Term {
	for n := 0; n < 4; n++ {
		p := fmt.Sprintf("r%d", n)
		if st.G[p+"lo"] == nil || !superset(st.A[p+"set"], set) {
			continue
		}
		if st.le(st.G[p+"lo"], k, 0) && st.le(k, st.G[p+"hi"], 0) && !st.eqTo(k, st.G[p+"hi"]) {
			return st.G[p+"hi"]
		}
	}
	return nil
}

func (r *lexRun) addRegion(st *State, lo, hi *Term, set string) {
	// the two latest are kept
	if st.G["r0lo"] != nil {
		st.G["r1lo"], st.G["r1hi"], st.A["r1set"] = st.G["r0lo"], st.G["r0hi"], st.A["r0set"]
	}
	st.G["r0lo"], st.G["r0hi"], st.A["r0set"] = lo, hi, set
}

// cursors: where scanning is, as far as the scanner's fields say.
func (r *lexRun) cursors(st *State, more []*Term) []*Term {
	for _, f := range r.cur {
		more = append(more, st.load(mkFaddr(r.lexer, r.T, f), intT))
	}
	return more
}

func (r *lexRun) passedBy(st *State, more []*Term) func(*Term) bool {
	return func(k *Term) bool {
		for _, m := range more {
			if st.le(k, m, 0) {
				return true
			}
		}
		return false
	}
}

// step moves the accounting pointer over what may be dropped, up to where
// scanning is.
func (r *lexRun) step(st *State, more ...*Term) {
	more = r.cursors(st, more)
	passed := r.passedBy(st, more)
	var prev *Term
	prevpk := ""
	if b := st.G["aback"]; b != nil {
		// scanning went back over the last character
		back := true
		for _, m := range more {
			back = back && st.le(m, st.G["acct"], -1)
		}
		if back && st.eqTo(plus(b, 1), st.G["acct"]) {
			st.G["acct"] = b
			st.A["pk"] = st.A["abackpk"]
		}
		delete(st.G, "aback")
		delete(st.A, "abackpk")
	}
	for i := 0; i < 64; i++ {
		a := st.G["acct"]
		if prev != nil && st.eqTo(plus(prev, 1), a) {
			st.G["aback"], st.A["abackpk"] = prev, prevpk
		}
		prev, prevpk = a, st.A["pk"]
		if st.A["pk"] == "c" {
			if st.eqTo(a, mkLen(r.input())) || r.charIs(st, a, '\n') == 1 && r.within(st, a) {
				st.A["pk"] = ""
				continue
			}
			if hi := r.region(st, a, "\n"); hi != nil && passed(hi) {
				st.G["acct"] = hi
				continue
			}
			if r.notIn(st, a, "\n") && passed(plus(a, 1)) {
				st.G["acct"] = plus(a, 1)
				continue
			}
			return
		}
		if hi := st.G["b0hi"]; hi != nil && superset(" \t", st.A["b0set"]) && st.le(st.G["b0lo"], a, 0) && st.le(a, hi, 0) && !st.eqTo(a, hi) && passed(hi) {
			st.G["acct"] = hi
			continue
		}
		if !r.within(st, a) || !passed(plus(a, 1)) {
			return
		}
		switch c := r.oneOf(st, a, lexChars); {
		case c == " " || c == "\t":
			st.G["acct"] = plus(a, 1)
		case c == "\n" && st.A["mode"] == "s":
			st.G["acct"] = plus(a, 1)
		case c == "#" && st.A["mode"] == "s":
			st.G["acct"] = plus(a, 1)
			st.A["pk"] = "c"
		case c == "\\" && r.within(st, plus(a, 1)) && r.charIs(st, plus(a, 1), '\n') == 1 && passed(plus(a, 2)):
			st.G["acct"] = plus(a, 2)
		default:
			return
		}
	}
}

// wordTo: is [lo,hi) known to hold no special character?
func (r *lexRun) clear(st *State, lo, hi *Term, set string) bool {
	cur := lo
	if st.A["wset"] != "" && superset(st.A["wset"], set) && st.G["wlo"] != nil && st.eqTo(st.G["wlo"], lo) {
		cur = st.G["wend"]
	}
	for i := 0; i < 16; i++ {
		if st.le(hi, cur, 0) {
			return true
		}
		if e := r.region(st, cur, set); e != nil {
			cur = e
			continue
		}
		if r.notIn(st, cur, set) {
			cur = plus(cur, 1)
			continue
		}
		return false
	}
	return false
}

// grow extends the stretch of word characters and of quoted text.
func (r *lexRun) grow(st *State, more []*Term) {
	passed := r.passedBy(st, r.cursors(st, more))
	if st.G["wlo"] == nil || !st.eqTo(st.G["wlo"], st.G["acct"]) {
		st.G["wlo"], st.G["wend"] = st.G["acct"], st.G["acct"]
		st.A["wset"] = lexSpecials
	}
	for i := 0; i < 8; i++ {
		if e := r.region(st, st.G["wend"], lexSpecials); e != nil && passed(e) {
			st.G["wend"] = e
		} else if r.notIn(st, st.G["wend"], lexSpecials) && passed(plus(st.G["wend"], 1)) {
			st.G["wend"] = plus(st.G["wend"], 1)
		} else {
			break
		}
	}
	r.growQuote(st, passed)
}

func (r *lexRun) growQuote(st *State, passed func(*Term) bool) {
	if st.A["q"] == "" && r.charIs(st, st.G["acct"], '"') == 1 && r.within(st, st.G["acct"]) {
		st.A["q"] = "1"
		st.G["q"] = plus(st.G["acct"], 1)  // up to where pieces have been taken
		st.G["qs"] = plus(st.G["acct"], 1) // up to where no closing quote is
	}
	if st.A["q"] == "" {
		return
	}
	for i := 0; i < 8; i++ {
		if e := r.region(st, st.G["qs"], "\""); e != nil && (passed == nil || passed(e)) {
			st.G["qs"] = e
		} else if r.notIn(st, st.G["qs"], "\"") && (passed == nil || passed(plus(st.G["qs"], 1))) {
			st.G["qs"] = plus(st.G["qs"], 1)
		} else {
			break
		}
	}
}

// piece: a stretch of the text is added to a quoted value.
func (r *lexRun) piece(e *Eng, st *State, in ssa.Instruction, t *Term) {
	if t == nil || t.op != "slice" || t.args[0] != r.input() {
		return
	}
	lo, hi := t.args[1], t.args[2]
	if hi == tNil {
		hi = mkLen(r.input())
	}
	r.step(st)
	r.growQuote(st, nil)
	if st.A["q"] == "" {
		return
	}
	q := st.G["q"]
	switch {
	case st.eqTo(lo, q) && st.le(hi, st.G["qs"], 0):
		st.G["q"] = hi
	case st.eqTo(lo, plus(q, 1)) && r.charIs(st, q, '\\') == 1 && st.eqTo(hi, plus(lo, 1)):
		st.G["q"] = hi
		st.G["qs"] = hi
	default:
		st.A["qbad"] = "a piece that does not continue the quoted text"
	}
}

func (r *lexRun) viol(st *State, in ssa.Instruction, rule, f string, a ...interface{}) {
	if r.final && r.check {
		r.cx.violPath(at(in), rule, r.cx.path(st), f, a...)
	}
}

func (r *lexRun) ob() {
	if r.final && r.check {
		r.cx.obligations++
	}
}

// token: a token is delivered.
func (r *lexRun) token(e *Eng, st *State, in ssa.Instruction, t *Term) {
	typ, val := fieldTerm(t, r.typ), fieldTerm(t, r.val)
	if typ == nil || val == nil {
		r.viol(st, in, "tokens", "a token of unknown make is delivered")
		return
	}
	r.ob()
	r.step(st)
	if st.A["ended"] != "" {
		r.viol(st, in, "the end is last", "a token is delivered after an end or error token")
	}
	tv, known := st.norm(typ).intVal()
	N := mkLen(r.input())
	acct := st.G["acct"]
	if known && tv == r.cx.constOf("itemError") {
		st.A["ended"] = "error"
		if r.final {
			r.cx.count("error_tokens", 1)
		}
		return
	}
	if known && tv == r.cx.constOf("itemEOF") {
		st.A["ended"] = "eof"
		if r.final {
			r.cx.count("end_tokens", 1)
		}
		if !st.eqTo(acct, N) || st.A["pk"] != "" {
			r.viol(st, in, "nothing is lost", "the end token is delivered when the text up to %v is accounted for, which is not known to be all of it", acct)
		}
		return
	}
	if st.A["pk"] != "" {
		r.viol(st, in, "nothing is lost", "a token is delivered inside a comment")
	}
	val = st.deepNorm(val)
	if val.op == "slice" && val.args[0] == r.input() || val == r.input() {
		lo, hi := mkInt(0), N
		if val.op == "slice" {
			lo = val.args[1]
			if val.args[2] != tNil {
				hi = val.args[2]
			}
		}
		if st.A["q"] != "" || r.charIs(st, acct, '"') == 1 && r.within(st, acct) {
			r.growQuote(st, nil)
		}
		if !st.eqTo(lo, acct) {
			if st.A["q"] != "" && st.eqTo(lo, plus(acct, 1)) && st.le(hi, st.G["qs"], 0) && r.charIs(st, hi, '"') == 1 {
				r.quoted(st, plus(hi, 1))
				return
			}
			r.viol(st, in, "nothing is lost", "a token starts at %v, while the text is accounted for up to %v", lo, acct)
		}
		c := ""
		if r.within(st, lo) {
			c = r.oneOf(st, lo, lexChars)
		}
		if c != "" && strings.Contains("(),;\n", c) && st.eqTo(hi, plus(lo, 1)) {
			if r.final {
				r.cx.count("special_tokens", 1)
			}
			want := map[string]string{"(": "itemLparen", ")": "itemRparen", ",": "itemComma", ";": "itemSemicolon", "\n": "itemEOL"}[c]
			if !known || tv != r.cx.constOf(want) {
				r.viol(st, in, "special characters", "the token of %q does not have its type (%s)", c, want)
			}
			r.delivered(st, hi, c == "\n")
			return
		}
		if r.final {
			r.cx.count("word_tokens", 1)
		}
		if !st.le(lo, hi, -1) && !(st.le(lo, hi, 0) && r.apart(st, lo, hi)) {
			r.viol(st, in, "tokens", "a word may be empty")
		}
		if !r.clear(st, lo, hi, lexSpecials) {
			r.viol(st, in, "special characters", "a word that may contain a special character or blank is delivered")
		}
		if c == "\"" {
			r.viol(st, in, "quotes", "a word starts with a quote")
		}
		if c == "#" && st.A["mode"] == "s" {
			r.viol(st, in, "comments", "a comment is delivered as a word")
		}
		// words, keywords and file names have types that carry a value
		if known && (tv <= r.cx.constOf("itemHasValue") || tv > r.cx.constOf("itemHasValue") && tv < r.cx.constOf("itemValue")) {
			r.viol(st, in, "tokens", "a word is delivered with the type of a marker or special character")
		}
		if !st.eqTo(hi, N) && !(r.within(st, hi) && r.oneOf(st, hi, lexSpecials) != "") {
			r.viol(st, in, "tokens", "a word ends before a special character, blank or the end of the text")
		}
		r.delivered(st, hi, false)
		return
	}
	// a quoted value put together from pieces
	r.growQuote(st, nil)
	if r.final {
		r.cx.count("quoted_tokens", 1)
	}
	switch {
	case st.A["q"] == "":
		r.viol(st, in, "nothing is lost", "a token is delivered that is no part of the text, at %v", acct)
	case st.A["qbad"] != "":
		r.viol(st, in, "quotes", "a quoted token is put together from %s", st.A["qbad"])
	case !(r.within(st, st.G["q"]) && r.charIs(st, st.G["q"], '"') == 1):
		r.viol(st, in, "quotes", "a quoted token is delivered whose pieces do not reach its closing quote")
	}
	if known && tv != r.cx.constOf("itemValue") {
		r.viol(st, in, "quotes", "a quoted token is not a value")
	}
	if st.A["q"] != "" {
		r.quoted(st, plus(st.G["q"], 1))
	}
}

func (r *lexRun) quoted(st *State, end *Term) { r.delivered(st, end, false) }

func (r *lexRun) delivered(st *State, end *Term, eol bool) {
	st.G["acct"] = end
	if eol {
		st.A["mode"] = "s"
	} else {
		st.A["mode"] = "r"
	}
	for _, k := range []string{"q", "qbad", "wset"} {
		delete(st.A, k)
	}
	for _, k := range []string{"q", "qs", "wlo", "wend"} {
		delete(st.G, k)
	}
}

func fieldTerm(t *Term, i int) *Term {
	if t.op == "struct" && i < len(t.args) {
		return t.args[i]
	}
	return nil
}

func (r *lexRun) rule(c *lexCtx) *Rule {
	R := &Rule{Name: r.cx.id, Precise: true, Relate: true, Anchor: "acct0", MaxSteps: 400000}
	R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
		if t.op != "app" || t.aux != "charAt" || t.args[0] != r.input() {
			return nil
		}
		switch v.(type) {
		case *ssa.Lookup, *ssa.Index:
		default:
			return nil
		}
		k := t.args[1]
		if !r.within(st, k) {
			// a crash if not (C21)
			st.assume(lt0(linAdd(k, mkLen(r.input()), -1, intT)), true)
		}
		if handedOn(v) {
			st.G["chp:"+v.Name()] = k
		}
		return r.charForks(st, k, lexChars, true)
	}
	R.OnCall = func(e *Eng, st *State, cl *Call) bool { return r.call(e, st, cl) }
	R.OnInstr = func(e *Eng, st *State, in ssa.Instruction) {
		if r.final && r.bounds != nil {
			r.bounds(e, st, in)
		}
		switch x := in.(type) {
		case *ssa.Send:
			if types.Identical(x.Chan.Type().Underlying().(*types.Chan).Elem(), r.tokT) {
				r.token(e, st, in, st.norm(e.val(st, x.X)))
			}
		case *ssa.BinOp:
			if x.Op == token.ADD && isStringType(x.Type()) {
				r.piece(e, st, in, st.norm(e.val(st, x.Y)))
			}
		}
	}
	R.OnEdge = func(e *Eng, st *State, from, to *ssa.BasicBlock) { r.loopEdge(e, st, from, to) }
	l := param(c.fn, 0)
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) { r.leave(e, st, in, c, l, st.norm(vals[0])) }
	return R
}

// charForks splits on the character at k.
func (r *lexRun) charForks(st *State, k *Term, set string, rest bool) []func(*State) *Term {
	var out []func(*State) *Term
	var open []byte
	for i := 0; i < len(set); i++ {
		switch r.charIs(st, k, set[i]) {
		case 1:
			c := set[i]
			return []func(*State) *Term{func(s *State) *Term { return mkConstVal(mkInt(int64(c)).cv, types.Typ[types.Byte]) }}
		case 0:
			open = append(open, set[i])
		}
	}
	for _, c := range open {
		c := c
		out = append(out, func(s *State) *Term {
			if !r.setChar(s, k, c, true) {
				s.A["dead"] = "1"
			}
			return mkConstVal(mkInt(int64(c)).cv, types.Typ[types.Byte])
		})
	}
	if rest {
		out = append(out, func(s *State) *Term {
			for _, c := range open {
				if !r.setChar(s, k, c, false) {
					s.A["dead"] = "1"
				}
			}
			return r.chr(k)
		})
	}
	return out
}

// textAt: t is the scanner's text from some position on.
func (r *lexRun) textAt(t *Term) (lo, hi *Term, ok bool) {
	if t == r.input() {
		return mkInt(0), mkLen(t), true
	}
	if t.op == "slice" && t.args[0] == r.input() {
		hi := t.args[2]
		if hi == tNil {
			hi = mkLen(r.input())
		}
		return t.args[1], hi, true
	}
	return nil, nil, false
}

// loaded: the read of the text a character comes from.
func (r *lexRun) loaded(v ssa.Value) string {
	for {
		switch y := v.(type) {
		case *ssa.Convert:
			v = y.X
			continue
		case *ssa.Lookup, *ssa.Index:
			return v.Name()
		}
		return ""
	}
}

// handedOn: a character that is passed to something.
func handedOn(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch y := u.(type) {
		case *ssa.Call:
			return true
		case *ssa.Convert:
			if handedOn(y) {
				return true
			}
		}
	}
	return false
}

// charPos: t is the character at some position.
func (r *lexRun) charPos(t *Term) *Term {
	for t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	if t.op == "app" && t.aux == "charAt" && t.args[0] == r.input() {
		return t.args[1]
	}
	return nil
}

func (r *lexRun) call(e *Eng, st *State, c *Call) bool {
	switch c.name {
	case "builtin.append":
		if len(c.args) == 2 {
			t := e.snapshot(st, c.args[1])
			if t.op == "slicelit" {
				for _, a := range t.args {
					r.piece(e, st, c.in, st.norm(a))
				}
			}
		}
		return false
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		r.piece(e, st, c.in, st.norm(c.args[1]))
		return false
	case "(*strings.Builder).WriteByte":
		// one character of the text
		if t := st.G["chp:"+r.loaded(c.com.Args[len(c.com.Args)-1])]; t != nil {
			r.piece(e, st, c.in, mkSlice(r.input(), t, plus(t, 1), types.Typ[types.String]))
		}
		return false
	case "strings.IndexAny", "strings.IndexByte", "strings.Index", "strings.IndexRune", "strings.ContainsRune", "strings.ContainsAny", "strings.Contains":
		if hay, ok := st.norm(c.args[0]).strVal(); ok && isIntType(c.sig.Params().At(1).Type()) {
			// a character looked up in a fixed set
			x := st.norm(c.args[1])
			if k := r.charPos(x); k != nil && r.notIn(st, k, hay) {
				x = mkInt(-2)
			}
			if v, ok := x.intVal(); ok && v < 128 {
				i := -1
				if v >= 0 {
					i = strings.IndexByte(hay, byte(v))
				}
				if strings.HasPrefix(c.name, "strings.Contains") {
					c.ret = []*Term{mkBool(i >= 0)}
				} else {
					c.ret = []*Term{mkInt(int64(i))}
				}
				return true
			}
			return false
		}
		if strings.HasPrefix(c.name, "strings.Contains") {
			return false
		}
		lo, hi, ok := r.textAt(st.norm(c.args[0]))
		if !ok || !st.eqTo(hi, mkLen(r.input())) {
			return false
		}
		set, ok := st.norm(c.args[1]).strVal()
		if v, isInt := st.norm(c.args[1]).intVal(); isInt && v < 128 {
			set, ok = string(rune(v)), true
		}
		if !ok || set == "" || c.name == "strings.Index" && len(set) != 1 {
			return false
		}
		N := mkLen(r.input())
		c.forks = append(c.forks, func(s *State) []*Term {
			r.addRegion(s, lo, N, set)
			return []*Term{mkInt(-1)}
		})
		at := mkSym(e.symName(st, c.in.(ssa.Value), ".at"), intT)
		for i := 0; i < len(set); i++ {
			ch := set[i]
			c.forks = append(c.forks, func(s *State) []*Term {
				s.G["tmp"] = lo
				s.redefine(at)
				lo := s.G["tmp"]
				delete(s.G, "tmp")
				ok := s.assume(lt0(linAdd(at, lo, -1, intT)), false) && s.assume(lt0(linAdd(at, N, -1, intT)), true) && r.setChar(s, at, ch, true)
				if ok && r.charIs(s, lo, ch) == -1 {
					ok = s.assume(lt0(linAdd(lo, at, -1, intT)), true)
				}
				if !ok {
					s.A["dead"] = "1"
				}
				r.addRegion(s, lo, at, set)
				return []*Term{linAdd(at, lo, -1, intT)}
			})
		}
		return true
	case "strings.TrimLeft":
		lo, hi, ok := r.textAt(st.norm(c.args[0]))
		set, isC := st.norm(c.args[1]).strVal()
		if !ok || !isC || !st.eqTo(hi, mkLen(r.input())) {
			return false
		}
		N := mkLen(r.input())
		at := mkSym(e.symName(st, c.in.(ssa.Value), ".at"), intT)
		c.forks = append(c.forks, func(s *State) []*Term {
			s.G["b0lo"], s.G["b0hi"], s.A["b0set"] = lo, N, set
			return []*Term{mkSlice(r.input(), N, tNil, types.Typ[types.String])}
		}, func(s *State) []*Term {
			s.G["b0lo"] = lo
			s.redefine(at)
			ok := s.assume(lt0(linAdd(at, s.G["b0lo"], -1, intT)), false) && s.assume(lt0(linAdd(at, N, -1, intT)), true)
			for i := 0; i < len(set) && ok; i++ {
				ok = r.setChar(s, at, set[i], false)
			}
			if !ok {
				s.A["dead"] = "1"
			}
			s.G["b0hi"], s.A["b0set"] = at, set
			return []*Term{mkSlice(r.input(), at, tNil, types.Typ[types.String])}
		})
		return true
	case "strings.HasPrefix":
		lo, hi, ok := r.textAt(st.norm(c.args[0]))
		pre, isC := st.norm(c.args[1]).strVal()
		if !ok || !isC || pre == "" {
			return false
		}
		c.forks = append(c.forks, func(s *State) []*Term {
			ok := s.assume(lt0(linAdd(linAdd(hi, lo, -1, intT), mkInt(int64(len(pre))), -1, intT)), false)
			for i := 0; i < len(pre) && ok; i++ {
				ok = r.setChar(s, plus(lo, int64(i)), pre[i], true)
			}
			if !ok {
				s.A["dead"] = "1"
			}
			return []*Term{tTrue}
		}, func(s *State) []*Term {
			// known to be there after all?
			missing := -1
			for i := 0; i < len(pre); i++ {
				k := plus(lo, int64(i))
				if !s.le(k, hi, -1) {
					missing = len(pre)
					break
				}
				switch r.charIs(s, k, pre[i]) {
				case -1:
					missing = len(pre)
				case 0:
					if missing >= 0 {
						missing = len(pre)
					} else {
						missing = i
					}
				}
			}
			if missing < 0 {
				s.A["dead"] = "1"
			} else if missing < len(pre) {
				r.setChar(s, plus(lo, int64(missing)), pre[missing], false)
			}
			return []*Term{tFalse}
		})
		return true
	}
	return false
}

// explicit writes down which characters are not where scanning is, although
// it may follow from which one is, so that joins keep it.
func (r *lexRun) explicit(st *State) {
	ks := []*Term{st.G["acct"]}
	for _, f := range r.cur {
		k := st.load(mkFaddr(r.lexer, r.T, f), intT)
		ks = append(ks, k)
	}
	for _, k := range ks {
		if k == nil {
			continue
		}
		for i := 0; i < len(lexChars); i++ {
			if r.charIs(st, k, lexChars[i]) == -1 {
				if t := mkEq(r.chr(k), mkInt(int64(lexChars[i])), types.Typ[types.Byte]); t.op == "eq0" || t.op == "eq" {
					st.facts[t] = false
				}
			}
		}
	}
}

// loopEdge: every turn of a loop moves forward.
func (r *lexRun) loopEdge(e *Eng, st *State, from, to *ssa.BasicBlock) {
	if len(to.Preds) > 1 {
		defer r.explicit(st)
	}
	if !e.P.loopHead[to] {
		return
	}
	f := st.top()
	id := fmt.Sprintf("h%d.%d:", f.ctx.id, to.Index)
	cur := map[string]*Term{}
	var more []*Term
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isIntType(ph.Type()) {
			cur["phi"+ph.Name()] = e.val(st, ph.Edges[pi])
			if v := st.norm(e.val(st, ph.Edges[pi])); !v.isConst() {
				more = append(more, v)
			}
		}
	}
	r.step(st, more...)
	r.grow(st, more)
	if st.G["acct"] != nil {
		cur["acct"] = st.G["acct"]
	}
	l := param(e.entry, 0)
	for i := range r.ints {
		cur[fmt.Sprintf("f%d", i)] = r.value(st, l, i+1)
	}
	if to.Dominates(from) {
		r.ob()
		fwd := false
		for k, v := range cur {
			if old := st.G[id+k]; old != nil && st.le(old, v, -1) && st.le(v, mkLen(r.input()), 0) {
				fwd = true
			}
			// counting towards a bound of its own
			if old := st.G[id+k]; old != nil && strings.HasPrefix(k, "phi") && st.le(old, v, -1) && r.bounded(to, k[3:]) {
				fwd = true
			}
		}
		if r.final {
			r.cx.count("loops_checked", 1)
		}
		if fwd {
			delete(st.A, "still"+id)
		} else if st.A["still"+id] == "" {
			// one turn may find that there is nothing left
			st.A["still"+id] = "1"
		} else {
			r.viol(st, from.Instrs[len(from.Instrs)-1], "scanning ends", "a turn of this loop that is not known to move forward in the text")
		}
	}
	for k, v := range cur {
		st.G[id+k] = v
		if !strings.HasPrefix(k, "phi") {
			continue
		}
		// characters looked at are kept apart
		delete(st.A, id+k)
		if c, ok := v.intVal(); ok && (c == -1 || c > 0 && c < 128 && strings.IndexByte(lexChars, byte(c)) >= 0) {
			st.A[id+k] = fmt.Sprint(c)
		}
	}
}

// bounded: the loop is left when the counter reaches a value fixed outside it.
func (r *lexRun) bounded(head *ssa.BasicBlock, phi string) bool {
	for _, in := range head.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.LSS {
			continue
		}
		x := b.X
		if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD {
			x = add.X
		}
		if p, ok := x.(*ssa.Phi); ok && p.Name() == phi {
			if in, ok := b.Y.(ssa.Instruction); !ok || in.Block().Dominates(head) && in.Block() != head {
				return true
			}
		}
	}
	return false
}

// leave: a state function returns.
func (r *lexRun) leave(e *Eng, st *State, in ssa.Instruction, c *lexCtx, l, val *Term) {
	r.step(st)
	r.ob()
	if r.final {
		r.cx.count("returns", 1)
	}
	if val == tNil {
		if st.A["ended"] == "" {
			r.viol(st, in, "the end is last", "scanning stops without an end or error token having been delivered")
		}
		return
	}
	if st.A["ended"] != "" {
		r.viol(st, in, "the end is last", "scanning goes on after the %s token", st.A["ended"])
		return
	}
	if os.Getenv("CHECK_LEX") != "" {
		fmt.Fprintf(os.Stderr, "LEAVE %s -> %v A=%q acct=%v", c.id, val, st.A, st.G["acct"])
		for i := range r.ints {
			fmt.Fprintf(os.Stderr, " f%d=%v", i, r.value(st, l, i+1))
		}
		if os.Getenv("CHECK_LEX") == "2" {
			for t, v := range st.facts {
				fmt.Fprintf(os.Stderr, "\n      %v=%v", t, v)
			}
		}
		fmt.Fprintln(os.Stderr)
	}
	var to []*ssa.Function
	if f, ok := val.obj.(*ssa.Function); ok && val.op == "fn" && r.fns[f] {
		to = []*ssa.Function{f}
	} else {
		for f := range r.fns {
			to = append(to, f)
		}
	}
	if st.A["pk"] == "" {
		// the pending quote, if any, is found again by the next function
	}
	for _, f := range to {
		n := r.enter(st, l, f)
		if r.edges[c.id] == nil {
			r.edges[c.id] = map[string]bool{}
		}
		fwd := st.le(mkSym("lex.acct0", intT), st.G["acct"], -1)
		if o, ok := r.edges[c.id][n.id]; !ok || o && !fwd {
			r.edges[c.id][n.id] = fwd
		}
	}
}

// enter joins what is known at an exit into the context of the next function.
func (r *lexRun) enter(st *State, l *Term, f *ssa.Function) *lexCtx {
	at := r.oneOf(st, st.G["acct"], lexChars)
	id := fnName(f) + "/" + st.A["mode"] + st.A["pk"]
	if at != "" {
		id += fmt.Sprintf("%q", at)
	}
	n := r.ctxs[id]
	le := map[[2]int]int{}
	vals := make([]*Term, r.nvars())
	for i := range vals {
		vals[i] = r.value(st, l, i)
	}
	for i := range vals {
		for j := range vals {
			if i == j {
				continue
			}
			switch {
			case st.le(vals[i], vals[j], -1):
				le[[2]int{i, j}] = -1
			case st.le(vals[i], vals[j], 0):
				le[[2]int{i, j}] = 0
			default:
				le[[2]int{i, j}] = lexInf
			}
		}
	}
	excl := map[int]string{}
	for i := 1; i < r.lenVar(); i++ {
		for k := 0; k < len(lexChars); k++ {
			if r.charIs(st, vals[i], lexChars[k]) == -1 {
				excl[i] += lexChars[k : k+1]
			}
		}
	}
	if n == nil {
		n = &lexCtx{id: id, fn: f, mode: st.A["mode"], pk: st.A["pk"], at: at, le: le, excl: excl}
		r.ctxs[id] = n
		r.work = append(r.work, n)
		return n
	}
	ch := false
	for k, c := range le {
		if c > n.le[k] {
			n.le[k] = c
			ch = true
		}
	}
	for i, ex := range n.excl {
		keep := ""
		for k := 0; k < len(ex); k++ {
			if strings.IndexByte(excl[i], ex[k]) >= 0 {
				keep += ex[k : k+1]
			}
		}
		if keep != ex {
			n.excl[i] = keep
			ch = true
		}
	}
	if ch {
		r.work = append(r.work, n)
	}
	return n
}

// analyse runs one state function in one context.
func (r *lexRun) analyse(c *lexCtx) {
	r.lexer = param(c.fn, 0)
	R := r.rule(c)
	r.cx.analyse(c.fn, R, func(e *Eng, st *State) {
		l := param(c.fn, 0)
		st.assume(mkEq(l, tNil, l.typ), false)
		st.A["mode"], st.A["pk"] = c.mode, c.pk
		st.store(mkFaddr(l, r.T, r.in), r.input(), types.Typ[types.String], "lex")
		// equal quantities share a symbol
		vals := make([]*Term, r.nvars())
		vals[0], vals[r.lenVar()] = mkInt(0), mkLen(r.input())
		order := []int{r.acctVar()}
		for i := 1; i <= len(r.ints); i++ {
			order = append(order, i)
		}
		for _, i := range order {
			for j := range vals {
				if vals[j] != nil && c.le[[2]int{i, j}] == 0 && c.le[[2]int{j, i}] == 0 {
					vals[i] = vals[j]
				}
			}
			if vals[i] == nil {
				vals[i] = mkSym(fmt.Sprintf("lex.v%d", i), intT)
			}
		}
		for k, d := range c.le {
			if d != lexInf {
				st.assume(lt0(linAdd(linAdd(vals[k[0]], vals[k[1]], -1, intT), mkInt(int64(d)+1), -1, intT)), true)
			}
		}
		for i, f := range r.ints {
			st.store(mkFaddr(l, r.T, f), vals[i+1], intT, "lex")
		}
		st.G["acct"] = vals[r.acctVar()]
		a0 := mkSym("lex.acct0", intT)
		st.assume(mkEq(a0, st.G["acct"], intT), true)
		st.G["acct0"] = a0
		st.G["N"] = mkLen(r.input())
		if c.at != "" {
			r.setChar(st, st.G["acct"], c.at[0], true)
		}
		for i, ex := range c.excl {
			for k := 0; k < len(ex); k++ {
				r.setChar(st, vals[i], ex[k], false)
			}
		}
	})
}

// run finds the contexts and then checks them.
func (r *lexRun) run() bool {
	start := r.driver()
	if start == nil {
		return false
	}
	le := map[[2]int]int{}
	for i := 0; i < r.nvars(); i++ {
		for j := 0; j < r.nvars(); j++ {
			if i != j {
				le[[2]int{i, j}] = 0
				if i == r.lenVar() || j == 0 {
					// where it starts does not matter
					le[[2]int{i, j}] = lexInf
				}
			}
		}
	}
	for _, f := range start {
		c := &lexCtx{id: fnName(f) + "/s", fn: f, mode: "s", le: le, excl: map[int]string{}}
		r.ctxs[c.id] = c
		r.work = append(r.work, c)
	}
	for len(r.work) > 0 {
		c := r.work[0]
		r.work = r.work[1:]
		c.n++
		if c.n > 60 {
			r.cx.fail("analysis completes", "the contexts of %s do not settle", c.id)
			return false
		}
		r.analyse(c)
	}
	r.final = true
	r.edges = map[string]map[string]bool{}
	var ids []string
	for id := range r.ctxs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		r.analyse(r.ctxs[id])
	}
	r.cx.count("contexts", len(ids))
	return true
}

// cycles: state functions that can follow each other for ever without moving on.
func (r *lexRun) cycles() {
	var ids []string
	for id := range r.ctxs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	state := map[string]int{}
	var stack []string
	var visit func(id string)
	visit = func(id string) {
		state[id] = 1
		stack = append(stack, id)
		var next []string
		for n := range r.edges[id] {
			next = append(next, n)
		}
		sort.Strings(next)
		for _, n := range next {
			r.cx.obligations++
			if r.edges[id][n] {
				continue
			}
			if state[n] == 1 {
				r.cx.viol(r.ctxs[id].fn.Pos(), "scanning ends", "the state functions %s can follow each other without anything of the text having been dealt with", strings.Join(append(append([]string{}, stack...), n), " -> "))
			} else if state[n] == 0 {
				visit(n)
			}
		}
		stack = stack[:len(stack)-1]
		state[id] = 2
	}
	for _, id := range ids {
		if state[id] == 0 {
			visit(id)
		}
	}
}

// driver checks the function that runs the state functions and finds the first.
func (r *lexRun) driver() []*ssa.Function {
	cx := r.cx
	var drv *ssa.Function
	for _, f := range cx.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && !c.Call.IsInvoke() && types.Identical(c.Call.Value.Type(), r.F) {
					drv = f
				}
			}
		}
	}
	if drv == nil {
		cx.fail("anchor", "nothing calls the scanner's state functions")
		return nil
	}
	first := map[*ssa.Function]bool{}
	R := &Rule{Name: cx.id, MaxSteps: 100000}
	isStream := func(v ssa.Value) bool {
		c, ok := v.Type().Underlying().(*types.Chan)
		return ok && types.Identical(c.Elem(), r.tokT)
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		if c.name == "builtin.close" && isStream(c.com.Args[0]) {
			cx.obligations++
			if r.check && st.A["last"] != "nil" {
				cx.violPath(at(c.in), "the stream is closed at the end", cx.path(st), "the token stream is closed before scanning has ended")
			}
			st.A["closed"] = "1"
			return true
		}
		isState := c.fn != nil && r.fns[c.fn]
		if !c.com.IsInvoke() && types.Identical(c.com.Value.Type(), r.F) {
			isState = true
		}
		if !isState {
			return false
		}
		cx.obligations++
		if r.check {
			switch {
			case st.A["closed"] != "":
				cx.violPath(at(c.in), "the stream is closed at the end", cx.path(st), "scanning goes on after the token stream was closed")
			case st.A["last"] == "nil":
				cx.violPath(at(c.in), "the end is last", cx.path(st), "scanning goes on after a state function returned nothing")
			case st.A["last"] == "fn" && !(c.fnv != nil && st.G["next"] != nil && st.eqTo(c.fnv, st.G["next"])):
				cx.violPath(at(c.in), "nothing is lost", cx.path(st), "the state function called is not the one last returned")
			}
		}
		if st.A["last"] == "" {
			fv := c.fn
			if fv == nil && c.fnv != nil {
				if n := st.norm(c.fnv); n.op == "fn" {
					fv, _ = n.obj.(*ssa.Function)
				}
			}
			if fv == nil || !r.fns[fv] {
				cx.violPath(at(c.in), "anchor", cx.path(st), "the first state function is not known")
			} else {
				first[fv] = true
			}
		}
		sym := mkSym(e.symName(st, c.in.(ssa.Value), ".next"), r.F)
		c.forks = []func(*State) []*Term{func(s *State) []*Term {
			s.A["last"] = "nil"
			delete(s.G, "next")
			return []*Term{tNil}
		}, func(s *State) []*Term {
			s.redefine(sym)
			s.assume(mkEq(sym, tNil, r.F), false)
			s.A["last"] = "fn"
			s.G["next"] = sym
			return []*Term{sym}
		}}
		return true
	}
	R.OnInstr = func(e *Eng, st *State, in ssa.Instruction) {
		if s, ok := in.(*ssa.Send); ok && isStream(s.Chan) && r.check {
			cx.violPath(at(in), "tokens", cx.path(st), "the driver delivers a token of its own")
		}
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		cx.obligations++
		cx.count("driver_returns", 1)
		if !r.check {
			return
		}
		if st.A["closed"] == "" {
			cx.violPath(at(in), "the stream is closed at the end", cx.path(st), "scanning ends without the token stream being closed")
		}
		if st.A["last"] != "nil" {
			cx.violPath(at(in), "the end is last", cx.path(st), "the driver stops before a state function has returned nothing")
		}
	}
	cx.analyse(drv, R, func(e *Eng, st *State) {
		if len(drv.Params) > 0 {
			st.assume(mkEq(param(drv, 0), tNil, drv.Params[0].Type()), false)
		}
	})
	var l []*ssa.Function
	for f := range first {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return fnName(l[i]) < fnName(l[j]) })
	if len(l) == 0 {
		cx.fail("anchor", "the scanner's first state function was not found")
		return nil
	}
	return l
}

func runC31(cx *Cx) {
	r := newLexRun(cx)
	if r == nil {
		return
	}
	r.check = true
	if !r.run() {
		return
	}
	r.cycles()
	c := cx.counts
	cx.ob(c["contexts"] >= 4 && c["end_tokens"] > 0 && c["special_tokens"] >= 5 && c["word_tokens"] > 0 && c["quoted_tokens"] > 0 && c["driver_returns"] > 0, 0, "analysis completes", "too little of the scanner was analysed: %v", c)
}
