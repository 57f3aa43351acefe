package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C11", run: runC11,
		rule:   "Dataflow over the parser, cut at its recursive productions (condition, or-list, and-list, rule, file): the tokens are an oracle (at every look every kind of token is possible), sub-productions are oracles (error, nothing, something). A grammar automaton follows the tokens consumed; every return without an error must be in an accepting state, every return of nothing must have consumed nothing, and no error of a sub-production, an include or the lexer may be lost.",
		assume: []string{"the lexer delivers tokens as decided by C31 (a keyword token's text is the keyword, an error or the end comes last)", "net.ParseIP and net.ParseCIDR behave as documented"}})
	register(&property{id: "C09", run: runC09,
		rule:   "The parser runs of C11, following the phase a rule requires: each condition raises it to what its data needs (and no further), all other productions leave it alone, a finished rule has the value so reached, and a rule with an explicit phase before it is an error. Eligibility itself is decided by C06.",
		assume: []string{"the lexer delivers tokens as decided by C31"}})
}

type gtok struct {
	name string
	typ  int64
	val  string
	kw   bool
}

// gram analyses the parser production by production.
type gram struct {
	cx                  *Cx
	next, lex, load     *ssa.Function
	fn                  map[string]*ssa.Function
	unit                map[*ssa.Function]string
	toks, use           []gtok
	byName              map[string]gtok
	hasValue            int64
	parserT, itemT      types.Type
	ruleT, clauseT, phT types.Type
	exprT               types.Type
	terms               []*gterm
	as                  string // obligations of this property count as well
}

// gterm is a node the parser made for a condition.
type gterm struct {
	kw   string
	st   *State
	expr *Term
	arg  *Term
	opts *Term
	in   ssa.Instruction
}

var gramKeywords = map[string]string{
	"include": "itemInclude", "@connect": "itemAConnect", "@helo": "itemAHelo", "@from": "itemAFrom", "@to": "itemATo", "@data": "itemAData", "@message": "itemAMessage",
	"accept": "itemAccept", "reject": "itemReject", "stall": "itemStall", "set-with": "itemSetWith", "or": "itemOr", "not": "itemNot",
	"all": "itemAll", "from": "itemFrom", "to": "itemTo", "helo": "itemHelo", "host": "itemHost", "from-has": "itemFromHas", "to-has": "itemToHas", "helo-has": "itemHeloHas",
	"tls": "itemTls", "dns": "itemDns", "ip": "itemIp", "dnsbl": "itemDnsbl", "source": "itemSource", "dbl": "itemDbl",
	"with": "itemWith", "message": "itemMessage", "note": "itemNote", "savedir": "itemSavedir", "tls-opt": "itemTlsOpt", "make-yakker": "itemMakeYakker",
	"ehlo": "itemEhlo", "none": "itemNone", "bogus": "itemBogus", "nodots": "itemNodots", "bareip": "itemBareip", "properip": "itemProperip", "myip": "itemMyip", "remip": "itemRemip", "otherip": "itemOtherip",
	"nodns": "itemNodns", "inconsistent": "itemInconsistent", "noforward": "itemNoforward", "unqualified": "itemUnqualified", "route": "itemRoute", "quoted": "itemQuoted", "noat": "itemNoat", "garbage": "itemGarbage",
	"resolves": "itemDomainValid", "baddom": "itemDomainInvalid", "unknown": "itemDomainTempfail", "bad": "itemBad", "on": "itemOn", "off": "itemOff", "good": "itemGood", "exists": "itemExists", "any": "itemAny",
}

// the options each operator has, and the attribute each stands for
var gramOpts = map[string]map[string]string{
	"helo-has": {"helo": "oHelo", "ehlo": "oEhlo", "none": "oNone", "nodots": "oNodots", "bareip": "oBareip", "properip": "oProperip", "myip": "oMyip", "remip": "oRemip", "otherip": "oOtherip", "ip": "oBareip|oProperip", "bogus": "oBogus"},
	"dns":      {"nodns": "oNodns", "inconsistent": "oInconsist", "noforward": "oNofwd", "good": "oGood", "exists": "oExists"},
	"from-has": gramAddr, "to-has": gramAddr,
	"dbl": {"host": "oHost", "ehlo": "oEhlo", "helo": "oEhlo", "from": "oFrom", "any": "oHost|oEhlo|oFrom"},
}

var gramAddr = map[string]string{"unqualified": "oUnqualified", "route": "oRoute", "quoted": "oQuoted", "noat": "oNoat", "garbage": "oGarbage", "bad": "oUnqualified|oRoute|oNoat|oGarbage", "resolves": "oDomainValid", "baddom": "oDomainInvalid", "unknown": "oDomainTempfail"}

var gramNeeds = map[string]string{"from": "pMfrom", "from-has": "pMfrom", "to": "pRto", "to-has": "pRto", "helo": "pHelo", "ehlo": "pHelo", "helo-has": "pHelo", "source": "pMfrom", "tls": "pMfrom"}

var gramPhases = map[string]string{"@connect": "pConnect", "@helo": "pHelo", "@from": "pMfrom", "@to": "pRto", "@data": "pData", "@message": "pMessage"}
var gramActions = map[string]string{"accept": "aAccept", "reject": "aReject", "stall": "aStall", "set-with": "aNoresult"}

func newGram(cx *Cx) *gram {
	g := &gram{cx: cx, fn: map[string]*ssa.Function{}, unit: map[*ssa.Function]string{}, byName: map[string]gtok{}}
	for n, a := range map[string][2]string{
		"term": {"parser.pTerm", ""}, "orl": {"parser.pOrl", ""}, "andl": {"parser.pAndl", ""},
		"rule": {"parser.pRule", "(*parser)(*Rule,error)"}, "file": {"parser.pFile", ""}} {
		f := cx.anchor(a[0], a[1])
		g.fn[n], g.unit[f] = f, n
	}
	g.next = cx.anchor("lexer.nextItem", "(*lexer)(item)")
	g.lex = cx.anchor("lex", "(string)(*lexer)")
	g.load = cx.anchor("loadRules", "(string)([]*Rule,error)")
	g.parserT, g.itemT, g.ruleT, g.clauseT, g.exprT = cx.namedType("parser"), cx.namedType("item"), cx.namedType("Rule"), cx.namedType("RClause"), cx.namedType("Expr")
	g.hasValue = cx.constOf("itemHasValue")
	// the words of the language are those of the lexer's own table
	words := map[string]int64{}
	if gl, ok := cx.P.ssa.Members["keywords"].(*ssa.Global); ok {
		for _, en := range cx.P.constMaps[gl] {
			s, ok1 := en.k.strVal()
			n, ok2 := en.v.intVal()
			if ok1 && ok2 {
				words[s] = n
			}
		}
	}
	if len(words) == 0 {
		for w, c := range gramKeywords {
			words[w] = cx.constOf(c)
		}
	}
	add := func(t gtok) {
		g.toks = append(g.toks, t)
		g.byName[t.name] = t
	}
	for _, t := range []gtok{{name: "EOF", typ: cx.constOf("itemEOF")}, {name: "EOL", typ: cx.constOf("itemEOL")}, {name: "ERROR", typ: cx.constOf("itemError")},
		{name: ",", typ: cx.constOf("itemComma"), val: ","}, {name: "(", typ: cx.constOf("itemLparen"), val: "("}, {name: ")", typ: cx.constOf("itemRparen"), val: ")"}, {name: ";", typ: cx.constOf("itemSemicolon"), val: ";"},
		{name: "VALUE", typ: cx.constOf("itemValue")}, {name: "FILENAME", typ: cx.constOf("itemFilename")}} {
		add(t)
	}
	var ws []string
	for w := range words {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	for _, w := range ws {
		add(gtok{name: w, typ: words[w], val: w, kw: true})
	}
	for w := range gramKeywords {
		if _, ok := words[w]; !ok {
			cx.fail("anchor", "the lexer has no word %q", w)
		}
	}
	cx.counts["token_kinds"] = len(g.toks)
	return g
}

// ob is an obligation of one property.
func (g *gram) ob(id string, st *State, ok bool, pos token.Pos, rule, format string, a ...interface{}) bool {
	if isBad(st) {
		return true
	}
	if id != g.cx.id && id != g.as {
		return ok
	}
	return g.cx.ob(ok, pos, rule, format, a...)
}

// isBad: what was consumed is not in the language; only an error may come of it.
func isBad(st *State) bool { return strings.HasPrefix(st.A["g"], "bad") }

func (g *gram) bits(names string) int64 {
	var b int64
	for _, n := range strings.Split(names, "|") {
		b |= g.cx.constOf(n)
	}
	return b
}

func (g *gram) curtok(st *State, p *Term) (*Term, types.Type) {
	return g.cx.fieldAddr(p, g.parserT, "curtok")
}

// newTok makes the next token, of which nothing is known yet.
func (g *gram) newTok(e *Eng, s *State, in ssa.Instruction) *Term {
	su := g.itemT.Underlying().(*types.Struct)
	var as []*Term
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		t := e.fresh(s, in, ".tok."+f.Name(), f.Type())
		as = append(as, t)
		switch f.Name() {
		case "typ":
			s.G["tt"] = t
		case "val":
			s.G["tv"] = t
		}
	}
	s.A["tok"] = "?"
	return mkStruct(g.itemT, as)
}

// known fixes the kind of the current token.
func (g *gram) known(s *State, k gtok) *Term {
	c := mkIntT(k.typ, s.G["tt"].typ)
	m := map[*Term]*Term{s.G["tt"]: c}
	if k.val != "" {
		m[s.G["tv"]] = mkStr(k.val)
	}
	s.A["tok"] = k.name
	if k.name == "EOF" || k.name == "EOL" {
		s.A["tok"] = k.name
	}
	s.rename(m, nil)
	return c
}

func (g *gram) rule(name string) *Rule {
	cx := g.cx
	R := &Rule{Name: cx.id}
	f := g.fn[name]
	if name == "parse" {
		f = cx.anchor("Parse", "(string)([]*Rule,error)")
		g.fn["parse"] = f
	}
	g.classes(name, f)
	var p *Term
	if name != "parse" {
		p = param(f, 0)
	}
	ruleOf := func(st *State, p *Term) *Term { return cx.loadField(st, p, g.parserT, "currule") }
	R.Atomic = func(fn *ssa.Function, n string) bool {
		return g.unit[fn] != "" || fn == g.next || fn == g.load || fn == g.lex || n == "lexer.lineInfo" || n == "lexer.drain"
	}
	R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
		if name == "term" && st.A["kw"] != "" {
			g.optAdded(st, v, t)
		}
		if b, ok := v.(*ssa.BinOp); ok && name == "term" && (b.Op == token.EQL || b.Op == token.NEQ) && st.A["tok"] == "VALUE" && (st.A["kw"] == "dnsbl" || st.A["kw"] == "dbl") {
			// whether a domain ends in a dot, kept apart
			l := e.val(st, b.X)
			k, isC := e.val(st, b.Y).intVal()
			if isC && k == '.' && l.op == "app" && l.aux == "charAt" && st.eqTo(l.args[0], st.G["tv"]) && st.eqTo(l.args[1], linAdd(mkLen(st.G["tv"]), mkInt(-1), 1, types.Typ[types.Int])) {
				if _, known := st.evalBool(t); !known {
					one := func(r bool) func(*State) *Term {
						return func(s *State) *Term {
							s.A["end."] = fmt.Sprint(r == (b.Op == token.EQL))
							s.assume(t, r)
							return mkBool(r)
						}
					}
					return []func(*State) *Term{one(true), one(false)}
				}
			}
		}
		if lk, ok := v.(*ssa.Lookup); ok && name == "rule" && lk.CommaOk && typeStr(lk.X.Type().Underlying()) == "map[string]string" && !isBad(st) && st.A["err"] == "" && t.op == "tuple" {
			// is the with option there already?
			k, isC := st.norm(e.val(st, lk.Index)).strVal()
			m := e.val(st, lk.X)
			if !isC || t.args[1] == tTrue {
				return nil
			}
			no := func(s *State) *Term {
				s.A["abs"] = k
				s.G["absm"] = m
				return mk("tuple", "", 0, t.typ, zeroTerm(t.args[0].typ), tFalse)
			}
			if t.args[1] == tFalse {
				return []func(*State) *Term{no}
			}
			return []func(*State) *Term{no, func(s *State) *Term {
				delete(s.A, "abs")
				return mk("tuple", "", 0, t.typ, t.args[0], tTrue)
			}}
		}
		if st.A["tok"] != "?" || t != st.G["tt"] {
			return nil
		}
		var alts []func(*State) *Term
		for _, k := range g.use {
			k := k
			alts = append(alts, func(s *State) *Term { return g.known(s, k) })
		}
		return alts
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		switch {
		case c.fn == g.next:
			for _, alt := range g.split(st, name) {
				alt := alt
				c.forks = append(c.forks, func(s *State) []*Term {
					if alt != nil {
						alt(s)
					}
					if s.A["tok"] != "-" {
						g.consume(s, c.in, name)
					}
					if inSet(s.A["tok"], "EOF", "ERROR") {
						// nothing comes after the last token but empty items
						s.A["tok"] = "ERROR"
						return []*Term{zeroTerm(g.itemT)}
					}
					return []*Term{g.newTok(e, s, c.in)}
				})
			}
			return true
		case (c.name == "net.ParseCIDR" || c.name == "net.ParseIP") && name == "term" && st.A["kw"] == "ip" && len(c.args) == 1 && (st.eqTo(c.args[0], st.G["tv"]) && st.A["tok"] == "VALUE" || st.A["g"] == "ok" && st.eqTo(c.args[0], st.G["arg"])):
			k := map[string]string{"net.ParseCIDR": "cidr", "net.ParseIP": "pip"}[c.name]
			c.forks = append(c.forks, func(s *State) []*Term {
				s.A[k] = "ok"
				return g.results(e, s, c, true)
			}, func(s *State) []*Term {
				s.A[k] = "err"
				return g.results(e, s, c, false)
			})
			return true
		case c.fn == g.lex:
			return g.onLex(e, st, c)
		case c.fn == g.load:
			g.onInclude(e, st, c, name)
			return true
		case g.unit[c.fn] != "":
			g.sub(e, st, c, name, ruleOf)
			return true
		case c.name == "strings.HasSuffix" && name == "term" && st.eqTo(c.args[0], st.G["tv"]) && c.args[1] == mkStr("."):
			for _, b := range []bool{true, false} {
				b := b
				c.forks = append(c.forks, func(s *State) []*Term {
					s.A["end."] = fmt.Sprint(b)
					return []*Term{mkBool(b)}
				})
			}
			return true
		case c.name == "builtin.append":
			g.onAppend(e, st, c, name)
		case c.name == "builtin.len":
			if name == "andl" && len(c.args) == 1 && typeStr(c.args[0].typ) == "[]Expr" && !isBad(st) && st.G["nodes"] != nil && st.grown("nodes", c.args[0]) {
				n := map[string]int64{"0": 0, "1": 1}
				if k, ok := n[st.A["g"]]; ok {
					c.ret = []*Term{mkInt(k)}
					return true
				}
				l := e.fresh(st, c.in, ".len", types.Typ[types.Int])
				st.assume(mkLt(l, mkInt(2), l.typ), false)
				c.ret = []*Term{l}
				return true
			}
			if name == "rule" && len(c.args) == 1 && st.G["withs"] != nil && st.eqTo(c.args[0], st.G["withs"]) {
				if st.A["w"] == "" {
					c.ret = []*Term{mkInt(0)}
					return true
				}
				n := e.fresh(st, c.in, ".len", types.Typ[types.Int])
				st.assume(eq0(n), st.A["w"] == "")
				c.ret = []*Term{n}
				return true
			}
		}
		return false
	}
	R.OnStore = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "faddr" {
			return
		}
		switch addr.aux {
		case "Rule.requires":
			if name == "term" && inSet(st.A["g"], "0") || name == "term" && st.A["kw"] != "" {
				n, ok := val.intVal()
				if g.ob("C09", st, ok, at(in), "a condition requires a known phase", "the phase a rule requires becomes %v", val) {
					st.A["raised"] = fmt.Sprint(n)
				}
				return
			}
			if r := rootOf(addr); name == "rule" && r.op == "alloc" && st.A["g"] == "0" {
				return
			}
			g.ob("C09", st, false, at(in), "only conditions say what a rule requires", "the phase a rule requires is changed here")
		case "OrN.left", "OrN.right":
			b := addr.args[0]
			orT := cx.namedType("OrN")
			l, r := cx.loadField(st, b, orT, "left"), cx.loadField(st, b, orT, "right")
			if addr.aux == "OrN.left" {
				l = val
			} else {
				r = val
			}
			if st.G["cur"] != nil && st.G["last"] != nil && st.A["pend"] == "1" && unIface(l) == unIface(st.G["cur"]) && unIface(r) == unIface(st.G["last"]) {
				st.G["cur"] = b
				st.A["pend"] = ""
				delete(st.A, "pend")
			}
		}
	}
	R.OnPanic = func(e *Eng, st *State, in ssa.Instruction, _ *Term) {
		if cx.id == "C11" {
			cx.ob(false, at(in), "errors are reported, not fatal", "the parser gives up with a panic (%s, next token: %s)", gramState(st.A["g"]), st.A["tok"])
		}
	}
	R.OnMapUp = func(e *Eng, st *State, in ssa.Instruction, m, k, v *Term) {
		if name == "rule" {
			g.onWith(e, st, in, m, k, v)
		}
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		cx.count(name+"_returns", 1)
		err := vals[len(vals)-1]
		if st.isFalse(mkEq(err, tNil, err.typ)) {
			cx.count(name+"_errors", 1)
			return
		}
		if isBad(st) {
			if cx.id == "C11" || g.as == "C11" || cx.id == "C12" && strings.HasSuffix(st.A["g"], " is taken") || cx.id == "C28" && strings.HasPrefix(st.A["g"][5:], "in the with options") {
				cx.ob(false, at(in), "the grammar is followed", "no error is returned although %s", st.A["g"][5:])
			}
			return
		}
		g.ob("C11", st, st.A["err"] == "", at(in), "no error is lost", "an error (%s) was met and no error is returned", st.A["err"])
		if st.A["err"] != "" {
			return
		}
		switch name {
		case "term":
			g.endTerm(e, st, in, p, vals[0], ruleOf)
		case "orl":
			g.endOrl(e, st, in, vals[0])
		case "andl":
			g.endAndl(e, st, in, vals[0])
		case "rule":
			g.endRule(e, st, in, p, vals[0], ruleOf)
		case "file":
			g.endFile(e, st, in, vals[0])
		case "parse":
			g.endParse(e, st, in, vals[0])
		}
	}
	return R
}

// results makes a library call's results: those of a success or of a failure.
func (g *gram) results(e *Eng, s *State, c *Call, ok bool) []*Term {
	rs := c.sig.Results()
	var out []*Term
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		isErr := typeStr(t) == "error"
		if isErr == ok {
			out = append(out, tNil)
			continue
		}
		x := e.fresh(s, c.in, fmt.Sprintf(".r%d", i), t)
		s.assume(mkEq(x, tNil, t), false)
		out = append(out, x)
	}
	return out
}

// split keeps apart what the grammar says of the token about to be consumed.
func (g *gram) split(st *State, name string) []func(*State) {
	if st.A["tok"] == "?" {
		var alts []func(*State)
		for _, k := range g.use {
			k := k
			alts = append(alts, func(s *State) { g.known(s, k) })
		}
		return alts
	}
	if isBad(st) || st.A["err"] != "" || !inSet(st.A["tok"], "VALUE", "FILENAME") {
		return []func(*State){nil}
	}
	v := st.G["tv"]
	has := func(c string) []func(*State) {
		ix := mk("app", "strings.Index", 0, types.Typ[types.Int], v, mkStr(c))
		co := mk("app", "strings.Contains", 0, types.Typ[types.Bool], v, mkStr(c))
		one := func(b bool, m string) func(*State) {
			return func(s *State) {
				s.assume(mkEq(ix, mkInt(-1), ix.typ), !b)
				s.assume(mkLt(ix, mkInt(0), ix.typ), !b)
				s.assume(co, b)
				s.A["has"] = m
			}
		}
		no := st.isTrue(mkEq(ix, mkInt(-1), ix.typ)) || st.isTrue(mkLt(ix, mkInt(0), ix.typ)) || st.isFalse(co)
		yes := st.isFalse(mkEq(ix, mkInt(-1), ix.typ)) || st.isFalse(mkLt(ix, mkInt(0), ix.typ)) || st.isTrue(co)
		var alts []func(*State)
		if !no {
			alts = append(alts, one(true, "1"))
		}
		if !yes {
			alts = append(alts, one(false, "0"))
		}
		return alts
	}
	switch {
	case name == "term" && (st.A["g"] == "arg" && st.A["kw"] == "dnsbl" || st.A["g"] == "opt," && st.A["kw"] == "dbl"):
		return has(".")
	case name == "rule" && st.A["g"] == "warg" && st.A["wopt"] == "note":
		return has("\n")
	case name == "rule" && st.A["g"] == "wtls":
		var alts []func(*State)
		for _, o := range []string{"off", "no-client"} {
			o := o
			if b, known := st.evalBool(mkEq(v, mkStr(o), v.typ)); !known || b {
				alts = append(alts, func(s *State) {
					s.rename(map[*Term]*Term{s.G["tv"]: mkStr(o)}, nil)
					s.G["tv"] = mkStr(o)
					s.A["has"] = o
				})
			}
		}
		return append(alts, func(s *State) {
			s.assume(mkEq(v, mkStr("off"), v.typ), false)
			s.assume(mkEq(v, mkStr("no-client"), v.typ), false)
			s.A["has"] = "other"
		})
	}
	return []func(*State){nil}
}

// classes picks the kinds of token to tell apart in a production: those the grammar or
// the code names; of the others one stands for all between the same constants.
func (g *gram) classes(name string, f *ssa.Function) {
	if name == "term" || name == "parse" {
		g.use = g.toks
		return
	}
	named := map[int64]bool{g.hasValue: true}
	texts := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	cx := g.cx
	iT := g.cx.namedType("itemType")
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Pkg != cx.P.ssa || fn != f && (g.unit[fn] != "" || fn == g.next || fn == g.load || fn == g.lex) {
			return
		}
		seen[fn] = true
		for _, a := range fn.AnonFuncs {
			walk(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch o := (*op).(type) {
					case *ssa.Const:
						if o.Value != nil && o.Value.Kind() == constant.Int && types.Identical(o.Type(), iT) {
							named[o.Int64()] = true
						}
						if o.Value != nil && o.Value.Kind() == constant.String {
							texts[constant.StringVal(o.Value)] = true
						}
					case *ssa.Global:
						if m, ok := cx.P.constMaps[o]; ok {
							for _, en := range m {
								if n, ok := en.k.intVal(); ok {
									named[n] = true
								}
								if s, ok := en.k.strVal(); ok {
									texts[s] = true
								}
							}
						}
					case *ssa.Function:
						walk(o)
					}
				}
			}
		}
	}
	walk(f)
	spec := map[string]bool{"include": true, "or": true, "with": true, "tls-opt": true, "make-yakker": true, "off": true}
	for _, m := range []map[string]string{gramPhases, gramActions} {
		for k := range m {
			spec[k] = true
		}
	}
	for _, k := range withArgs {
		spec[k] = true
	}
	g.use = nil
	group := map[string]bool{}
	for _, k := range g.toks {
		if !k.kw || spec[k.name] || named[k.typ] || texts[k.val] {
			g.use = append(g.use, k)
			continue
		}
		n := 0
		for c := range named {
			if c < k.typ {
				n++
			}
		}
		key := fmt.Sprint(n)
		if !group[key] {
			group[key] = true
			g.use = append(g.use, k)
		}
	}
	cx.counts[name+"_token_classes"] = len(g.use)
}

// run analyses one production.
func (g *gram) run(name string) {
	R := g.rule(name)
	cx := g.cx
	cx.analyse(g.fn[name], R, func(e *Eng, st *State) {
		st.A["g"] = "0"
		if name == "parse" {
			st.A["tok"] = "-"
			return
		}
		p := param(g.fn[name], 0)
		a, t := g.curtok(st, p)
		st.store(a, g.newTok(e, st, g.fn[name].Blocks[0].Instrs[0]), t, "tok")
		for _, k := range []string{"sub", "cur", "last", "first", "arg", "rule", "rc", "rcw", "withs", "andl"} {
			st.G[k] = tNil
		}
		st.G["absm"] = tNil
		st.G["ph"] = mkIntT(0, cx.namedType("Phase"))
		st.G["act"] = mkIntT(-1, cx.namedType("Action"))
		st.G["opts"] = mkIntT(0, cx.namedType("Option"))
		if name != "rule" && name != "file" {
			r := cx.loadField(st, p, g.parserT, "currule")
			a, t := cx.fieldAddr(p, g.parserT, "currule")
			st.store(a, r, t, "start")
			st.G["rule"] = r
			q := cx.loadField(st, r, g.ruleT, "requires")
			a, t = cx.fieldAddr(r, g.ruleT, "requires")
			st.store(a, q, t, "start")
			st.G["req"] = q
			st.assume(mkLt(q, mkInt(0), q.typ), false)
		}
	})
	cx.ob(cx.counts[name+"_returns"] > cx.counts[name+"_errors"], g.fn[name].Pos(), "analysis completes", "no successful return from %s", fnName(g.fn[name]))
}

// sub is a sub-production: an error, nothing, or something.
func (g *gram) sub(e *Eng, st *State, c *Call, name string, ruleOf func(*State, *Term) *Term) {
	u := g.unit[c.fn]
	g.cx.count("sub_productions", 1)
	p := c.args[0]
	et := c.sig.Results().At(1).Type()
	rt := c.sig.Results().At(0).Type()
	if name == "parse" {
		g.onFile(e, st, c, p)
		return
	}
	place := func(s *State) {
		a, t := g.curtok(s, p)
		s.store(a, g.newTok(e, s, c.in), t, "sub")
	}
	raise := func(s *State) {
		r := ruleOf(s, p)
		if u == "rule" {
			nr := e.fresh(s, c.in, ".currule", r.typ)
			a, t := g.cx.fieldAddr(p, g.parserT, "currule")
			s.store(a, nr, t, "sub")
			return
		}
		a, t := g.cx.fieldAddr(r, g.ruleT, "requires")
		old := s.load(a, t)
		q := e.fresh(s, c.in, ".requires", t)
		s.assume(mkLt(q, old, t), false)
		s.assume(mkLt(q, mkInt(0), t), false)
		s.store(a, q, t, "sub")
		s.G["req"] = q
		s.G["rule"] = r
	}
	if name == "term" && st.A["raised"] != "" {
		g.ob("C09", st, false, c.pos(), "only conditions say what a rule requires", "the phase a rule requires is changed before a nested condition is parsed")
	}
	// an error
	c.forks = append(c.forks, func(s *State) []*Term {
		er := e.fresh(s, c.in, ".err", et)
		s.assume(mkEq(er, tNil, et), false)
		s.A["err"] = "in a " + u
		raise(s)
		place(s)
		return []*Term{tNil, er}
	})
	// nothing, with nothing consumed
	c.forks = append(c.forks, func(s *State) []*Term {
		if u == "rule" {
			if s.A["tok"] == "?" {
				g.known(s, g.byName["EOF"])
			}
			if s.A["tok"] != "EOF" {
				s.A["dead"] = "1"
			}
		}
		if !isBad(s) {
			s.A["none"] = u
		}
		return []*Term{tNil, tNil}
	})
	// something
	c.forks = append(c.forks, func(s *State) []*Term {
		x := e.fresh(s, c.in, ".x", rt)
		s.assume(mkEq(x, tNil, rt), false)
		if u == "rule" && s.A["tok"] == "EOF" {
			s.A["dead"] = "1"
			return []*Term{x, tNil}
		}
		delete(s.A, "none")
		if !isBad(s) {
			g.gotSub(s, c.in, name, u, x)
		}
		raise(s)
		place(s)
		return []*Term{x, tNil}
	})
}

func (g *gram) bad(st *State, in ssa.Instruction, rule, format string, a ...interface{}) {
	if isBad(st) {
		return
	}
	where := ""
	if inSet(st.A["g"], "with0", "with", "warg", "wtls") {
		where = "in the with options of a rule: "
	}
	st.A["g"] = "bad: " + where + fmt.Sprintf(format, a...)
	for _, k := range []string{"kw", "bits", "opts", "opt", "pend", "wopt", "w", "wpend", "act", "ph", "app", "none", "raised", "cidr", "pip", "abs", "clauses", "ipval", "end."} {
		delete(st.A, k)
	}
}

// gotSub steps the automaton over a sub-production.
func (g *gram) gotSub(st *State, in ssa.Instruction, name, u string, x *Term) {
	s := st.A["g"]
	bad := func() {
		g.bad(st, in, "the grammar is followed", "in a %s, %s: a %s is taken", name, gramState(s), u)
	}
	switch name {
	case "term":
		st.G["sub"] = x
		switch {
		case s == "not" && u == "term":
			st.A["g"] = "ok"
		case s == "(" && u == "andl":
			st.A["g"] = "(x"
		default:
			bad()
		}
	case "orl":
		switch {
		case s == "0" && u == "term":
			st.A["g"] = "x"
			st.G["cur"] = x
		case s == "or" && u == "term":
			st.A["g"] = "x"
			st.G["last"] = x
			st.A["pend"] = "1"
		case s == "or" && u == "orl":
			st.A["g"] = "end"
			st.G["last"] = x
			st.A["pend"] = "1"
		default:
			bad()
		}
	case "andl":
		if u != "orl" || !inSet(s, "0", "1", "many") {
			bad()
			return
		}
		g.ob("C12", st, st.A["pend"] == "", at(in), "every condition of a list counts", "a condition is parsed and not put on the list")
		st.G["sub"] = x
		st.A["pend"] = "1"
		if s == "0" {
			st.A["g"] = "1"
			st.G["first"] = x
		} else {
			st.A["g"] = "many"
		}
	case "rule":
		if u != "andl" || !inSet(s, "act", ";", ";EOL") {
			bad()
			return
		}
		st.A["g"] = "cond"
		st.G["andl"] = x
		delete(st.A, "app")
		delete(st.A, "w")
	case "file":
		if u != "rule" || s != "0" {
			bad()
			return
		}
		g.ob("C11", st, st.A["pend"] == "", at(in), "no rule is lost", "a rule is parsed and not put on the list")
		st.G["sub"] = x
		st.A["pend"] = "rule"
	}
}

func gramState(s string) string {
	switch s {
	case "0":
		return "at the start"
	}
	return "after " + s
}

var withArgs = []string{"message", "note", "savedir"}

// consume steps the automaton over a token.
func (g *gram) consume(st *State, in ssa.Instruction, name string) {
	s, tok := st.A["g"], st.A["tok"]
	if isBad(st) {
		return
	}
	if os.Getenv("CHECK_G") != "" {
		fmt.Println("CONSUME", name, s, tok, st.A["kw"])
	}
	g.cx.count("tokens_consumed", 1)
	if st.A["err"] != "" {
		return // what is consumed after an error does not matter
	}
	val := st.G["tv"]
	if k, ok := g.byName[tok]; ok && k.val != "" {
		val = mkStr(k.val)
	}
	bad := func(why string) {
		g.bad(st, in, "the grammar is followed", "in a %s, %s: the token %s is consumed%s", name, gramState(s), tok, why)
	}
	if inSet(tok, "EOF", "ERROR") {
		bad("")
		return
	}
	isArg := g.byName[tok].typ >= g.hasValue
	has := st.A["has"]
	delete(st.A, "has")
	switch name {
	case "term":
		switch {
		case s == "0":
			st.A["kw"] = tok
			switch tok {
			case "not", "(":
				st.A["g"] = tok
			case "all":
				st.A["g"] = "ok"
			case "from", "to", "helo", "ehlo", "host", "source", "ip", "dnsbl", "tls":
				st.A["g"] = "arg"
			case "from-has", "to-has", "dns", "helo-has", "dbl":
				st.A["g"] = "opt"
			default:
				bad("")
			}
		case s == "(x" && tok == ")":
			st.A["g"] = "ok"
		case s == "arg":
			st.G["arg"] = val
			st.A["g"] = "ok"
			switch st.A["kw"] {
			case "from", "to", "helo", "ehlo", "host", "source":
				if !isArg {
					bad("")
				}
			case "ip":
				switch tok {
				case "VALUE":
					st.A["ipval"] = "1"
				case "FILENAME":
				default:
					bad("")
				}
			case "dnsbl":
				if tok != "VALUE" || has != "1" {
					bad(" although it may not be a domain")
				}
			case "tls":
				if !inSet(tok, "on", "off") {
					bad("")
				}
				st.A["tls"] = tok
			default:
				bad("")
			}
		case s == "opt":
			if gramOpts[st.A["kw"]][tok] == "" {
				bad("")
				return
			}
			st.A["g"] = "opt,"
			g.ob("C14", st, st.A["opt"] == tok, at(in), "every option counts", "the option %s is consumed and not added to the options (pending: %q)", tok, st.A["opt"])
			delete(st.A, "opt")
			if st.A["kw"] == "dbl" {
				// kept apart: they decide the phase
				b := g.bits(gramOpts["dbl"][tok])
				var o int64
				fmt.Sscan(st.A["bits"], &o)
				st.A["bits"] = fmt.Sprint(o | b)
			}
		case s == "opt," && tok == ",":
			st.A["g"] = "opt"
		case s == "opt," && st.A["kw"] == "dbl":
			if tok != "VALUE" || has != "1" {
				bad(" although it may not be a domain")
				return
			}
			st.G["arg"] = val
			st.A["g"] = "ok"
		default:
			bad("")
		}
	case "orl":
		if !(s == "x" && tok == "or") {
			bad("")
			return
		}
		g.ob("C12", st, st.A["pend"] == "", at(in), "both sides of an or count", "a condition is parsed and not made part of the or")
		st.A["g"] = "or"
	case "andl":
		bad("")
	case "rule":
		_, isPhase := gramPhases[tok]
		_, isAct := gramActions[tok]
		canWith := func() {
			switch {
			case inSet(tok, withArgs...):
				st.A["g"], st.A["wopt"] = "warg", tok
			case tok == "tls-opt":
				st.A["g"], st.A["wopt"] = "wtls", tok
			case tok == "make-yakker":
				st.A["g"], st.A["wopt"] = "with", tok
				st.G["arg"] = mkStr("")
				st.A["wpend"] = "1"
				st.A["w"] = "1"
			default:
				bad("")
				return
			}
			if st.A["g"] != "with" && st.A["wpend"] != "" {
				g.ob("C28", st, false, at(in), "every with option counts", "a with option is parsed and not recorded")
			}
		}
		switch {
		case s == "0" && isPhase:
			st.A["g"], st.A["ph"] = "ph", "1"
			st.G["ph"] = mkIntT(g.cx.constOf(gramPhases[tok]), st.G["ph"].typ)
		case inSet(s, "0", "ph") && isAct:
			st.A["g"] = "act"
			if tok == "set-with" {
				st.A["act"] = tok
			}
			st.G["act"] = mkIntT(g.cx.constOf(gramActions[tok]), st.G["act"].typ)
		case inSet(s, "cond", "with") && inSet(tok, ";", "EOL"):
			if s == "with" {
				g.wpend(st, in)
			}
			g.endClause(st, in)
			if isBad(st) {
				return
			}
			st.A["g"] = ";"
			if tok == "EOL" {
				st.A["g"] = "end"
			}
		case s == ";" && tok == "EOL":
			st.A["g"] = ";EOL"
		case s == "cond" && tok == "with":
			st.A["g"] = "with0"
		case s == "with0":
			canWith()
		case s == "with":
			g.wpend(st, in)
			canWith()
		case s == "warg":
			if !isArg {
				bad("")
				return
			}
			if st.A["wopt"] == "note" && has == "1" {
				bad(" although it contains a newline")
				return
			}
			st.A["g"], st.A["w"], st.A["wpend"] = "with", "1", "1"
			st.G["arg"] = val
		case s == "wtls":
			if !inSet(tok, "off", "VALUE", "FILENAME") || has == "other" {
				bad(" although it is not a documented tls-opt value")
				return
			}
			st.G["arg"] = val
			st.A["g"], st.A["w"], st.A["wpend"] = "with", "1", "1"
		default:
			bad("")
		}
	case "file":
		switch {
		case s == "0" && tok == "include":
			g.ob("C11", st, st.A["pend"] == "", at(in), "no rule is lost", "a rule is parsed and not put on the list")
			st.A["g"] = "include"
		case s == "include":
			if !isArg {
				bad("")
				return
			}
			st.A["g"] = "file"
			st.G["arg"] = val
		case s == "file" && tok == "EOL":
			g.endInclude(st, in)
			st.A["g"] = "0"
		default:
			bad("")
		}
	case "parse":
		bad("")
	}
}

// wpend: the with option before has been recorded.
func (g *gram) wpend(st *State, in ssa.Instruction) {
	g.ob("C28", st, st.A["wpend"] == "", at(in), "every with option counts", "the with option %s is parsed and not recorded", st.A["wopt"])
	g.ob("C11", st, st.A["wpend"] == "", at(in), "no with option is lost", "the with option %s is parsed and not recorded", st.A["wopt"])
}

// onWith: a with option is recorded.
func (g *gram) onWith(e *Eng, st *State, in ssa.Instruction, m, k, v *Term) {
	if st.A["err"] != "" || isBad(st) {
		return
	}
	mt, ok := in.(*ssa.MapUpdate).Map.Type().Underlying().(*types.Map)
	if !ok || typeStr(mt) != "map[string]string" {
		return
	}
	g.cx.count("with_options", 1)
	if st.A["wpend"] == "" {
		// an argument that turned out to be missing
		g.ob("C11", st, false, at(in), "with options are complete", "a with option is recorded without having been parsed")
		return
	}
	_, has := e.mapGet(st, m, k, mt, in.(*ssa.MapUpdate).Map.Type())
	wopt := st.A["wopt"]
	absent := st.isFalse(has) || st.A["abs"] == st.A["wopt"] && st.eqTo(k, mkStr(st.A["abs"])) && st.eqTo(m, st.G["absm"])
	delete(st.A, "abs")
	delete(st.A, "wopt")
	g.ob("C11", st, absent, at(in), "a repeated with option is an error", "a with option may be recorded over an earlier one of the same name (%s)", wopt)
	g.ob("C28", st, st.eqTo(k, mkStr(wopt)) && st.eqTo(v, st.G["arg"]), at(in), "a with option is recorded as written", "the with option %s is recorded as %v = %v", wopt, k, v)
	delete(st.A, "wpend")
	st.G["withs"] = m
}

// endClause: a clause of a rule is complete.
func (g *gram) endClause(st *State, in ssa.Instruction) {
	cx := g.cx
	if st.A["act"] == "set-with" && st.A["w"] == "" {
		g.bad(st, in, "the grammar is followed", "a set-with clause without with options is accepted")
		return
	}
	if !g.ob("C12", st, st.A["app"] == "1", at(in), "every clause counts", "a clause is parsed and not added to its rule") {
		g.ob("C28", st, false, at(in), "every clause counts", "a clause is parsed and not added to its rule")
		return
	}
	rc := st.G["rc"]
	if rc == nil || st.A["app"] != "1" {
		return
	}
	x := cx.loadField(st, rc, g.clauseT, "expr")
	g.ob("C12", st, st.eqTo(x, st.G["andl"]), at(in), "a clause has its own conditions", "a clause's conditions are %v, not those just parsed", x)
	w := cx.loadField(st, rc, g.clauseT, "withs")
	if st.A["w"] != "" {
		g.ob("C28", st, st.eqTo(w, st.G["withs"]), at(in), "a clause has its own with options", "a clause's with options are %v, not those just parsed", w)
		g.ob("C12", st, st.eqTo(w, st.G["withs"]), at(in), "a clause has its own with options", "a clause's with options are %v, not those just parsed", w)
	}
	cx.count("clauses", 1)
}

// onAppend follows the lists the parser builds.
func (g *gram) onAppend(e *Eng, st *State, c *Call, name string) {
	if len(c.args) < 2 || st.A["err"] != "" || isBad(st) {
		return
	}
	x := e.snapshot(st, c.args[1])
	switch typeStr(c.sig.Results().At(0).Type()) {
	case "[]Expr":
		if name != "andl" {
			return
		}
		one := x.op == "slicelit" && len(x.args) == 1 && st.A["pend"] == "1" && st.eqTo(x.args[0], st.G["sub"])
		if g.ob("C12", st, one, c.pos(), "a list has the conditions as written", "something other than the condition just parsed is put on the list") {
			g.ob("C12", st, st.grow("nodes", c, x), c.pos(), "a list keeps all conditions", "a condition is not added to those before it")
			if st.A["g"] == "many" {
				l := mkLen(st.G["nodes"])
				st.assume(mkLt(mkInt(1), l, l.typ), true)
			}
			delete(st.A, "pend")
		}
	case "[]*RClause":
		if name != "rule" || x.op != "slicelit" || len(x.args) != 1 {
			return
		}
		if g.ob("C12", st, st.A["app"] == "", c.pos(), "every clause counts once", "a clause is added twice") {
			g.ob("C12", st, st.grow("clauses", c, x), c.pos(), "a rule keeps all clauses", "a clause is not added to those before it")
			w := g.cx.loadField(st, x.args[0], g.clauseT, "withs")
			g.ob("C12", st, !st.eqTo(x.args[0], st.G["rc"]) && (w == tNil || !st.eqTo(w, st.G["rcw"])), c.pos(), "clauses are separate", "a clause shares its record or its with options with the one before it")
			st.A["app"] = "1"
			st.G["rc"] = x.args[0]
			st.G["rcw"] = w
		}
	case "[]*Rule":
		if name != "file" {
			return
		}
		if st.A["pend"] == "" && (x == tNil || x.op == "slicelit" && len(x.args) == 0) {
			return // nothing is added
		}
		switch st.A["pend"] {
		case "rule":
			one := x.op == "slicelit" && len(x.args) == 1 && st.eqTo(x.args[0], st.G["sub"])
			g.ob("C11", st, one, c.pos(), "rules are taken as parsed", "something other than the rule just parsed is put on the list")
		case "rules":
			g.ob("C11", st, st.eqTo(x, st.G["sub"]), c.pos(), "included rules are taken as parsed", "something other than the rules just included is put on the list")
		default:
			g.ob("C11", st, false, c.pos(), "rules are taken as parsed", "something other than the rules just parsed is put on the list")
			return
		}
		g.ob("C11", st, st.grow("rules", c, x), c.pos(), "no rule is lost", "a rule is not added to those before it")
		delete(st.A, "pend")
	}
}

// onInclude: the rules of another file.
func (g *gram) onInclude(e *Eng, st *State, c *Call, name string) {
	ok := name == "file" && st.A["g"] == "file" && st.A["loaded"] == "" && st.eqTo(c.args[0], st.G["arg"])
	g.ob("C11", st, ok || st.A["err"] != "", c.pos(), "the named file is included", "something other than the file an include names is loaded")
	g.cx.count("includes", 1)
	rt := c.sig.Results().At(0).Type()
	c.forks = append(c.forks, func(s *State) []*Term {
		r, er := e.fresh(s, c.in, ".partial", rt), e.fresh(s, c.in, ".err", c.sig.Results().At(1).Type())
		s.assume(mkEq(er, tNil, er.typ), false)
		s.A["err"] = "in an included file"
		return []*Term{r, er}
	}, func(s *State) []*Term {
		r := e.fresh(s, c.in, ".rules", rt)
		s.G["sub"] = r
		s.A["loaded"] = "1"
		s.A["pend"] = "rules"
		return []*Term{r, tNil}
	})
}

func (g *gram) endInclude(st *State, in ssa.Instruction) {
	g.ob("C11", st, st.A["loaded"] == "1", at(in), "includes are followed", "the file an include names is not loaded")
	delete(st.A, "loaded")
}

// optAdded follows the set of options being put together.
func (g *gram) optAdded(st *State, v ssa.Value, t *Term) {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.OR && b.Op != token.ADD || st.A["g"] != "opt" {
		return
	}
	want := gramOpts[st.A["kw"]][st.A["tok"]]
	if want == "" || typeStr(b.Type()) != "Option" {
		return
	}
	w := mkIntT(g.bits(want), b.Type())
	ot := st.G["opts"]
	var exp *Term
	if st.A["opts"] == "" {
		ot = mkIntT(0, b.Type())
	}
	exp = mkOr(ot, w, b.Type())
	exp2 := mkOr(w, ot, b.Type())
	if t == exp || t == exp2 || st.eqTo(t, exp) {
		st.G["opts"] = t
		st.A["opts"] = "1"
		st.A["opt"] = st.A["tok"]
	}
}

func (g *gram) endTerm(e *Eng, st *State, in ssa.Instruction, p, v *Term, ruleOf func(*State, *Term) *Term) {
	cx := g.cx
	s := st.A["g"]
	isNil, known := st.evalBool(mkEq(v, tNil, g.exprT))
	if known && isNil {
		g.ob("C11", st, s == "0", at(in), "nothing comes from nothing", "no condition is returned although tokens were consumed (%s)", gramState(s))
		return
	}
	if !g.ob("C11", st, s == "ok" || s == "opt," && st.A["kw"] != "dbl", at(in), "the grammar is followed", "a condition is returned %s (next token: %s)", gramState(s), st.A["tok"]) || s == "0" {
		return
	}
	kw := st.A["kw"]
	if st.A["ipval"] == "1" {
		g.ob("C11", st, st.A["cidr"] == "ok" || st.A["pip"] == "ok", at(in), "ip arguments are checked", "a condition is returned for 'ip' with a value that may be neither an IP address nor a CIDR")
	}
	cx.count("conditions", 1)
	// the phase
	need := int64(0)
	if kw == "dbl" {
		var b int64
		fmt.Sscan(st.A["bits"], &b)
		switch {
		case b&cx.constOf("oFrom") != 0:
			need = cx.constOf("pMfrom")
		case b&(cx.constOf("oEhlo")|cx.constOf("oHelo")) != 0:
			need = cx.constOf("pHelo")
		}
	} else if n := gramNeeds[kw]; n != "" {
		need = cx.constOf(n)
	}
	r := ruleOf(st, p)
	q := cx.loadField(st, r, g.ruleT, "requires")
	base := st.G["req"]
	nt := mkIntT(need, q.typ)
	var ok bool
	if st.A["raised"] != "" {
		ok = st.eqTo(q, nt) && need > 0 && st.isFalse(mkLt(nt, base, q.typ))
	} else {
		ok = st.eqTo(q, base) && st.isFalse(mkLt(base, nt, q.typ))
	}
	g.ob("C09", st, ok && st.eqTo(r, st.G["rule"]), at(in), "a condition raises the phase to what it needs", "after '%s' (options %s) the rule requires %v where it required %v before; the condition needs phase %d", kw, st.A["bits"], q, base, need)
	// the node
	switch kw {
	case "not":
		n := unIface(v)
		okn := v.op == "iface" && v.aux == "*NotN"
		if okn {
			okn = st.eqTo(cx.loadField(st, n, cx.namedType("NotN"), "node"), st.G["sub"])
		}
		g.ob("C12", st, okn, at(in), "not negates its operand", "for 'not' the parser makes %v", v)
	case "(":
		g.ob("C12", st, st.eqTo(v, st.G["sub"]), at(in), "parentheses only group", "for a parenthesized list the parser makes %v", v)
	default:
		g.terms = append(g.terms, &gterm{kw: kw, st: st.clone(), expr: v, arg: st.G["arg"], opts: st.G["opts"], in: in})
	}
}

func (g *gram) endOrl(e *Eng, st *State, in ssa.Instruction, v *Term) {
	s := st.A["g"]
	isNil, known := st.evalBool(mkEq(v, tNil, g.exprT))
	if known && isNil {
		g.ob("C11", st, s == "0", at(in), "nothing comes from nothing", "no condition is returned although tokens were consumed (%s)", gramState(s))
		return
	}
	if !g.ob("C11", st, inSet(s, "x", "end"), at(in), "the grammar is followed", "an or-list is returned %s", gramState(s)) || s == "0" {
		return
	}
	g.ob("C12", st, st.A["pend"] == "" && unIface(v) == unIface(st.G["cur"]), at(in), "or combines both sides", "the or-list returned is %v, not the or of the conditions parsed", v)
	g.ob("C09", st, g.reqKept(st), at(in), "only conditions say what a rule requires", "the phase a rule requires is changed here")
}

func (g *gram) reqKept(st *State) bool {
	p := param(g.fn["orl"], 0)
	r := g.cx.loadField(st, p, g.parserT, "currule")
	return st.eqTo(r, st.G["rule"]) && st.eqTo(g.cx.loadField(st, r, g.ruleT, "requires"), st.G["req"])
}

func (g *gram) endAndl(e *Eng, st *State, in ssa.Instruction, v *Term) {
	s := st.A["g"]
	isNil, known := st.evalBool(mkEq(v, tNil, g.exprT))
	if known && isNil {
		g.ob("C11", st, s == "0", at(in), "nothing comes from nothing", "no condition is returned although conditions were parsed")
		g.ob("C12", st, s == "0", at(in), "every condition of a list counts", "no condition is returned although conditions were parsed")
		return
	}
	if !g.ob("C11", st, s != "0", at(in), "the grammar is followed", "a condition is returned although none was parsed") || s == "0" {
		return
	}
	ok := st.A["pend"] == ""
	if s == "1" && st.eqTo(v, st.G["first"]) {
	} else {
		ok = ok && v.op == "iface" && v.aux == "*AndL" && st.grown("nodes", g.cx.loadField(st, unIface(v), g.cx.namedType("AndL"), "nodes"))
	}
	g.ob("C12", st, ok, at(in), "a list has the conditions as written", "what is returned (%v) is not the list of the conditions parsed", v)
	g.ob("C09", st, g.reqKept(st), at(in), "only conditions say what a rule requires", "the phase a rule requires is changed here")
}

func (g *gram) endRule(e *Eng, st *State, in ssa.Instruction, p, v *Term, ruleOf func(*State, *Term) *Term) {
	cx := g.cx
	s := st.A["g"]
	isNil, known := st.evalBool(mkEq(v, tNil, v.typ))
	if known && isNil {
		g.ob("C11", st, s == "0" && st.A["tok"] == "EOF", at(in), "nothing comes from nothing", "no rule is returned although this is not the end (%s)", gramState(s))
		return
	}
	if inSet(s, "cond", "with") && st.A["tok"] == "EOF" {
		if s == "with" {
			g.wpend(st, in)
		}
		g.endClause(st, in)
		if isBad(st) {
			return
		}
		s = "end"
	}
	if !g.ob("C11", st, s == "end", at(in), "the grammar is followed", "a rule is returned %s, with the token %s still to come", gramState(s), st.A["tok"]) || s != "end" {
		return
	}
	cx.count("rules", 1)
	act := cx.loadField(st, v, g.ruleT, "result")
	g.ob("C12", st, st.eqTo(act, st.G["act"]), at(in), "a rule has the action written", "a rule with the action %v gets the action %v", st.G["act"], act)
	d := cx.loadField(st, v, g.ruleT, "deferto")
	g.ob("C12", st, st.eqTo(d, st.G["ph"]), at(in), "a rule has the phase written", "a rule with the phase %v gets the phase %v", st.G["ph"], d)
	g.ob("C12", st, st.grown("clauses", cx.loadField(st, v, g.ruleT, "clauses")), at(in), "a rule has the clauses written", "the rule's clauses are not those parsed")
	q := cx.loadField(st, v, g.ruleT, "requires")
	g.ob("C09", st, st.eqTo(v, st.G["rule"]) && st.eqTo(q, st.G["req"]), at(in), "a rule requires what its conditions need", "the rule's required phase is %v, its conditions need %v", q, st.G["req"])
	g.ob("C09", st, st.eqTo(d, st.G["ph"]), at(in), "a rule has the phase written", "a rule with the phase %v gets the phase %v", st.G["ph"], d)
	if st.A["ph"] != "" {
		g.ob("C09", st, st.isFalse(mkLt(d, st.G["req"], q.typ)), at(in), "an explicit phase is late enough", "a rule with an explicit phase is accepted although its conditions may need a later one")
	}
}

func (g *gram) endFile(e *Eng, st *State, in ssa.Instruction, v *Term) {
	s := st.A["g"]
	if s == "file" && st.A["tok"] == "EOF" {
		g.endInclude(st, in)
		s = "0"
	}
	// a current token that was never looked at is not the end
	g.ob("C11", st, s == "0" && st.A["tok"] == "EOF", at(in), "the whole text is parsed", "parsing ends without an error %s, before the end of the text (next: %s)", gramState(s), st.A["tok"])
	g.ob("C11", st, st.A["pend"] == "" && st.grown("rules", v), at(in), "no rule is lost", "the rules returned are not those parsed")
}

// Parse itself

func (g *gram) onLex(e *Eng, st *State, c *Call) bool {
	g.ob("C11", st, st.eqTo(c.args[0], param(g.fn["parse"], 0)) && st.A["lex"] == "", c.pos(), "the text is scanned", "something other than the rule text is scanned")
	l := e.fresh(st, c.in, ".lexer", c.sig.Results().At(0).Type())
	st.assume(mkEq(l, tNil, l.typ), false)
	st.G["lexer"] = l
	st.A["lex"] = "1"
	c.ret = []*Term{l}
	return true
}

func (g *gram) onFile(e *Eng, st *State, c *Call, p *Term) {
	if g.unit[c.fn] != "file" {
		g.ob("C11", st, false, c.pos(), "the whole text is parsed", "only a %s is parsed", g.unit[c.fn])
		return
	}
	tt := g.cx.loadField(st, mustAddr(g.curtok(st, p)), g.itemT, "typ")
	ok := st.G["lexer"] != nil && st.eqTo(g.cx.loadField(st, p, g.parserT, "l"), st.G["lexer"]) && (st.G["tt"] != nil && st.eqTo(tt, st.G["tt"]))
	g.ob("C11", st, ok && st.A["parsed"] == "", c.pos(), "parsing starts with the first token", "parsing does not start with the text's first token")
	rt, et := c.sig.Results().At(0).Type(), c.sig.Results().At(1).Type()
	c.forks = append(c.forks, func(s *State) []*Term {
		r, er := e.fresh(s, c.in, ".partial", rt), e.fresh(s, c.in, ".err", et)
		s.assume(mkEq(er, tNil, et), false)
		s.A["err"] = "in the file"
		return []*Term{r, er}
	}, func(s *State) []*Term {
		r := e.fresh(s, c.in, ".rules", rt)
		s.G["rules"] = r
		s.A["parsed"] = "1"
		return []*Term{r, tNil}
	})
}

func mustAddr(a *Term, t types.Type) *Term { return a }

func (g *gram) endParse(e *Eng, st *State, in ssa.Instruction, v *Term) {
	g.ob("C11", st, st.A["parsed"] == "1" && st.eqTo(v, st.G["rules"]), at(in), "the rules are those parsed", "the rules returned are not those parsed")
}

func runC11(cx *Cx) {
	g := newGram(cx)
	for _, u := range []string{"term", "orl", "andl", "rule", "file", "parse"} {
		g.run(u)
	}
	for _, k := range []string{"tokens_consumed", "sub_productions", "includes", "with_options", "conditions", "rules"} {
		cx.ob(cx.counts[k] > 0, g.fn["parse"].Pos(), "analysis completes", "no %s seen", k)
	}
}

func runC09(cx *Cx) {
	g := newGram(cx)
	for _, u := range []string{"term", "orl", "andl", "rule"} {
		g.run(u)
	}
	for _, k := range []string{"conditions", "rules"} {
		cx.ob(cx.counts[k] > 0, g.fn["term"].Pos(), "analysis completes", "no %s seen", k)
	}
}

func mkIntT(i int64, t types.Type) *Term { return mkConstRaw(constant.MakeInt64(i), t) }
