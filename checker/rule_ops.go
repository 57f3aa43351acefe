package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C14", run: runC14,
		rule:   "The parser run of C11 for conditions, which gives for each operator the node made and its argument or options; each such node's Eval() is then analysed from the state the parser left it in, with pattern lists, the three comparisons and the attribute functions as oracles. Obligations: each comparison is of the operator's own kind, between its own subject and an element of its own pattern list; if some pair of subject and pattern compares equal the result is true, if none does it is false, and an empty list gives false and marks the rule; attribute operators give whether the options written and the subject's attributes have something in common; and no other session data is read. Decide() is analysed for the sender, recipient and HELO name it evaluates with.",
		assume: []string{"the comparisons and attribute functions themselves are not judged here", "pattern lists as decided by C13, blocklist lookups as decided by C27"}})
}

// opKind is one comparison an operator makes.
type opKind struct {
	name, matcher string // matchAddress, matchHost, matchIp
	subject       string // from, rcptto, heloname, rip, verified
	at            bool   // '@' is put before the pattern
}

var opKinds = map[string][]opKind{
	"from": {{"from", "matchAddress", "from", false}},
	"to":   {{"to", "matchAddress", "rcptto", false}},
	"helo": {{"helo", "matchHost", "heloname", false}},
	"ehlo": {{"ehlo", "matchHost", "heloname", false}},
	"host": {{"host", "matchHost", "verified", false}},
	"ip":   {{"ip", "matchIp", "rip", false}},
	"source": {{"host", "matchHost", "verified", false}, {"ehlo", "matchHost", "heloname", false},
		{"from", "matchAddress", "from", true}},
}

var opOptions = map[string]string{"from-has": "from", "to-has": "rcptto", "helo-has": "helo", "dns": "dns"}

type ops struct {
	cx                  *Cx
	g                   *gram
	ctxT, trT, rdT      types.Type
	list, addr          *ssa.Function
	heloF, dnsF         *ssa.Function
	matchers            map[*ssa.Function]string
	evals               map[string]*ssa.Function
	seen                map[string]bool
	dblDomain, blDomain int
	ran                 map[string]int
	allowed             map[string]bool
	subjects            map[string]func(st *State, ctx *Term) *Term
}

// ctxFn finds a function of a context by name, or by its signature and the field it reads.
func (cx *Cx) ctxFn(name, sig, typ, field string) *ssa.Function {
	for _, f := range cx.P.funcs {
		if fnName(f) == name {
			return f
		}
	}
	var out []*ssa.Function
	for _, f := range cx.P.funcs {
		if sigStr(f) == sig && readsField(f, typ, field) {
			out = append(out, f)
		}
	}
	if len(out) != 1 {
		cx.fail("anchor", "%s not found", name)
	}
	return out[0]
}

func runC14(cx *Cx) {
	o := &ops{cx: cx, g: newGram(cx), matchers: map[*ssa.Function]string{}, evals: map[string]*ssa.Function{}, seen: map[string]bool{}, ran: map[string]int{}}
	o.ctxT, o.trT, o.rdT = cx.namedType("Context"), cx.namedType("smtpTransaction"), cx.namedType("rDNSResults")
	o.list = cx.anchor("Context.getMatchList", "(*Context,string)([]string)")
	o.addr = cx.anchor("getAddrOpts", "(string,*Context)(Option)")
	o.heloF = cx.ctxFn("heloGetter", "(*Context)(Option)", "Context", "heloname")
	o.dnsF = cx.ctxFn("dnsGetter", "(*Context)(Option)", "rDNSResults", "verified")
	for _, n := range []string{"matchAddress", "matchHost", "matchIp"} {
		o.matchers[cx.anchor(n, "")] = n
	}
	for _, f := range evalMethods(cx) {
		o.evals[typeStr(derefType(f.Signature.Recv().Type()))] = f
	}
	field := func(f string) func(st *State, ctx *Term) *Term {
		return func(st *State, ctx *Term) *Term { return cx.loadField(st, ctx, o.ctxT, f) }
	}
	tr := func(st *State, ctx *Term) *Term { return cx.loadField(st, ctx, o.ctxT, "trans") }
	o.subjects = map[string]func(st *State, ctx *Term) *Term{
		"from": field("from"), "rcptto": field("rcptto"), "heloname": field("heloname"),
		"rip": func(st *State, ctx *Term) *Term { return cx.loadField(st, tr(st, ctx), o.trT, "rip") },
		"verified": func(st *State, ctx *Term) *Term {
			return cx.loadField(st, cx.loadField(st, tr(st, ctx), o.trT, "rdns"), o.rdT, "verified")
		},
	}
	cx.blEvals(cx.anchor("Context.getDnsblRes", "(*Context,string)(Result)"), cx.anchor("Context.addDnsblHit", "(*Context,string)()"))
	o.g.run("term")
	for _, t := range o.g.terms {
		o.term(t)
	}
	for _, kw := range []string{"all", "from", "to", "helo", "ehlo", "host", "source", "ip", "dnsbl", "dbl", "tls", "from-has", "to-has", "helo-has", "dns"} {
		cx.ob(o.ran[kw] > 0, o.g.fn["term"].Pos(), "analysis completes", "no node is made for '%s'", kw)
	}
	cx.counts["operators"] = len(o.ran)
	// the attribute functions read their own data
	o.reads(o.heloF, "helo-has", "Context.helocmd", "Context.heloname", "smtpTransaction.rip", "smtpTransaction.lip")
	o.reads(o.dnsF, "dns", "rDNSResults.verified", "rDNSResults.nofwd", "rDNSResults.inconsist", "smtpTransaction.rdns")
	o.shadows()
	for f, n := range o.matchers {
		if n == "matchIp" {
			o.ipMatch(f)
		}
	}
}

// ipMatch: an address matches an equal address and a network it is in.
func (o *ops) ipMatch(f *ssa.Function) {
	cx := o.cx
	if len(f.Params) != 2 {
		cx.fail("anchor", "matchIp does not take an address and a pattern")
	}
	str := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()
	ipT := cx.P.imported("net", "IP")
	nT := types.NewPointer(cx.P.imported("net", "IPNet"))
	for _, valid := range []bool{true, false} {
		for _, kind := range []string{"equal", "other", "inside", "outside", "neither"} {
			if !valid && (kind == "equal" || kind == "inside") {
				continue
			}
			valid, kind := valid, kind
			R := &Rule{Name: cx.id}
			R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
				cx.count("ip_comparisons", 1)
				want := kind == "equal" || kind == "inside"
				got, known := st.evalBool(vals[0])
				how := map[string]string{"equal": "an equal address", "other": "another address", "inside": "a network it is in", "outside": "a network it is not in", "neither": "what is neither address nor network"}[kind]
				who := "a client IP"
				if !valid {
					who = "an unparsable client IP"
				}
				if want {
					cx.ob(known && got, at(in), "'ip' compares addresses", "%s does not match %s", who, how)
				} else {
					cx.ob(known && !got, at(in), "'ip' compares addresses", "%s matches %s", who, how)
				}
			}
			rip, pat := param(f, 0), param(f, 1)
			cx.analyse(f, R, func(e *Eng, st *State) {
				ip, ip2 := mk("app", "net.ParseIP", 0, ipT, rip), mk("app", "net.ParseIP", 0, ipT, pat)
				pc := mk("app", "net.ParseCIDR", 0, nil, pat)
				isIP, isNet := kind == "equal" || kind == "other", kind == "inside" || kind == "outside"
				st.assume(mkEq(ip, tNil, ipT), !valid)
				st.assume(mkEq(ip2, tNil, ipT), !isIP)
				if valid && kind != "equal" || !valid && isIP {
					st.assume(mkEq(rip, pat, str), false)
				}
				as, bs := []*Term{ip}, []*Term{ip2}
				if !valid {
					as = append(as, tNil)
				}
				if !isIP {
					bs = append(bs, tNil)
				}
				for _, a := range as {
					for _, b := range bs {
						eq := kind == "equal" || !valid && !isIP
						st.assume(appB("(net.IP).Equal", a, b), eq)
						st.assume(appB("(net.IP).Equal", b, a), eq)
					}
				}
				st.assume(mkEq(extractOf(2, errT, pc), tNil, errT), isNet)
				cn := extractOf(1, nT, pc)
				st.assume(mkEq(cn, tNil, nT), !isNet)
				if isNet {
					for _, a := range as {
						st.assume(appB("(*net.IPNet).Contains", cn, a), kind == "inside")
					}
				}
			})
		}
	}
}

// load checks what session data is read.
func (o *ops) load(R *Rule, kw string, allowed ...string) {
	ok := map[string]bool{"Context.trans": true, "Context.rulemiss": true}
	for _, a := range allowed {
		ok[a] = true
	}
	R.OnLoad = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if addr.op != "faddr" {
			return
		}
		switch typeOfField(addr.aux) {
		case "Context", "smtpTransaction", "rDNSResults":
			o.cx.count("session_reads", 1)
			o.cx.ob(ok[addr.aux], at(in), "an operator reads only its own data", "'%s' reads %s", kw, addr.aux)
		}
	}
}

func typeOfField(s string) string {
	for i := range s {
		if s[i] == '.' {
			return s[:i]
		}
	}
	return s
}

func (o *ops) reads(f *ssa.Function, kw string, allowed ...string) {
	R := &Rule{Name: o.cx.id}
	o.load(R, kw, allowed...)
	ctx := param(f, 0)
	R.OnStore = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if rootOf(addr) == ctx {
			o.cx.ob(false, at(in), "attributes are only looked at", "'%s' changes the context", kw)
		}
	}
	o.cx.analyse(f, R, nil)
}

// adopt puts what a parser state knows into a fresh state.
func adopt(st, from *State, p *Term) {
	f := from.clone()
	f.rename(map[*Term]*Term{p: mkSym("parser", p.typ)}, nil)
	for k, v := range f.heap {
		st.heap[k] = v
	}
	for k, v := range f.epochs {
		st.epochs[k] = v
	}
	for k, v := range f.facts {
		st.facts[k] = v
	}
	for k, v := range f.eqc {
		st.eqc[k] = v
	}
	for k, v := range f.esc {
		st.esc[k] = v
	}
}

func (o *ops) term(t *gterm) {
	cx := o.cx
	key := t.kw + " " + t.expr.String() + fmt.Sprint(t.opts, t.arg)
	var as []string
	for k, v := range t.st.A {
		if k != "tok" {
			as = append(as, k+"="+v)
		}
	}
	sort.Strings(as)
	key += fmt.Sprint(as)
	if o.seen[key] {
		return
	}
	o.seen[key] = true
	cx.count("nodes", 1)
	tn := ""
	if t.expr.op == "iface" && len(t.expr.aux) > 1 {
		tn = t.expr.aux[1:]
	}
	f := o.evals[tn]
	if !cx.ob(f != nil, at(t.in), "an operator makes its node", "for '%s' the parser makes %v", t.kw, t.expr) {
		return
	}
	o.ran[t.kw]++
	node := unIface(t.expr)
	// the argument as the node has it
	domain := func(typ string) {
		T := cx.namedType(typ)
		if !cx.ob(tn == typ, at(t.in), "an operator makes its node", "for '%s' the parser makes a %s", t.kw, tn) {
			return
		}
		d := cx.loadField(t.st, node, T, "domain")
		dot := mkCat(t.arg, mkStr("."))
		ok := t.st.A["end."] == "false" && t.st.eqTo(d, dot) || t.st.A["end."] == "true" && t.st.eqTo(d, t.arg) || t.st.eqTo(d, mkCat(mk("app", "strings.TrimSuffix", 0, types.Typ[types.String], t.arg, mkStr(".")), mkStr(".")))
		cx.ob(ok, at(t.in), "an operator uses its own argument", "'%s' gets the domain %v, not its argument", t.kw, d)
		if typ == "DblNode" {
			s := cx.loadField(t.st, node, T, "src")
			cx.ob(t.st.eqTo(s, t.opts), at(t.in), "an operator uses its own options", "'dbl' gets the sources %v, not those listed", s)
		}
	}
	switch {
	case t.kw == "dnsbl":
		domain("DNSblN")
	case t.kw == "dbl":
		domain("DblNode")
	case opKinds[t.kw] != nil:
		o.match(t, f, node, "empty", nil)
		o.match(t, f, node, "none", nil)
		for i := range opKinds[t.kw] {
			o.match(t, f, node, "hit", &opKinds[t.kw][i])
		}
	case opOptions[t.kw] != "":
		o.option(t, f, node)
	case t.kw == "tls", t.kw == "all":
		o.simple(t, f, node)
	}
}

func (o *ops) setup(t *gterm, f *ssa.Function, node *Term, st *State) {
	adopt(st, t.st, param(o.g.fn["term"], 0))
	st.rename(map[*Term]*Term{param(f, 0): node}, nil)
	ctx := param(f, 1)
	a, ty := o.cx.fieldAddr(ctx, o.ctxT, "rulemiss")
	st.store(a, st.load(a, ty), ty, "start")
}

// simple operators: all and tls
func (o *ops) simple(t *gterm, f *ssa.Function, node *Term) {
	cx := o.cx
	R := &Rule{Name: cx.id}
	if t.kw == "tls" {
		o.load(R, t.kw, "smtpTransaction.tlson")
	} else {
		o.load(R, t.kw)
	}
	R.ForkVal = func(e *Eng, st *State, v ssa.Value, x, addr *Term) []func(*State) *Term {
		if addr == nil || addr.op != "faddr" || addr.aux != "smtpTransaction.tlson" || st.A["tlson"] != "" {
			return nil
		}
		one := func(b bool) func(*State) *Term {
			return func(s *State) *Term {
				s.A["tlson"] = fmt.Sprint(b)
				s.assume(x, b)
				return mkBool(b)
			}
		}
		return []func(*State) *Term{one(true), one(false)}
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		cx.count("eval_returns", 1)
		want := true
		if t.kw == "tls" {
			if !cx.ob(st.A["tlson"] != "", at(in), "tls looks at the TLS state", "the result does not depend on the TLS state") {
				return
			}
			want = (st.A["tlson"] == "true") == (t.st.A["tls"] == "on")
		}
		got, ok := st.evalBool(vals[0])
		cx.ob(ok && got == want, at(in), "an operator gives its documented result", "'%s %s' gives %v with TLS on: %s", t.kw, t.st.A["tls"], vals[0], st.A["tlson"])
	}
	cx.analyse(f, R, func(e *Eng, st *State) { o.setup(t, f, node, st) })
}

// option operators: whether options and attributes have something in common
func (o *ops) option(t *gterm, f *ssa.Function, node *Term) {
	cx := o.cx
	ctx := param(f, 1)
	R := &Rule{Name: cx.id}
	subj := opOptions[t.kw]
	switch subj {
	case "from", "rcptto":
		o.load(R, t.kw, "Context."+subj)
	default:
		o.load(R, t.kw)
	}
	R.Atomic = func(fn *ssa.Function, n string) bool { return fn == o.addr || fn == o.heloF || fn == o.dnsF }
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		switch c.fn {
		case o.addr:
			ok := o.subjects[subj] != nil && st.eqTo(c.args[0], o.subjects[subj](st, ctx)) && st.eqTo(c.args[1], ctx)
			cx.ob(ok, c.pos(), "an operator examines its own data", "'%s' examines the attributes of %v", t.kw, c.args[0])
		case o.heloF:
			cx.ob(subj == "helo" && st.eqTo(c.args[0], ctx), c.pos(), "an operator examines its own data", "'%s' examines the HELO attributes", t.kw)
		case o.dnsF:
			cx.ob(subj == "dns" && st.eqTo(c.args[0], ctx), c.pos(), "an operator examines its own data", "'%s' examines the DNS attributes", t.kw)
		default:
			return false
		}
		rt := c.sig.Results().At(0).Type()
		x := e.fresh(st, c.in, ".attrs", rt)
		both := mkAnd(st.G["opts"], x, rt)
		for _, m := range []string{"1", "0"} {
			m := m
			c.forks = append(c.forks, func(s *State) []*Term {
				s.A["m"] = m
				s.assume(eq0(both), m == "0")
				s.assume(mkLt(mkIntT(0, rt), both, rt), m == "1")
				return []*Term{x}
			})
		}
		return true
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		cx.count("eval_returns", 1)
		got, ok := st.evalBool(vals[0])
		cx.ob(ok && st.A["m"] != "" && got == (st.A["m"] == "1"), at(in), "an option operator matches what it lists", "'%s' gives %v although options and attributes have something in common: %v", t.kw, vals[0], st.A["m"] == "1")
	}
	cx.analyse(f, R, func(e *Eng, st *State) {
		o.setup(t, f, node, st)
		st.G["opts"] = t.opts
	})
}

// match operators
func (o *ops) match(t *gterm, f *ssa.Function, node *Term, scen string, hit *opKind) {
	cx := o.cx
	ctx := param(f, 1)
	str := types.Typ[types.String]
	strs := types.NewSlice(str)
	R := &Rule{Name: cx.id}
	var fields []string
	hosts := false
	for _, k := range opKinds[t.kw] {
		switch k.subject {
		case "verified":
			hosts = true
			fields = append(fields, "smtpTransaction.rdns", "rDNSResults.verified")
		case "rip":
			fields = append(fields, "smtpTransaction.rip")
		default:
			fields = append(fields, "Context."+k.subject)
		}
	}
	o.load(R, t.kw, fields...)
	R.Atomic = func(fn *ssa.Function, n string) bool { return fn == o.list || o.matchers[fn] != "" }
	subj := func(st *State, k opKind) *Term { return o.subjects[k.subject](st, ctx) }
	// step follows a pass over a list: before, at or after the pair of interest
	step := func(st *State, which string, idx, x *Term) []func(*State) *Term {
		lk, sk := which+"last", which+"state"
		track := hit != nil && (which == "p" || hit.subject == "verified")
		last := st.G[lk]
		if st.eqTo(idx, last) && st.A[sk] != "end" {
			return nil
		}
		n, isC := st.norm(idx).intVal()
		delete(st.A, which+"first")
		if isC && n == 0 && which == "s" {
			st.A[which+"first"] = "1" // keeps the first round apart
		}
		switch {
		case st.eqTo(idx, linAdd(last, mkInt(1), 1, idx.typ)) && st.A[sk] != "end":
			if st.A[sk] == "at" {
				st.A[sk] = "after"
			}
		case isC && n == 0:
			st.A[sk] = "before"
		default:
			st.A[sk] = "odd"
		}
		st.G[lk] = idx
		st.G[which+"cur"] = x
		if st.A[sk] == "before" && track {
			return []func(*State) *Term{func(s *State) *Term {
				s.A[sk] = "at"
				return x
			}, func(s *State) *Term { return x }}
		}
		return nil
	}
	R.ForkVal = func(e *Eng, st *State, v ssa.Value, x, addr *Term) []func(*State) *Term {
		b, idx, ok := elemOf(addr)
		if !ok {
			return nil
		}
		if st.A["list"] == "1" && st.eqTo(b, st.G["pl"]) {
			return step(st, "p", idx, x)
		}
		if hosts && st.eqTo(b, o.subjects["verified"](st, ctx)) {
			return step(st, "s", idx, x)
		}
		return nil
	}
	end := func(st *State, which string, list *Term) {
		sk := which + "state"
		if st.A[sk] == "end" || st.A[sk] == "odd" || !exhausted(st, st.G[which+"last"], list) {
			return
		}
		if st.A[sk] == "before" && hit != nil && (which == "p" || hit.subject == "verified") {
			st.A["dead"] = "1"
		}
		st.A[sk] = "end"
	}
	R.OnEdge = func(e *Eng, st *State, a, b *ssa.BasicBlock) {
		if st.A["list"] == "1" {
			end(st, "p", st.G["pl"])
		}
		if hosts {
			end(st, "s", o.subjects["verified"](st, ctx))
		}
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		if c.fn == o.list {
			cx.ob(st.eqTo(c.args[0], ctx) && st.eqTo(c.args[1], st.G["arg"]), c.pos(), "an operator uses its own argument", "'%s' uses the patterns %v, not its argument", t.kw, c.args[1])
			st.A["list"] = "1"
			c.ret = []*Term{st.G["pl"]}
			return true
		}
		m := o.matchers[c.fn]
		if m == "" {
			return false
		}
		cx.count("comparisons", 1)
		var kind *opKind
		for i := range opKinds[t.kw] {
			k := &opKinds[t.kw][i]
			s := subj(st, *k)
			if k.subject == "verified" {
				s = st.G["scur"]
			}
			p := st.G["pcur"]
			if k.at {
				p = mkCat(mkStr("@"), p)
			}
			if k.matcher == m && (st.eqTo(c.args[0], s) || st.eqTo(c.args[0], mk("app", "strings.ToLower", 0, str, s))) && st.eqTo(c.args[1], p) && st.A["list"] == "1" {
				kind = k
			}
		}
		if !cx.ob(kind != nil, c.pos(), "an operator compares its own data its own way", "'%s' compares %v with %v (%s)", t.kw, c.args[0], c.args[1], m) {
			return false
		}
		out := func(b bool) {
			c.forks = append(c.forks, func(s *State) []*Term { return []*Term{mkBool(b)} })
		}
		switch {
		case scen == "none":
			out(false)
		case hit != nil && kind.name == hit.name && st.A["pstate"] == "at" && (hit.subject != "verified" || st.A["sstate"] == "at"):
			c.forks = append(c.forks, func(s *State) []*Term {
				s.A["hit"] = "1"
				return []*Term{tTrue}
			})
		default:
			c.forks = append(c.forks, func(s *State) []*Term {
				s.A["hit"] = "1"
				return []*Term{tTrue}
			}, func(s *State) []*Term { return []*Term{tFalse} })
		}
		return true
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		cx.count("eval_returns", 1)
		got, ok := st.evalBool(vals[0])
		ra, rt := cx.fieldAddr(ctx, o.ctxT, "rulemiss")
		miss := st.load(ra, rt)
		switch scen {
		case "empty":
			cx.ob(ok && !got, at(in), "an empty list matches nothing", "'%s' gives %v with an empty pattern list", t.kw, vals[0])
			cx.ob(st.isTrue(miss), at(in), "an empty list marks the rule", "'%s' does not mark the rule when its pattern list is empty", t.kw)
			return
		case "none":
			cx.ob(ok && !got, at(in), "no match without a matching pattern", "'%s' gives %v although nothing compares equal", t.kw, vals[0])
		case "hit":
			cx.ob(ok && got, at(in), "every pattern counts", "'%s' may give %v although the subject '%s' matches a pattern (passes over patterns: %s, subjects: %s)", t.kw, vals[0], hit.subject, st.A["pstate"], st.A["sstate"])
		}
		cx.ob(st.eqTo(miss, st.G["miss"]), at(in), "only an empty list marks the rule", "'%s' marks the rule although its pattern list is not empty", t.kw)
	}
	cx.analyse(f, R, func(e *Eng, st *State) {
		o.setup(t, f, node, st)
		st.G["arg"] = t.arg
		ra, rt := cx.fieldAddr(ctx, o.ctxT, "rulemiss")
		st.G["miss"] = st.load(ra, rt)
		pl := mkSym("patterns", strs)
		st.assume(eq0(mkLen(pl)), scen == "empty")
		st.assume(mkLt(mkInt(0), mkLen(pl), types.Typ[types.Int]), scen != "empty")
		st.G["pl"] = pl
		for _, w := range []string{"p", "s"} {
			st.G[w+"last"] = mkInt(-1)
			st.G[w+"cur"] = tNil
			st.A[w+"state"] = "end" // no pass under way
		}
		if hit != nil && hit.subject == "verified" {
			l := mkLen(o.subjects["verified"](st, ctx))
			st.assume(eq0(l), false)
			st.assume(mkLt(mkInt(0), l, l.typ), true)
		}
	})
}

// shadows: what Decide() evaluates with.
func (o *ops) shadows() {
	cx := o.cx
	dec := cx.anchor("Decide", "(Phase,smtpd.EventInfo,*Context)(Action)")
	check := cx.anchor("Rule.check", "(*Rule,*Context)(Result)")
	ctx, evt, ph := paramOfType(dec, "*Context"), paramOfType(dec, "smtpd.EventInfo"), paramOfType(dec, "Phase")
	if ctx == nil || evt == nil || ph == nil {
		cx.fail("anchor", "Decide has unexpected parameters")
	}
	su := evt.typ.Underlying().(*types.Struct)
	ev := map[string]*Term{}
	for i := 0; i < su.NumFields(); i++ {
		ev[su.Field(i).Name()] = mkField(evt, i, su.Field(i).Name(), su.Field(i).Type())
	}
	for p := cx.constOf("pConnect"); p <= cx.constOf("pMessage"); p++ {
		p := p
		R := &Rule{Name: cx.id}
		R.Atomic = func(fn *ssa.Function, n string) bool { return fn == check }
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if c.fn != check {
				return false
			}
			cx.count("rule_checks", 1)
			for _, f := range []string{"helocmd", "heloname", "from", "rcptto"} {
				want := st.G[f]
				what := "what it was before"
				switch {
				case f == "helocmd" && p == cx.constOf("pHelo"):
					want, what = ev["Cmd"], "the command"
				case f == "heloname" && p == cx.constOf("pHelo"), f == "from" && p == cx.constOf("pMfrom"), f == "rcptto" && p == cx.constOf("pRto"):
					want, what = ev["Arg"], "the command's argument"
				case f == "rcptto" && p > cx.constOf("pRto"):
					continue // each recipient in turn (C08)
				}
				got := cx.loadField(st, ctx, o.ctxT, f)
				cx.ob(st.eqTo(got, want), c.pos(), "rules see the command being decided", "in phase %d, %s is not %s", p, f, what)
			}
			cx.ob(st.eqTo(c.args[1], ctx), c.pos(), "rules see the command being decided", "a rule is checked with another context")
			for _, b := range []bool{true, false} {
				b := b
				c.forks = append(c.forks, func(s *State) []*Term { return []*Term{mkBool(b)} })
			}
			return true
		}
		cx.analyse(dec, R, func(e *Eng, st *State) {
			st.rename(map[*Term]*Term{ph: mkIntT(p, ph.typ)}, nil)
			for _, f := range []string{"helocmd", "heloname", "from", "rcptto"} {
				a, t := cx.fieldAddr(ctx, o.ctxT, f)
				st.G[f] = st.load(a, t)
				st.store(a, st.G[f], t, "start")
			}
		})
	}
	cx.ob(cx.counts["rule_checks"] > 0, dec.Pos(), "analysis completes", "no rule is checked")
}
