package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C27", run: runC27,
		rule:   "Dataflow over the lookup function with the resolver as an oracle (error, no address, addresses): the result must be the remembered answer for the same name or that of the one lookup made, and what is remembered must be that answer; over the function that records hits: the blocklist is on the list afterwards. Dataflow over DNSblN.Eval() and, for each of the 16 combinations of source bits, DblNode.Eval(), with lookups as oracles: the name looked up is the reversed octets or a source name followed by the blocklist domain, every source name is collected and every collected name looked up, the result is true exactly if one lookup was positive, and a hit is recorded exactly then. Flow check: the answers' map belongs to one context, which is made for the connection.",
		assume: []string{"net.LookupIP behaves as documented; reverse DNS names end in '.'"}})
}

func runC27(cx *Cx) {
	ctxT := cx.namedType("Context")
	look := cx.anchor("Context.getDnsblRes", "(*Context,string)(Result)")
	add := cx.anchor("Context.addDnsblHit", "(*Context,string)()")

	// one lookup
	var writers map[*ssa.Function]bool
	{
		ctx, hn := param(look, 0), param(look, 1)
		_, mt := cx.fieldAddr(ctx, ctxT, "dnsbl")
		cache := func(st *State) *Term { return cx.loadField(st, ctx, ctxT, "dnsbl") }
		resT := derefType(mt.Underlying().(*types.Map).Elem())
		R := &Rule{Name: cx.id}
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if c.name != "net.LookupIP" && c.name != "net.LookupHost" {
				return false
			}
			cx.count("resolver_calls", 1)
			cx.ob(st.eqTo(c.args[0], hn) && st.A["dns"] == "", c.pos(), "the name is looked up", "something other than the name, once, is looked up")
			cached, _ := e.mapGet(st, cache(st), hn, mt.Underlying().(*types.Map), mt.Underlying().(*types.Map))
			_ = cached
			for _, k := range []string{"found", "none", "error"} {
				k := k
				c.forks = append(c.forks, func(s *State) []*Term {
					ips := e.fresh(s, c.in, ".ips", c.sig.Results().At(0).Type())
					s.A["dns"] = k
					if k == "error" {
						er := e.fresh(s, c.in, ".err", c.sig.Results().At(1).Type())
						s.assume(mkEq(er, tNil, er.typ), false)
						return []*Term{ips, er}
					}
					s.assume(eq0(mkLen(ips)), k == "none")
					s.assume(mkLt(mkInt(0), mkLen(ips), types.Typ[types.Int]), k == "found")
					if k == "found" {
						s.assume(mkEq(ips, tNil, ips.typ), false)
					}
					return []*Term{ips, tNil}
				})
			}
			return true
		}
		R.OnMapUp = func(e *Eng, st *State, in ssa.Instruction, m, k, v *Term) {
			if !st.eqTo(m, cache(st)) {
				return
			}
			cx.count("answers_remembered", 1)
			cx.ob(st.eqTo(k, hn) && st.A["dns"] != "" && st.G["mem"] == nil, at(in), "the answer is remembered for its name", "something other than this lookup's answer, under its name, is remembered")
			cx.ob(st.isFalse(mkEq(v, tNil, v.typ)), at(in), "an answer is remembered", "a nil answer is remembered")
			st.G["mem"] = v
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.count("lookup_returns", 1)
			if st.A["dns"] == "" {
				m := mt.Underlying().(*types.Map)
				p, has := e.mapGet(st, cache(st), hn, m, m)
				// only non-nil answers are stored (see OnMapUp), so an entry that exists is one
				there := p != nil && (st.isFalse(mkEq(p, tNil, p.typ)) || has != nil && st.isTrue(has))
				ok := there && st.eqTo(vals[0], st.load(p, resT))
				cx.ob(ok, at(in), "without a lookup the remembered answer is used", "a result is given without a lookup that is not the answer remembered for the name: %v", vals[0])
				return
			}
			want := st.A["dns"] == "found"
			got, ok := st.evalBool(vals[0])
			cx.ob(ok && got == want, at(in), "the result is the answer", "after a lookup giving %q the result is %v", st.A["dns"], vals[0])
			if v := st.G["mem"]; v != nil {
				b, ok := st.evalBool(st.load(v, resT))
				cx.ob(ok && b == want, at(in), "the answer remembered is the answer", "after a lookup giving %q what is remembered is %v", st.A["dns"], st.load(v, resT))
			}
		}
		eng := cx.analyse(look, R, nil)
		writers = eng.fnsSeen
		cx.ob(cx.counts["resolver_calls"] > 0, look.Pos(), "analysis completes", "no path reaches the resolver")
	}
	cx.ctxCache("dnsbl", "blocklist answer", writers)

	// recording a hit
	{
		ctx, dom := param(add, 0), param(add, 1)
		R := &Rule{Name: cx.id}
		ha, ht := cx.fieldAddr(ctx, ctxT, "dnsblhit")
		var start *Term
		R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
			if b, _, ok := elemOf(addr); ok && st.eqTo(b, start) {
				st.G["cur"] = t
			}
			return nil
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.count("record_returns", 1)
			now := st.load(ha, ht)
			if st.eqTo(now, start) {
				cx.ob(st.G["cur"] != nil && st.G["cur"] != tNil && st.eqTo(st.G["cur"], dom), at(in), "a hit is recorded", "the blocklist is neither added nor known to be on the list already")
				return
			}
			cx.ob(st.sameList(st.listParts(now), append(append([]*Term{}, st.listParts(start)...), dom)), at(in), "a hit is added to those before it", "the list of hits becomes %v", now)
			cx.count("hits_added", 1)
		}
		R.Key = func(e *Eng, st *State) string {
			if start == nil {
				return ""
			}
			on, known := false, false
			if cur := st.G["cur"]; cur != nil && cur != tNil {
				on, known = st.evalBool(mkEq(cur, dom, cur.typ))
			}
			return fmt.Sprint(st.eqTo(st.load(ha, ht), start), on, known)
		}
		cx.analyse(add, R, func(e *Eng, st *State) {
			start = st.load(ha, ht)
			st.store(ha, start, ht, "start")
			st.G["cur"] = tNil
		})
		cx.ob(cx.counts["hits_added"] > 0, add.Pos(), "analysis completes", "no path adds a hit")
	}

	cx.blEvals(look, add)
	cx.ownContext("answers are remembered for this connection only", look)
}

// blEvals: what the blocklist operators look up and make of the answers.
func (cx *Cx) blEvals(look, add *ssa.Function) {
	ctxT := cx.namedType("Context")
	trT := cx.namedType("smtpTransaction")
	str := types.Typ[types.String]
	ev := map[string]*ssa.Function{}
	for _, f := range evalMethods(cx) {
		ev[typeStr(derefType(f.Signature.Recv().Type()))] = f
	}
	for _, n := range []string{"DNSblN", "DblNode"} {
		if ev[n] == nil {
			cx.fail("anchor", "%s.Eval not found", n)
		}
	}
	// the oracles and obligations both have in common
	common := func(R *Rule, self, ctx *Term, selfT types.Type, name func(e *Eng, st *State, c *Call, n *Term)) {
		dom := func(st *State) *Term { return cx.loadField(st, self, selfT, "domain") }
		atomic := func(fn *ssa.Function) bool { return fn == look || fn == add || fnName(fn) == "getAddrOpts" }
		R.Atomic = func(fn *ssa.Function, n string) bool { return atomic(fn) }
		prev := R.OnCall
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			switch c.fn {
			case look:
				cx.count("lookups", 1)
				cx.ob(st.eqTo(c.args[0], ctx), c.pos(), "answers are this connection's", "a lookup uses another context")
				name(e, st, c, c.args[1])
				for _, r := range []bool{true, false} {
					r := r
					c.forks = append(c.forks, func(s *State) []*Term {
						if r {
							s.A["any"], s.A["hit"] = "1", s.A["hit"]
						}
						s.A["last"] = fmt.Sprint(r)
						return []*Term{mkBool(r)}
					})
				}
				return true
			case add:
				cx.count("hits", 1)
				cx.ob(st.eqTo(c.args[0], ctx) && st.eqTo(c.args[1], dom(st)), c.pos(), "a hit names its blocklist", "a hit is recorded for something other than the blocklist looked at")
				cx.ob(st.A["any"] == "1", c.pos(), "only matches are recorded", "a hit is recorded without a positive answer")
				st.A["hit"] = "1"
				return true
			}
			return prev != nil && prev(e, st, c)
		}
		R.OnStore = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
			if addr.op == "faddr" && addr.aux == "Context.dnsblhit" {
				cx.ob(false, at(in), "hits are recorded by the recording function", "the list of hits is changed here")
			}
		}
	}
	result := func(st *State, in ssa.Instruction, v *Term) {
		cx.count("eval_returns", 1)
		got, ok := st.evalBool(v)
		cx.ob(ok && got == (st.A["any"] == "1"), at(in), "a match is a positive answer", "the result is %v although a positive answer was seen: %v", v, st.A["any"] == "1")
		cx.ob(st.A["any"] == "" || st.A["hit"] == "1", at(in), "every match is recorded", "a match is not recorded as a hit")
	}
	{
		f := ev["DNSblN"]
		self, ctx := param(f, 0), param(f, 1)
		selfT := cx.namedType("DNSblN")
		rip := func(st *State) *Term {
			return cx.loadField(st, cx.loadField(st, ctx, ctxT, "trans"), trT, "rip")
		}
		strs := types.NewSlice(str)
		split := func(st *State) *Term { return mk("app", "strings.Split", 0, strs, rip(st), mkStr(".")) }
		R := &Rule{Name: cx.id}
		common(R, self, ctx, selfT, func(e *Eng, st *State, c *Call, n *Term) {
			s := split(st)
			var ps []*Term
			for i := int64(3); i >= 0; i-- {
				ps = append(ps, st.load(mkIaddr(s, mkInt(i), str), str), mkStr("."))
			}
			ps = append(ps, cx.loadField(st, self, selfT, "domain"))
			cx.ob(st.eqTo(n, mkCat(ps...)), c.pos(), "the reversed octets are looked up", "the name looked up is %v", n)
			cx.ob(st.isTrue(mkEq(mkLen(s), mkInt(4), types.Typ[types.Int])), c.pos(), "only IPv4 addresses are looked up", "a lookup is made although the address may not have four parts")
			cx.ob(st.A["looked"] == "", c.pos(), "one lookup", "the name is looked up twice")
			st.A["looked"] = "1"
		})
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			result(st, in, vals[0])
			if st.A["looked"] == "" {
				not4 := st.isFalse(mkEq(mkLen(split(st)), mkInt(4), types.Typ[types.Int])) || st.isTrue(mkEq(rip(st), mkStr(""), str)) || st.isTrue(eq0(mkLen(rip(st))))
				cx.ob(not4, at(in), "every IPv4 address is looked up", "no lookup is made although the client may have an IPv4 address")
			}
		}
		cx.analyse(f, R, nil)
	}
	// the names of a dbl
	k := func(n string) int64 { return cx.constOf(n) }
	bits := []int64{k("oHelo"), k("oEhlo"), k("oHost"), k("oFrom")}
	valid := []int64{k("oDomainValid"), k("oDomainInvalid"), k("oDomainTempfail")}
	for m := 0; m < 16; m++ {
		var src int64
		for i, b := range bits {
			if m&(1<<i) != 0 {
				src |= b
			}
		}
		cx.runDbl(ev["DblNode"], src, src&(k("oHelo")|k("oEhlo")) != 0, src&k("oHost") != 0, src&k("oFrom") != 0, valid, k("oNoat")|k("oUnqualified"), common, result)
	}
	for _, c := range []string{"lookups", "hits", "eval_returns", "names_collected"} {
		cx.ob(cx.counts[c] > 0, look.Pos(), "analysis completes", "no path found for %s", c)
	}
}

func (cx *Cx) runDbl(f *ssa.Function, src int64, helo, host, from bool, valid []int64, invalid int64, common func(R *Rule, self, ctx *Term, selfT types.Type, name func(e *Eng, st *State, c *Call, n *Term)), result func(st *State, in ssa.Instruction, v *Term)) {
	ctxT, trT, rdT, selfT := cx.namedType("Context"), cx.namedType("smtpTransaction"), cx.namedType("rDNSResults"), cx.namedType("DblNode")
	str := types.Typ[types.String]
	self, ctx := param(f, 0), param(f, 1)
	lists := []string{"verified", "nofwd", "inconsist"}
	list := func(st *State, l string) *Term {
		return cx.loadField(st, cx.loadField(st, cx.loadField(st, ctx, ctxT, "trans"), trT, "rdns"), rdT, l)
	}
	heloname := func(st *State) *Term { return cx.loadField(st, ctx, ctxT, "heloname") }
	sender := func(st *State) *Term { return cx.loadField(st, ctx, ctxT, "from") }
	isHost := func(st *State, n *Term) bool {
		h := st.G["host"]
		if h == nil {
			return false
		}
		one := linAdd(mkLen(h), mkInt(-1), 1, types.Typ[types.Int])
		return st.eqTo(n, mkSlice(h, mkInt(0), one, str)) || st.eqTo(n, mkSlice(h, tNil, one, str)) || st.eqTo(n, mk("app", "strings.TrimSuffix", 0, str, h, mkStr("."))) || st.eqTo(n, mk("app", "strings.TrimRight", 0, str, h, mkStr(".")))
	}
	isDomain := func(st *State, n *Term) bool {
		if n.op == "slice" && n.args[0] == sender(st) {
			i := n.args[1]
			for _, ix := range []*Term{mk("app", "strings.IndexByte", 0, types.Typ[types.Int], sender(st), mkInt('@')), mk("app", "strings.IndexRune", 0, types.Typ[types.Int], sender(st), mkInt('@')), mk("app", "strings.Index", 0, types.Typ[types.Int], sender(st), mkStr("@"))} {
				if st.eqTo(i, linAdd(ix, mkInt(1), 1, types.Typ[types.Int])) {
					return true
				}
			}
		}
		return false
	}
	// a source's name is handled: collected or looked up
	handled := func(st *State, in ssa.Instruction, n *Term) bool {
		switch {
		case st.eqTo(n, heloname(st)):
			cx.ob(helo, at(in), "only the listed sources are used", "the HELO name is used although it is not a source")
			cx.ob(st.isFalse(mkEq(n, mkStr(""), str)) || st.isFalse(eq0(mkLen(n))), at(in), "no empty names", "an empty HELO name may be looked up")
			st.A["helo"] = "1"
		case isHost(st, n):
			cx.ob(host, at(in), "only the listed sources are used", "a host name is used although that is not a source")
			st.A["host"] = "done"
		case isDomain(st, n):
			cx.ob(from && strings.HasPrefix(st.A["aopt"], "valid"), at(in), "only the listed sources are used", "the sender's domain is used although it is not a source or the sender has none")
			st.A["from"] = "1"
		default:
			return false
		}
		cx.count("names_collected", 1)
		return true
	}
	pass := func(st *State, in ssa.Instruction) {
		if host {
			cx.ob(st.A["host"] != "taken", at(in), "every source is looked up", "a host name is passed over")
		}
	}
	passKey := func(st *State, in ssa.Instruction) {
		cx.ob(st.A["key"] != "taken", at(in), "every name is looked up", "a collected name is not looked up")
	}
	isLocalMap := func(m *Term) bool { return m.op == "alloc" || m.op == "makemap" }
	R := &Rule{Name: cx.id}
	R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
		in, _ := v.(ssa.Instruction)
		if nx, ok := v.(*ssa.Next); ok && !nx.IsString {
			passKey(st, in)
			it := e.val(st, nx.Iter)
			cx.ob(it.op == "range" && isLocalMap(it.args[0]), at(in), "the collected names are gone through", "an iteration over something else: %v", it)
			return []func(*State) *Term{func(s *State) *Term {
				s.redefine(t.args[1])
				s.G["key"] = t.args[1]
				s.A["key"] = "taken"
				if s.A["coll"] == "" {
					s.A["dead"] = "1"
				}
				return mk("tuple", "", 0, t.typ, tTrue, t.args[1], t.args[2])
			}, func(s *State) *Term {
				s.A["key"] = "end"
				return mk("tuple", "", 0, t.typ, tFalse, t.args[1], t.args[2])
			}}
		}
		b, idx, ok := elemOf(addr)
		if !ok {
			return nil
		}
		if st.G["list"] != nil && st.eqTo(b, st.G["list"]) && st.A["coll"] == "list" {
			if cx.taken(st, in, "llast", idx, "collected name") {
				passKey(st, in)
				st.A["key"] = "taken"
				st.G["key"] = t
			}
			return nil
		}
		for _, l := range lists {
			if st.eqTo(b, list(st, l)) {
				if st.G[l] != nil && st.eqTo(idx, st.G[l]) {
					return nil
				}
				pass(st, in)
				cx.taken(st, in, l, idx, l+" host name")
				st.A["host"] = "taken"
				st.G["host"] = t
			}
		}
		return nil
	}
	R.OnMapUp = func(e *Eng, st *State, in ssa.Instruction, m, kk, v *Term) {
		if !isLocalMap(m) {
			return
		}
		if cx.ob(handled(st, in, kk), at(in), "the sources' names are looked up", "something other than a source's name is collected: %v", kk) {
			st.A["coll"] = "map"
		}
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		switch c.name {
		case "getAddrOpts":
			cx.ob(st.eqTo(c.args[0], sender(st)), c.pos(), "the sender's domain is judged", "something other than the sender is judged")
			for _, o := range append([]int64{0, invalid}, valid...) {
				o := o
				c.forks = append(c.forks, func(s *State) []*Term {
					s.A["aopt"] = fmt.Sprintf("valid %x", o)
					if o == 0 || o == invalid {
						s.A["aopt"] = fmt.Sprintf("none %x", o)
					}
					return []*Term{mkInt(o)}
				})
			}
			return true
		case "builtin.len":
			if isLocalMap(c.args[0]) {
				n := e.fresh(st, c.in, ".len", types.Typ[types.Int])
				st.assume(eq0(n), st.A["coll"] == "")
				if st.A["coll"] != "" {
					st.assume(mkLt(mkInt(0), n, n.typ), true)
				}
				c.ret = []*Term{n}
				return true
			}
		case "builtin.append":
			if len(c.args) < 2 || typeStr(c.sig.Results().At(0).Type()) != "[]string" {
				return false
			}
			if x := e.snapshot(st, c.args[1]); x.op == "slicelit" && len(x.args) == 1 {
				if cx.ob(handled(st, c.in, x.args[0]), c.pos(), "the sources' names are looked up", "something other than a source's name is collected: %v", x.args[0]) {
					st.A["coll"] = "list"
					cx.ob(st.grow("list", c, x), c.pos(), "names are collected", "a name is not added to those before it")
				}
			}
		}
		return false
	}
	common(R, self, ctx, selfT, func(e *Eng, st *State, c *Call, n *Term) {
		suffix := mkCat(mkStr("."), cx.loadField(st, self, selfT, "domain"))
		if kk := st.G["key"]; kk != nil && st.eqTo(n, mkCat(kk, suffix)) && st.A["key"] != "end" {
			st.A["key"] = "done"
			return
		}
		cands := []*Term{}
		if n.op == "cat" && len(n.args) == 3 {
			cands = append(cands, n.args[0])
		}
		for _, x := range cands {
			if st.eqTo(n, mkCat(x, suffix)) && handled(st, c.in, x) {
				return
			}
		}
		cx.ob(false, c.pos(), "the sources' names are looked up", "the name looked up is %v", n)
	})
	ended := func(st *State) {
		for _, l := range lists {
			if st.A["end:"+l] == "" && exhausted(st, st.G[l], list(st, l)) {
				st.A["end:"+l] = "1"
			}
		}
	}
	if host {
		R.OnEdge = func(e *Eng, st *State, a, b *ssa.BasicBlock) { ended(st) }
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		result(st, in, vals[0])
		pass(st, in)
		ended(st)
		passKey(st, in)
		if helo && st.A["helo"] == "" {
			h := heloname(st)
			cx.ob(st.isTrue(mkEq(h, mkStr(""), str)) || st.isTrue(eq0(mkLen(h))), at(in), "every source is looked up", "the HELO name is not looked up")
		}
		if host {
			for _, l := range lists {
				cx.ob(st.A["end:"+l] == "1", at(in), "every source is looked up", "not all %s host names are looked up", l)
			}
		}
		if from && st.A["from"] == "" {
			s := sender(st)
			cx.ob(strings.HasPrefix(st.A["aopt"], "none") || st.isTrue(mkEq(s, mkStr(""), str)) || st.isTrue(eq0(mkLen(s))), at(in), "every source is looked up", "the sender's domain is not looked up")
		}
		switch st.A["coll"] {
		case "map":
			cx.ob(st.A["key"] == "end", at(in), "every name is looked up", "the function returns before all collected names have been looked up")
		case "list":
			cx.ob(exhausted(st, st.G["llast"], st.G["list"]), at(in), "every name is looked up", "the function returns before all collected names have been looked up")
		}
	}
	cx.analyse(f, R, func(e *Eng, st *State) {
		a, t := cx.fieldAddr(self, selfT, "src")
		st.store(a, mkInt(src), t, "src")
		for _, l := range lists {
			st.G[l] = mkInt(-1)
		}
		st.G["llast"] = mkInt(-1)
	})
}
