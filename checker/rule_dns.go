package main

import (
	"fmt"
	"go/types"
	"net"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C15", run: runC15,
		rule:   "Dataflow over LookupAddrVerified() with the DNS lookups and the address comparison as oracles: an automaton per name (forward lookup failed / an address equal to the client's / all addresses compared and none equal) says which of the three lists the name belongs to; at the return the lists must be exactly the expected ones and all names must have been taken. Then case-split dataflow over the dns attribute getter: for each of the 8 combinations of empty and non-empty lists the attribute bits returned are compared with the property's table. Callers: the client's IP is what is looked up, and the result is what the rules see.",
		assume: []string{"net.LookupAddr, net.LookupIP and net.IP.Equal behave as documented"}})
	register(&property{id: "C16", run: runC16,
		rule:   "Dataflow over checkIP() and ValidDomain() with the DNS lookups as oracles (success, temporary failure in both its forms, permanent failure in both its forms) and every address test as an oracle identified by its CIDR: automata over the tests passed per address and over the best verdict so far; at every return the verdict is compared with the one the property gives.",
		assume: []string{"net.LookupIP, net.LookupMX, net.ParseCIDR and the net.IP predicates behave as documented; a successful MX lookup gives at least one record"}})
}

// errForks gives the outcomes of a DNS lookup; res is its first result.
func dnsForks(cx *Cx, c *Call, ty types.Type, out func(s *State, kind string, res *Term) bool) {
	dnsErr := types.NewPointer(cx.P.imported("net", "DNSError"))
	opErr := types.NewPointer(cx.P.imported("net", "OpError"))
	errT := types.Universe.Lookup("error").Type()
	mkErr := func(s *State, t types.Type) (*Term, *Term) {
		d := c.e.fresh(s, c.in, ".dnserr", t)
		s.assume(mkEq(d, tNil, t), false)
		e := mk("iface", typeStr(t), 0, errT, d)
		e.obj = t
		return e, d
	}
	alt := func(kind string) {
		c.forks = append(c.forks, func(s *State) []*Term {
			res := c.e.fresh(s, c.in, ".res", ty)
			if kind == "ok" {
				if !out(s, kind, res) {
					s.A["dead"] = "1"
				}
				return []*Term{res, tNil}
			}
			t := dnsErr
			if kind == "perm2" {
				t = opErr
			}
			e, d := mkErr(s, t)
			if kind != "perm2" {
				tmp := mk("app", "(*net.DNSError).Temporary", 0, types.Typ[types.Bool], d)
				s.assume(tmp, kind == "temp")
				u := cx.P.imported("net", "DNSError").Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == "Err" {
						a := mkFaddr(d, cx.P.imported("net", "DNSError"), i)
						if kind == "temp2" {
							s.store(a, mkStr("server misbehaving"), u.Field(i).Type(), "dns")
						} else {
							s.assume(mkEq(s.load(a, u.Field(i).Type()), mkStr("server misbehaving"), u.Field(i).Type()), false)
						}
					}
				}
			}
			if !out(s, kind, res) {
				s.A["dead"] = "1"
			}
			return []*Term{res, e}
		})
	}
	for _, k := range []string{"ok", "temp", "temp2", "perm", "perm2"} {
		alt(k)
	}
}

func (P *Prog) imported(path, name string) types.Type {
	for _, p := range P.pkg.Imports() {
		if p.Path() == path {
			if o, ok := p.Scope().Lookup(name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	panic("no type " + path + "." + name)
}

// exhausted: index last is the last of a list.
func exhausted(st *State, last, list *Term) bool {
	if last == nil {
		last = mkInt(-1)
	}
	l := mkLen(list)
	return st.isFalse(mkLt(linAdd(last, mkInt(1), 1, l.typ), l, l.typ))
}

// taken follows the elements of a list being taken in order without gaps.
func (cx *Cx) taken(st *State, in ssa.Instruction, key string, idx *Term, what string) bool {
	last := st.G[key]
	if last == nil {
		last = mkInt(-1)
	}
	if st.eqTo(idx, last) {
		return false
	}
	cx.ob(st.eqTo(idx, linAdd(last, mkInt(1), 1, idx.typ)), at(in), "every "+what+" is looked at", "the %s after number %v is number %v", what, last, idx)
	st.G[key] = idx
	return true
}

func runC15(cx *Cx) {
	f := cx.anchor("LookupAddrVerified", "(string)(*rDNSResults,error)")
	resT := cx.namedType("rDNSResults")
	ip := param(f, 0)
	strs := types.NewSlice(types.Typ[types.String])
	lists := []string{"verified", "nofwd", "inconsist"}
	R := &Rule{Name: cx.id}
	app := func(st *State, list string) {
		st.A["class"] = list
		cx.count("classified_"+list, 1)
	}
	finish := func(st *State, in ssa.Instruction) {
		if st.G["name"] != nil && !strings.HasSuffix(st.A["class"], "+") {
			cx.ob(false, at(in), "every name is classified", "a name is passed over without having been classified (looked up: %q)", st.A["fwd"])
		}
	}
	R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
		base, idx, ok := elemOf(addr)
		if !ok {
			return nil
		}
		if st.G["names"] != nil && st.eqTo(base, st.G["names"]) {
			in := v.(ssa.Instruction)
			if last := st.G["nlast"]; last != nil && st.eqTo(idx, last) {
				return nil
			}
			finish(st, in)
			cx.taken(st, in, "nlast", idx, "name")
			st.G["name"] = t
			for _, k := range []string{"class", "fwd"} {
				delete(st.A, k)
			}
			delete(st.G, "addrs")
		}
		if st.G["addrs"] != nil && st.eqTo(base, st.G["addrs"]) {
			cx.taken(st, v.(ssa.Instruction), "alast", idx, "address")
			st.G["addr"] = t
		}
		return nil
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		switch c.name {
		case "builtin.append":
			if len(c.args) < 2 || st.G["name"] == nil {
				return false
			}
			if l := e.snapshot(st, c.args[1]); l.op == "slicelit" && len(l.args) == 1 && st.eqTo(l.args[0], st.G["name"]) {
				// the expected list grows together with the program's own
				cl := st.A["class"]
				if cx.ob(cl != "" && !strings.HasSuffix(cl, "+"), c.pos(), "a name is listed once it is classified", "a name is put on a list before its class is known, or twice (class: %q)", cl) {
					st.G[cl] = mkAppend(st.G[cl], mkSliceLit([]*Term{st.G["name"]}, strs), strs)
					st.A["class"] = cl + "+"
				}
			}
			return false
		case "net.LookupAddr":
			cx.ob(st.eqTo(c.args[0], ip) && st.G["names"] == nil, c.pos(), "the IP is looked up", "something other than the IP is looked up")
			c.forks = append(c.forks, func(s *State) []*Term {
				n := e.fresh(s, c.in, ".names", strs)
				s.G["names"] = n
				s.G["nlast"] = mkInt(-1)
				return []*Term{n, tNil}
			}, func(s *State) []*Term {
				n, er := e.fresh(s, c.in, ".names", strs), e.fresh(s, c.in, ".err", c.sig.Results().At(1).Type())
				s.assume(mkEq(er, tNil, er.typ), false)
				s.A["failed"] = "1"
				s.G["names"] = n
				return []*Term{n, er}
			})
			return true
		case "sort.Strings":
			return st.G["names"] != nil && st.eqTo(c.args[0], st.G["names"]) && st.G["name"] == nil
		case "net.LookupIP":
			cx.ob(st.G["name"] != nil && st.eqTo(c.args[0], st.G["name"]), c.pos(), "the name is looked up", "something other than the current name is looked up")
			c.forks = append(c.forks, func(s *State) []*Term {
				a := e.fresh(s, c.in, ".addrs", c.sig.Results().At(0).Type())
				s.G["addrs"] = a
				s.G["alast"], s.G["acmp"] = mkInt(-1), mkInt(-1)
				s.A["fwd"] = "ok"
				return []*Term{a, tNil}
			}, func(s *State) []*Term {
				a, er := e.fresh(s, c.in, ".addrs", c.sig.Results().At(0).Type()), e.fresh(s, c.in, ".err", c.sig.Results().At(1).Type())
				s.assume(mkEq(er, tNil, er.typ), false)
				s.A["fwd"] = "failed"
				app(s, "nofwd")
				return []*Term{a, er}
			})
			return true
		case "(net.IP).Equal", "bytes.Equal":
			eip := mk("app", "net.ParseIP", 0, c.args[0].typ, ip)
			a, b := c.args[0], c.args[1]
			good := c.name == "(net.IP).Equal" && st.G["addr"] != nil && (st.eqTo(a, st.G["addr"]) && sameApp(b, eip) || st.eqTo(b, st.G["addr"]) && sameApp(a, eip))
			cx.ob(good, c.pos(), "addresses are compared with the client's", "the comparison is not between the current address and the client's IP as IP addresses")
			c.forks = append(c.forks, func(s *State) []*Term {
				if s.A["class"] == "" {
					app(s, "verified")
				}
				s.G["acmp"] = s.G["alast"]
				return []*Term{tTrue}
			}, func(s *State) []*Term {
				s.G["acmp"] = s.G["alast"]
				return []*Term{tFalse}
			})
			return true
		}
		return false
	}
	none := func(st *State) {
		if st.A["fwd"] == "ok" && st.A["class"] == "" && st.G["addrs"] != nil && exhausted(st, st.G["acmp"], st.G["addrs"]) {
			app(st, "inconsist")
		}
	}
	R.OnEdge = func(e *Eng, st *State, from, to *ssa.BasicBlock) { none(st) }
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		none(st)
		finish(st, in)
		cx.count("returns", 1)
		for _, l := range lists {
			got := cx.loadField(st, vals[0], resT, l)
			cx.ob(st.sameList(st.listParts(got), st.listParts(st.G[l])), at(in), "names are listed in their class", "the list %s is not exactly the names of that class: %v, expected %v", l, got, st.G[l])
		}
		switch {
		case st.A["failed"] == "1":
			cx.ob(st.G["name"] == nil, at(in), "a failed lookup gives no names", "names are used although the reverse lookup failed")
		case st.G["names"] == nil:
			cx.ob(st.isTrue(mkEq(ip, mkStr(""), ip.typ)), at(in), "the IP is looked up", "the function returns without looking up a non-empty IP")
		default:
			cx.ob(exhausted(st, st.G["nlast"], st.G["names"]), at(in), "every name is classified", "the function returns before all names have been classified")
		}
	}
	cx.analyse(f, R, func(e *Eng, st *State) {
		for _, l := range lists {
			st.G[l] = tNil
		}
	})
	for _, l := range lists {
		cx.ob(cx.counts["classified_"+l] > 0, f.Pos(), "analysis completes", "no path puts a name in %s", l)
	}

	// the attributes
	g := cx.P.fn("dnsGetter")
	if g == nil {
		for _, h := range cx.P.funcs {
			if h.Parent() == nil && sigStr(h) == "(*Context)(Option)" && readsField(h, "rDNSResults", "nofwd") {
				g = h
			}
		}
	}
	if g == nil {
		cx.fail("anchor", "no dns attribute getter found")
	}
	ctx := param(g, 0)
	R2 := &Rule{Name: cx.id, Precise: true}
	k := func(n string) int64 { return cx.constOf(n) }
	combos := map[string]bool{}
	R2.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		rd := cx.loadField(st, cx.loadField(st, ctx, cx.namedType("Context"), "trans"), cx.namedType("smtpTransaction"), "rdns")
		got, isC := vals[0].intVal()
		for m := 0; m < 8; m++ {
			s := st.clone()
			ok := true
			for i, l := range lists {
				ok = ok && s.assume(eq0(mkLen(cx.loadField(s, rd, resT, l))), m&(1<<i) == 0)
			}
			if !ok {
				continue
			}
			combos[fmt.Sprint(m)] = true
			var want int64
			if m&1 == 0 {
				want |= k("oNodns")
			} else {
				want |= k("oExists")
			}
			if m&2 != 0 {
				want |= k("oNofwd")
			}
			if m&4 != 0 {
				want |= k("oInconsist")
			}
			if m == 1 {
				want |= k("oGood")
			}
			cx.ob(isC && got == want, at(in), "dns attributes follow from the lists", "with verified names: %v, noforward: %v, inconsistent: %v the attributes are %v instead of %#x", m&1 != 0, m&2 != 0, m&4 != 0, vals[0], want)
		}
	}
	cx.analyse(g, R2, nil)
	cx.ob(len(combos) == 8, g.Pos(), "analysis completes", "only %d of 8 cases of the dns attributes were seen", len(combos))
	cx.counts["attribute_cases"] = len(combos)

	// what the rules get to see is the client's own
	ss := newSess(cx)
	ss.watch(f)
	ss.onCall = func(e *Eng, st *State, c *Call) bool {
		if c.fn != f {
			return false
		}
		cx.ob(st.eqTo(c.args[0], ss.field(st, "rip")), c.pos(), "the client is looked up", "something other than the client's IP is looked up")
		r := e.fresh(st, c.in, ".rdns", c.sig.Results().At(0).Type())
		st.assume(mkEq(r, tNil, r.typ), false)
		st.G["rdns"] = r
		c.ret = []*Term{r, nil}
		return true
	}
	ss.onDecide = func(e *Eng, st *State, c *Call, res string) {
		cx.count("consultations", 1)
		ctx := paramOfTypeArg(ss.decide, c, "*Context")
		tr := cx.loadField(st, ctx, ss.ctxT, "trans")
		cx.ob(st.G["rdns"] != nil && st.eqTo(cx.loadField(st, tr, ss.transT, "rdns"), st.G["rdns"]), c.pos(), "the rules see the client's names", "the rules are consulted with reverse DNS results other than the client's")
	}
	ss.run()
	cx.ob(cx.counts["consultations"] > 0, f.Pos(), "analysis completes", "no consultation of the rules found")
}

func sameApp(a, b *Term) bool {
	return a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && (len(a.args) == 0 || a.args[0] == b.args[0])
}

func readsField(f *ssa.Function, typ, field string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && typeStr(derefType(fa.X.Type())) == typ {
				if v := fieldOf(fa.X.Type(), fa.Field); v != nil && v.Name() == field {
					return true
				}
			}
		}
	}
	return false
}

// cidrOf: t is a package variable holding a parsed constant CIDR.
func (cx *Cx) cidrOf(t *Term) string {
	if t.op != "mem" || t.args[0].op != "global" {
		return ""
	}
	g, ok := t.args[0].obj.(*ssa.Global)
	if !ok {
		return ""
	}
	ex, ok := cx.P.globalIni[g].(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return ""
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "net.ParseCIDR" {
		return ""
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	if !ok {
		return ""
	}
	s, _ := mkConstVal(k.Value, k.Type()).strVal()
	_, n, err := net.ParseCIDR(s)
	if err != nil {
		return ""
	}
	return n.String()
}

func runC16(cx *Cx) {
	chk := cx.anchor("checkIP", "")
	vd := cx.P.fn("ValidDomain")
	if vd == nil {
		vd = cx.anchor("ValidDomain", "")
	}
	bad, temp, good := cx.constOf("dnsBad"), cx.constOf("dnsTempfail"), cx.constOf("dnsGood")
	nets := []string{"10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "fc00::/7", "fec0::/10"}
	name := map[int64]string{bad: "bad", temp: "unknown", good: "good"}
	show := func(t *Term) string {
		if v, ok := t.intVal(); ok && name[v] != "" {
			return name[v]
		}
		return t.String()
	}
	is := func(st *State, t *Term, v int64) bool { x, ok := st.norm(t).intVal(); return ok && x == v }

	// one host
	{
		dom := param(chk, 0)
		R := &Rule{Name: cx.id, LoopBools: true}
		passed := func(st *State) bool {
			if st.A["u"] != "1" {
				return false
			}
			for _, n := range nets {
				if st.A[n] != "1" {
					return false
				}
			}
			return true
		}
		done := func(st *State, in ssa.Instruction) {
			if st.G["addr"] == nil || st.A["badaddr"] != "" {
				return
			}
			miss := ""
			if st.A["u"] != "1" {
				miss = "global unicast"
			}
			for _, n := range nets {
				if st.A[n] != "1" {
					miss += " " + n
				}
			}
			cx.ob(miss == "", at(in), "every address is tested", "an address is taken as good without having been tested for: %s", miss)
		}
		R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
			base, idx, ok := elemOf(addr)
			if !ok || st.G["addrs"] == nil || !st.eqTo(base, st.G["addrs"]) {
				return nil
			}
			if last := st.G["alast"]; last != nil && st.eqTo(idx, last) {
				return nil
			}
			done(st, v.(ssa.Instruction))
			cx.taken(st, v.(ssa.Instruction), "alast", idx, "address")
			st.G["addr"] = t
			delete(st.A, "u")
			for _, n := range nets {
				delete(st.A, n)
			}
			return nil
		}
		R.OnEdge = func(e *Eng, st *State, from, to *ssa.BasicBlock) {
			// fully tested addresses need no more detail
			if st.G["addr"] != nil && e.P.loopHead[to] && passed(st) && st.A["allok"] == "" {
				if exhausted(st, st.G["alast"], st.G["addrs"]) {
					st.A["allok"] = "1"
				}
			}
		}
		two := func(c *Call, onTrue, onFalse func(s *State)) {
			c.forks = append(c.forks, func(s *State) []*Term { onTrue(s); return []*Term{tTrue} },
				func(s *State) []*Term { onFalse(s); return []*Term{tFalse} })
		}
		isBad := func(s *State) { s.A["badaddr"] = "1" }
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			cur := func(t *Term) {
				cx.ob(st.G["addr"] != nil && st.eqTo(t, st.G["addr"]), c.pos(), "the current address is tested", "something other than the current address is tested")
			}
			switch c.name {
			case "net.LookupIP":
				cx.ob(st.eqTo(c.args[0], dom) && st.A["res"] == "", c.pos(), "the host is looked up", "something other than the host, once, is looked up")
				dnsForks(cx, c, c.sig.Results().At(0).Type(), func(s *State, kind string, res *Term) bool {
					s.A["res"] = kind
					if kind == "ok" {
						s.G["alast"] = mkInt(-1)
						s.G["addrs"] = res
					}
					cx.count("lookup_outcomes", 1)
					return true
				})
				return true
			case "(net.IP).IsGlobalUnicast":
				cur(c.args[0])
				two(c, func(s *State) { s.A["u"] = "1" }, isBad)
				cx.count("address_tests", 1)
				return true
			case "(net.IP).IsPrivate":
				cur(c.args[0])
				two(c, isBad, func(s *State) {
					for _, n := range nets[:4] {
						s.A[n] = "1"
					}
				})
				return true
			case "(*net.IPNet).Contains":
				cur(c.args[1])
				n := cx.cidrOf(c.args[0])
				known := false
				for _, x := range nets {
					known = known || x == n
				}
				cx.ob(known, c.pos(), "only the documented networks are excluded", "addresses are tested against %v (%s)", c.args[0], n)
				two(c, isBad, func(s *State) { s.A[n] = "1" })
				cx.count("address_tests", 1)
				return true
			}
			return false
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.count("host_verdicts", 1)
			v := vals[0]
			o := func(ok bool, why string) {
				cx.ob(ok, at(in), "host verdict", "a host is %s although %s", show(v), why)
			}
			switch strings.TrimSuffix(st.A["res"], "2") {
			case "temp":
				o(is(st, v, temp), "its lookup failed temporarily")
			case "perm":
				o(is(st, v, bad), "its lookup failed for good")
			case "ok":
				addrs := st.G["addrs"]
				empty := st.isTrue(eq0(mkLen(addrs)))
				switch {
				case empty:
					o(is(st, v, bad), "it has no addresses")
				case st.A["badaddr"] != "":
					o(is(st, v, bad), "one of its addresses is not acceptable")
				default:
					o(is(st, v, good), "none of its addresses was found unacceptable")
					done(st, in)
					o(st.isFalse(eq0(mkLen(addrs))), "it may have no addresses")
					o(exhausted(st, st.G["alast"], addrs), "not all of its addresses were tested")
				}
			default:
				o(false, "it was not looked up")
			}
		}
		cx.analyse(chk, R, nil)
	}
	// a domain
	{
		dom := param(vd, 0)
		fq := mkCat(dom, mkStr("."))
		mxT := cx.P.imported("net", "MX")
		R := &Rule{Name: cx.id, LoopBools: true}
		max := func(a string, v int64) string {
			rank := map[string]int{"": 0, fmt.Sprint(bad): 1, fmt.Sprint(temp): 2, fmt.Sprint(good): 3}
			if rank[fmt.Sprint(v)] > rank[a] {
				return fmt.Sprint(v)
			}
			return a
		}
		done := func(st *State, in ssa.Instruction) {
			if st.A["pend"] == "1" {
				cx.ob(st.A["best"] == fmt.Sprint(good), at(in), "every MX host counts", "an MX host is passed over although no good one has been found yet")
			}
		}
		R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
			base, idx, ok := elemOf(addr)
			if !ok || st.G["mxs"] == nil || !st.eqTo(base, st.G["mxs"]) {
				return nil
			}
			if last := st.G["mlast"]; last != nil && st.eqTo(idx, last) {
				return nil
			}
			done(st, v.(ssa.Instruction))
			cx.ob(st.A["bogus"] == "", at(v.(ssa.Instruction)), "a refusing MX decides", "further MX records are considered after one that is '.' or 'localhost.'")
			cx.taken(st, v.(ssa.Instruction), "mlast", idx, "MX record")
			alt := func(kind string) func(*State) *Term {
				return func(s *State) *Term {
					m := e.fresh(s, v.(ssa.Instruction), ".mx", t.typ)
					s.redefine(m)
					s.assume(mkEq(m, tNil, m.typ), false)
					a, ft := cx.fieldAddr(m, mxT, "Host")
					h := mkSym("mxhost", ft)
					s.redefine(h)
					lower := mk("app", "strings.ToLower", 0, ft, h)
					fold := func(x string) *Term {
						return mk("app", "strings.EqualFold", 0, types.Typ[types.Bool], h, mkStr(x))
					}
					delete(s.A, "pend")
					delete(s.A, "bogus")
					delete(s.A, "last")
					s.G["host"] = h
					switch kind {
					case ".":
						s.store(a, mkStr("."), ft, "mx")
						s.A["bogus"] = kind
						return m
					case "localhost.":
						s.assume(mkEq(lower, mkStr("localhost."), ft), true)
						s.assume(mkEq(h, mkStr("."), ft), false)
						s.assume(fold("."), false)
						s.assume(fold("localhost."), true)
						s.A["bogus"] = kind
					default:
						for _, x := range []string{".", "localhost."} {
							s.assume(mkEq(lower, mkStr(x), ft), false)
							s.assume(mkEq(h, mkStr(x), ft), false)
							s.assume(fold(x), false)
						}
						s.A["pend"] = "1"
					}
					s.store(a, h, ft, "mx")
					return m
				}
			}
			return []func(*State) *Term{alt("."), alt("localhost."), alt("")}
		}
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if c.fn == chk {
				own := strings.HasPrefix(st.A["mx"], "perm")
				if own {
					cx.ob(st.eqTo(c.args[0], fq), c.pos(), "the domain's own addresses count", "without MX records something other than the domain is checked")
				} else {
					cx.ob(st.A["mx"] == "ok" && st.G["host"] != nil && (st.eqTo(c.args[0], st.G["host"])), c.pos(), "the MX host is checked", "something other than the current MX host is checked")
				}
				cx.count("host_checks", 1)
				for _, v := range []int64{bad, temp, good} {
					v := v
					c.forks = append(c.forks, func(s *State) []*Term {
						delete(s.A, "pend")
						s.A["last"] = fmt.Sprint(s.A["best"], ">", v)
						s.A["best"] = max(s.A["best"], v)
						er := e.fresh(s, c.in, ".err", c.sig.Results().At(1).Type())
						s.assume(mkEq(er, tNil, er.typ), v == good)
						return []*Term{mkConstLike(v, c.sig.Results().At(0).Type()), er}
					})
				}
				return true
			}
			if c.name == "net.LookupMX" {
				cx.ob(st.eqTo(c.args[0], fq) && st.A["mx"] == "", c.pos(), "the domain's MX records are looked up", "something other than the fully qualified domain, once, is looked up")
				dnsForks(cx, c, c.sig.Results().At(0).Type(), func(s *State, kind string, res *Term) bool {
					s.A["mx"] = kind
					if kind == "ok" {
						s.G["mlast"] = mkInt(-1)
						s.G["mxs"] = res
						s.assume(eq0(mkLen(res)), false)
					}
					return true
				})
				return true
			}
			return false
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.count("domain_verdicts", 1)
			v := vals[0]
			o := func(ok bool, why string, a ...interface{}) {
				cx.ob(ok, at(in), "domain verdict", "a domain is %s although %s", show(v), fmt.Sprintf(why, a...))
			}
			best := func() string {
				for _, x := range []int64{bad, temp, good} {
					if st.A["best"] == fmt.Sprint(x) {
						return name[x]
					}
				}
				return "nothing"
			}
			switch {
			case strings.HasPrefix(st.A["mx"], "temp"):
				o(is(st, v, temp), "its MX lookup failed temporarily")
			case strings.HasPrefix(st.A["mx"], "perm"):
				o(st.A["best"] != "" && show(st.norm(v)) == best(), "it has no MX records and its own addresses are %s", best())
			case st.A["mx"] == "ok" && st.A["bogus"] != "":
				o(is(st, v, bad), "one of its MX records refuses mail")
			case st.A["mx"] == "ok":
				done(st, in)
				o(exhausted(st, st.G["mlast"], st.G["mxs"]), "not all MX records were looked at")
				o(st.A["best"] != "" && show(st.norm(v)) == best(), "its best MX host is %s", best())
			default:
				o(false, "its MX records were not looked up")
			}
		}
		cx.analyse(vd, R, nil)
	}
	cx.ob(cx.counts["host_verdicts"] >= 6 && cx.counts["domain_verdicts"] >= 4 && cx.counts["address_tests"] >= 2, chk.Pos(), "analysis completes", "too few paths: %v", cx.counts)
}

func mkConstLike(v int64, t types.Type) *Term { return mkInt(v) }

// paramOfTypeArg is the argument a call passes for the parameter of a type.
func paramOfTypeArg(f *ssa.Function, c *Call, ts string) *Term {
	for i, p := range f.Params {
		if typeStr(p.Type()) == ts && i < len(c.args) {
			return c.args[i]
		}
	}
	return nil
}
