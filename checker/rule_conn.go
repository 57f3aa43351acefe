package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C24", run: runC24,
		rule:   "Dataflow over destMap.find() with each entry's local part as an oracle ('*', equal to the local address, equal IP, containing CIDR, other CIDR, neither): entries are taken in order and the first matching one is returned, nil only when all have been taken. Dataflow over loadConnFile() with the file, its lines, fields, keys and values and the certificate loading as oracles: every kind of bad line makes the whole file unusable, every good line makes exactly one entry with its own settings. Dataflow over loadCerts(): all pairs, in order, or an error. Session dataflow: greeting name and certificates handed to the SMTP library are the entry's or the command line's.",
		assume: []string{"os.Open, bufio, strings.Fields, strings.SplitN, strings.Cut, net.ParseIP, net.ParseCIDR and tls.LoadX509KeyPair behave as documented"}})
}

// structField is a field of a struct value.
func (cx *Cx) structField(v *Term, st types.Type, field string) *Term {
	u, ok := st.Underlying().(*types.Struct)
	if !ok {
		cx.fail("anchor", "%s is not a struct", typeStr(st))
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			return mkField(v, i, field, u.Field(i).Type())
		}
	}
	cx.fail("anchor", "%s has no field %s", typeStr(st), field)
	return nil
}

func appB(name string, args ...*Term) *Term {
	return mk("app", name, 0, types.Typ[types.Bool], args...)
}

func extractOf(i int, typ types.Type, app *Term) *Term {
	return mk("extract", string(rune('0'+i)), 0, typ, app)
}

func runC24(cx *Cx) {
	find := cx.anchor("destMap.find", "(*destMap,net.Conn)(*perDest)")
	load := cx.anchor("loadConnFile", "(string)(*destMap,error)")
	certs := cx.anchor("loadCerts", "(string,string)([]tls.Certificate,error)")
	pdT := cx.namedType("perDest")
	str := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()

	// ---- find
	for _, ipnil := range []bool{false, true} {
		ipnil := ipnil
		d, nc := param(find, 0), param(find, 1)
		la := mk("app", "(net.Conn).LocalAddr", 0, nil, nc)
		las := mk("app", "(net.Addr).String", 0, str, la)
		lip := extractOf(0, str, mk("app", "net.SplitHostPort", 0, nil, las))
		ipT := cx.P.imported("net", "IP")
		ip := mk("app", "net.ParseIP", 0, ipT, lip)
		R := &Rule{Name: cx.id}
		R.ForkVal = func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(*State) *Term {
			b, idx, ok := elemOf(addr)
			if !ok || typeStr(t.typ) != "*perDest" {
				return nil
			}
			in := v.(ssa.Instruction)
			cx.ob(st.eqTo(b, st.load(d, derefType(d.typ))), at(in), "the file's entries are searched", "something other than the file's entries is searched")
			if st.eqTo(idx, st.G["last"]) {
				return nil
			}
			cx.ob(inSet(st.A["kind"], "", "none", "none2"), at(in), "the first matching line wins", "the search goes on after a line that matches")
			cx.taken(st, in, "last", idx, "line")
			cx.count("entries_taken", 1)
			alt := func(kind string) func(*State) *Term {
				return func(s *State) *Term {
					p := e.fresh(s, in, ".de", t.typ)
					s.redefine(p)
					L := e.fresh(s, in, ".local", str)
					s.redefine(L)
					s.assume(mkEq(p, tNil, p.typ), false)
					a, ft := cx.fieldAddr(p, pdT, "local")
					if kind == "star" {
						s.store(a, mkStr("*"), ft, "de")
						s.A["kind"] = kind
						s.G["de"] = p
						return p
					}
					s.store(a, L, ft, "de")
					s.assume(mkEq(L, mkStr("*"), str), false)
					s.assume(mkEq(L, las, str), kind == "addr")
					lp := mk("app", "net.ParseIP", 0, ipT, L)
					pc := mk("app", "net.ParseCIDR", 0, nil, L)
					s.assume(mkEq(lp, tNil, ipT), kind != "ip")
					eq := kind == "ip" || ipnil && kind != "addr"
					ips := []*Term{ip}
					lps := []*Term{lp}
					if ipnil {
						ips = append(ips, tNil)
					}
					if kind != "ip" {
						lps = append(lps, tNil)
					}
					for _, a := range ips {
						for _, b := range lps {
							if kind != "addr" {
								s.assume(appB("(net.IP).Equal", a, b), eq)
								s.assume(appB("(net.IP).Equal", b, a), eq)
							}
						}
					}
					isCidr := kind == "cidr" || kind == "othercidr"
					ce := extractOf(2, errT, pc)
					s.assume(mkEq(ce, tNil, errT), isCidr)
					nT := types.NewPointer(cx.P.imported("net", "IPNet"))
					cn := extractOf(1, nT, pc)
					s.assume(mkEq(cn, tNil, nT), !isCidr)
					if isCidr {
						for _, a := range ips {
							s.assume(appB("(*net.IPNet).Contains", cn, a), kind == "cidr")
						}
					}
					s.A["kind"] = kind
					if kind == "othercidr" {
						s.A["kind"] = "none2"
					}
					if kind == "neither" {
						s.A["kind"] = "none"
					}
					s.G["de"] = p
					return p
				}
			}
			out := []func(*State) *Term{alt("star"), alt("addr"), alt("othercidr"), alt("neither")}
			if !ipnil {
				out = append(out, alt("ip"), alt("cidr"))
			}
			return out
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.count("find_returns", 1)
			if inSet(st.A["kind"], "", "none", "none2") {
				cx.ob(st.eqTo(vals[0], tNil), at(in), "only a matching line counts", "without a matching line the result is %v", vals[0])
				none := st.isTrue(mkEq(d, tNil, d.typ)) || exhausted(st, st.G["last"], st.load(d, derefType(d.typ)))
				cx.ob(none, at(in), "every line is considered", "the search ends before all lines have been considered")
				return
			}
			cx.ob(st.eqTo(vals[0], st.G["de"]), at(in), "the first matching line wins", "a line that matches (%s) is not the result", st.A["kind"])
		}
		cx.analyse(find, R, func(e *Eng, st *State) {
			st.G["last"] = mkInt(-1)
			st.assume(mkEq(ip, tNil, ipT), ipnil)
		})
	}

	cx.certPairs(certs)

	// ---- the file
	{
		trim := func(x *Term) *Term { return mk("app", "strings.TrimSpace", 0, str, x) }
		strs := types.NewSlice(str)
		L := &lineSrc{cx: cx, classes: []string{"entry", "comment", "blank"}}
		forget := func(s *State) {
			for k := range s.A {
				if strings.HasPrefix(k, "f") && k != "failed" || k == "bad" || k == "dup" || k == "certs" {
					delete(s.A, k)
				}
			}
			for _, g := range []string{"pd", "hostname", "cert", "key", "certs", "local", "field0", "field1", "field2", "field3"} {
				s.G[g] = mkStr("")
			}
		}
		L.facts = func(s *State, class string, ln *Term) {
			forget(s)
			t := trim(ln)
			s.assume(mkEq(t, mkStr(""), str), class == "blank")
			s.assume(eq0(mkLen(t)), class == "blank")
			s.assume(appB("strings.HasPrefix", t, mkStr("#")), class == "comment")
			if class != "blank" {
				s.assume(mkEq(charAt(t, mkInt(0)), mkInt('#'), types.Typ[types.Byte]), class == "comment")
			}
		}
		// nil, a slice made elsewhere or a joined value
		lineBad := func(s *State) string {
			if s.A["bad"] != "" {
				return s.A["bad"]
			}
			c, k := s.A["fcert"] == "v", s.A["fkey"] == "v"
			switch {
			case c && !k:
				return "certificate without key"
			case k && !c:
				return "key without certificate"
			}
			return ""
		}
		checkEntry := func(s *State, pos ssa.Instruction) {
			if s.A["cls"] != "entry+" {
				return
			}
			pd := s.G["pd"]
			cx.count("entries_checked", 1)
			cx.ob(s.eqTo(cx.loadField(s, pd, pdT, "local"), s.G["local"]), at(pos), "an entry has its own local part", "an entry's local part is not the first field of its line")
			cx.ob(s.eqTo(cx.loadField(s, pd, pdT, "myname"), s.G["hostname"]), at(pos), "an entry has its own host name", "an entry's host name is not the one of its line")
			got := cx.loadField(s, pd, pdT, "certs")
			if s.A["fcert"] == "v" && s.A["fkey"] == "v" {
				cx.ob(s.A["certs"] == "ok" && s.eqTo(got, s.G["certs"]), at(pos), "an entry has its own certificates", "an entry's certificates are not the ones of its line")
			} else {
				cx.ob(s.isTrue(eq0(mkLen(got))) || s.eqTo(got, tNil), at(pos), "an entry has its own certificates", "an entry has certificates although its line names none: %v", got)
			}
		}
		end := func(s *State, in ssa.Instruction) {
			if strings.HasPrefix(s.A["cls"], "entry") && s.A["failed"] == "" {
				cx.ob(lineBad(s) == "", at(in), "a bad line makes the file unusable", "reading goes on after a bad line (%s)", lineBad(s))
				cx.ob(s.A["cls"] == "entry+", at(in), "every line counts", "a line with settings is left out")
				checkEntry(s, in)
			}
			delete(s.A, "cls")
			forget(s)
		}
		L.endLine = func(s *State, c *Call) {
			cx.ob(s.A["failed"] == "", c.pos(), "a failed read makes the file unusable", "reading goes on after an error")
			end(s, c.in)
		}
		R := &Rule{Name: cx.id}
		R.Atomic = func(fn *ssa.Function, name string) bool { return fn == certs || name == "warnonce" || name == "warnf" }
		R.OnEdge = func(e *Eng, st *State, from, to *ssa.BasicBlock) {
			// the next line
			if L.block != nil && L.block.Parent() == to.Parent() && e.P.loopHead[to] && to.Dominates(L.block) && to.Dominates(from) && len(from.Instrs) > 0 {
				end(st, from.Instrs[len(from.Instrs)-1])
			}
		}
		field := func(s *State, t *Term) (string, bool) {
			for i := 0; i < 4; i++ {
				if f := s.G[fmt.Sprint("field", i)]; f != nil && s.eqTo(t, f) {
					return fmt.Sprint(i), true
				}
			}
			return "", false
		}
		// splitting a field at the first '=' gives one of these
		kinds := []string{"none", "hostname", "cert", "cert0", "key", "key0", "other"}
		mark := func(e *Eng, s *State, c *Call, i, kind string) (k, v *Term) {
			v = e.fresh(s, c.in, ".v"+i, str)
			s.redefine(v)
			name := strings.TrimSuffix(kind, "0")
			s.A["f"+i] = kind
			switch kind {
			case "none":
				if s.A["bad"] == "" {
					s.A["bad"] = "malformed field"
				}
				return nil, nil
			case "other":
				k = e.fresh(s, c.in, ".k"+i, str)
				s.redefine(k)
				for _, x := range []string{"hostname", "cert", "key"} {
					s.assume(mkEq(k, mkStr(x), str), false)
				}
				if s.A["bad"] == "" {
					s.A["bad"] = "unknown key"
				}
				return k, v
			}
			if s.A["f"+name] != "" {
				s.A["dup"] = "1"
			}
			if name != "hostname" {
				s.assume(mkEq(v, mkStr(""), str), name != kind)
			}
			s.A["f"+name] = "v"
			if name != kind {
				s.A["f"+name] = "0"
				v = mkStr("")
			}
			s.G[name] = v
			return mkStr(name), v
		}
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			switch c.name {
			case "os.Open":
				cx.ob(st.eqTo(c.args[0], param(load, 0)) && st.A["open"] == "", c.pos(), "the named file is opened", "something other than the named file is opened")
				L.open(e, c)
				return true
			case "strings.Fields":
				cx.ob(st.G["line"] != nil && st.A["cls"] == "entry" && (st.eqTo(c.args[0], trim(st.G["line"])) || st.eqTo(c.args[0], st.G["line"])) && st.A["fields"] == "", c.pos(), "lines are taken whole", "something other than the current line, once, is split into fields")
				for n := 1; n <= 5; n++ {
					n := n
					c.forks = append(c.forks, func(s *State) []*Term {
						s.A["fields"] = fmt.Sprint(n)
						if n == 5 {
							x := e.fresh(s, c.in, ".fields", strs)
							s.redefine(x)
							s.assume(mkLt(mkInt(4), mkLen(x), types.Typ[types.Int]), true)
							s.A["bad"] = "too many fields"
							return []*Term{x}
						}
						var fs []*Term
						for i := 0; i < 4; i++ {
							f := e.fresh(s, c.in, fmt.Sprint(".field", i), str)
							s.redefine(f)
							s.G[fmt.Sprint("field", i)] = f
							if i < n {
								fs = append(fs, f)
							}
						}
						s.G["local"] = fs[0]
						return []*Term{mkSliceLit(fs, strs)}
					})
				}
				return true
			case "strings.SplitN", "strings.Split", "strings.Cut", "strings.Index":
				i, ok := field(st, c.args[0])
				if !ok || i == "0" {
					cx.ob(!ok, c.pos(), "the local part is taken whole", "the local part is split")
					return false
				}
				sep, _ := c.args[1].strVal()
				cx.ob(sep == "=", c.pos(), "keys and values are split at '='", "a field is split at %q", sep)
				good := c.name == "strings.Cut"
				if c.name == "strings.SplitN" {
					n, ok := c.args[2].intVal()
					good = ok && n == 2
				}
				cx.ob(good, c.pos(), "a value may contain '='", "a field is split otherwise than at its first '='")
				cx.ob(st.A["f"+i] == "", c.pos(), "analysis completes", "a field is split twice")
				for _, kind := range kinds {
					kind := kind
					c.forks = append(c.forks, func(s *State) []*Term {
						k, v := mark(e, s, c, i, kind)
						if c.name == "strings.Cut" {
							if k == nil {
								return []*Term{c.args[0], mkStr(""), tFalse}
							}
							return []*Term{k, v, tTrue}
						}
						if k == nil {
							return []*Term{mkSliceLit([]*Term{c.args[0]}, strs)}
						}
						return []*Term{mkSliceLit([]*Term{k, v}, strs)}
					})
				}
				return true
			case "builtin.append":
				if typeStr(c.sig.Results().At(0).Type()) == "destMap" || typeStr(c.sig.Results().At(0).Type()) == "[]*perDest" {
					x := e.snapshot(st, c.args[1])
					if x.op != "slicelit" || len(x.args) != 1 {
						return false
					}
					cx.ob(st.A["cls"] == "entry" && lineBad(st) == "", c.pos(), "a good line makes one entry", "an entry is added in state %q (%s)", st.A["cls"], lineBad(st))
					for i := 1; i < 4; i++ {
						n := fmt.Sprint(i)
						cx.ob(st.A["fields"] <= n || st.A["f"+n] != "", c.pos(), "every field counts", "field %d of a line is left out", i+1)
					}
					st.A["cls"] = "entry+"
					st.G["pd"] = x.args[0]
					cx.count("entries_added", 1)
					cx.ob(st.grow("want", c, x), c.pos(), "entries stay in order", "an entry is not added after those before it")
				}
				return false
			}
			if c.fn == certs {
				cx.ob(st.A["fcert"] == "v" && st.A["fkey"] == "v" && st.eqTo(c.args[0], st.G["cert"]) && st.eqTo(c.args[1], st.G["key"]), c.pos(), "a line's own certificate and key are loaded", "something other than the line's certificate and key is loaded")
				c.forks = append(c.forks, func(s *State) []*Term {
					x := e.fresh(s, c.in, ".certs", c.sig.Results().At(0).Type())
					s.redefine(x)
					s.A["certs"] = "ok"
					s.G["certs"] = x
					return []*Term{x, tNil}
				}, func(s *State) []*Term {
					er := e.fresh(s, c.in, ".err", errT)
					s.redefine(er)
					s.assume(mkEq(er, tNil, errT), false)
					s.A["bad"] = "certificates cannot be loaded"
					return []*Term{tNil, er}
				})
				return true
			}
			return L.call(e, st, c)
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.count("load_returns", 1)
			why := ""
			switch {
			case st.A["open"] == "failed":
				why = "it cannot be opened"
			case st.A["failed"] != "":
				why = "reading it fails"
			case strings.HasPrefix(st.A["cls"], "entry"):
				why = lineBad(st)
			}
			if why != "" {
				cx.ob(isErr(st, vals[1]) && st.eqTo(vals[0], tNil), at(in), "a bad file is not used", "the settings are %v, error %v, although: %s", vals[0], vals[1], why)
				return
			}
			if st.A["dup"] != "" && isErr(st, vals[1]) {
				return // repeating a key may be an error
			}
			cx.ob(st.eqTo(vals[1], tNil), at(in), "a good file is used", "the error is %v although nothing is wrong (line %q, fields %s)", vals[1], st.A["cls"], st.A["fields"])
			cx.ob(sawEnd(st), at(in), "the whole file is read", "reading stops before the end of the file")
			cx.ob(st.A["cls"] != "entry", at(in), "every line counts", "a line with settings is left out")
			checkEntry(st, in)
			got := st.load(vals[0], derefType(load.Signature.Results().At(0).Type()))
			cx.ob(vals[0] != tNil && st.grown("want", got), at(in), "the entries are the file's lines", "the entries returned are %v, expected %v", got, st.G["want"])
		}
		cx.analyse(load, R, func(e *Eng, st *State) {
			for _, g := range []string{"pd", "hostname", "cert", "key", "certs", "local", "field0", "field1", "field2", "field3"} {
				st.G[g] = mkStr("")
			}
		})
		cx.ob(cx.counts["entries_added"] > 0 && cx.counts["entries_checked"] > 0, load.Pos(), "analysis completes", "no path adds an entry")
	}

	// ---- the session
	ss := newSess(cx)
	ss.watch(find, load)
	cfA, cfT := cx.globalVar("connfile")
	snA, snT := cx.globalVar("srvname")
	ss.interesting = func(n string) bool { return strings.HasSuffix(n, "smtpd.NewConn") }
	ss.onCall = func(e *Eng, st *State, c *Call) bool {
		switch {
		case c.fn == load:
			cx.ob(st.eqTo(c.args[0], st.load(cfA, cfT)) && st.A["cf"] == "", c.pos(), "the -conncfg file is loaded", "something other than the -conncfg file, once, is loaded")
			c.forks = append(c.forks, func(s *State) []*Term {
				x := e.fresh(s, c.in, ".dm", c.sig.Results().At(0).Type())
				s.assume(mkEq(x, tNil, x.typ), false)
				s.A["cf"] = "ok"
				s.G["dm"] = x
				return []*Term{x, tNil}
			}, func(s *State) []*Term {
				er := e.fresh(s, c.in, ".err", errT)
				s.assume(mkEq(er, tNil, errT), false)
				s.A["cf"] = "bad"
				s.G["dm"] = tNil
				return []*Term{tNil, er}
			})
			return true
		case c.fn == find:
			nc := paramByType(ss.proc, "net.Conn")
			cx.ob(st.A["cf"] != "" && st.eqTo(c.args[0], st.G["dm"]) && st.eqTo(c.args[1], nc), c.pos(), "this connection's settings are looked up", "something other than this connection is looked up in the loaded settings")
			c.forks = append(c.forks, func(s *State) []*Term { s.A["pd"] = "none"; return []*Term{tNil} })
			if st.A["cf"] == "ok" {
				for i := 0; i < 4; i++ {
					named, some := i&1 == 0, i&2 == 0
					c.forks = append(c.forks, func(s *State) []*Term {
						x := e.fresh(s, c.in, ".pd", c.sig.Results().At(0).Type())
						s.assume(mkEq(x, tNil, x.typ), false)
						s.A["pd"] = fmt.Sprint("named:", named)
						n := cx.loadField(s, x, pdT, "myname")
						s.assume(mkEq(n, mkStr(""), str), !named)
						s.G["pd"] = x
						s.G["pdname"], s.G["pdcerts"] = n, cx.loadField(s, x, pdT, "certs")
						s.assume(eq0(mkLen(s.G["pdcerts"])), !some)
						s.A["pdcerts"] = fmt.Sprint(some)
						return []*Term{x}
					})
				}
			}
			return true
		case strings.HasSuffix(c.name, "smtpd.NewConn"):
			cfgT := c.sig.Params().At(1).Type()
			cfg := c.args[1]
			name := cx.structField(cfg, cfgT, "LocalName")
			tlsc := cx.structField(cfg, cfgT, "TLSConfig")
			cx.count("connections", 1)
			cmd := paramByType(ss.proc, "[]tls.Certificate")
			want := cmd
			switch st.A["pd"] {
			case "":
				cx.ob(st.isTrue(mkEq(st.load(cfA, cfT), mkStr(""), str)) || st.A["cf"] == "bad", c.pos(), "the -conncfg file is consulted", "the connection is set up without consulting the -conncfg file")
			case "named:true", "named:false":
				want = st.G["pdcerts"]
			}
			if st.A["pd"] == "named:true" {
				cx.ob(st.eqTo(name, st.G["pdname"]), c.pos(), "the matching line's host name is the greeting name", "the greeting name is %v", name)
			} else if sn := st.load(snA, snT); st.isFalse(mkEq(sn, mkStr(""), str)) {
				cx.ob(st.eqTo(name, sn), c.pos(), "the command line's greeting name applies", "the greeting name is %v", name)
			} else {
				cx.ob(st.A["pd"] == "" || st.A["pd"] == "none" || !st.eqTo(name, st.G["pdname"]), c.pos(), "an entry without host name does not change the greeting", "the greeting name is the entry's empty one")
			}
			if !st.eqTo(tlsc, tNil) {
				got := cx.loadField(st, tlsc, cx.P.imported("crypto/tls", "Config"), "Certificates")
				cx.ob(st.eqTo(got, want), c.pos(), "the matching line's certificates are in force", "the certificates are %v, expected %v", got, want)
			} else {
				cx.count("connections_without_tls", 1)
				blocked := st.A["blocked"] == "1"
				cx.ob(blocked || st.isTrue(eq0(mkLen(want))), c.pos(), "the matching line's certificates are in force", "TLS is not set up although certificates are in force")
			}
			st.A["conn"] = "1"
			return false
		case c.name == "(*ipMap).Lookup" || c.fn != nil && fnName(c.fn) == "ipMap.Lookup":
			for _, b := range []bool{true, false} {
				b := b
				c.forks = append(c.forks, func(s *State) []*Term {
					n := e.fresh(s, c.in, ".cnt", types.Typ[types.Int])
					if st.eqTo(c.args[0], cx.loadGlobal(st, "notls")) {
						s.A["blocked"] = map[bool]string{true: "1", false: "0"}[b]
						s.assume(mkLt(n, mkInt(2), n.typ), !b)
						if b {
							return []*Term{tTrue, n}
						}
						h := e.fresh(s, c.in, ".hit", types.Typ[types.Bool])
						return []*Term{h, n}
					}
					return []*Term{mkBool(b), n}
				})
			}
			return true
		case st.A["conn"] != "":
			return false
		}
		return false
	}
	// a connection with a TLS setup is another than one without
	prev := ss.rule.OnStore
	ss.rule.OnStore = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if prev != nil {
			prev(e, st, in, addr, val)
		}
		if val != nil && val.typ != nil && typeStr(val.typ) == "*tls.Config" {
			st.A["tlsc"] = map[bool]string{true: "0", false: "1"}[st.eqTo(val, tNil)]
		}
	}
	cmdCerts := false
	// the session proper does not matter here
	ss.onStart = func(e *Eng, st *State, ev string, arg *Term) {
		if ev != "CONNECT" {
			st.A["dead"] = "1"
			return
		}
		st.assume(eq0(mkLen(paramByType(ss.proc, "[]tls.Certificate"))), !cmdCerts)
	}
	for _, cmdCerts = range []bool{true, false} {
		ss.run()
	}
	cx.ob(cx.counts["connections"] >= 4 && cx.counts["find_returns"] >= 5, find.Pos(), "analysis completes", "too few paths: %v", cx.counts)
}

// grow follows a list being built by appending: each append must be to the
// list as the last one left it, the first one to an empty list.
func (st *State) grow(key string, c *Call, x *Term) bool {
	ok := false
	if st.A[key] == "" {
		ok = len(st.listParts(c.args[0])) == 0
	} else {
		ok = st.eqTo(c.args[0], st.G[key]) || st.sameList(st.listParts(c.args[0]), st.listParts(st.G[key]))
	}
	st.A[key] = "+"
	st.G[key] = mkAppend(c.args[0], x, c.sig.Results().At(0).Type())
	return ok
}

// grown: the list is the one followed by grow.
func (st *State) grown(key string, l *Term) bool {
	if st.A[key] == "" {
		return len(st.listParts(l)) == 0
	}
	return st.eqTo(l, st.G[key]) || st.sameList(st.listParts(l), st.listParts(st.G[key]))
}

// isErr: the value is known to be a non-nil error.
func isErr(st *State, v *Term) bool {
	return st.isFalse(mkEq(v, tNil, types.Universe.Lookup("error").Type())) || v.op == "app" && v.aux == "newerr"
}

// certPairs: certificates load in pairs with their keys, all or none.
func (cx *Cx) certPairs(certs *ssa.Function) {
	str := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()

	cp, kp := param(certs, 0), param(certs, 1)
	split := func(s *Term) *Term {
		return mk("app", "strings.Split", 0, types.NewSlice(str), s, mkStr(","))
	}
	R := &Rule{Name: cx.id}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		switch c.name {
		case "crypto/tls.LoadX509KeyPair":
			var idx [2]*Term
			for i, p := range []*Term{cp, kp} {
				a := c.args[i]
				if a.op == "mem" {
					if b, ix, ok := elemOf(a.args[0]); ok && st.eqTo(b, split(p)) {
						idx[i] = ix
					}
				}
			}
			ok := idx[0] != nil && idx[1] != nil && st.eqTo(idx[0], idx[1])
			cx.ob(ok, c.pos(), "each certificate is loaded with its own key", "the certificate and key loaded are not the same element of their lists")
			if ok {
				cx.taken(st, c.in, "last", idx[0], "certificate")
			}
			cx.ob(st.A["bad"] == "" && st.A["pend"] == "", c.pos(), "an unloadable pair is an error", "loading goes on after a failure or without the last certificate having been kept")
			cx.count("pair_loads", 1)
			c.forks = append(c.forks, func(s *State) []*Term {
				x := e.fresh(s, c.in, ".cert", c.sig.Results().At(0).Type())
				s.redefine(x)
				s.A["pend"] = "1"
				s.G["cert"] = x
				return []*Term{x, tNil}
			}, func(s *State) []*Term {
				er := e.fresh(s, c.in, ".err", errT)
				s.redefine(er)
				s.assume(mkEq(er, tNil, errT), false)
				s.A["bad"] = "1"
				return []*Term{nil, er}
			})
			return true
		case "builtin.append":
			x := e.snapshot(st, c.args[1])
			if st.A["pend"] == "1" && x.op == "slicelit" && len(x.args) == 1 && st.eqTo(x.args[0], st.G["cert"]) {
				cx.ob(st.grow("want", c, x), c.pos(), "all certificates are kept", "a certificate is not added to those before it")
				delete(st.A, "pend")
			}
		}
		return false
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		cx.count("certs_returns", 1)
		differ := st.isFalse(mkEq(mkLen(split(cp)), mkLen(split(kp)), types.Typ[types.Int]))
		if st.A["bad"] != "" || differ {
			cx.ob(isErr(st, vals[1]), at(in), "an unloadable pair is an error", "no error is returned although a pair could not be loaded or the lists differ in length")
			return
		}
		if st.isTrue(mkEq(vals[1], tNil, errT)) {
			all := st.G["last"] != nil && exhausted(st, st.G["last"], split(cp))
			cx.ob(all && st.A["pend"] == "" && st.isTrue(mkEq(mkLen(split(cp)), mkLen(split(kp)), types.Typ[types.Int])) && st.grown("want", vals[0]), at(in), "all certificates are kept", "the certificates returned are not all that were given")
			return
		}
		cx.ob(false, at(in), "loadable pairs load", "an error may be returned although nothing failed")
	}
	cx.analyse(certs, R, func(e *Eng, st *State) { st.G["last"] = mkInt(-1) })
	cx.ob(cx.counts["pair_loads"] > 0 && cx.counts["certs_returns"] >= 3, certs.Pos(), "analysis completes", "too few paths: %v", cx.counts)
}
