package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C13", run: runC13,
		rule:   "Dataflow over loadList() with the file as an oracle (open fails; every read gives a pattern, comment or blank line, the last one with or without a newline, the end or an error): the list returned must be exactly the lower-cased patterns of a completely read file, and empty otherwise. Dataflow over getMatchList(), one run per kind of argument: lists come from this connection's cache or from loadList(), and only what was loaded is cached. Flow check of the matchers: the data compared with a pattern reaches a comparison only after strings.ToLower (or through case-insensitive functions). Session dataflow: the rules are evaluated with a context made, with an empty cache, for this connection.",
		assume: []string{"os.Open, bufio and strings functions behave as documented; a file's text is whatever the reads return"}})
}

func runC13(cx *Cx) {
	load := cx.anchor("loadList", "(string)([]string)")
	gml := cx.anchor("Context.getMatchList", "(*Context,string)([]string)")
	ctxT := cx.namedType("Context")
	str := types.Typ[types.String]
	strs := types.NewSlice(str)
	trim := func(x *Term) *Term { return mk("app", "strings.TrimSpace", 0, str, x) }
	lower := func(x *Term) *Term { return mk("app", "strings.ToLower", 0, str, x) }

	fname := param(load, 0)
	L := &lineSrc{cx: cx, classes: []string{"pattern", "comment", "blank"}}
	L.facts = func(s *State, class string, ln *Term) {
		for _, t := range []*Term{trim(ln), lower(trim(ln))} {
			s.assume(mkEq(t, mkStr(""), str), class == "blank")
			s.assume(eq0(mkLen(t)), class == "blank")
			s.assume(mk("app", "strings.HasPrefix", 0, types.Typ[types.Bool], t, mkStr("#")), class == "comment")
			if class != "blank" {
				s.assume(mkEq(charAt(t, mkInt(0)), mkInt('#'), types.Typ[types.Byte]), class == "comment")
			}
		}
	}
	L.endLine = func(s *State, c *Call) {
		if s.A["cls"] == "pattern" && s.A["failed"] == "" {
			cx.ob(false, c.pos(), "every pattern counts", "a pattern line is read and left out of the list")
		}
		cx.ob(s.A["failed"] == "", c.pos(), "a failed read ends the loading", "reading goes on after an error")
	}
	R := &Rule{Name: cx.id}
	R.Atomic = func(fn *ssa.Function, name string) bool { return name == "warnonce" || name == "warnf" }
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		if c.name == "os.Open" {
			cx.ob(st.eqTo(c.args[0], fname) && st.A["open"] == "", c.pos(), "the named file is opened", "something other than the named file, once, is opened")
			L.open(e, c)
			return true
		}
		if c.name == "builtin.append" && len(c.args) > 1 && typeStr(c.sig.Results().At(0).Type()) == "[]string" {
			x := e.snapshot(st, c.args[1])
			if x.op == "slicelit" && len(x.args) == 1 {
				ok := st.A["cls"] == "pattern" && st.eqTo(x.args[0], lower(trim(st.G["line"])))
				cx.ob(ok, c.pos(), "patterns are taken as written, in lower case", "something other than the lower-cased, trimmed text of a pattern line is put on the list (line: %q)", st.A["cls"])
				if ok {
					st.A["cls"] = "pattern+"
					cx.ob(st.grow("want", c, x), c.pos(), "the list keeps all patterns", "a pattern is not added to those before it")
				}
				cx.count("patterns_added", 1)
			}
			return false
		}
		return L.call(e, st, c)
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
		cx.count("load_returns", 1)
		empty := st.isTrue(eq0(mkLen(vals[0]))) || vals[0].op == "nil"
		switch {
		case st.A["open"] == "":
			cx.ob(empty && st.isTrue(mkEq(fname, mkStr(""), str)), at(in), "the file is read", "a list is returned without the file having been read")
		case st.A["open"] == "failed":
			cx.ob(empty, at(in), "a missing file counts as empty", "a file that cannot be opened gives %v", vals[0])
		case st.A["failed"] != "":
			cx.ob(empty, at(in), "a file that fails part-way is not used", "a read error leaves a list in use: %v", vals[0])
		default:
			cx.ob(sawEnd(st), at(in), "the whole file is read", "reading stops before the end of the file")
			cx.ob(st.A["cls"] != "pattern", at(in), "every pattern counts", "a pattern line is read and left out of the list")
			cx.ob(st.grown("want", vals[0]), at(in), "the list is the file's patterns", "the list returned is not the list of patterns: %v, expected %v", vals[0], st.G["want"])
		}
	}
	cx.analyse(load, R, nil)
	cx.ob(cx.counts["patterns_added"] > 0 && cx.counts["line_reads"] > 0, load.Pos(), "analysis completes", "no path adds a pattern")

	// the list for an argument
	writers := map[*ssa.Function]bool{}
	for _, kind := range []string{"/", "./", "file:", ""} {
		kind := kind
		ctx, a := param(gml, 0), param(gml, 1)
		var fn []*Term
		switch kind {
		case "/", "./":
			fn = []*Term{a}
		case "file:":
			fn = []*Term{mk("app", "strings.TrimPrefix", 0, str, a, mkStr("file:")), mkSlice(a, mkInt(5), tNil, str), mk("extract", "0", 0, str, mk("app", "strings.CutPrefix", 0, nil, a, mkStr("file:")))}
		}
		isName := func(st *State, t *Term) bool {
			for _, x := range fn {
				if t == x || st.eqTo(t, x) || t.op == "extract" && t.aux == "0" && t.args[0].aux == "strings.CutPrefix" && t.args[0].args[0] == a {
					return true
				}
			}
			return false
		}
		R := &Rule{Name: cx.id}
		R.Atomic = func(fn *ssa.Function, name string) bool { return fn == load }
		fileOf := func(st *State) *Term { return cx.loadField(st, ctx, ctxT, "files") }
		R.OnCall = func(e *Eng, st *State, c *Call) bool {
			if c.fn == load {
				cx.ob(kind != "" && isName(st, c.args[0]) && st.G["loaded"] == nil, c.pos(), "the named file is loaded", "something other than the named file is loaded (argument kind %q)", kind)
				l := e.fresh(st, c.in, ".list", strs)
				st.G["loaded"] = l
				cx.count("file_loads", 1)
				for _, n := range []bool{true, false} {
					n := n
					c.forks = append(c.forks, func(s *State) []*Term {
						s.A["loaded"] = fmt.Sprintf("nil=%v", n)
						ok := s.assume(mkEq(l, tNil, strs), n)
						if n {
							ok = ok && s.assume(eq0(mkLen(l)), true)
						}
						if !ok {
							s.A["dead"] = "1"
						}
						return []*Term{l}
					})
				}
				return true
			}
			return false
		}
		good := func(st *State, v *Term) bool {
			l := st.G["loaded"]
			if l == nil {
				return false
			}
			return st.sameList(st.listParts(v), st.listParts(l)) || st.eqTo(v, l)
		}
		R.OnMapUp = func(e *Eng, st *State, in ssa.Instruction, m, k, v *Term) {
			if !st.eqTo(m, fileOf(st)) {
				return
			}
			cx.count("cache_writes", 1)
			cx.ob(isName(st, k) && good(st, v), at(in), "what is cached is what was loaded", "the cache entry for %v becomes %v, which is not what was loaded", k, v)
		}
		R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) {
			cx.count("lookup_returns", 1)
			v := vals[0]
			if kind == "" {
				ps := st.listParts(e.snapshot(st, v))
				cx.ob(len(ps) == 1 && st.eqTo(ps[0], lower(a)), at(in), "a pattern is used as written, in lower case", "for a pattern the list is %v", v)
				return
			}
			cached := v.op == "mapget" && st.eqTo(v.args[0], fileOf(st)) && isName(st, v.args[1]) && (st.isFalse(mkEq(v, tNil, v.typ)) || st.isFalse(eq0(mkLen(v))))
			if !cached && v.op == "mapget" {
				// present in the cache, known from the second result of the lookup
				_, ok := e.mapGet(st, v.args[0], v.args[1], ctxFilesType(cx), ctxFilesType(cx))
				cached = st.eqTo(v.args[0], fileOf(st)) && isName(st, v.args[1]) && ok != nil && st.isTrue(ok)
			}
			cx.ob(cached && st.G["loaded"] == nil || good(st, v), at(in), "a file's list is loaded or cached for this connection", "for a file the list is %v", v)
		}
		eng := cx.analyse(gml, R, func(e *Eng, st *State) {
			for _, p := range []string{"/", "./", "file:"} {
				hp := mk("app", "strings.HasPrefix", 0, types.Typ[types.Bool], a, mkStr(p))
				st.assume(hp, p == kind)
				st.assume(mk("extract", "1", 0, types.Typ[types.Bool], mk("app", "strings.CutPrefix", 0, types.NewTuple(types.NewVar(0, nil, "", str), types.NewVar(0, nil, "", types.Typ[types.Bool])), a, mkStr(p))), p == kind)
			}
			if kind == "" {
				return
			}
			st.assume(mkEq(a, mkStr(""), str), false)
		})
		for f := range eng.fnsSeen {
			writers[f] = true
		}
	}
	for _, k := range []string{"file_loads", "lookup_returns"} {
		cx.ob(cx.counts[k] > 0, gml.Pos(), "analysis completes", "no path found for %s", k)
	}
	cx.ctxCache("files", "pattern file", writers)

	// letter case of the data
	var nm int
	for _, f := range cx.P.addrTaken(types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", str), types.NewVar(0, nil, "", str)), types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)) {
		if !usedAsValue(cx.P, f) {
			continue
		}
		nm++
		cx.fns[fnName(f)] = true
		foldOnly(cx, f.Params[0], map[ssa.Value]bool{})
	}
	cx.counts["matchers"] = nm
	cx.ob(nm >= 3, gml.Pos(), "analysis completes", "only %d matchers found", nm)

	cx.ownContext("pattern files are read for this connection", gml)
}

// ownContext: the rules are only ever consulted with a context made for this
// connection.
func (cx *Cx) ownContext(rule string, f *ssa.Function) {
	ss := newSess(cx)
	ss.rule.OnInstr = keepContexts
	ss.onDecide = func(e *Eng, st *State, c *Call, res string) {
		cx.count("consultations", 1)
		ctx := paramOfTypeArg(ss.decide, c, "*Context")
		cx.ob(ctx != nil && ctx.op == "alloc" && !ctx.summ, c.pos(), rule, "the rules are evaluated in a context that was not made for this connection: %v", ctx)
	}
	ss.run()
	cx.ob(cx.counts["consultations"] > 0, f.Pos(), "analysis completes", "no consultation of the rules found")
}

// ctxCache: a map of the context starts out empty, is changed only by the
// functions given, and is not handed on.
func (cx *Cx) ctxCache(field, what string, writers map[*ssa.Function]bool) {
	makes := 0
	for _, f := range cx.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if ctxField(mu.Map) == field {
						cx.ob(writers[f], at(in), "only looking up fills the cache", "the cache of %ss is changed outside the analysed code", what)
					}
				}
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeStr(derefType(fa.X.Type())) == "Context" {
						if v := fieldOf(fa.X.Type(), fa.Field); v != nil && v.Name() == field {
							_, fresh := s.Val.(*ssa.MakeMap)
							makes++
							cx.ob(fresh, at(in), "the cache starts out empty", "a context's %s cache is not a new map", what)
						}
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && ctxField(u) == field && u.Referrers() != nil {
					for _, r := range *u.Referrers() {
						switch x := r.(type) {
						case *ssa.Lookup, *ssa.MapUpdate, *ssa.DebugRef, *ssa.BinOp:
						case ssa.CallInstruction:
							b, ok := x.Common().Value.(*ssa.Builtin)
							cx.ob(ok && b.Name() == "len", at(r), "the cache stays in its context", "the cache of %ss is passed on", what)
						default:
							cx.ob(false, at(r), "the cache stays in its context", "the cache of %ss is used other than by looking up and storing", what)
						}
					}
				}
			}
		}
	}
	cx.counts["cache_creations"] = makes
}

func ctxFilesType(cx *Cx) *types.Map {
	_, t := cx.fieldAddr(mkSym("x", nil), cx.namedType("Context"), "files")
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		cx.fail("anchor", "Context.files is not a map")
	}
	return m
}

// ctxField: v is the loaded value of a field of a Context.
func ctxField(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || typeStr(derefType(fa.X.Type())) != "Context" {
		return ""
	}
	if f := fieldOf(fa.X.Type(), fa.Field); f != nil {
		return f.Name()
	}
	return ""
}

// usedAsValue: the function is passed around, not just called.
func usedAsValue(P *Prog, f *ssa.Function) bool {
	for _, g := range P.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) && !(isCall && op == &ci.Common().Value) {
						return true
					}
				}
			}
		}
	}
	return false
}

// foldOnly: the text of v takes part in comparisons only in a form from which
// letter case has been removed.
func foldOnly(cx *Cx, v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	bad := func(in ssa.Instruction, how string) {
		cx.ob(false, at(in), "letter case does not matter", "data is compared with a pattern in its original letter case (%s)", how)
	}
	for _, r := range *v.Referrers() {
		cx.count("matcher_uses", 1)
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			foldOnly(cx, x, seen)
		case *ssa.BinOp:
			for _, o := range []ssa.Value{x.X, x.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value != nil && !caseful(constText(k)) {
					goto fine
				}
			}
			bad(r, x.Op.String())
		fine:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				foldOnly(cx, x, seen)
			}
		case ssa.CallInstruction:
			com := x.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			g := com.StaticCallee()
			if g == nil {
				bad(r, "dynamic call")
				continue
			}
			switch g.String() {
			case "strings.ToLower", "strings.EqualFold", "net.ParseIP", "net.ParseCIDR":
			case "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Trim", "strings.TrimRight", "strings.TrimLeft":
				if val, ok := x.(ssa.Value); ok {
					foldOnly(cx, val, seen)
				}
			case "strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.LastIndex", "strings.LastIndexByte", "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.Count":
				if k, ok := com.Args[1].(*ssa.Const); !ok || com.Args[0] != v || caseful(constText(k)) {
					bad(r, g.Name())
				}
			default:
				if cx.P.isRepo(g) {
					cx.fns[fnName(g)] = true
					for i, a := range com.Args {
						if a == v && i < len(g.Params) {
							foldOnly(cx, g.Params[i], seen)
						}
					}
					continue
				}
				bad(r, g.Name())
			}
		case *ssa.Slice:
			foldOnly(cx, x, seen)
		default:
			bad(r, fmt.Sprintf("%T", r))
		}
	}
}

func constText(k *ssa.Const) string {
	if k.Value == nil {
		return ""
	}
	t := mkConstVal(k.Value, k.Type())
	if s, ok := t.strVal(); ok {
		return s
	}
	if n, ok := t.intVal(); ok && n >= 0 && n < 0x110000 {
		return string(rune(n))
	}
	return k.Value.String()
}

// caseful: the text contains a character that has letter case.
func caseful(s string) bool {
	for _, r := range s {
		if r >= 128 || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			return true
		}
	}
	return false
}
