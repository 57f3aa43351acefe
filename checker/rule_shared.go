package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&property{id: "C19", run: runC19,
		rule:   "Four parts, over everything sessions, statistics requests and background goroutines can reach (static calls, interface methods by class hierarchy, function values by signature). (1) Lockset dataflow from every entry into code that touches a table with a lock: each access to the table, its maps and their entries happens with that table's lock held, no lock is taken while held, released while not held or still held on a return, locks are not nested in opposite orders, and neither a return nor a store lets references into the table out, or per-connection references in. (2) Sharing taint from global variables and the session's shared parameters (base rules, certificates, logs), through fields, slices, maps, calls and appends: nothing shared is stored to, updated, deleted from, sorted, copied over, appended to in place or put into a shared container, except under (1). (3) No global variable is assigned in code that runs once connections are served. (4) For each goroutine a session starts, no field or variable it writes is used by the rest, and none it uses is written by the rest after it has started, without a channel or lock in between.",
		assume: []string{"expvar, net, os.File and crypto/tls values may be used concurrently", "no unsafe or reflection", "a file is written by one goroutine at a time by the operating system's append semantics (C29)"}})
}

const (
	shSelf  = 1 // the memory itself is shared
	shReach = 2 // it holds references to shared memory
	shTable = 4 // it belongs to a table with a lock
)

type sharing struct {
	cx      *Cx
	proc    *ssa.Function
	serving map[*ssa.Function]bool
	guarded map[string]bool // types that belong to tables with locks
	tables  map[string]bool // types that have locks
	val     map[ssa.Value]int
	ret     map[*ssa.Function][]int
	cell    map[string]int
	values  map[*ssa.Function]bool
	changed bool
	report  bool
	domain  map[*ssa.Function]bool
	outside map[string]bool // types of which shared values are made into interfaces
}

func runC19(cx *Cx) {
	s := &sharing{cx: cx, serving: map[*ssa.Function]bool{}, guarded: map[string]bool{}, tables: map[string]bool{}, val: map[ssa.Value]int{}, ret: map[*ssa.Function][]int{}, cell: map[string]int{}, values: map[*ssa.Function]bool{}, domain: map[*ssa.Function]bool{}, outside: map[string]bool{}}
	s.proc = cx.anchor("process", "(int,net.Conn,[]tls.Certificate,io.Writer,io.Writer,io.Writer,[]*Rule)()")
	s.findTables()
	s.findServing()
	for again := true; again; {
		s.changed = false
		for _, f := range cx.P.funcs {
			if s.serving[f] {
				s.fn(f)
			}
		}
		again = s.changed
	}
	s.report = true
	for _, f := range cx.P.funcs {
		if s.serving[f] {
			s.fn(f)
			cx.fns[fnName(f)] = true
		}
	}
	cx.count("functions_serving", len(s.serving))
	cx.count("shared_values", len(s.val))
	s.locksets()
	s.afterServing()
	s.goroutines()
	cx.ob(cx.counts["functions_serving"] > 60 && cx.counts["stores_checked"] > 50 && cx.counts["shared_values"] > 10, 0, "analysis completes", "too little found: %v", cx.counts)
}

func isLockType(t types.Type) bool {
	return inSet(typeStr(t), "sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex")
}

// findTables: types with a lock and the types their entries are made of.
func (s *sharing) findTables() {
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Map:
			add(u.Elem())
			add(u.Key())
		case *types.Named:
			if u.Obj().Pkg() != s.cx.P.pkg || s.guarded[typeStr(u)] {
				return
			}
			if st, ok := u.Underlying().(*types.Struct); ok {
				s.guarded[typeStr(u)] = true
				for i := 0; i < st.NumFields(); i++ {
					add(st.Field(i).Type())
				}
			} else {
				add(u.Underlying())
			}
		}
	}
	sc := s.cx.P.pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if isLockType(st.Field(i).Type()) {
				s.tables[typeStr(tn.Type())] = true
				add(tn.Type())
			}
		}
	}
	s.cx.count("table_types", len(s.tables))
}

// findServing: what runs once connections are served.
func (s *sharing) findServing() {
	P := s.cx.P
	s.serving[s.proc] = true
	work := []*ssa.Function{s.proc}
	add := func(f *ssa.Function) {
		if f != nil && P.isRepo(f) && !s.serving[f] {
			s.serving[f] = true
			work = append(work, f)
		}
	}
	// goroutines and statistics functions
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					add(g.Call.StaticCallee())
				}
				if c, ok := in.(*ssa.ChangeType); ok && typeStr(c.Type()) == "expvar.Func" {
					if mc, ok := c.X.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
					if g, ok := c.X.(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	inv := map[string]bool{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch g := (*op).(type) {
					case *ssa.Function:
						add(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					inv[ci.Common().Method.Name()] = true
				}
				// methods a library may call (String, Write, Error)
				if mi, ok := in.(*ssa.MakeInterface); ok {
					ms := P.prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						add(P.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
		if len(work) == 0 {
			for _, g := range P.funcs {
				if g.Signature.Recv() != nil && inv[g.Name()] {
					add(g)
				}
			}
		}
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if ok && !(isCall && *op == ci.Common().Value) {
						s.values[g] = true
					}
				}
			}
		}
	}
	// what main can reach before it serves makes shared values
	starts := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if starts[f] || !P.isRepo(f) {
			return
		}
		starts[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				if mc, ok := in.(*ssa.MakeClosure); ok && onlyStarted(mc) {
					continue
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					s.outside[typeStr(mi.X.Type())] = true
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(s.cx.anchor("main", ""))
	walk(P.ssa.Func("init"))
	for _, p := range s.proc.Params {
		t := typeStr(p.Type())
		if t == "net.Conn" || !refLike(p.Type()) {
			continue
		}
		s.set(p, shSelf|shReach)
	}
}

// onlyStarted: the closure is only used to start goroutines.
func onlyStarted(mc *ssa.MakeClosure) bool {
	n := 0
	for _, r := range *mc.Referrers() {
		g, ok := r.(*ssa.Go)
		if !ok || g.Call.Value != ssa.Value(mc) {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			return false
		}
		n++
	}
	return n > 0
}

func refLike(t types.Type) bool {
	if typeStr(t) == "time.Time" {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (s *sharing) set(v ssa.Value, f int) {
	if f != 0 && s.val[v]|f != s.val[v] {
		s.val[v] |= f
		s.changed = true
	}
}

func (s *sharing) setCell(k string, f int) {
	if f != 0 && s.cell[k]|f != s.cell[k] {
		s.cell[k] |= f
		s.changed = true
	}
}

func (s *sharing) get(v ssa.Value) int {
	switch x := v.(type) {
	case *ssa.Global:
		if x.Pkg == s.cx.P.ssa {
			return shSelf | shReach
		}
		return 0
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return 0
	}
	return s.val[v]
}

// owner: the struct type an address or reference points into.
func owner(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeStr(t)
}

// cellOf names what a load or store through an address of this package's
// own memory concerns.
func cellOf(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		st := derefType(x.X.Type())
		u, ok := st.Underlying().(*types.Struct)
		if !ok {
			return "?"
		}
		return "F:" + typeStr(st) + "." + u.Field(x.Field).Name()
	case *ssa.IndexAddr:
		return "E:" + typeStr(derefType(x.Type()))
	case *ssa.Alloc:
		return fmt.Sprintf("A:%s:%s", fnName(x.Parent()), x.Name())
	case *ssa.FreeVar:
		return "P:" + typeStr(derefType(x.Type()))
	}
	return "P:" + typeStr(derefType(a.Type()))
}

// through: what a load from memory with the flags f gives.
func (s *sharing) through(a ssa.Value, f int) int {
	out := 0
	if f&(shSelf|shReach) != 0 {
		out |= shSelf | shReach
	}
	if f&shTable != 0 {
		out = shTable
	}
	if x, ok := a.(*ssa.FieldAddr); ok && s.guarded[typeStr(derefType(x.X.Type()))] {
		return shTable
	}
	return out
}

func (s *sharing) elems(f int) int {
	if f&shTable != 0 {
		return shTable
	}
	if f != 0 {
		return shSelf | shReach
	}
	return 0
}

func (s *sharing) stored(in ssa.Instruction, f int, where ssa.Value, what string) bool {
	if s.report {
		s.cx.count("stores_checked", 1)
		s.cx.obligations++
	}
	if f&shTable != 0 {
		return true
	}
	if x, ok := where.(*ssa.FieldAddr); ok && s.guarded[typeStr(derefType(x.X.Type()))] {
		return true
	}
	if f&shSelf == 0 {
		return false
	}
	if s.report {
		s.cx.viol(at(in), "shared memory is not changed", "%s %s memory that all connections share", fnName(in.Parent()), what)
	}
	return true
}

func (s *sharing) targets(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	if c.IsInvoke() {
		for _, g := range s.cx.P.funcs {
			if r := g.Signature.Recv(); r != nil && g.Name() == c.Method.Name() {
				if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(r.Type(), it) {
					out = append(out, g)
				}
			}
		}
		return out
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, g := range s.cx.P.funcs {
		if (s.values[g] || g.Parent() != nil) && types.Identical(g.Signature, c.Signature()) {
			out = append(out, g)
		}
	}
	return out
}

// clipped: appending to the slice never writes into its own array.
func clipped(v ssa.Value) bool {
	if sl, ok := v.(*ssa.Slice); ok && sl.Max != nil && sl.High != nil {
		if sl.Max == sl.High {
			return true
		}
		a, ok1 := sl.Max.(*ssa.Call)
		b, ok2 := sl.High.(*ssa.Call)
		if ok1 && ok2 && len(a.Call.Args) == 1 && len(b.Call.Args) == 1 && a.Call.Args[0] == b.Call.Args[0] {
			x, ok1 := a.Call.Value.(*ssa.Builtin)
			y, ok2 := b.Call.Value.(*ssa.Builtin)
			return ok1 && ok2 && x.Name() == "len" && y.Name() == "len"
		}
		c1, ok1 := sl.Max.(*ssa.Const)
		c2, ok2 := sl.High.(*ssa.Const)
		return ok1 && ok2 && c1.Int64() == c2.Int64()
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && f.Origin() != nil {
			f = f.Origin()
			return f.Pkg != nil && f.Pkg.Pkg.Path() == "slices" && f.Name() == "Clip"
		}
	}
	return false
}

func (s *sharing) fn(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s.instr(f, in)
		}
	}
}

func (s *sharing) touch(f *ssa.Function, v ssa.Value) {
	if s.get(v)&shTable != 0 {
		s.domain[f] = true
	}
	if x, ok := v.(*ssa.FieldAddr); ok && s.guarded[typeStr(derefType(x.X.Type()))] {
		s.domain[f] = true
	}
}

func (s *sharing) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.set(x, s.get(e))
		}
	case *ssa.ChangeType:
		s.set(x, s.get(x.X))
	case *ssa.MakeInterface:
		if t := typeStr(x.X.Type()); s.get(x.X) != 0 && !s.outside[t] {
			s.outside[t] = true
			s.changed = true
		}
		s.set(x, s.get(x.X))
	case *ssa.ChangeInterface:
		s.set(x, s.get(x.X))
	case *ssa.TypeAssert:
		if refLike(x.Type()) {
			s.set(x, s.get(x.X))
		}
	case *ssa.Convert:
		if refLike(x.Type()) && refLike(x.X.Type()) {
			s.set(x, s.get(x.X))
		}
	case *ssa.Slice:
		if refLike(x.X.Type()) {
			s.set(x, s.get(x.X))
		}
	case *ssa.FieldAddr:
		if s.guarded[typeStr(derefType(x.X.Type()))] && s.get(x.X)&(shSelf|shTable) != 0 {
			s.set(x, shTable)
		} else {
			s.set(x, s.get(x.X))
		}
	case *ssa.IndexAddr:
		s.set(x, s.get(x.X))
	case *ssa.Field:
		if refLike(x.Type()) {
			s.set(x, s.elems(s.get(x.X)))
		}
	case *ssa.Index:
		if refLike(x.Type()) {
			s.set(x, s.elems(s.get(x.X)))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			s.touch(f, x.X)
			if refLike(x.Type()) {
				s.set(x, s.through(x.X, s.get(x.X))|s.cell[cellOf(x.X)])
			}
		case token.ARROW:
			if refLike(x.Type()) {
				s.set(x, s.cell["C:"+typeStr(x.X.Type())])
			}
		}
	case *ssa.Lookup:
		s.touch(f, x.X)
		if refLike(x.Type()) {
			s.set(x, s.elems(s.get(x.X))|s.cell["M:"+typeStr(x.X.Type())])
		}
	case *ssa.Range:
		s.touch(f, x.X)
		s.set(x, s.elems(s.get(x.X))|s.cell["M:"+typeStr(x.X.Type())])
	case *ssa.Next:
		if !x.IsString {
			s.set(x, s.get(x.Iter))
		}
	case *ssa.Extract:
		if refLike(x.Type()) {
			if c, ok := x.Tuple.(*ssa.Call); ok {
				for _, g := range s.targets(&c.Call) {
					if r := s.ret[g]; x.Index < len(r) {
						s.set(x, r[x.Index])
					}
				}
			} else {
				s.set(x, s.get(x.Tuple))
			}
		}
	case *ssa.Store:
		s.touch(f, x.Addr)
		s.putIn(x, x.Addr, x.Val)
		if !s.stored(x, s.get(x.Addr), x.Addr, "stores into") {
			if refLike(x.Val.Type()) {
				s.setCell(cellOf(x.Addr), s.get(x.Val))
			}
		}
	case *ssa.MapUpdate:
		s.touch(f, x.Map)
		s.putIn(x, x.Map, x.Value)
		if !s.stored(x, s.get(x.Map), x.Map, "changes a map in") {
			s.setCell("M:"+typeStr(x.Map.Type()), s.get(x.Value)|s.get(x.Key))
		}
	case *ssa.Send:
		s.setCell("C:"+typeStr(x.Chan.Type()), s.get(x.X))
	case *ssa.Return:
		r := s.ret[f]
		if r == nil {
			r = make([]int, len(x.Results))
			s.ret[f] = r
		}
		for i, v := range x.Results {
			if fl := s.get(v); refLike(v.Type()) && r[i]|fl != r[i] {
				r[i] |= fl
				s.changed = true
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, bv := range x.Bindings {
			if i < len(g.FreeVars) {
				s.set(g.FreeVars[i], s.get(bv))
				// captured cells
				s.setCell(cellOf(g.FreeVars[i]), s.cell[cellOf(bv)])
			}
		}
	case ssa.CallInstruction:
		s.callInstr(f, x)
	}
}

func (s *sharing) callInstr(f *ssa.Function, x ssa.CallInstruction) {
	c := x.Common()
	res, _ := x.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			base := s.get(c.Args[0])
			if !clipped(c.Args[0]) {
				s.stored(x, base, c.Args[0], "appends in place to")
			}
			fl := base
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			if refLike(el) && len(c.Args) > 1 && s.get(c.Args[1]) != 0 {
				fl |= shReach
			}
			if refLike(el) && len(c.Args) > 1 && s.get(c.Args[1])&shTable != 0 {
				fl |= shTable
			}
			s.set(res, fl)
		case "copy":
			s.touch(f, c.Args[0])
			if !s.stored(x, s.get(c.Args[0]), c.Args[0], "copies into") && refLike(c.Args[0].Type().Underlying().(*types.Slice).Elem()) {
				s.set(c.Args[0], s.get(c.Args[1])&shReach)
			}
		case "delete", "clear":
			s.touch(f, c.Args[0])
			s.stored(x, s.get(c.Args[0]), c.Args[0], "deletes from")
		case "len":
			s.touch(f, c.Args[0])
		}
		return
	}
	fns := s.targets(c)
	repo := false
	for _, g := range fns {
		if !s.cx.P.isRepo(g) {
			continue
		}
		repo = true
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, c.Args...)
		}
		for i, a := range args {
			if i == 0 && c.IsInvoke() && !s.outside[typeStr(g.Params[0].Type())] {
				continue // only sessions make such values
			}
			if i < len(g.Params) && refLike(g.Params[i].Type()) {
				s.set(g.Params[i], s.get(a))
			}
		}
		if res != nil && g.Signature.Results().Len() == 1 && refLike(res.Type()) {
			if r := s.ret[g]; len(r) == 1 {
				s.set(res, r[0])
			}
		}
	}
	if repo || len(fns) == 0 && !c.IsInvoke() {
		return
	}
	// library code
	name := ""
	if len(fns) > 0 {
		name = (&Eng{P: s.cx.P}).callName(fns[0])
		if o := fns[0].Origin(); o != nil {
			name = (&Eng{P: s.cx.P}).callName(o)
		}
	}
	for _, p := range []string{"sort.", "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap", "(*sync.Pool).Put", "(*atomic.Value).Store", "(*sync/atomic.Value).Store", "(*bytes.Buffer).", "(*strings.Builder).", "(*bufio.", "(*container/list.List).", "(*list.List).", "sync/atomic.Store", "atomic.Store", "maps.Copy", "io.ReadFull"} {
		if strings.HasPrefix(name, p) && len(c.Args) > 0 && !strings.HasSuffix(name, ").Len") && !strings.HasPrefix(name, "sort.Search") && !strings.Contains(name, "AreSorted") && !strings.Contains(name, "IsSorted") {
			s.touch(f, c.Args[0])
			s.stored(x, s.get(c.Args[0]), c.Args[0], "changes (by "+name+")")
		}
	}
	if res == nil {
		return
	}
	for _, a := range c.Args {
		if types.Identical(a.Type(), res.Type()) && refLike(res.Type()) {
			fl := s.get(a)
			if strings.HasPrefix(name, "slices.Clone") || strings.HasPrefix(name, "maps.Clone") {
				fl &^= shSelf
				if !strings.HasPrefix(name, "maps") && !refLike(a.Type().Underlying().(*types.Slice).Elem()) {
					fl = 0
				}
			}
			s.set(res, fl)
		}
	}
}

// afterServing: what main does once it has started serving.
func (s *sharing) afterServing() {
	cx := s.cx
	serves := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		return g != nil && reaches(cx.P, g, s.proc)
	}
	// functions that assign global variables
	writes := map[*ssa.Function]ssa.Instruction{}
	root := func(v ssa.Value) *ssa.Global {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Global:
				if x.Pkg == cx.P.ssa {
					return x
				}
				return nil
			default:
				return nil
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range cx.P.funcs {
			if writes[f] != nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && root(st.Addr) != nil {
						writes[f] = in
						again = true
					}
					if ci, ok := in.(*ssa.Call); ok {
						if g := ci.Call.StaticCallee(); g != nil && writes[g] != nil && writes[f] == nil {
							writes[f] = writes[g]
							again = true
						}
					}
				}
			}
		}
	}
	found := 0
	for _, f := range cx.P.funcs {
		if f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				if !serves(in) {
					continue
				}
				found++
				check := func(in ssa.Instruction) {
					cx.obligations++
					cx.count("instructions_after_serving", 1)
					if st, ok := in.(*ssa.Store); ok {
						if g := root(st.Addr); g != nil {
							cx.viol(at(in), "settings do not change", "%s is assigned once connections are being served", g.Name())
						}
					}
					if ci, ok := in.(*ssa.Call); ok {
						if g := ci.Call.StaticCallee(); g != nil && writes[g] != nil {
							cx.viol(at(in), "settings do not change", "%s assigns a global variable (at %s) once connections are being served", fnName(g), cx.P.pos(at(writes[g])))
						}
					}
				}
				seen := map[*ssa.BasicBlock]bool{}
				var walk func(b *ssa.BasicBlock)
				walk = func(b *ssa.BasicBlock) {
					if seen[b] {
						return
					}
					seen[b] = true
					for _, in := range b.Instrs {
						check(in)
					}
					for _, n := range b.Succs {
						walk(n)
					}
				}
				for _, in := range b.Instrs[i+1:] {
					check(in)
				}
				for _, n := range b.Succs {
					walk(n)
				}
			}
		}
	}
	cx.ob(found > 0, 0, "analysis completes", "where sessions are started was not found")
}

// goroutines started by sessions.
func (s *sharing) goroutines() {
	cx := s.cx
	closure := func(fs ...*ssa.Function) map[*ssa.Function]bool {
		out := map[*ssa.Function]bool{}
		work := fs
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			if out[f] || !cx.P.isRepo(f) {
				continue
			}
			out[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						// its own goroutine; arguments are values
						_ = g
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && onlyStarted(mc) {
						continue
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							work = append(work, g)
						}
					}
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
						work = append(work, s.targets(ci.Common())...)
					}
				}
			}
		}
		return out
	}
	type use struct{ r, w []ssa.Instruction }
	uses := func(fs map[*ssa.Function]bool, skip func(in ssa.Instruction) bool) map[string]*use {
		out := map[string]*use{}
		for _, f := range cx.P.funcs {
			if !fs[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if skip != nil && skip(in) {
						continue
					}
					var a ssa.Value
					w := false
					switch x := in.(type) {
					case *ssa.Store:
						a, w = x.Addr, true
					case *ssa.UnOp:
						if x.Op == token.MUL {
							a = x.X
						}
					}
					fa, ok := a.(*ssa.FieldAddr)
					if !ok || s.guarded[typeStr(derefType(fa.X.Type()))] {
						continue
					}
					if al, ok := fa.X.(*ssa.Alloc); ok && !al.Heap {
						continue // a value on the stack
					}
					k := cellOf(fa)
					if out[k] == nil {
						out[k] = &use{}
					}
					if w {
						out[k].w = append(out[k].w, in)
					} else {
						out[k].r = append(out[k].r, in)
					}
				}
			}
		}
		return out
	}
	for _, f := range cx.P.funcs {
		if !s.serving[f] {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				fn := g.Call.StaticCallee()
				if fn == nil || !cx.P.isRepo(fn) {
					continue
				}
				cx.count("goroutines_of_sessions", 1)
				mine := closure(fn)
				rest := closure(s.proc)
				for h := range closure(f) {
					rest[h] = true
				}
				for h := range mine {
					if !closure(s.proc)[h] {
						delete(rest, h)
					}
				}
				// initialization before the start
				before := map[ssa.Instruction]bool{}
				for _, p := range b.Instrs[:i] {
					before[p] = true
				}
				for d := b.Idom(); d != nil; d = d.Idom() {
					for _, p := range d.Instrs {
						before[p] = true
					}
				}
				skip := func(in ssa.Instruction) bool { return before[in] }
				mu, ru := uses(mine, nil), uses(rest, skip)
				keys := []string{}
				for k := range mu {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					o := ru[k]
					if o == nil {
						continue
					}
					cx.obligations++
					if len(mu[k].w) > 0 && len(o.r)+len(o.w) > 0 {
						x := append(append([]ssa.Instruction{}, o.w...), o.r...)[0]
						cx.viol(at(x), "goroutines do not share unlocked data", "%s is used here while the goroutine started at %s writes it (at %s)", k[2:], cx.P.pos(at(in)), cx.P.pos(at(mu[k].w[0])))
					} else if len(mu[k].r) > 0 && len(o.w) > 0 {
						cx.viol(at(o.w[0]), "goroutines do not share unlocked data", "%s is written here while the goroutine started at %s uses it (at %s)", k[2:], cx.P.pos(at(in)), cx.P.pos(at(mu[k].r[0])))
					}
				}
				s.captured(f, g)
			}
		}
	}
}

// captured: variables a started closure shares with its starter.
func (s *sharing) captured(f *ssa.Function, g *ssa.Go) {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	fn := mc.Fn.(*ssa.Function)
	after := map[ssa.Instruction]bool{}
	sync := false
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		if from == 0 {
			if seen[b] {
				return
			}
			seen[b] = true
		}
		for _, in := range b.Instrs[from:] {
			after[in] = true
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				sync = true
			}
			if _, ok := in.(*ssa.Select); ok {
				sync = true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && strings.HasSuffix((&Eng{P: s.cx.P}).callName(h), "WaitGroup).Wait") {
					sync = true
				}
			}
		}
		for _, n := range b.Succs {
			walk(n, 0)
		}
	}
	for i, in := range g.Block().Instrs {
		if in == ssa.Instruction(g) {
			walk(g.Block(), i+1)
		}
	}
	if sync {
		return
	}
	touches := func(refs *[]ssa.Instruction, in func(ssa.Instruction) bool) (r, w bool) {
		if refs == nil {
			return
		}
		for _, x := range *refs {
			if !in(x) {
				continue
			}
			switch y := x.(type) {
			case *ssa.Store:
				w = true
				_ = y
			case *ssa.MakeClosure:
			default:
				r = true
			}
		}
		return
	}
	for i, bv := range mc.Bindings {
		a, ok := bv.(*ssa.Alloc)
		if !ok || i >= len(fn.FreeVars) {
			continue
		}
		s.cx.obligations++
		r1, w1 := touches(fn.FreeVars[i].Referrers(), func(ssa.Instruction) bool { return true })
		r2, w2 := touches(a.Referrers(), func(in ssa.Instruction) bool { return after[in] })
		if w1 && (r2 || w2) || r1 && w2 {
			s.cx.viol(at(g), "goroutines do not share unlocked data", "the variable %s is used by the goroutine started here and by the code after it, and one of them writes it", a.Comment)
		}
	}
}

// putIn: a reference put into a table must be the table's own.
func (s *sharing) putIn(in ssa.Instruction, where, v ssa.Value) {
	if !s.report || !refLike(v.Type()) {
		return
	}
	tab := s.get(where)&shTable != 0
	if x, ok := where.(*ssa.FieldAddr); ok && s.guarded[typeStr(derefType(x.X.Type()))] {
		tab = true
	}
	if !tab {
		return
	}
	s.cx.obligations++
	seen := map[ssa.Value]bool{}
	var own func(v ssa.Value) bool
	own = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if s.get(v)&shTable != 0 || s.guarded[typeStr(derefType(v.Type()))] || s.guarded[typeStr(v.Type())] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.Function, *ssa.MakeChan:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !own(e) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			return own(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return own(x.Call.Args[0]) && !refLike(x.Type().Underlying().(*types.Slice).Elem())
			}
		}
		return isLockType(v.Type())
	}
	if !own(v) {
		s.cx.viol(at(in), "connections keep their data to themselves", "%s puts a reference to a connection's own data (%s) into a table all connections share", fnName(in.Parent()), typeStr(v.Type()))
	}
}

// intoTable: v is the address of a part of a table.
func (s *sharing) intoTable(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return s.tables[typeStr(derefType(x.X.Type()))] && !isLockType(derefType(x.Type())) || s.intoTable(x.X, seen)
	case *ssa.IndexAddr:
		return s.intoTable(x.X, seen)
	case *ssa.MakeInterface:
		return s.intoTable(x.X, seen)
	case *ssa.ChangeType:
		return s.intoTable(x.X, seen)
	case *ssa.ChangeInterface:
		return s.intoTable(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s.intoTable(e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		// a local variable has what is stored to it
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) && s.intoTable(st.Val, seen) {
					return true
				}
			}
		}
	case *ssa.MakeClosure:
		for _, e := range x.Bindings {
			if s.intoTable(e, seen) {
				return true
			}
		}
	}
	return false
}

func lockOp(n string) string {
	for _, o := range []string{"Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock"} {
		if strings.HasSuffix(n, "sync.Mutex)."+o) || strings.HasSuffix(n, "sync.RWMutex)."+o) || n == "(sync.Locker)."+o {
			return o
		}
	}
	return ""
}

// locksets: tables are used only with their lock held.
func (s *sharing) locksets() {
	cx := s.cx
	for f := range s.serving {
		if len(cx.callees(f, func(n string) bool { return lockOp(n) != "" })) > 0 {
			s.domain[f] = true
		}
	}
	entry := map[*ssa.Function]bool{}
	for f := range s.serving {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					_, isGo := in.(*ssa.Go)
					for _, g := range s.targets(ci.Common()) {
						if s.domain[g] && (!s.domain[f] || isGo) {
							entry[g] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && s.domain[g] && !(isCall && *op == ci.Common().Value) {
						entry[g] = true
					}
				}
			}
		}
	}
	for _, f := range cx.P.funcs {
		if s.domain[f] && (f == s.proc || s.values[f]) {
			entry[f] = true
		}
	}
	order := map[[2]string]token.Pos{}
	var es []*ssa.Function
	for _, f := range cx.P.funcs {
		if entry[f] {
			es = append(es, f)
		}
	}
	for _, f := range es {
		s.lockRun(f, order)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					for _, v := range r.Results {
						cx.obligations++
						if s.get(v)&shTable != 0 && refLike(v.Type()) || s.intoTable(v, map[ssa.Value]bool{}) {
							cx.viol(at(in), "tables are not handed out", "%s returns a reference into a table to code that does not hold its lock", fnName(f))
						}
					}
				}
			}
		}
	}
	for k, pos := range order {
		if p2, ok := order[[2]string{k[1], k[0]}]; ok && (k[0] < k[1] || k[0] == k[1]) {
			cx.viol(pos, "locks are not nested in opposite orders", "%s is taken while %s is held here, the other way round at %s", k[1], k[0], cx.P.pos(p2))
		}
	}
	cx.count("table_entry_points", len(es))
	cx.count("table_functions", len(s.domain))
	if len(s.tables) > 0 {
		cx.ob(len(es) > 0, 0, "analysis completes", "nothing uses the tables")
	}
}

func (s *sharing) lockRun(f *ssa.Function, order map[[2]string]token.Pos) {
	cx := s.cx
	R := &Rule{Name: cx.id}
	R.Interesting = func(n string) bool {
		if lockOp(n) != "" {
			return true
		}
		for g := range s.domain {
			if fnName(g) == n {
				return true
			}
		}
		return false
	}
	R.Atomic = func(g *ssa.Function, name string) bool { return !s.domain[g] && cx.recursive(g) }
	internal := map[*Term]*Term{}
	held := func(st *State) []string {
		var out []string
		for _, k := range sortedKeys(st.A) {
			if strings.HasPrefix(k, "lk:") && st.A[k] != "" {
				out = append(out, k)
			}
		}
		return out
	}
	tableOf := func(st *State, a *Term) *Term {
		for a != nil && (a.op == "faddr" || a.op == "iaddr") {
			if i := strings.LastIndex(a.aux, "."); a.op == "faddr" && i >= 0 && s.tables[a.aux[:i]] {
				return st.norm(a.args[0])
			}
			a = a.args[0]
		}
		return nil
	}
	lockName := func(st *State, a *Term) string {
		a = st.norm(a)
		if b := tableOf(st, a); b != nil {
			return "lk:" + b.String()
		}
		return "lk:" + a.String()
	}
	need := func(st *State, in ssa.Instruction, base *Term, write bool, what string) {
		cx.obligations++
		cx.count("table_accesses", 1)
		if base != nil {
			r := rootOf(base)
			if r.op == "alloc" && !st.esc[r] {
				return
			}
			m := st.A["lk:"+base.String()]
			if m == "w" || m == "r" && !write {
				return
			}
		} else {
			for _, k := range held(st) {
				if st.A[k] == "w" || !write {
					return
				}
			}
		}
		how := "held"
		if base != nil && st.A["lk:"+base.String()] == "r" {
			how = "held for writing"
		}
		cx.violPath(at(in), "tables are used under their lock", cx.path(st), "%s without its lock %s", what, how)
	}
	access := func(e *Eng, st *State, in ssa.Instruction, addr *Term, write bool) *Term {
		if addr.op != "faddr" {
			return nil
		}
		i := strings.LastIndex(addr.aux, ".")
		if i < 0 {
			return nil
		}
		what := addr.aux + " is read"
		if write {
			what = addr.aux + " is written"
		}
		base := tableOf(st, addr)
		if base == nil && !s.guarded[addr.aux[:i]] {
			return nil
		}
		if base == nil {
			r := rootOf(addr)
			if r.op == "alloc" && !st.esc[r] {
				return nil
			}
			for t, b := range internal {
				if mentions(addr, t) {
					base = b
				}
			}
		}
		need(st, in, base, write, what)
		return base
	}
	isLockField := func(addr *Term) bool {
		return addr.typ != nil && isLockType(derefType(addr.typ))
	}
	R.OnLoad = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if isLockField(addr) {
			return
		}
		if b := access(e, st, in, addr, false); b != nil && val != nil && refLike(val.typ) {
			internal[val] = b
		}
	}
	R.OnStore = func(e *Eng, st *State, in ssa.Instruction, addr, val *Term) {
		if !isLockField(addr) {
			access(e, st, in, addr, true)
		}
	}
	mapUse := func(e *Eng, st *State, in ssa.Instruction, m ssa.Value, write bool, what string) {
		if s.get(m)&shTable == 0 {
			return
		}
		need(st, in, internal[st.norm(e.val(st, m))], write, what)
	}
	R.OnInstr = func(e *Eng, st *State, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Lookup:
			mapUse(e, st, in, x.X, false, "a table's map is read")
		case *ssa.Range:
			mapUse(e, st, in, x.X, false, "a table's map is read")
		case *ssa.Next:
			if !x.IsString && s.get(x.Iter)&shTable != 0 {
				need(st, in, nil, false, "a table's map is read")
			}
		case *ssa.MapUpdate:
			mapUse(e, st, in, x.Map, true, "a table's map is changed")
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len":
					mapUse(e, st, in, x.Call.Args[0], false, "a table's map is read")
				case "delete", "clear":
					mapUse(e, st, in, x.Call.Args[0], true, "a table's map is changed")
				}
			}
		}
	}
	R.OnCall = func(e *Eng, st *State, c *Call) bool {
		op := lockOp(c.name)
		if op == "" {
			return false
		}
		k := lockName(st, c.args[0])
		cx.obligations++
		cx.count("lock_operations", 1)
		switch op {
		case "Lock", "RLock":
			if st.A[k] != "" {
				cx.violPath(c.pos(), "locks are not taken twice", cx.path(st), "the lock is taken while already held")
			}
			for _, h := range held(st) {
				if h != k {
					order[[2]string{lockType(h), lockType(k)}] = c.pos()
				}
			}
			st.A[k] = "w"
			if op == "RLock" {
				st.A[k] = "r"
			}
		case "Unlock", "RUnlock":
			if st.A[k] == "" {
				cx.violPath(c.pos(), "locks are released once", cx.path(st), "the lock is released while not held")
			}
			delete(st.A, k)
		case "TryLock", "TryRLock":
			m := "w"
			if op == "TryRLock" {
				m = "r"
			}
			c.forks = append(c.forks, func(x *State) []*Term { x.A[k] = m; return []*Term{tTrue} }, func(x *State) []*Term { return []*Term{tFalse} })
			return true
		}
		c.ret = []*Term{}
		return true
	}
	end := func(e *Eng, st *State, in ssa.Instruction) {
		cx.obligations++
		for _, k := range held(st) {
			cx.violPath(at(in), "locks are released on every path", cx.path(st), "a lock (%s) is still held on a return", strings.TrimPrefix(k, "lk:"))
		}
	}
	R.OnReturn = func(e *Eng, st *State, in ssa.Instruction, vals []*Term) { end(e, st, in) }
	R.OnPanic = func(e *Eng, st *State, in ssa.Instruction, v *Term) {}
	cx.analyse(f, R, func(e *Eng, st *State) {
		if r := f.Signature.Recv(); r != nil {
			if p := param(f, 0); p != nil && refLike(p.typ) {
				st.assume(mkEq(p, tNil, p.typ), false)
			}
		}
	})
}

func lockType(k string) string { return strings.TrimPrefix(k, "lk:") }
