package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var epoch0 = mkSym("epoch0", nil)

func globalTerm(g *ssa.Global) *Term {
	t := mk("global", g.Name(), 0, g.Type())
	if g.Pkg != nil && g.Pkg.Pkg.Name() != "main" {
		t = mk("global", g.Pkg.Pkg.Path()+"."+g.Name(), 0, g.Type())
	}
	t.obj = g
	return t
}

func memTerm(addr, tag *Term, typ types.Type) *Term {
	return mk("mem", "", 0, typ, addr, tag)
}

// Ctx is an interned call string.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
	inLoop bool
}

type Frame struct {
	ctx    *Ctx
	blk    *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	defers []*deferred
	// for frames running a deferred call: return to the same instruction
	isDefer bool
}

type deferred struct {
	call *ssa.CallCommon
	in   ssa.Instruction
	fnv  *Term
	args []*Term
}

// State is one element of the disjunctive abstract domain.
type State struct {
	frames []*Frame
	heap   map[*Term]*Term
	epochs map[string]*Term
	facts  map[*Term]bool
	eqc    map[*Term]*Term
	A      map[string]string // rule automaton: always part of the key
	G      map[string]*Term  // rule ghost terms: renamed and joined like locations
	esc    map[*Term]bool    // escaped allocs
	trail  *Trail
}

type Trail struct {
	up   *Trail
	text string
	n    int
}

func (st *State) note(s string) {
	n := 1
	if st.trail != nil {
		n = st.trail.n + 1
	}
	st.trail = &Trail{up: st.trail, text: s, n: n}
}

func (st *State) trailText(max int) []string {
	var out []string
	for t := st.trail; t != nil && len(out) < max; t = t.up {
		out = append(out, t.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{trail: st.trail}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.heap = make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.epochs = make(map[string]*Term, len(st.epochs))
	for k, v := range st.epochs {
		n.epochs[k] = v
	}
	n.facts = make(map[*Term]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.eqc = make(map[*Term]*Term, len(st.eqc))
	for k, v := range st.eqc {
		n.eqc[k] = v
	}
	n.A = make(map[string]string, len(st.A))
	for k, v := range st.A {
		n.A[k] = v
	}
	n.G = make(map[string]*Term, len(st.G))
	for k, v := range st.G {
		n.G[k] = v
	}
	n.esc = make(map[*Term]bool, len(st.esc))
	for k, v := range st.esc {
		n.esc[k] = v
	}
	return n
}

// ---- categories and memory

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "sinksmtp" {
			return ""
		}
		return p.Name()
	})
}

func addrCat(a *Term) string {
	switch a.op {
	case "faddr":
		return "F:" + a.aux
	case "global":
		return "G:" + a.aux
	case "iaddr":
		return "I:" + a.aux
	case "alloc":
		return "A:" + a.aux
	case "melem", "mver":
		return "M:" + a.aux
	case "buf", "ghost":
		return "B:"
	}
	if a.typ != nil {
		return "P:" + typeStr(a.typ)
	}
	return "P:?"
}

func (st *State) epoch(cat string) *Term {
	if t, ok := st.epochs[cat]; ok {
		return t
	}
	if t, ok := st.epochs["*"]; ok {
		return t
	}
	return epoch0
}

func fieldOf(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}

func structName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeStr(t)
}

func mkFaddr(base *Term, structT types.Type, i int) *Term {
	f := fieldOf(structT, i)
	t := mk("faddr", structName(structT)+"."+f.Name(), 0, types.NewPointer(f.Type()), base)
	t.obj = i
	return t
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func mkStruct(typ types.Type, args []*Term) *Term {
	return mk("struct", typeStr(typ), 0, typ, args...)
}

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Kind() == types.UnsafePointer:
			return tNil
		}
		return mk("zero", typeStr(t), 0, t)
	case *types.Struct:
		if _, ok := structType(t); !ok {
			return mk("zero", typeStr(t), 0, t)
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroTerm(u.Field(i).Type()))
		}
		return mkStruct(t, as)
	case *types.Array:
		return mk("zero", typeStr(t), 0, t)
	}
	return tNil
}

func (st *State) load(addr *Term, typ types.Type) *Term {
	if su, ok := structType(typ); ok {
		if v, ok := st.heap[addr]; ok && v.op != "struct" {
			return v
		}
		if su.NumFields() == 0 {
			return mkStruct(typ, nil)
		}
		var as []*Term
		for i := 0; i < su.NumFields(); i++ {
			as = append(as, st.load(mkFaddr(addr, typ, i), su.Field(i).Type()))
		}
		// a struct made of exactly the fields of one symbolic value is that value
		if f0 := as[0]; f0.op == "field" {
			src := f0.args[0]
			same := true
			for i, a := range as {
				if a.op != "field" || a.args[0] != src || a.obj.(int) != i {
					same = false
				}
			}
			if same && src.typ != nil && types.Identical(src.typ, typ) {
				return src
			}
		}
		return mkStruct(typ, as)
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if addr.op == "iaddr" {
		l := addr.args[0]
		if l.op == "append" && l.args[0] == tNil {
			l = l.args[1]
		}
		if i, ok := addr.args[1].intVal(); ok && l.op == "slicelit" && i >= 0 && i < int64(len(l.args)) {
			return l.args[i]
		}
	}
	return memTerm(addr, st.epoch(addrCat(addr)), typ)
}

func rootOf(a *Term) *Term {
	for a.op == "faddr" || a.op == "iaddr" || a.op == "arrslice" {
		a = a.args[0]
	}
	return a
}

func (st *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "faddr" && b.op == "faddr" {
		if a.aux != b.aux {
			return false
		}
		return st.mayEqPtr(a.args[0], b.args[0])
	}
	if a.op == "iaddr" && b.op == "iaddr" {
		if a.aux != b.aux {
			return false
		}
		x, okx := a.args[1].intVal()
		y, oky := b.args[1].intVal()
		if okx && oky && x != y && a.args[0] == b.args[0] {
			return false
		}
		return st.mayEqPtr(rootOf(a.args[0]), rootOf(b.args[0]))
	}
	return false
}

func (st *State) mayEqPtr(x, y *Term) bool {
	if x == y {
		return true
	}
	if x.op == "faddr" && y.op == "faddr" || x.op == "iaddr" && y.op == "iaddr" {
		return st.mayAlias(x, y)
	}
	fresh := func(t *Term) bool { return t.op == "alloc" && !t.summ }
	if fresh(x) && fresh(y) {
		return false
	}
	if (fresh(x) && y.op == "global") || (fresh(y) && x.op == "global") || (x.op == "global" && y.op == "global") {
		return false
	}
	if x.op == "alloc" && y.op == "faddr" || x.op == "faddr" && y.op == "alloc" {
		// a variable of its own and a part of some other struct
		return false
	}
	if x.op != y.op && (x.op == "faddr" || y.op == "faddr") {
		// interior pointer vs object pointer of the same field category: an
		// embedded struct; distinct from a separate allocation
		if fresh(rootOf(x)) && fresh(rootOf(y)) {
			return rootOf(x) == rootOf(y)
		}
		return rootOf(x).op != "global" && rootOf(y).op != "global"
	}
	if fresh(x) && !st.esc[x] || fresh(y) && !st.esc[y] {
		return false
	}
	if fresh(x) && isInitial(y) || fresh(y) && isInitial(x) {
		return false
	}
	if v, ok := st.evalBool(mkEqRaw(x, y)); ok && !v {
		return false
	}
	return true
}

// isInitial: a value that existed before the analysed entry began.
func isInitial(t *Term) bool {
	switch t.op {
	case "sym":
		return strings.HasPrefix(t.aux, "P:")
	case "mem":
		return t.args[1] == epoch0 && isInitial(t.args[0])
	case "faddr", "iaddr":
		return isInitial(t.args[0])
	case "global":
		return true
	}
	return false
}

func (st *State) store(addr, val *Term, typ types.Type, tag string) {
	if su, ok := structType(typ); ok {
		if su.NumFields() == 0 {
			return
		}
		for i := 0; i < su.NumFields(); i++ {
			st.store(mkFaddr(addr, typ, i), mkField(val, i, su.Field(i).Name(), su.Field(i).Type()), su.Field(i).Type(), tag)
		}
		return
	}
	c := addrCat(addr)
	if addr.op == "faddr" || addr.op == "iaddr" {
		for a, v := range st.heap {
			if a != addr && addrCat(a) == c && st.mayAlias(a, addr) {
				if v == val {
					continue
				}
				st.heap[a] = mkSym(fmt.Sprintf("alias(%s@%d)", tag, a.id), v.typ)
			}
		}
		// unseen locations of this category may also change
		if r := rootOf(addr); !(r.op == "alloc" && !r.summ) {
			st.epochs[c] = mkSym("w"+tag, nil)
		}
		if addr.summ {
			return
		}
	}
	st.heap[addr] = val
	if val.op == "alloc" || val.op == "closure" || val.op == "iface" {
		if r := rootOf(addr); !(r.op == "alloc" && !st.esc[r]) {
			st.escape(val)
		} else {
			// stored inside a private object: escapes when that does
		}
	}
}

// escape marks an alloc (and what it holds) as reachable by others.
func (st *State) escape(t *Term) {
	for _, s := range t.syms {
		if s.op == "alloc" && !st.esc[s] {
			st.esc[s] = true
			for a, v := range st.heap {
				if rootOf(a) == s {
					st.escape(v)
				}
			}
		}
	}
}

// havocCat forgets everything in a category; later reads give values tagged
// with tag.
func (st *State) havocCat(cat string, tag *Term) {
	for a := range st.heap {
		if addrCat(a) == cat {
			delete(st.heap, a)
		}
	}
	st.epochs[cat] = tag
}

// havocObj forgets the contents of the object rooted at r.
func (st *State) havocObj(r *Term, tag *Term) {
	for a, v := range st.heap {
		if a.op == "buf" || a.op == "ghost" {
			continue
		}
		if rootOf(a) == r || (a.op == "melem" || a.op == "mver") && a.args[0] == r {
			st.heap[a] = memTerm(a, tag, v.typ)
		}
	}
}

// ---- renaming

func (st *State) rename(m map[*Term]*Term, drop func(*Term) bool) {
	for _, f := range st.frames {
		for k, v := range f.env {
			f.env[k] = substTerm(v, m)
		}
		for i, d := range f.defers {
			nd := *d
			if nd.fnv != nil {
				nd.fnv = substTerm(nd.fnv, m)
			}
			nd.args = append([]*Term(nil), d.args...)
			for j := range nd.args {
				nd.args[j] = substTerm(nd.args[j], m)
			}
			f.defers[i] = &nd
		}
	}
	nh := make(map[*Term]*Term, len(st.heap))
	for a, v := range st.heap {
		na := substTerm(a, m)
		if na.summ {
			continue
		}
		nh[na] = substTerm(v, m)
	}
	st.heap = nh
	for k, v := range st.epochs {
		st.epochs[k] = substTerm(v, m)
	}
	nf := make(map[*Term]bool, len(st.facts))
	for t, v := range st.facts {
		n := substTerm(t, m)
		if n.summ {
			continue
		}
		if n.op == "not" {
			n, v = n.args[0], !v
		}
		if n.isConst() {
			continue
		}
		nf[n] = v
	}
	st.facts = nf
	for k, v := range st.G {
		st.G[k] = substTerm(v, m)
	}
	ne := make(map[*Term]bool, len(st.esc))
	for t := range st.esc {
		ne[substTerm(t, m)] = true
	}
	st.esc = ne
	st.rebuildEqc()
}

func (st *State) uses(s *Term) bool {
	for _, f := range st.frames {
		for _, v := range f.env {
			if v.contains(s) {
				return true
			}
		}
		for _, d := range f.defers {
			if d.fnv != nil && d.fnv.contains(s) {
				return true
			}
			for _, a := range d.args {
				if a.contains(s) {
					return true
				}
			}
		}
	}
	for a, v := range st.heap {
		if a.contains(s) || v.contains(s) {
			return true
		}
	}
	for t := range st.facts {
		if t.contains(s) {
			return true
		}
	}
	for _, v := range st.G {
		if v.contains(s) {
			return true
		}
	}
	for _, v := range st.epochs {
		if v.contains(s) {
			return true
		}
	}
	return false
}

func withGen(s *Term, g int) *Term {
	return mkFull(&Term{op: s.op, aux: s.aux, gen: g, typ: s.typ, obj: s.obj})
}

// redefine makes room for a new most-recent instance of symbol s (gen 0).
func (st *State) redefine(s *Term) {
	if !st.uses(s) {
		return
	}
	m := map[*Term]*Term{s: withGen(s, 1)}
	g1 := withGen(s, 1)
	if st.uses(g1) {
		if s.typ != nil && isIntType(s.typ) {
			st.bridge(g1)
		}
		m[g1] = withGen(s, 2)
	}
	st.rename(m, nil)
}

// bridge keeps the order relations that hold by way of a number about to be
// forgotten.
func (st *State) bridge(g *Term) {
	type bound struct {
		t *Term // nil: zero
		c int64
	}
	var up, down []bound // g <= t+c, t <= g+c
	for t, v := range st.facts {
		if t.op != "lt0" && !(t.op == "eq0" && v) {
			continue
		}
		x, y, c, ok := diffForm(t.args[0])
		if !ok || x != g && y != g {
			continue
		}
		le := func(a, b *Term, c int64) { // a - b <= c
			if a == g {
				up = append(up, bound{b, c})
			} else {
				down = append(down, bound{a, c})
			}
		}
		switch {
		case t.op == "eq0":
			le(x, y, -c)
			le(y, x, c)
		case v:
			le(x, y, -c-1)
		default:
			le(y, x, c)
		}
	}
	if len(up)*len(down) > 64 {
		return
	}
	for _, d := range down {
		for _, u := range up {
			a, b := d.t, u.t
			if a == b {
				continue
			}
			if a == nil {
				a = mkInt(0)
			}
			if b == nil {
				b = mkInt(0)
			}
			// a - b <= d.c + u.c
			t := lt0(linAdd(linAdd(a, b, -1, types.Typ[types.Int]), mkInt(d.c+u.c+1), -1, types.Typ[types.Int]))
			if t.isConst() || t.contains(g) {
				continue
			}
			// explicitly, although it follows now
			if t.op == "not" {
				st.facts[t.args[0]] = false
			} else {
				st.facts[t] = true
			}
		}
	}
}

func (st *State) rebuildEqc() {
	st.eqc = map[*Term]*Term{}
	for t, v := range st.facts {
		if v {
			st.noteEq(t)
		}
	}
}

func (st *State) noteEq(t *Term) {
	switch t.op {
	case "eq":
		a, b := t.args[0], t.args[1]
		if a.isConst() || a == tNil {
			a, b = b, a
		}
		if b.isConst() || b == tNil {
			st.eqc[a] = b
		}
	case "eq0":
		l := t.args[0]
		if l.op != "lin" {
			st.eqc[l] = mkInt(0)
			if l.op == "app" && l.aux == "len" && l.args[0].typ != nil && isStringType(l.args[0].typ) {
				st.eqc[l.args[0]] = mkStr("")
			}
		} else if len(l.args) == 1 && (l.co[0] == 1 || l.co[0] == -1) {
			st.eqc[l.args[0]] = mkInt(-l.k * l.co[0])
		}
	}
}

// ---- facts

// norm replaces a term by a constant it is known to equal.
func (st *State) norm(t *Term) *Term {
	if t.isConst() || t == tNil {
		return t
	}
	if c, ok := st.eqc[t]; ok {
		return c
	}
	if isBoolType(t.typ) || t.op == "eq" || t.op == "eq0" || t.op == "lt0" || t.op == "lt" || t.op == "not" {
		if v, ok := st.evalBool(t); ok {
			return mkBool(v)
		}
	}
	return t
}

// deepNorm substitutes known constants everywhere in a term.
func (st *State) deepNorm(t *Term) *Term {
	if len(st.eqc) == 0 {
		return t
	}
	return substTerm(t, st.eqc)
}

func (st *State) evalBool(t *Term) (bool, bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if t.op == "not" {
		v, ok := st.evalBool(t.args[0])
		return !v, ok
	}
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case "app":
		// no error is of none of these kinds
		if errKind(t) && st.isTrue(mkEq(t.args[0], tNil, t.args[0].typ)) {
			return false, true
		}
	case "eq":
		a, b := st.normNB(t.args[0]), st.normNB(t.args[1])
		if a != t.args[0] || b != t.args[1] {
			ty := t.args[0].typ
			if ty == nil {
				ty = t.args[1].typ
			}
			n := mkEq(a, b, ty)
			if n != t {
				if v, ok := n.boolVal(); ok {
					return v, true
				}
				if n.op == "not" {
					if v, ok := st.facts[n.args[0]]; ok {
						return !v, true
					}
				}
				if v, ok := st.facts[n]; ok {
					return v, true
				}
			}
		}
		// string length reasoning: eq(x, "lit") false if x known empty
		if c, x := constSide(t); c != nil {
			if s, ok := c.strVal(); ok && s != "" {
				if v, ok := st.facts[eq0(mkLen(x))]; ok && v {
					return false, true
				}
			}
		}
	case "eq0":
		n := st.deepNormLin(t.args[0])
		if n != t.args[0] {
			r := eq0(n)
			if r != t {
				return st.evalBoolNum(r)
			}
		}
		// len(x)==0 is false if x equals a non-empty literal
		if l := t.args[0]; l.op == "app" && l.aux == "len" {
			if c, ok := st.eqc[l.args[0]]; ok {
				if s, ok := c.strVal(); ok {
					return s == "", true
				}
				if c == tNil {
					return true, true
				}
			}
		}
		return st.evalNum(t)
	case "lt0":
		n := st.deepNormLin(t.args[0])
		if n != t.args[0] {
			r := lt0(n)
			if r != t {
				return st.evalBoolNum(r)
			}
		}
		return st.evalNum(t)
	default:
		if c, ok := st.eqc[t]; ok {
			return c.boolVal()
		}
	}
	return false, false
}

func (st *State) normNB(t *Term) *Term {
	if t.isConst() || t == tNil {
		return t
	}
	if c, ok := st.eqc[t]; ok {
		return c
	}
	if v, ok := st.facts[t]; ok {
		return mkBool(v)
	}
	return t
}

func constSide(t *Term) (*Term, *Term) {
	if t.args[0].isConst() {
		return t.args[0], t.args[1]
	}
	if t.args[1].isConst() {
		return t.args[1], t.args[0]
	}
	return nil, nil
}

func (st *State) evalBoolNum(r *Term) (bool, bool) {
	if b, ok := r.boolVal(); ok {
		return b, true
	}
	neg := false
	if r.op == "not" {
		r, neg = r.args[0], true
	}
	if v, ok := st.facts[r]; ok {
		return v != neg, true
	}
	v, ok := st.evalNum(r)
	return v != neg, ok
}

func (st *State) deepNormLin(l *Term) *Term {
	m, k := linOf(l)
	ch := false
	nm := map[*Term]int64{}
	for t, c := range m {
		if e, ok := st.eqc[t]; ok {
			if v, ok := e.intVal(); ok {
				k += c * v
				ch = true
				continue
			}
		}
		// len(x) with x known constant
		if t.op == "app" && t.aux == "len" {
			if e, ok := st.eqc[t.args[0]]; ok {
				if s, ok := e.strVal(); ok {
					k += c * int64(len(s))
					ch = true
					continue
				}
				if e == tNil {
					ch = true
					continue
				}
			}
		}
		nm[t] += c
	}
	if !ch {
		return l
	}
	return linMake(nm, k, l.typ)
}

// evalNum decides lt0/eq0 atoms with the difference-bound closure of the facts.
func (st *State) evalNum(t *Term) (bool, bool) {
	d := st.dbm(t)
	l := t.args[0]
	x, y, c, ok := diffForm(l) // l = x - y + c
	if !ok {
		return false, false
	}
	up, okU := d.upper(x, y) // x-y <= up
	lo, okL := d.upper(y, x) // y-x <= lo, i.e. x-y >= -lo
	switch t.op {
	case "lt0":
		if okU && up+c < 0 {
			return true, true
		}
		if okL && -lo+c >= 0 {
			return false, true
		}
	case "eq0":
		if okU && up+c < 0 || okL && -lo+c > 0 {
			return false, true
		}
		if okU && okL && up+c == 0 && -lo+c == 0 {
			return true, true
		}
	}
	return false, false
}

// diffForm: l = x - y + c with x or y possibly nil (zero).
func diffForm(l *Term) (x, y *Term, c int64, ok bool) {
	if l.op != "lin" {
		return l, nil, 0, true
	}
	c = l.k
	switch len(l.args) {
	case 1:
		if l.co[0] == 1 {
			return l.args[0], nil, c, true
		}
		if l.co[0] == -1 {
			return nil, l.args[0], c, true
		}
	case 2:
		if l.co[0] == 1 && l.co[1] == -1 {
			return l.args[0], l.args[1], c, true
		}
		if l.co[0] == -1 && l.co[1] == 1 {
			return l.args[1], l.args[0], c, true
		}
	}
	return nil, nil, 0, false
}

type dbm struct {
	edges map[[2]*Term]int64 // (x,y) -> c : x - y <= c
	nodes map[*Term]bool
}

func (d *dbm) add(x, y *Term, c int64) {
	k := [2]*Term{x, y}
	if o, ok := d.edges[k]; !ok || c < o {
		d.edges[k] = c
	}
	d.nodes[x] = true
	d.nodes[y] = true
}

func (d *dbm) upper(x, y *Term) (int64, bool) {
	// shortest path: x - y <= c composes x-z<=a, z-y<=b
	dist := map[*Term]int64{x: 0}
	for i := 0; i <= len(d.nodes)+1; i++ {
		ch := false
		for k, c := range d.edges {
			if b, ok := dist[k[0]]; ok {
				if o, ok := dist[k[1]]; !ok || b+c < o {
					dist[k[1]] = b + c
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	v, ok := dist[y]
	return v, ok
}

func (st *State) dbm(q *Term) *dbm {
	d := &dbm{edges: map[[2]*Term]int64{}, nodes: map[*Term]bool{}}
	type neq struct {
		x, y *Term
		c    int64
	}
	var neqs []neq
	// collect the terms relevant to the query (connected component)
	type ent struct {
		t *Term
		v bool
	}
	var nums []ent
	for t, v := range st.facts {
		if t.op == "lt0" || t.op == "eq0" {
			nums = append(nums, ent{t, v})
		}
	}
	for _, e := range nums {
		x, y, c, ok := diffForm(e.t.args[0])
		if !ok {
			continue
		}
		if e.t.op == "lt0" {
			if e.v {
				d.add(x, y, -c-1)
			} else {
				d.add(y, x, c)
			}
		} else if e.v {
			d.add(x, y, -c)
			d.add(y, x, c)
		} else {
			neqs = append(neqs, neq{x, y, -c})
			d.nodes[x] = true
			d.nodes[y] = true
		}
	}
	x, y, _, ok := diffForm(q.args[0])
	if ok {
		d.nodes[x] = true
		d.nodes[y] = true
	}
	// axioms
	var ns []*Term
	for n := range d.nodes {
		if n != nil {
			ns = append(ns, n)
		}
	}
	for i := 0; i < len(ns); i++ {
		n := ns[i]
		if isNonNeg(n) {
			d.add(nil, n, 0)
		}
		if n.op == "app" && strings.HasPrefix(n.aux, "strings.") && (strings.HasPrefix(n.aux, "strings.Index") || strings.HasPrefix(n.aux, "strings.LastIndex")) {
			d.add(nil, n, 1) // n >= -1
			ln := mkLen(n.args[0])
			// n - len <= -1 unless an empty substring is searched for
			off := int64(-1)
			if strings.HasSuffix(n.aux, "Index") {
				if s, ok := n.args[1].strVal(); ok && s != "" {
					off = -int64(len(s))
				} else {
					off = 0
				}
			}
			lx, ly, lc, ok := diffForm(ln)
			if ok && ly == nil {
				if !d.nodes[lx] && lx != nil {
					ns = append(ns, lx)
				}
				// n - (lx + lc) <= off
				d.add(n, lx, off+lc)
			}
		}
	}
	for round := 0; round < 4; round++ {
		ch := false
		for _, q := range neqs {
			if up, ok := d.upper(q.x, q.y); ok && up == q.c {
				d.add(q.x, q.y, q.c-1)
				ch = true
			}
			if lo, ok := d.upper(q.y, q.x); ok && -lo == q.c {
				d.add(q.y, q.x, -(q.c + 1))
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return d
}

// errKind: t asks for the kind of an error, which is false for nil.
func errKind(t *Term) bool {
	if t.op != "app" {
		return false
	}
	switch t.aux {
	case "os.IsExist", "os.IsNotExist", "os.IsPermission":
		return len(t.args) == 1
	}
	return false
}

// assume adds a literal; false if it contradicts what is known.
func (st *State) assume(t *Term, v bool) bool {
	if t.op == "not" {
		t, v = t.args[0], !v
	}
	if b, ok := st.evalBool(t); ok {
		return b == v
	}
	st.facts[t] = v
	if v {
		st.noteEq(t)
	}
	if v && errKind(t) {
		return st.assume(mkEq(t.args[0], tNil, t.args[0].typ), false)
	}
	return true
}

// ---- digest and key

func (st *State) digest() string {
	var sb strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&sb, "[%d.%d.%d", f.ctx.id, f.blk.Index, f.idx)
		var ks []string
		for k, v := range f.env {
			ks = append(ks, fmt.Sprintf("%s=%d", k.Name(), v.id))
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ";d%p", d.in)
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
		sb.WriteString("]")
	}
	sb.WriteString(mapDigest(st.heap))
	var es []string
	for k, v := range st.epochs {
		es = append(es, fmt.Sprintf("%s=%d", k, v.id))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ","))
	sb.WriteString("|")
	sb.WriteString(st.factDigest())
	for _, k := range sortedKeys(st.A) {
		fmt.Fprintf(&sb, ";%s=%s", k, st.A[k])
	}
	var gs []string
	for k, v := range st.G {
		gs = append(gs, fmt.Sprintf("%s=%d", k, v.id))
	}
	sort.Strings(gs)
	sb.WriteString(strings.Join(gs, ","))
	return sb.String()
}

func (st *State) factDigest() string {
	fs := make([]int, 0, len(st.facts))
	for t, v := range st.facts {
		n := t.id * 2
		if v {
			n++
		}
		fs = append(fs, n)
	}
	sort.Ints(fs)
	return fmt.Sprint(fs)
}

func mapDigest(m map[*Term]*Term) string {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%d:%d,", k.id, m[k].id)
	}
	return sb.String()
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func diffStates(a, b *State) string {
	var out []string
	for i := range a.frames {
		for v, t := range a.frames[i].env {
			if b.frames[i].env[v] != t {
				out = append(out, fmt.Sprintf("%d%s: %v -> %v", i, v.Name(), t, b.frames[i].env[v]))
			}
		}
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			out = append(out, fmt.Sprintf("heap %v: %v -> %v", k, v, b.heap[k]))
		}
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; !ok {
			out = append(out, fmt.Sprintf("heap+ %v: %v", k, v))
		}
	}
	for k, v := range a.epochs {
		if b.epochs[k] != v {
			out = append(out, fmt.Sprintf("ep %v: %v -> %v", k, v, b.epochs[k]))
		}
	}
	for k, v := range b.epochs {
		if _, ok := a.epochs[k]; !ok {
			out = append(out, fmt.Sprintf("ep+ %v: %v", k, v))
		}
	}
	for t, v := range a.facts {
		if _, ok := b.facts[t]; !ok {
			out = append(out, fmt.Sprintf("fact- %v=%v", t, v))
		}
	}
	for t, v := range b.facts {
		if _, ok := a.facts[t]; !ok {
			out = append(out, fmt.Sprintf("fact+ %v=%v", t, v))
		}
	}
	for k, v := range a.G {
		if b.G[k] != v {
			out = append(out, fmt.Sprintf("G %v: %v -> %v", k, v, b.G[k]))
		}
	}
	return strings.Join(out, "; ")
}

// structType: t is a struct that is tracked by field. Times are single values.
func structType(t types.Type) (*types.Struct, bool) {
	su, ok := t.Underlying().(*types.Struct)
	if ok && typeStr(t) == "time.Time" {
		return nil, false
	}
	return su, ok
}
