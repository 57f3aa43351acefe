package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugTab, _ = strconv.Atoi(os.Getenv("CHECK_TAB"))

// dumpTab prints the program points with most abstract states (debugging).
func (e *Eng) dumpTab() {
	type pc struct {
		pt string
		n  int
	}
	var l []pc
	for pt, tb := range e.tab {
		l = append(l, pc{pt, len(tb)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i > 12 {
			break
		}
		var fn string
		for _, sl := range e.tab[x.pt] {
			fn = fnName(sl.st.top().ctx.fn)
			break
		}
		fmt.Fprintf(os.Stderr, "POINT %s (%s): %d states\n", x.pt, fn, x.n)
		j := 0
		for k := range e.tab[x.pt] {
			if j < 6 {
				fmt.Fprintf(os.Stderr, "    %s\n", k)
			}
			j++
		}
	}
}

var debugIf = os.Getenv("CHECK_IF") != ""

// Call describes a call (or deferred call) about to happen.
type Call struct {
	e       *Eng
	in      ssa.Instruction
	com     *ssa.CallCommon
	fn      *ssa.Function // statically or dynamically resolved callee, if any
	name    string        // "os.OpenFile", "(*os.File).Write", "decider", "Context.getMatchList", "(net.Conn).Close"
	args    []*Term       // receiver first
	sig     *types.Signature
	ret     []*Term
	fnv     *Term
	isDefer bool
	// forks: alternative outcomes of the call; each continues in its own state
	forks []func(s *State) []*Term
}

func (c *Call) pos() token.Pos { return c.in.Pos() }

// Rule is one property's set of observers.
type Rule struct {
	Name    string
	Atomic  func(fn *ssa.Function, name string) bool
	OnCall  func(e *Eng, st *State, c *Call) bool // true: handled (not inlined/modelled)
	OnRet   func(e *Eng, st *State, c *Call)      // after a non-inlined call, results in c.ret
	OnLoad  func(e *Eng, st *State, in ssa.Instruction, addr, val *Term)
	OnStore func(e *Eng, st *State, in ssa.Instruction, addr, val *Term)
	// ForkVal splits the state after a value instruction other than a call
	// (addr is set for loads); each alternative gives the value's term.
	ForkVal  func(e *Eng, st *State, v ssa.Value, t, addr *Term) []func(s *State) *Term
	OnMapUp  func(e *Eng, st *State, in ssa.Instruction, m, k, v *Term)
	OnReturn func(e *Eng, st *State, in ssa.Instruction, vals []*Term)
	OnPanic  func(e *Eng, st *State, in ssa.Instruction, v *Term)
	OnGo     func(e *Eng, st *State, c *Call)
	OnInstr  func(e *Eng, st *State, in ssa.Instruction)
	OnEdge   func(e *Eng, st *State, from, to *ssa.BasicBlock)
	OnEnter  func(e *Eng, st *State, fn *ssa.Function, c *Call)
	OnLeave  func(e *Eng, st *State, fn *ssa.Function, vals []*Term)
	Key      func(e *Eng, st *State) string
	Precise  bool // disjunctive except at loop heads
	// TextJoin lets texts built in local variables grow like buffers.
	TextJoin bool
	MaxSteps int
	// Relate keeps order relations between numbers joined at a merge.
	Relate bool
	// Anchor names the ghost all others are compared with at merges.
	Anchor string
	// LoopBools keeps loop-carried and loop-invariant flags apart at joins.
	LoopBools bool
	// Interesting names the calls a rule observes. With it set, functions of
	// the repository that cannot reach such a call, and that return nothing or
	// loop, are summarised by what they may modify instead of being inlined.
	Interesting func(name string) bool
	// InterestingMod names the memory categories a rule observes ("F:T.f").
	InterestingMod func(cat string) bool
}

type Eng struct {
	P       *Prog
	R       *Rule
	ctxs    map[string]*Ctx
	nctx    int
	tab     map[string]map[string]*slot
	q       workQ
	seq     int
	steps   int
	points  map[string]bool
	fnsSeen map[*ssa.Function]bool
	entry   *ssa.Function
	err     error
	onViol  func(st *State, pos token.Pos, rule, msg string)
	noted   map[string]bool
	merges  int
	widen   bool
	rough   int // how coarsely to join: 1 facts only shrink, 2 no structural joins
	summ    map[*ssa.Function]bool
	endings int
	opaque  map[string]int
}

type slot struct {
	st    *State
	dirty bool
	pt    string
	n     int
}

type workItem struct {
	prio []int
	seq  int
	st   *State
	sl   *slot
}
type workQ []*workItem

func (q workQ) Len() int { return len(q) }
func (q workQ) Less(i, j int) bool {
	a, b := q[i].prio, q[j].prio
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	return q[i].seq < q[j].seq
}
func (q workQ) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *workQ) Push(x interface{}) { *q = append(*q, x.(*workItem)) }
func (q *workQ) Pop() interface{} {
	o := *q
	n := len(o)
	x := o[n-1]
	*q = o[:n-1]
	return x
}

func newEng(P *Prog, R *Rule) *Eng {
	return &Eng{P: P, R: R, ctxs: map[string]*Ctx{}, tab: map[string]map[string]*slot{}, points: map[string]bool{}, fnsSeen: map[*ssa.Function]bool{}, noted: map[string]bool{}, opaque: map[string]int{}, summ: map[*ssa.Function]bool{}}
}

func (e *Eng) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	k := ""
	if parent != nil {
		k = fmt.Sprintf("%d/%d/%s", parent.id, e.P.iid(site), fn.String())
	} else {
		k = fn.String()
	}
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: e.nctx, parent: parent, site: site, fn: fn}
	e.nctx++
	if parent != nil {
		c.depth = parent.depth + 1
		c.inLoop = parent.inLoop || e.P.inCycle(site.Block())
	}
	e.ctxs[k] = c
	return c
}

func (P *Prog) iid(in ssa.Instruction) int {
	if id, ok := P.instrID[in]; ok {
		return id
	}
	id := len(P.instrID) + 1
	P.instrID[in] = id
	return id
}

// ---- CFG facts

func (P *Prog) prep(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	if _, ok := P.rpo[fn.Blocks[0]]; ok {
		return
	}
	// RPO and back edges
	var order []*ssa.BasicBlock
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 0 {
				dfs(s)
			} else if state[s] == 1 {
				P.loopHead[s] = true
			}
		}
		state[b] = 2
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	n := len(order)
	for i, b := range order {
		P.rpo[b] = n - 1 - i
	}
	// cycles
	for _, b := range fn.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		var w []*ssa.BasicBlock
		w = append(w, b.Succs...)
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			if x == b {
				P.blkLoop[b] = true
				break
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			w = append(w, x.Succs...)
		}
	}
	// liveness: live-in per block (phi operands live at the end of preds)
	liveIn := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		liveIn[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := P.liveOut(b, liveIn)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				addUses(cur, in)
			}
			for v := range cur {
				if !liveIn[b][v] {
					liveIn[b][v] = true
					ch = true
				}
			}
		}
	}
	for b, l := range liveIn {
		P.live[b] = l
	}
}

func trackedVal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func addUses(m map[ssa.Value]bool, in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && trackedVal(*op) {
			m[*op] = true
		}
	}
}

func (P *Prog) liveOut(b *ssa.BasicBlock, liveIn map[*ssa.BasicBlock]map[ssa.Value]bool) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range liveIn[s] {
			cur[v] = true
		}
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if trackedVal(ph.Edges[pi]) {
						cur[ph.Edges[pi]] = true
					}
				}
			}
		}
	}
	return cur
}

func (P *Prog) inCycle(b *ssa.BasicBlock) bool {
	P.prep(b.Parent())
	return P.blkLoop[b]
}

func (P *Prog) liveAfter(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	cur := P.liveOut(b, P.live)
	for j := len(b.Instrs) - 1; j > idx; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(cur, v)
		}
		addUses(cur, in)
	}
	return cur
}

// ---- driving

func (e *Eng) initState(fn *ssa.Function) *State {
	st := &State{heap: map[*Term]*Term{}, epochs: map[string]*Term{}, facts: map[*Term]bool{}, eqc: map[*Term]*Term{}, A: map[string]string{}, G: map[string]*Term{}, esc: map[*Term]bool{}}
	e.P.prep(fn)
	c := e.ctx(nil, nil, fn)
	f := &Frame{ctx: c, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}}
	for _, p := range fn.Params {
		f.env[p] = mkSym("P:"+p.Name(), p.Type())
	}
	for _, p := range fn.FreeVars {
		f.env[p] = mkSym("P:"+p.Name(), p.Type())
	}
	st.frames = []*Frame{f}
	return st
}

func param(fn *ssa.Function, i int) *Term {
	return mkSym("P:"+fn.Params[i].Name(), fn.Params[i].Type())
}

// paramOfType finds the parameter of a given type string.
func paramOfType(fn *ssa.Function, ts string) *Term {
	for i, p := range fn.Params {
		if typeStr(p.Type()) == ts {
			return param(fn, i)
		}
	}
	return nil
}

func (e *Eng) run(fn *ssa.Function, setup func(st *State)) error {
	e.entry = fn
	st := e.initState(fn)
	if setup != nil {
		setup(st)
	}
	max := e.R.MaxSteps
	if max == 0 {
		max = 3000000
	}
	e.fnsSeen[fn] = true
	e.push(st)
	for e.q.Len() > 0 {
		it := heap.Pop(&e.q).(*workItem)
		var s *State
		if it.sl != nil {
			if !it.sl.dirty {
				continue
			}
			it.sl.dirty = false
			s = it.sl.st.clone()
		} else {
			s = it.st
		}
		e.exec(s)
		if e.err != nil {
			return e.err
		}
		if debugTab > 0 && e.steps > debugTab {
			e.dumpTab()
			return fmt.Errorf("debug stop")
		}
		if e.steps > max {
			return fmt.Errorf("analysis of %s exceeded %d steps", fnName(fn), max)
		}
	}
	return nil
}

func (e *Eng) prio(st *State) []int {
	p := make([]int, 0, len(st.frames)*2)
	for _, f := range st.frames {
		p = append(p, e.P.rpo[f.blk], f.idx)
	}
	return p
}

func (e *Eng) push(st *State) {
	e.seq++
	heap.Push(&e.q, &workItem{prio: e.prio(st), seq: e.seq, st: st})
}

// arrive hands a state to its program point, merging where needed.
func (e *Eng) arrive(st *State, join bool) {
	f := st.top()
	pt := fmt.Sprintf("%d.%d.%d", f.ctx.id, f.blk.Index, f.idx)
	e.points[pt] = true
	if !join {
		e.push(st)
		return
	}
	st.gc()
	key := e.key(st)
	for _, fr := range st.frames {
		if e.P.inCycle(fr.blk) {
			key += e.constLoop(fr)
		}
	}
	if e.R.Precise && !(f.idx == 0 && e.P.loopHead[f.blk]) {
		key += "#" + st.digest()
	}
	tb := e.tab[pt]
	if tb == nil {
		tb = map[string]*slot{}
		e.tab[pt] = tb
	}
	sl := tb[key]
	if sl == nil {
		sl = &slot{st: st, dirty: true, pt: pt}
		tb[key] = sl
		e.seq++
		heap.Push(&e.q, &workItem{prio: e.prio(st), seq: e.seq, sl: sl})
		return
	}
	e.widen = sl.n > 12
	e.rough = 0
	if sl.n > 30 {
		e.rough = 1
	}
	if sl.n > 60 {
		e.rough = 2
	}
	m, ch := e.merge(pt, sl.st, st)
	e.widen = false
	e.merges++
	if ch {
		sl.n++
		if debugTab > 0 && sl.n > 12 {
			fmt.Fprintf(os.Stderr, "GROW %s %s n=%d %s\n", fnName(f.ctx.fn), pt, sl.n, diffStates(sl.st, m))
		}
	}
	if !ch {
		return
	}
	m.trail = st.trail
	sl.st = m
	if !sl.dirty {
		sl.dirty = true
		e.seq++
		heap.Push(&e.q, &workItem{prio: e.prio(m), seq: e.seq, sl: sl})
	}
}

// constLoop keeps the rounds of loops with a small constant bound apart.
func (e *Eng) constLoop(f *Frame) string {
	out := ""
	for _, b := range e.P.loopTests(f.ctx.fn) {
		var n int64
		if k, ok := b.Y.(*ssa.Const); ok {
			n = k.Int64()
		} else if t, ok := f.env[b.Y]; ok {
			v, ok := t.intVal()
			if !ok {
				continue
			}
			n = v
		} else {
			continue
		}
		if n < 0 || n > 16 {
			continue
		}
		x := b.X
		if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD {
			x = a.X
		}
		for _, v := range []ssa.Value{x, b.X} {
			if t, ok := f.env[v]; ok {
				if v, ok := t.intVal(); ok && v >= -1 && v <= n {
					out += fmt.Sprintf("#round%d.%d", b.Block().Index, v)
					break
				}
			}
		}
	}
	return out
}

// loopTests: comparisons of a loop counter with a bound at loop heads.
func (P *Prog) loopTests(fn *ssa.Function) []*ssa.BinOp {
	if l, ok := P.tests[fn]; ok {
		return l
	}
	if P.tests == nil {
		P.tests = map[*ssa.Function][]*ssa.BinOp{}
	}
	var out []*ssa.BinOp
	for _, blk := range fn.Blocks {
		if !P.loopHead[blk] {
			continue
		}
		for _, in := range blk.Instrs {
			b, ok := in.(*ssa.BinOp)
			if !ok || !(b.Op == token.LSS || b.Op == token.LEQ || b.Op == token.NEQ) || !isIntType(b.X.Type()) {
				continue
			}
			if k, ok := b.Y.(*ssa.Const); ok && (k.Value == nil || k.Value.Kind() != constant.Int) {
				continue
			}
			x := b.X
			if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD {
				x = a.X
			}
			if ph, ok := x.(*ssa.Phi); ok && ph.Block() == blk {
				out = append(out, b)
			}
		}
	}
	P.tests[fn] = out
	return out
}

func (e *Eng) key(st *State) string {
	var sb strings.Builder
	for _, k := range sortedKeys(st.A) {
		sb.WriteString(k + "=" + st.A[k] + ";")
	}
	for fi, f := range st.frames {
		var ks []string
		for v, t := range f.env {
			ty := v.Type()
			if !e.R.LoopBools && e.P.blkLoop[f.blk] {
				if in, ok := v.(ssa.Instruction); ok {
					if !e.P.blkLoop[in.Block()] {
						continue
					}
					if _, ok := v.(*ssa.Phi); ok && in.Block() == f.blk && e.P.loopHead[f.blk] {
						continue
					}
				}
			}
			one := func(nm string, t *Term, ty types.Type) {
				if isBoolType(ty) {
					if b, ok := st.evalBool(t); ok {
						ks = append(ks, fmt.Sprintf("%d%s=%v", fi, nm, b))
					}
				} else if isErrorType(ty) {
					if b, ok := st.evalBool(mkEq(t, tNil, ty)); ok {
						ks = append(ks, fmt.Sprintf("%d%s=nil:%v", fi, nm, b))
					}
				}
			}
			if tt, ok := ty.(*types.Tuple); ok && t.op == "tuple" {
				for i := range t.args {
					one(fmt.Sprintf("%s.%d", v.Name(), i), t.args[i], tt.At(i).Type())
				}
			} else {
				one(v.Name(), t, ty)
			}
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		fmt.Fprintf(&sb, "|d%d", len(f.defers))
	}
	var hs []string
	for a, v := range st.heap {
		if a.op == "alloc" {
			if isBoolType(v.typ) {
				if b, ok := st.evalBool(v); ok {
					hs = append(hs, fmt.Sprintf("%d=%v", a.id, b))
				}
			} else if isErrorType(v.typ) || v == tNil {
				if b, ok := st.evalBool(mkEq(v, tNil, v.typ)); ok {
					hs = append(hs, fmt.Sprintf("%d=nil:%v", a.id, b))
				}
			}
		}
	}
	sort.Strings(hs)
	sb.WriteString(strings.Join(hs, ","))
	if e.R.Key != nil {
		sb.WriteString("#")
		sb.WriteString(e.R.Key(e, st))
	}
	return sb.String()
}

// ---- values

func (e *Eng) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOrNil(x.Type())
		}
		return mkConstVal(x.Value, x.Type())
	case *ssa.Global:
		return globalTerm(x)
	case *ssa.Function:
		return mkFn(x)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), 0, x.Type())
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	// dead or unexplored value
	return mkSym(fmt.Sprintf("undef:%s:%s", fnName(st.top().ctx.fn), v.Name()), v.Type())
}

func zeroOrNil(t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Basic:
		return zeroTerm(t)
	}
	return tNil
}

func (e *Eng) symName(st *State, v ssa.Value, suffix string) string {
	c := st.top().ctx
	n := v.Name()
	return fmt.Sprintf("%s#%d:%s%s", fnName(c.fn), c.id, n, suffix)
}

// fresh makes the symbol of an instruction's result.
func (e *Eng) fresh(st *State, in ssa.Instruction, suffix string, typ types.Type) *Term {
	c := st.top().ctx
	var name string
	if v, ok := in.(ssa.Value); ok {
		name = fmt.Sprintf("%s#%d:%s%s", fnName(c.fn), c.id, v.Name(), suffix)
	} else {
		name = fmt.Sprintf("%s#%d:i%d%s", fnName(c.fn), c.id, e.P.iid(in), suffix)
	}
	s := mkSym(name, typ)
	st.redefine(s)
	return s
}

func (e *Eng) inLoop(st *State) bool {
	f := st.top()
	return f.ctx.inLoop || e.P.inCycle(f.blk)
}

func (e *Eng) allocAt(st *State, in ssa.Instruction, typ types.Type, hint string) *Term {
	c := st.top().ctx
	name := fmt.Sprintf("%s#%d:i%d%s", fnName(c.fn), c.id, e.P.iid(in), hint)
	a := mk("alloc", name, 0, types.NewPointer(typ))
	st.redefine(a)
	delete(st.esc, a)
	return a
}

// ---- execution

func (e *Eng) exec(st *State) {
	for {
		f := st.top()
		if f.idx >= len(f.blk.Instrs) {
			e.err = fmt.Errorf("fell off block in %s", fnName(f.ctx.fn))
			return
		}
		in := f.blk.Instrs[f.idx]
		e.steps++
		if e.R.OnInstr != nil {
			e.R.OnInstr(e, st, in)
		}
		switch x := in.(type) {
		case *ssa.Phi:
			// handled on the edge
			f.idx++
			continue
		case *ssa.If:
			c := e.val(st, x.Cond)
			v, known := st.evalBool(c)
			if debugIf {
				fmt.Fprintf(os.Stderr, "IF %s b%d %v [A=%v] cond=%v known=%v v=%v\n", fnName(f.ctx.fn), f.blk.Index, x.Cond, st.A, c, known, v)
			}
			if !known || v {
				s := st
				if !known {
					s = st.clone()
				}
				if known || s.assume(c, true) {
					e.edge(s, f.blk, f.blk.Succs[0])
				}
			}
			if !known || !v {
				if known || st.assume(c, false) {
					e.edge(st, f.blk, f.blk.Succs[1])
				}
			}
			return
		case *ssa.Jump:
			e.edge(st, f.blk, f.blk.Succs[0])
			return
		case *ssa.Return:
			e.doReturn(st, x)
			return
		case *ssa.Panic:
			if e.R.OnPanic != nil {
				e.R.OnPanic(e, st, x, e.val(st, x.X))
			}
			e.endings++
			return
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				c := &Call{e: e, in: d.in, com: d.call, args: d.args, fnv: d.fnv, isDefer: true}
				e.resolve(st, c)
				if !e.doCall(st, c, nil) {
					return
				}
				continue // same instruction again
			}
			f.idx++
			continue
		case *ssa.Defer:
			c := e.mkCall(st, &x.Call, x)
			f.defers = append(f.defers, &deferred{call: &x.Call, in: x, fnv: c.fnv, args: c.args})
			f.idx++
			continue
		case *ssa.Go:
			c := e.mkCall(st, &x.Call, x)
			e.resolve(st, c)
			for _, a := range c.args {
				st.escape(a)
			}
			if c.fnv != nil {
				st.escape(c.fnv)
			}
			if e.R.OnGo != nil {
				e.R.OnGo(e, st, c)
			}
			f.idx++
			continue
		case *ssa.Call:
			c := e.mkCall(st, &x.Call, x)
			e.resolve(st, c)
			if !e.doCall(st, c, x) {
				return
			}
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			t := e.eval(st, v)
			if t == nil {
				e.err = fmt.Errorf("%s: cannot evaluate %T %v", e.P.pos(in.Pos()), in, in)
				return
			}
			if e.R.ForkVal != nil {
				var addr *Term
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					addr = e.val(st, u.X)
				}
				if alts := e.R.ForkVal(e, st, v, t, addr); alts != nil {
					for _, alt := range alts {
						s := st.clone()
						r := alt(s)
						if s.A["dead"] != "" {
							continue
						}
						g := s.top()
						g.env[v] = r
						g.idx++
						live := e.P.liveAfter(g.blk, g.idx-1)
						for v := range g.env {
							if !live[v] {
								delete(g.env, v)
							}
						}
						e.arrive(s, true)
					}
					return
				}
			}
			st.top().env[v] = t
		} else {
			e.effect(st, in)
		}
		st.top().idx++
	}
}

func (e *Eng) edge(st *State, from, to *ssa.BasicBlock) {
	f := st.top()
	if e.R.OnEdge != nil {
		e.R.OnEdge(e, st, from, to)
		if st.A["dead"] != "" {
			return
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(st, ph.Edges[pi])
		if v.typ != nil && !v.isConst() {
			// a condition known on this edge is a constant for the join
			if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				if k, ok := st.evalBool(v); ok {
					v = mkBool(k)
				}
			}
		}
		phis = append(phis, ph)
		vals = append(vals, v)
	}
	live := e.P.live[to]
	for v := range f.env {
		if !live[v] {
			delete(f.env, v)
		}
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.blk = to
	f.idx = 0
	e.arrive(st, len(to.Preds) > 1)
}

func (e *Eng) doReturn(st *State, x *ssa.Return) {
	f := st.top()
	var vals []*Term
	for _, r := range x.Results {
		vals = append(vals, e.val(st, r))
	}
	if len(st.frames) == 1 {
		if e.R.OnReturn != nil {
			e.R.OnReturn(e, st, x, vals)
		}
		e.endings++
		return
	}
	if e.R.OnLeave != nil {
		e.R.OnLeave(e, st, f.ctx.fn, vals)
	}
	st.frames = st.frames[:len(st.frames)-1]
	g := st.top()
	if f.isDefer {
		// back to RunDefers
		e.arrive(st, true)
		return
	}
	call := g.blk.Instrs[g.idx].(*ssa.Call)
	e.bind(st, call, vals)
	g.idx++
	live := e.P.liveAfter(g.blk, g.idx-1)
	for v := range g.env {
		if !live[v] {
			delete(g.env, v)
		}
	}
	e.arrive(st, true)
}

func (e *Eng) bind(st *State, call *ssa.Call, vals []*Term) {
	sig := call.Call.Signature()
	switch sig.Results().Len() {
	case 0:
		return
	case 1:
		st.top().env[call] = vals[0]
	default:
		st.top().env[call] = mk("tuple", "", 0, sig.Results(), vals...)
	}
}

func (e *Eng) mkCall(st *State, com *ssa.CallCommon, in ssa.Instruction) *Call {
	c := &Call{e: e, in: in, com: com}
	if com.IsInvoke() {
		c.args = append(c.args, e.val(st, com.Value))
	} else {
		c.fnv = e.val(st, com.Value)
	}
	for _, a := range com.Args {
		c.args = append(c.args, e.val(st, a))
	}
	return c
}

func (e *Eng) resolve(st *State, c *Call) {
	com := c.com
	c.sig = com.Signature()
	if com.IsInvoke() {
		recv := c.args[0]
		if recv.op == "iface" {
			if dt, ok := recv.obj.(types.Type); ok {
				m := e.P.prog.LookupMethod(dt, com.Method.Pkg(), com.Method.Name())
				if m != nil {
					c.fn = m
					c.args = append([]*Term{recv.args[0]}, c.args[1:]...)
					c.name = e.callName(m)
					return
				}
			}
		}
		c.name = "(" + typeStr(com.Value.Type()) + ")." + com.Method.Name()
		return
	}
	switch c.fnv.op {
	case "fn":
		c.fn = c.fnv.obj.(*ssa.Function)
		c.name = e.callName(c.fn)
	case "closure":
		c.fn = c.fnv.obj.(*ssa.Function)
		c.name = e.callName(c.fn)
	case "builtin":
		c.name = "builtin." + c.fnv.aux
	default:
		c.name = "dynamic"
	}
}

func (e *Eng) callName(f *ssa.Function) string {
	if e.P.isRepo(f) && f.Pkg == e.P.ssa || f.Parent() != nil {
		return fnName(f)
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + typeStr(r.Type()) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path() + "." + f.Name()
	}
	return f.Name()
}

func (e *Eng) onStack(st *State, fn *ssa.Function) bool {
	for _, f := range st.frames {
		if f.ctx.fn == fn {
			return true
		}
	}
	return false
}

// doCall executes a call. It returns false if the state was handed on (or
// ended), true if execution continues at the caller's (already advanced) idx.
func (e *Eng) doCall(st *State, c *Call, call *ssa.Call) bool {
	finish := func(vals []*Term) bool {
		c.ret = vals
		if e.R.OnRet != nil {
			e.R.OnRet(e, st, c)
		}
		if call != nil {
			e.bind(st, call, c.ret)
			st.top().idx++
		}
		return true
	}
	fill := func() []*Term {
		n := c.sig.Results().Len()
		out := make([]*Term, n)
		for i := 0; i < n; i++ {
			if i < len(c.ret) && c.ret[i] != nil {
				out[i] = c.ret[i]
				continue
			}
			sfx := ""
			if n > 1 {
				sfx = fmt.Sprintf(".%d", i)
			}
			out[i] = e.fresh(st, c.in, sfx, c.sig.Results().At(i).Type())
		}
		return out
	}
	if e.R.OnCall != nil && e.R.OnCall(e, st, c) {
		if c.forks != nil {
			e.fork(st, c, call, fill)
			return false
		}
		if st.A["dead"] != "" {
			e.endings++
			return false
		}
		return finish(fill())
	}
	if st.A["dead"] != "" {
		e.endings++
		return false
	}
	if noReturn(c.name) {
		if e.R.OnPanic != nil && c.name == "builtin.panic" {
			e.R.OnPanic(e, st, c.in, c.args[0])
		}
		e.endings++
		return false
	}
	if strings.HasPrefix(c.name, "builtin.") {
		if b := e.builtin(st, c); b != nil {
			return finish([]*Term{b})
		}
		return finish(fill())
	}
	if c.fn != nil && e.P.isRepo(c.fn) {
		rec := e.onStack(st, c.fn)
		if !rec && !(e.R.Atomic != nil && e.R.Atomic(c.fn, c.name)) && len(st.frames) < 40 && !e.summarise(c.fn) {
			e.inline(st, c, call)
			return false
		}
		// opaque repo call: havoc what it may modify
		e.opaque[c.name]++
		c.ret = fill()
		e.havocCall(st, c)
		for _, a := range c.args {
			st.escape(a)
		}
		return finish(c.ret)
	}
	if e.model(st, c) {
		return finish(fill())
	}
	e.opaque[c.name]++
	c.ret = fill()
	for _, a := range c.args {
		st.escape(a)
	}
	if !noHavoc(c.name) {
		tag := e.fresh(st, c.in, ".mem", nil)
		for _, a := range c.args {
			r := rootOf(unIface(a))
			if r.op == "alloc" || r.op == "sym" {
				st.havocObj(r, tag)
			}
		}
	}
	return finish(c.ret)
}

// summarise: fn is of no interest to the rule (see Rule.Interesting).
func (e *Eng) summarise(fn *ssa.Function) bool {
	if e.R.Interesting == nil {
		return false
	}
	if v, ok := e.summ[fn]; ok {
		return v
	}
	seen := map[*ssa.Function]bool{}
	hit, loops, flags := false, false, false
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if hit || seen[f] || !e.P.isRepo(f) {
			return
		}
		seen[f] = true
		e.P.prep(f)
		for _, b := range f.Blocks {
			if e.P.blkLoop[b] {
				loops = true
			}
			for _, in := range b.Instrs {
				if sto, ok := in.(*ssa.Store); ok {
					// sets a variable of its caller
					switch sto.Addr.(type) {
					case *ssa.FreeVar, *ssa.Parameter:
						flags = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if e.R.Interesting(e.callName(g)) {
							hit = true
							return
						}
						walk(g)
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if com.IsInvoke() {
					if e.R.Interesting("(" + typeStr(com.Value.Type()) + ")." + com.Method.Name()) {
						hit = true
						return
					}
					for _, g := range e.P.implementers(com) {
						walk(g)
					}
				}
			}
		}
	}
	if e.R.Interesting(e.callName(fn)) {
		hit = true
	}
	walk(fn)
	if !hit && e.R.InterestingMod != nil {
		for cat := range e.P.mods(fn).cats {
			if e.R.InterestingMod(cat) {
				hit = true
				break
			}
		}
	}
	r := !hit && (fn.Signature.Results().Len() == 0 && !flags || loops)
	e.summ[fn] = r
	return r
}

// fork continues a call once per alternative outcome.
func (e *Eng) fork(st *State, c *Call, call *ssa.Call, fill func() []*Term) {
	for _, f := range c.forks {
		s := st.clone()
		d := *c
		d.ret = f(s)
		if s.A["dead"] != "" {
			continue
		}
		n := c.sig.Results().Len()
		for i := len(d.ret); i < n; i++ {
			d.ret = append(d.ret, nil)
		}
		for i := range d.ret {
			if d.ret[i] == nil {
				sfx := ""
				if n > 1 {
					sfx = fmt.Sprintf(".%d", i)
				}
				d.ret[i] = e.fresh(s, c.in, sfx, c.sig.Results().At(i).Type())
			}
		}
		if e.R.OnRet != nil {
			e.R.OnRet(e, s, &d)
		}
		if call != nil {
			e.bind(s, call, d.ret)
			s.top().idx++
		}
		if call != nil {
			g := s.top()
			live := e.P.liveAfter(g.blk, g.idx-1)
			for v := range g.env {
				if !live[v] {
					delete(g.env, v)
				}
			}
		}
		e.arrive(s, true)
	}
}

func (e *Eng) inline(st *State, c *Call, call *ssa.Call) {
	fn := c.fn
	e.P.prep(fn)
	e.fnsSeen[fn] = true
	caller := st.top()
	ctx := e.ctx(caller.ctx, c.in, fn)
	f := &Frame{ctx: ctx, blk: fn.Blocks[0], env: map[ssa.Value]*Term{}, isDefer: call == nil}
	for i, p := range fn.Params {
		if i < len(c.args) {
			f.env[p] = c.args[i]
		}
	}
	if c.fnv != nil && c.fnv.op == "closure" {
		for i, fv := range fn.FreeVars {
			f.env[fv] = c.fnv.args[i]
		}
	}
	if call != nil {
		live := e.P.liveAfter(caller.blk, caller.idx)
		for v := range caller.env {
			if !live[v] {
				delete(caller.env, v)
			}
		}
	}
	st.frames = append(st.frames, f)
	if e.R.OnEnter != nil {
		e.R.OnEnter(e, st, fn, c)
	}
	e.push(st)
}

// eval computes the value of a non-call value instruction.
func (e *Eng) eval(st *State, v ssa.Value) *Term {
	in := v.(ssa.Instruction)
	switch x := v.(type) {
	case *ssa.Alloc:
		ty := derefType(x.Type())
		a := e.allocAt(st, in, ty, "")
		e.zeroInit(st, a, ty, 0)
		return a
	case *ssa.BinOp:
		return e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		a := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			t := st.load(a, x.Type())
			if g, ok := x.X.(*ssa.Global); ok {
				if v := e.P.globalVal(g); v != nil {
					t = v
				}
			}
			if e.R.OnLoad != nil {
				e.R.OnLoad(e, st, in, a, t)
			}
			return t
		case token.NOT:
			return mkNot(a)
		case token.SUB:
			if isIntType(x.Type()) {
				return linAdd(mkInt(0), a, -1, x.Type())
			}
			return mk("neg", "", 0, x.Type(), a)
		case token.ARROW:
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				return mk("tuple", "", 0, tt, e.fresh(st, in, ".0", tt.At(0).Type()), e.fresh(st, in, ".1", tt.At(1).Type()))
			}
			return e.fresh(st, in, "", x.Type())
		case token.XOR:
			return mk("app", "bitnot", 0, x.Type(), a)
		}
	case *ssa.FieldAddr:
		return mkFaddr(e.val(st, x.X), x.X.Type(), x.Field)
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		return mkField(e.val(st, x.X), x.Field, f.Name(), f.Type())
	case *ssa.IndexAddr:
		return e.indexAddr(st, e.val(st, x.X), e.val(st, x.Index), derefType(x.Type()))
	case *ssa.Index:
		if isStringType(x.X.Type()) {
			return charOf(e.val(st, x.X), e.val(st, x.Index), x.Type())
		}
		return mk("app", "index", 0, x.Type(), e.val(st, x.X), e.val(st, x.Index))
	case *ssa.Lookup:
		m, k := e.val(st, x.X), e.val(st, x.Index)
		if isStringType(x.X.Type()) {
			return charOf(m, k, x.Type())
		}
		return e.mapLookup(st, m, k, x)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.op == "tuple" {
			return t.args[x.Index]
		}
		return mk("extract", fmt.Sprint(x.Index), 0, x.Type(), t)
	case *ssa.ChangeType:
		return e.val(st, x.X)
	case *ssa.ChangeInterface:
		return e.val(st, x.X)
	case *ssa.Convert:
		return e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		a := e.val(st, x.X)
		t := mk("iface", typeStr(x.X.Type()), 0, x.Type(), a)
		t.obj = x.X.Type()
		return t
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		t := mk("closure", fn.String(), 0, x.Type(), bs...)
		t.obj = fn
		return t
	case *ssa.MakeMap:
		m := e.allocAt(st, in, x.Type(), "map")
		st.heap[mk("mver", typeStr(x.Type()), 0, nil, m)] = mk("fresh", "", 0, nil)
		return m
	case *ssa.MakeChan:
		return e.allocAt(st, in, x.Type(), "chan")
	case *ssa.MakeSlice:
		a := e.allocAt(st, in, x.Type(), "slice")
		t := mk("makeslice", "", 0, x.Type(), e.val(st, x.Len), e.val(st, x.Cap), a)
		return t
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.TypeAssert:
		a := e.val(st, x.X)
		if a.op == "iface" {
			dt, _ := a.obj.(types.Type)
			if dt != nil {
				_, isI := x.AssertedType.Underlying().(*types.Interface)
				match := types.Identical(dt, x.AssertedType)
				if isI {
					match = types.Implements(dt, x.AssertedType.Underlying().(*types.Interface))
				}
				r := a.args[0]
				if isI {
					r = a
				}
				if x.CommaOk {
					if match {
						return mk("tuple", "", 0, x.Type(), r, tTrue)
					}
					return mk("tuple", "", 0, x.Type(), zeroTerm(x.AssertedType), tFalse)
				}
				if match {
					return r
				}
			}
		}
		val := mk("app", "assert:"+typeStr(x.AssertedType), 0, x.AssertedType, a)
		if x.CommaOk {
			return mk("tuple", "", 0, x.Type(), val, mk("app", "asserts:"+typeStr(x.AssertedType), 0, types.Typ[types.Bool], a))
		}
		return val
	case *ssa.Range:
		return mk("range", fmt.Sprintf("%d.%d", st.top().ctx.id, e.P.iid(in)), 0, nil, e.val(st, x.X))
	case *ssa.Next:
		tt := x.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		return mk("tuple", "", 0, tt, e.fresh(st, in, ".ok", types.Typ[types.Bool]), e.fresh(st, in, ".k", kt), e.fresh(st, in, ".v", vt))
	case *ssa.Select:
		tt := x.Type().(*types.Tuple)
		var as []*Term
		for i := 0; i < tt.Len(); i++ {
			as = append(as, e.fresh(st, in, fmt.Sprintf(".%d", i), tt.At(i).Type()))
		}
		return mk("tuple", "", 0, tt, as...)
	case *ssa.SliceToArrayPointer:
		return mk("app", "slice2arr", 0, x.Type(), e.val(st, x.X))
	}
	return nil
}

func charOf(m, k *Term, typ types.Type) *Term {
	if s, ok := m.strVal(); ok {
		if i, ok := k.intVal(); ok && i >= 0 && i < int64(len(s)) {
			return mkInt(int64(s[i]))
		}
	}
	return mk("app", "charAt", 0, typ, m, k)
}

func (e *Eng) zeroInit(st *State, a *Term, ty types.Type, depth int) {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		if depth > 3 {
			return
		}
		if _, ok := bufTypes[typeStr(ty)]; ok {
			st.heap[mk("buf", "", 0, nil, a)] = mkStr("")
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			e.zeroInit(st, mkFaddr(a, ty, i), u.Field(i).Type(), depth+1)
		}
	case *types.Array:
		if u.Len() <= 32 {
			for i := int64(0); i < u.Len(); i++ {
				e.zeroInit(st, mkIaddr(a, mkInt(i), u.Elem()), u.Elem(), depth+1)
			}
		}
	default:
		st.heap[a] = zeroTerm(ty)
	}
}

func mkIaddr(base, idx *Term, elem types.Type) *Term {
	return mk("iaddr", typeStr(elem), 0, types.NewPointer(elem), base, idx)
}

func (e *Eng) indexAddr(st *State, base, idx *Term, elem types.Type) *Term {
	// slices of known arrays
	for {
		if base.op == "arrslice" {
			base = base.args[0]
			continue
		}
		if base.op == "slice" {
			idx = linAdd(idx, base.args[1], 1, types.Typ[types.Int])
			base = base.args[0]
			continue
		}
		break
	}
	return mkIaddr(base, st.normInt(idx), elem)
}

func (st *State) normInt(t *Term) *Term {
	if c, ok := st.eqc[t]; ok {
		return c
	}
	return t
}

func (e *Eng) slice(st *State, x *ssa.Slice) *Term {
	b := e.val(st, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	hi := tNil
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if ar, ok := p.Elem().Underlying().(*types.Array); ok {
			if x.Low == nil && x.High == nil {
				t := mk("arrslice", fmt.Sprint(ar.Len()), 0, x.Type(), b)
				t.obj = ar.Len()
				return t
			}
			t := mk("arrslice", fmt.Sprint(ar.Len()), 0, types.NewSlice(ar.Elem()), b)
			t.obj = ar.Len()
			b = t
		}
	}
	if v, ok := lo.intVal(); ok && v == 0 && x.Max == nil {
		if hi == tNil || hi == mkLen(b) {
			return b
		}
	}
	if h, ok := hi.intVal(); ok && h == 0 && hi != tNil && x.Max == nil && b.op != "arrslice" {
		if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice {
			return mk("slicelit", "", 0, x.Type())
		}
	}
	if s, ok := b.strVal(); ok {
		l, okl := lo.intVal()
		h, okh := int64(len(s)), true
		if hi != tNil {
			h, okh = hi.intVal()
		}
		if okl && okh && l >= 0 && h <= int64(len(s)) && l <= h {
			return mkStr(s[l:h])
		}
	}
	// nested slices: slice(slice(b,l1,h1),l2,h2) = slice(b,l1+l2,l1+h2)
	if b.op == "slice" && x.Max == nil {
		l1 := b.args[1]
		nlo := linAdd(l1, lo, 1, types.Typ[types.Int])
		nhi := tNil
		if hi != tNil {
			nhi = linAdd(l1, hi, 1, types.Typ[types.Int])
		} else {
			nhi = b.args[2]
		}
		return mk("slice", "", 0, x.Type(), b.args[0], nlo, nhi)
	}
	if hi == mkLen(b) {
		hi = tNil
	}
	if x.Max != nil {
		mx := e.val(st, x.Max)
		if hi == tNil {
			hi = mkLen(b)
		}
		return mk("slice", "3", 0, x.Type(), b, lo, hi, mx)
	}
	return mk("slice", "", 0, x.Type(), b, lo, hi)
}

func (e *Eng) convert(st *State, a *Term, from, to types.Type) *Term {
	fs, ts := isStringType(from), isStringType(to)
	_, fsl := from.Underlying().(*types.Slice)
	_, tsl := to.Underlying().(*types.Slice)
	if (fs && tsl) || (ts && fsl) {
		if a.op == "conv" && a.aux == "bytes" {
			return a.args[0]
		}
		if fs && tsl {
			return mk("conv", "bytes", 0, to, a)
		}
		// []byte -> string
		return mk("conv", "bytes", 0, to, a)
	}
	if fs && ts {
		return a
	}
	if isIntType(from) && isIntType(to) {
		if a.isConst() {
			return mkConstRaw(a.cv, to)
		}
		return a
	}
	if isIntType(from) && ts {
		if v, ok := a.intVal(); ok {
			return mkStr(string(rune(v)))
		}
	}
	return mk("conv", typeStr(to), 0, to, a)
}

func (e *Eng) binop(st *State, op token.Token, a, b *Term, opt, rt types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		// time comparisons and constants known on this path
		if c, ok := st.eqc[a]; ok && (b.isConst() || b == tNil) {
			a = c
		}
		if c, ok := st.eqc[b]; ok && (a.isConst() || a == tNil) {
			b = c
		}
	}
	switch op {
	case token.EQL:
		return e.eqTerms(st, a, b, opt)
	case token.NEQ:
		return mkNot(e.eqTerms(st, a, b, opt))
	case token.LSS:
		return mkLt(a, b, opt)
	case token.GTR:
		return mkLt(b, a, opt)
	case token.LEQ:
		return mkNot(mkLt(b, a, opt))
	case token.GEQ:
		return mkNot(mkLt(a, b, opt))
	case token.ADD:
		if isStringType(opt) {
			return mkCat(a, b)
		}
		if isIntType(opt) {
			return linAdd(a, b, 1, rt)
		}
	case token.SUB:
		if isIntType(opt) {
			return linAdd(a, b, -1, rt)
		}
	case token.MUL:
		x, okx := a.intVal()
		y, oky := b.intVal()
		if okx && oky {
			return mkConstRaw(constant.MakeInt64(x*y), rt)
		}
	case token.AND:
		return mkAnd(a, b, rt)
	case token.OR:
		if isBoolType(rt) {
			break
		}
		return mkOr(a, b, rt)
	case token.QUO:
		x, okx := a.intVal()
		y, oky := b.intVal()
		if okx && oky && y != 0 {
			return mkConstRaw(constant.MakeInt64(x/y), rt)
		}
	}
	return mk("app", "op"+op.String(), 0, rt, a, b)
}

func (e *Eng) eqTerms(st *State, a, b *Term, opt types.Type) *Term {
	if _, ok := opt.Underlying().(*types.Struct); ok {
		return mkEqRaw(a, b)
	}
	return mkEq(a, b, opt)
}

func mverAddr(m *Term, typ types.Type) *Term {
	return mk("mver", typeStr(typ), 0, nil, m)
}
func melemAddr(m, k *Term, typ types.Type) *Term {
	return mk("melem", typeStr(typ), 0, nil, m, k)
}
func mokAddr(m, k *Term, typ types.Type) *Term {
	return mk("melem", "ok:"+typeStr(typ), 0, nil, m, k)
}

func (e *Eng) mapLookup(st *State, m, k *Term, x *ssa.Lookup) *Term {
	mt := x.X.Type().Underlying().(*types.Map)
	val, ok := e.mapGet(st, m, k, mt, x.X.Type())
	if x.CommaOk {
		return mk("tuple", "", 0, x.Type(), val, ok)
	}
	return val
}

// mapGet reads a map element.
func (e *Eng) mapGet(st *State, m, k *Term, mt *types.Map, mtyp types.Type) (*Term, *Term) {
	k = st.norm(k)
	if m == tNil {
		return zeroTerm(mt.Elem()), tFalse
	}
	// constant tables
	if g := constGlobalOf(m); g != nil {
		if tab, ok := e.P.constMaps[g]; ok && k.isConst() {
			if en, ok := tab[k.aux]; ok {
				return en.v, tTrue
			}
			return zeroTerm(mt.Elem()), tFalse
		}
		if tab, ok := e.P.constMaps[g]; ok && len(tab) <= 16 {
			none := true
			for _, en := range tab {
				if !st.isFalse(mkEq(k, en.k, mt.Key())) {
					none = false
					break
				}
			}
			if none {
				return zeroTerm(mt.Elem()), tFalse
			}
		}
	}
	if v, ok := st.heap[melemAddr(m, k, mtyp)]; ok {
		if o, ok := st.heap[mokAddr(m, k, mtyp)]; ok {
			return v, o
		}
		return v, tTrue
	}
	ver, ok := st.heap[mverAddr(m, mtyp)]
	if !ok {
		ver = st.epoch("M:" + typeStr(mtyp))
	}
	if ver.op == "fresh" {
		// empty when made; every update since is in the heap
		unknown := false
		for a := range st.heap {
			if a.op == "melem" && a.args[0] == m && !(a.args[1].isConst() && k.isConst()) {
				unknown = true
			}
		}
		if !unknown {
			return zeroTerm(mt.Elem()), tFalse
		}
	}
	val := mk("mapget", typeStr(mtyp), 0, mt.Elem(), m, k, ver)
	okv := mk("mapok", typeStr(mtyp), 0, types.Typ[types.Bool], m, k, ver)
	return val, okv
}

func constGlobalOf(m *Term) *ssa.Global {
	if m.op == "mem" && m.args[0].op == "global" && m.args[1] == epoch0 {
		g, _ := m.args[0].obj.(*ssa.Global)
		return g
	}
	return nil
}

func (e *Eng) mapUpdate(st *State, m, k, v *Term, mtyp types.Type, tag *Term) {
	k = st.norm(k)
	// other keys that may be equal are forgotten
	for a := range st.heap {
		if a.op != "melem" || !strings.HasSuffix(a.aux, typeStr(mtyp)) {
			continue
		}
		if a.args[0] == m {
			if a.args[1] == k || a.args[1].isConst() && k.isConst() {
				continue
			}
			delete(st.heap, a)
		} else if st.mayEqPtr(a.args[0], m) {
			delete(st.heap, a)
		}
	}
	va := mverAddr(m, mtyp)
	if cur, ok := st.heap[va]; !(ok && cur.op == "fresh" && k.isConst()) {
		if !k.isConst() || !ok {
			st.heap[va] = tag
		}
	}
	st.heap[melemAddr(m, k, mtyp)] = v
	st.heap[mokAddr(m, k, mtyp)] = tTrue
}

func (e *Eng) effect(st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		a, v := e.val(st, x.Addr), e.val(st, x.Val)
		if e.R.OnStore != nil {
			e.R.OnStore(e, st, in, a, v)
		}
		st.store(a, v, derefType(x.Addr.Type()), fmt.Sprintf("%d.%d", st.top().ctx.id, e.P.iid(in)))
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		if e.R.OnMapUp != nil {
			e.R.OnMapUp(e, st, in, m, k, v)
		}
		st.escapeInto(m, v)
		e.mapUpdate(st, m, k, v, x.Map.Type(), e.fresh(st, in, ".mv", nil))
	case *ssa.Send:
		st.escape(e.val(st, x.X))
	case *ssa.DebugRef:
	}
}

func (st *State) escapeInto(m, v *Term) {
	if r := rootOf(m); !(r.op == "alloc" && !st.esc[r]) {
		st.escape(v)
	}
}
