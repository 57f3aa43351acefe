package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gc drops heap entries of unreachable objects and facts about dead symbols.
func (st *State) gc() {
	live := map[*Term]bool{}
	var work []*Term
	mark := func(t *Term) {
		for _, s := range t.syms {
			if !live[s] {
				live[s] = true
				work = append(work, s)
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			mark(v)
		}
		for _, d := range f.defers {
			if d.fnv != nil {
				mark(d.fnv)
			}
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range st.G {
		mark(v)
	}
	for _, v := range st.epochs {
		mark(v)
	}
	// index heap by address symbols; an address is of interest only if all
	// symbols in it are still in use
	initial := func(x *Term) bool {
		return x.op == "sym" && (x == epoch0 || strings.HasPrefix(x.aux, "P:") || strings.HasPrefix(x.aux, "K:"))
	}
	bySym := map[*Term][]*Term{}
	for a := range st.heap {
		root := true
		for _, s := range a.syms {
			if !initial(s) {
				root = false
				bySym[s] = append(bySym[s], a)
			}
		}
		if root {
			mark(a)
			mark(st.heap[a])
		}
	}
	kept := map[*Term]bool{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range bySym[s] {
			if kept[a] {
				continue
			}
			ok := true
			for _, x := range a.syms {
				if !initial(x) && !live[x] {
					ok = false
				}
			}
			if ok {
				kept[a] = true
				mark(a)
				mark(st.heap[a])
			}
		}
	}
	for a := range st.heap {
		for _, s := range a.syms {
			if !initial(s) && !live[s] {
				delete(st.heap, a)
				break
			}
		}
	}
	ch := false
	for t := range st.facts {
		for _, s := range t.syms {
			if !live[s] && s != epoch0 && !strings.HasPrefix(s.aux, "P:") && !strings.HasPrefix(s.aux, "K:") {
				delete(st.facts, t)
				ch = true
				break
			}
		}
	}
	for s := range st.esc {
		if !live[s] {
			delete(st.esc, s)
		}
	}
	if ch {
		st.rebuildEqc()
	}
}

var debugMerge = os.Getenv("CHECK_MERGE")

type locRef struct {
	kind string // "e","h","g","p","d"
	fi   int
	v    ssa.Value
	addr *Term
	name string
	di   int
	ai   int
}

func (l locRef) id() string {
	switch l.kind {
	case "e":
		return fmt.Sprintf("%d.%s", l.fi, l.v.Name())
	case "h":
		return "h" + l.addr.String()
	case "g":
		return "g." + l.name
	case "p":
		return "ep." + l.name
	case "d":
		return fmt.Sprintf("d%d.%d.%d", l.fi, l.di, l.ai)
	}
	return "?"
}

// merge joins S2 into S1 (same program point, same key). It returns the join
// and whether it differs from S1.
func (e *Eng) merge(pt string, S1, S2 *State) (*State, bool) {
	pfx := "j" + pt + ":"
	// stale the previous instances of this point's join symbols in S2
	ren := map[*Term]*Term{}
	seen := map[*Term]bool{}
	note := func(t *Term) {
		for _, s := range t.syms {
			if !seen[s] && s.op == "sym" && strings.HasPrefix(s.aux, pfx) {
				seen[s] = true
				if s.gen == 0 {
					ren[s] = withGen(s, 1)
				} else if s.gen == 1 {
					ren[s] = withGen(s, 2)
				}
			}
		}
	}
	for _, f := range S2.frames {
		for _, v := range f.env {
			note(v)
		}
		for _, d := range f.defers {
			if d.fnv != nil {
				note(d.fnv)
			}
			for _, a := range d.args {
				note(a)
			}
		}
	}
	for a, v := range S2.heap {
		note(a)
		note(v)
	}
	for _, v := range S2.G {
		note(v)
	}
	for _, v := range S2.epochs {
		note(v)
	}
	for t := range S2.facts {
		note(t)
	}
	S2o := S2
	if len(ren) > 0 {
		S2 = S2.clone()
		if e.R.Relate {
			var gone []*Term
			for s, n := range ren {
				if n.gen == 2 && s.typ != nil && isIntType(s.typ) {
					gone = append(gone, s)
				}
			}
			sort.Slice(gone, func(i, j int) bool { return gone[i].id < gone[j].id })
			for _, s := range gone {
				S2.bridge(s)
			}
		}
		S2.rename(ren, nil)
	}
	_ = S2o

	R := S1.clone()
	pair := map[[2]*Term]*Term{}
	back1 := map[*Term]*Term{}
	back2 := map[*Term]*Term{}
	newSyms := []*Term{}
	var intPairs [][3]*Term

	var tryJoin func(a, b *Term, depth int) *Term
	tryJoin = func(a, b *Term, depth int) *Term {
		if a == b && !a.summ {
			return a
		}
		if j, ok := pair[[2]*Term{a, b}]; ok {
			return j
		}
		if e.rough >= 2 {
			return nil
		}
		if depth == 0 && isIntTerm(a) && isIntTerm(b) {
			// at a constant distance from numbers joined before
			for _, p := range intPairs {
				k1, ok := linAdd(a, p[0], -1, nil).intVal()
				if !ok {
					continue
				}
				if k2, ok := linAdd(b, p[1], -1, nil).intVal(); ok && k1 == k2 {
					return linAdd(p[2], mkInt(k1), 1, p[2].typ)
				}
			}
		}
		if depth > 5 || a.op != b.op || a.aux != b.aux || a.gen != b.gen || len(a.args) != len(b.args) || len(a.args) == 0 || a.k != b.k {
			return nil
		}
		for i := range a.co {
			if a.co[i] != b.co[i] {
				return nil
			}
		}
		na := make([]*Term, len(a.args))
		for i := range a.args {
			na[i] = tryJoin(a.args[i], b.args[i], depth+1)
			if na[i] == nil {
				return nil
			}
		}
		return rebuild(a, na)
	}
	join := func(l locRef, a, b *Term) *Term {
		if r := tryJoin(a, b, 0); r != nil {
			return r
		}
		if w := e.joinBuf(l, a, b); w != nil {
			return w
		}
		// structs: join fieldwise
		if (a.op == "struct" || a.op == "tuple") && b.op == a.op && a.aux == b.aux && len(a.args) == len(b.args) {
			na := make([]*Term, len(a.args))
			for i := range a.args {
				r := tryJoin(a.args[i], b.args[i], 0)
				if r == nil {
					ty := a.args[i].typ
					if ty == nil {
						ty = b.args[i].typ
					}
					r = mkSym(fmt.Sprintf("%s%s.%d", pfx, l.id(), i), ty)
					if !(a.args[i] == r || b.args[i] == r) || a.args[i] == r {
						pair[[2]*Term{a.args[i], b.args[i]}] = r
						back1[r] = a.args[i]
						back2[r] = b.args[i]
						newSyms = append(newSyms, r)
					}
				}
				na[i] = r
			}
			return mk(a.op, a.aux, 0, a.typ, na...)
		}
		ty := a.typ
		if ty == nil || a == tNil {
			ty = b.typ
		}
		j := mkSym(pfx+l.id(), ty)
		pair[[2]*Term{a, b}] = j
		back1[j] = a
		back2[j] = b
		newSyms = append(newSyms, j)
		if isIntTerm(a) && isIntTerm(b) {
			intPairs = append(intPairs, [3]*Term{a, b, j})
		}
		return j
	}

	// The joins are done from small terms to large ones, so that the parts of a
	// compound term have been related before the term itself.
	type job struct {
		l    locRef
		a, b *Term
		set  func(*Term)
	}
	var jobs []job
	later := func(l locRef, a, b *Term, set func(*Term)) {
		jobs = append(jobs, job{l, a, b, set})
	}
	// environments
	for fi := range S1.frames {
		f1, f2, fr := S1.frames[fi], S2.frames[fi], R.frames[fi]
		var vs []ssa.Value
		for v := range f1.env {
			if _, ok := f2.env[v]; ok {
				vs = append(vs, v)
			} else {
				delete(fr.env, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			v := v
			later(locRef{kind: "e", fi: fi, v: v}, f1.env[v], f2.env[v], func(t *Term) { fr.env[v] = t })
		}
		for di := range f1.defers {
			nd := *f1.defers[di]
			nd.args = append([]*Term(nil), nd.args...)
			for ai := range nd.args {
				ai := ai
				later(locRef{kind: "d", fi: fi, di: di, ai: ai}, nd.args[ai], f2.defers[di].args[ai], func(t *Term) { nd.args[ai] = t })
			}
			if nd.fnv != nil {
				later(locRef{kind: "d", fi: fi, di: di, ai: -1}, nd.fnv, f2.defers[di].fnv, func(t *Term) { nd.fnv = t })
			}
			fr.defers[di] = &nd
		}
	}
	var gks []string
	for k := range S1.G {
		gks = append(gks, k)
	}
	for k := range S2.G {
		if _, ok := S1.G[k]; !ok {
			gks = append(gks, k)
		}
	}
	sort.Strings(gks)
	for _, k := range gks {
		a, ok1 := S1.G[k]
		b, ok2 := S2.G[k]
		if !ok1 || !ok2 {
			delete(R.G, k)
			continue
		}
		k := k
		later(locRef{kind: "g", name: k}, a, b, func(t *Term) { R.G[k] = t })
	}
	// epochs
	eps := map[string]bool{}
	for k := range S1.epochs {
		eps[k] = true
	}
	for k := range S2.epochs {
		eps[k] = true
	}
	var epk []string
	for k := range eps {
		epk = append(epk, k)
	}
	sort.Strings(epk)
	for _, k := range epk {
		k := k
		later(locRef{kind: "p", name: k}, S1.epoch(k), S2.epoch(k), func(t *Term) { R.epochs[k] = t })
	}
	// heap
	al1, al2 := S1.allocs(), S2.allocs()
	addrs := map[*Term]bool{}
	for a := range S1.heap {
		addrs[a] = true
	}
	for a := range S2.heap {
		addrs[a] = true
	}
	var as []*Term
	for a := range addrs {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	has := func(set map[*Term]bool, a *Term) bool {
		for _, s := range a.syms {
			if s.op == "alloc" && !set[s] {
				return false
			}
		}
		return true
	}
	for _, a := range as {
		v1, ok1 := S1.heap[a]
		v2, ok2 := S2.heap[a]
		if a.op == "buf" || a.op == "ghost" || a.op == "mver" {
			if !ok1 && !has(al1, a) {
				R.heap[a] = v2
				continue
			}
			if !ok2 && !has(al2, a) {
				continue
			}
			if !ok1 || !ok2 {
				delete(R.heap, a)
				continue
			}
		} else {
			if !ok1 {
				if !has(al1, a) {
					R.heap[a] = v2
					continue
				}
				v1 = memTerm(a, S1.epoch(addrCat(a)), v2.typ)
			}
			if !ok2 {
				if !has(al2, a) {
					continue
				}
				v2 = memTerm(a, S2.epoch(addrCat(a)), v1.typ)
			}
		}
		a := a
		later(locRef{kind: "h", addr: a}, v1, v2, func(t *Term) { R.heap[a] = t })
	}
	size := func(j job) int {
		if j.a.depth > j.b.depth {
			return j.a.depth
		}
		return j.b.depth
	}
	sort.SliceStable(jobs, func(i, j int) bool { return size(jobs[i]) < size(jobs[j]) })
	var ptrs [][3]*Term // pointers that were joined to something compound
	for _, j := range jobs {
		r := join(j.l, j.a, j.b)
		if debugMerge == pt {
			fmt.Fprintf(os.Stderr, "JOIN %s %s: %v | %v -> %v\n", pt, j.l.id(), j.a, j.b, r)
		}
		j.set(r)
		if r.op != "sym" && (r != j.a || r != j.b) && j.a != tNil && j.b != tNil {
			ptrs = append(ptrs, [3]*Term{r, j.a, j.b})
		}
	}
	for t := range S2.esc {
		R.esc[t] = true
	}
	// objects that were joined: carry over what both sides know of them
	done := map[*Term]bool{}
	for round := 0; round < 4; round++ {
		pf1, pf2 := map[*Term]*Term{}, map[*Term]*Term{}
		pb1, pb2 := map[*Term]*Term{}, map[*Term]*Term{}
		add := func(j, a, b *Term) {
			if j.typ == nil || a == tNil || b == tNil {
				return
			}
			pt, ok := j.typ.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
				return
			}
			pf1[a], pf2[b] = j, j
			pb1[j], pb2[j] = a, b
		}
		for _, j := range newSyms {
			if j.op == "sym" {
				add(j, back1[j], back2[j])
			}
		}
		for _, p := range ptrs {
			add(p[0], p[1], p[2])
		}
		if len(pb1) == 0 {
			break
		}
		cand := map[*Term]bool{}
		collect := func(S *State, fw map[*Term]*Term) {
			for a := range S.heap {
				if a.op != "faddr" {
					continue
				}
				r := rootOf(a)
				j, ok := fw[r]
				if !ok {
					continue
				}
				cand[substTerm(a, map[*Term]*Term{r: j})] = true
			}
		}
		collect(S1, pf1)
		collect(S2, pf2)
		var cl []*Term
		for a := range cand {
			if !done[a] {
				cl = append(cl, a)
			}
		}
		if len(cl) == 0 {
			break
		}
		sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
		for _, a := range cl {
			done[a] = true
			a1, a2 := substTerm(a, pb1), substTerm(a, pb2)
			v1, ok1 := S1.heap[a1]
			v2, ok2 := S2.heap[a2]
			if !ok1 && !ok2 {
				continue
			}
			if !ok1 {
				v1 = memTerm(a1, S1.epoch(addrCat(a1)), v2.typ)
			}
			if !ok2 {
				v2 = memTerm(a2, S2.epoch(addrCat(a2)), v1.typ)
			}
			R.heap[a] = join(locRef{kind: "h", addr: a}, v1, v2)
			for _, t := range []*Term{a1, a2} {
				if r := rootOf(t); r.op == "alloc" {
					R.esc[r] = true
				}
			}
		}
	}

	// facts
	R.facts = map[*Term]bool{}
	for t, v := range S1.facts {
		if v2, ok := S2.evalBool(t); ok && v2 == v && !containsAny(t, newSyms) {
			R.facts[t] = v
		}
	}
	for t, v := range S2.facts {
		if _, ok := R.facts[t]; ok || e.rough >= 1 {
			continue
		}
		if v1, ok := S1.evalBool(t); ok && v1 == v && !containsAny(t, newSyms) {
			R.facts[t] = v
		}
	}
	if len(newSyms) > 0 && e.rough >= 1 {
		// widening: what S1 knows, if S2 knows it too
		for t, v := range S1.facts {
			if containsAny(t, newSyms) && substTerm(t, back1) == t {
				if v2, ok := S2.evalBool(substTerm(t, back2)); ok && v2 == v {
					R.facts[t] = v
				}
			}
		}
	} else if len(newSyms) > 0 {
		fw1, fw2 := map[*Term]*Term{}, map[*Term]*Term{}
		for _, j := range newSyms {
			if a := back1[j]; !a.isConst() && a != tNil {
				fwd(fw1, a, j, back1[j] != j)
			}
			if b := back2[j]; !b.isConst() && b != tNil {
				fwd(fw2, b, j, back1[j] != j)
			}
		}
		try := func(t *Term) {
			if t.op == "not" {
				t = t.args[0]
			}
			if t.isConst() || !containsAny(t, newSyms) {
				return
			}
			if _, ok := R.facts[t]; ok {
				return
			}
			v1, ok1 := S1.evalBool(substTerm(t, back1))
			if !ok1 {
				return
			}
			v2, ok2 := S2.evalBool(substTerm(t, back2))
			if ok2 && v1 == v2 {
				R.facts[t] = v1
			}
		}
		for t := range S1.facts {
			if n := substTerm(t, fw1); n != t {
				try(n)
			}
		}
		for t := range S2.facts {
			if n := substTerm(t, fw2); n != t {
				try(n)
			}
		}
		if e.R.Relate {
			// also by way of positions, where characters were joined themselves
			for i, fw := range []map[*Term]*Term{fw1, fw2} {
				sub := map[*Term]*Term{}
				for a, j := range fw {
					if a.op != "app" {
						sub[a] = j
					}
				}
				if len(sub) == len(fw) {
					continue
				}
				for t := range []*State{S1, S2}[i].facts {
					if n := substTerm(t, sub); n != t {
						try(n)
					}
				}
			}
		}
		for _, j := range newSyms {
			if back1[j] == j {
				// already joined earlier: facts only shrink, except those carried
				for t := range S1.facts {
					if t.contains(j) {
						try(t)
					}
				}
				continue
			}
			if j.typ == nil {
				continue
			}
			switch u := j.typ.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Slice, *types.Chan:
				try(mkEq(j, tNil, j.typ))
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					try(lt0(j))
					try(lt0(linAdd(j, mkInt(1), 1, nil)))
					for _, b := range []*Term{back1[j], back2[j]} {
						if k, ok := b.intVal(); ok {
							try(lt0(linAdd(j, mkInt(k), -1, nil)))
							try(lt0(linAdd(mkInt(k), j, -1, nil)))
						}
					}
				}
				if u.Info()&types.IsString != 0 {
					try(eq0(mkLen(j)))
				}
			}
		}
		if e.R.Relate {
			// order relations between joined numbers and the rule's own ghosts
			var ks []*Term
			for _, k := range sortedTermKeys(R.G) {
				if g := R.G[k]; g != nil && isIntTerm(g) && !g.isConst() {
					ks = append(ks, g)
				}
			}
			for _, j := range newSyms {
				if j.typ == nil || !isIntType(j.typ) {
					continue
				}
				for _, k := range append(append([]*Term{}, ks...), newSyms...) {
					if k == j || k.typ != nil && !isIntType(k.typ) {
						continue
					}
					try(lt0(linAdd(j, k, -1, types.Typ[types.Int])))
					try(lt0(linAdd(k, j, -1, types.Typ[types.Int])))
				}
			}
		}
	}
	if e.R.Anchor != "" && e.rough == 0 {
		if a := R.G[e.R.Anchor]; a != nil && S1.G[e.R.Anchor] == a && S2.G[e.R.Anchor] == a {
			for _, n := range sortedTermKeys(R.G) {
				k := R.G[n]
				if k == nil || !isIntTerm(k) || k.isConst() {
					continue
				}
				t := lt0(linAdd(a, k, -1, types.Typ[types.Int]))
				if t.op == "not" {
					t = t.args[0]
				}
				if t.isConst() || containsAny(t, newSyms) {
					continue
				}
				if v1, ok := S1.evalBool(t); ok {
					if v2, ok := S2.evalBool(t); ok && v1 == v2 {
						R.facts[t] = v1
					}
				}
			}
		}
	}
	R.rebuildEqc()
	return R, !sameState(R, S1)
}

func containsAny(t *Term, ss []*Term) bool {
	for _, s := range ss {
		if t.contains(s) {
			return true
		}
	}
	return false
}

func (st *State) allocs() map[*Term]bool {
	m := map[*Term]bool{}
	add := func(t *Term) {
		for _, s := range t.syms {
			if s.op == "alloc" {
				m[s] = true
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			add(v)
		}
		for _, d := range f.defers {
			if d.fnv != nil {
				add(d.fnv)
			}
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for a, v := range st.heap {
		add(a)
		add(v)
	}
	for _, v := range st.G {
		add(v)
	}
	return m
}

// joinBuf widens accumulated text: X and X++ps join to X++star(ps).
func (e *Eng) joinBuf(l locRef, a, b *Term) *Term {
	if l.kind != "h" || l.addr.op != "buf" {
		if !e.R.TextJoin || l.kind != "e" || !isStringType(l.v.Type()) {
			return nil
		}
	}
	if e.widen {
		return nil
	}
	if r := joinText(a, b); r != nil {
		return r
	}
	return joinText(b, a)
}

func joinText(a, b *Term) *Term {
	pa, pb := absorb(catParts(a)), absorb(catParts(b))
	// longest common prefix
	n := 0
	for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
		n++
	}
	ra, rb := pa[n:], pb[n:]
	if len(ra) == 0 && len(rb) == 0 {
		return mkCat(pa...)
	}
	// literal tails may have been folded into the previous literal
	if len(ra) == 0 && len(rb) == 1 && rb[0].op == "star" {
		return b
	}
	if len(ra) == 0 && len(rb) > 0 {
		return mkCat(append(append([]*Term{}, pa[:n]...), mkStar(rb))...)
	}
	if len(ra) == 1 && ra[0].op == "star" {
		// X star(ps)  vs  X ps' (ps' one or more repetitions)
		body := ra[0].args
		k := rb
		if len(k) >= 1 && k[0] == ra[0] {
			k = k[1:]
		}
		if eqParts(k, body) {
			return a
		}
	}
	if len(ra) == 1 && len(rb) >= 1 {
		// literal prefix split: "abc" vs "abcdef"...
		sa, oka := ra[0].strVal()
		sb, okb := rb[0].strVal()
		if oka && okb && strings.HasPrefix(sb, sa) {
			rest := append([]*Term{mkStr(sb[len(sa):])}, rb[1:]...)
			if len(sb) == len(sa) {
				rest = rb[1:]
			}
			out := append(append([]*Term{}, pa[:n]...), ra[0], mkStar(rest))
			return mkCat(out...)
		}
	}
	if len(ra) == 2 && ra[1].op == "star" && len(rb) >= 2 {
		sa, oka := ra[0].strVal()
		sb, okb := rb[0].strVal()
		_ = sb
		if oka && okb && ra[0] == rb[0] && sa != "" {
			if rb[1] == ra[1] && eqParts(rb[2:], ra[1].args) {
				return a
			}
		}
	}
	return nil
}

// absorb folds repetitions that follow a star of the same text into it.
func absorb(ps []*Term) []*Term {
	var out []*Term
	for i := 0; i < len(ps); {
		if n := len(out); n > 0 && out[n-1].op == "star" {
			b := out[n-1].args
			if ps[i] == out[n-1] {
				i++
				continue
			}
			if i+len(b) <= len(ps) && eqParts(ps[i:i+len(b)], b) {
				i += len(b)
				continue
			}
		}
		out = append(out, ps[i])
		i++
	}
	return out
}

// starNorm abstracts the index of slice elements in repeated text.
func starNorm(t *Term) *Term {
	if t.op == "mem" && t.args[0].op == "iaddr" {
		return mk("app", "elemOf", 0, t.typ, starNorm(t.args[0].args[0]))
	}
	if len(t.args) == 0 {
		return t
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = starNorm(a)
		ch = ch || na[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, na)
}

func eqParts(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if starNorm(a[i]) != starNorm(b[i]) {
			return false
		}
	}
	return true
}

func mkStar(ps []*Term) *Term {
	var ns []*Term
	for _, p := range ps {
		ns = append(ns, starNorm(p))
	}
	c := mkCat(ns...)
	return mk("star", "", 0, types.Typ[types.String], catParts(c)...)
}

func catParts(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	if s, ok := t.strVal(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

// sameState: the two states, at the same point, say the same.
func sameState(a, b *State) bool {
	for i, f := range a.frames {
		g := b.frames[i]
		if len(f.env) != len(g.env) || len(f.defers) != len(g.defers) {
			return false
		}
		for v, t := range f.env {
			if g.env[v] != t {
				return false
			}
		}
		for j, d := range f.defers {
			for k := range d.args {
				if d.args[k] != g.defers[j].args[k] {
					return false
				}
			}
			if d.fnv != g.defers[j].fnv {
				return false
			}
		}
	}
	if len(a.heap) != len(b.heap) || len(a.epochs) != len(b.epochs) || len(a.facts) != len(b.facts) || len(a.G) != len(b.G) || len(a.esc) != len(b.esc) {
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range a.epochs {
		if b.epochs[k] != v {
			return false
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.G {
		if b.G[k] != v {
			return false
		}
	}
	for k := range a.esc {
		if !b.esc[k] {
			return false
		}
	}
	return true
}

func isIntTerm(t *Term) bool {
	if _, ok := t.intVal(); ok {
		return true
	}
	return t.op == "lin" || t.typ != nil && isIntType(t.typ)
}

// fwd maps a joined term to its join symbol; of x+c the facts are about x.
func fwd(m map[*Term]*Term, a, j *Term, first bool) {
	m[a] = j
	if !first {
		return
	}
	if x, y, c, ok := diffForm(a); ok && a.op == "lin" && x != nil && y == nil {
		if _, dup := m[x]; !dup {
			m[x] = linAdd(j, mkInt(c), -1, x.typ)
		}
	}
}

func sortedTermKeys(m map[string]*Term) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
