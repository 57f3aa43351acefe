package main

// Hash-consed value terms: the value-numbering abstract domain.
//
// A term names the value of an expression up to provable equality. Terms are
// built only through the constructors here, which normalise them, so that two
// ways of writing the same computation usually give the same term.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	id    int
	op    string
	aux   string
	gen   int
	args  []*Term
	typ   types.Type
	cv    constant.Value
	obj   interface{}
	syms  []*Term // sorted by id: the sym/alloc leaves of this term
	summ  bool    // contains a summary (gen 2) symbol
	k     int64   // constant of a lin term
	co    []int64 // coefficients of a lin term
	depth int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func mk(op, aux string, gen int, typ types.Type, args ...*Term) *Term {
	return mkFull(&Term{op: op, aux: aux, gen: gen, typ: typ, args: args})
}

func mkFull(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.aux)
	sb.WriteByte('|')
	if t.gen != 0 {
		sb.WriteString(strconv.Itoa(t.gen))
	}
	if t.op == "lin" {
		sb.WriteString(fmt.Sprintf("|%d|%v", t.k, t.co))
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if o, ok := termTab[key]; ok {
		return o
	}
	t.id = len(termList) + 1
	set := map[*Term]bool{}
	if t.op == "sym" || t.op == "alloc" {
		set[t] = true
		t.summ = t.gen >= 2
	}
	for _, a := range t.args {
		for _, s := range a.syms {
			set[s] = true
		}
		if a.summ {
			t.summ = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	for s := range set {
		t.syms = append(t.syms, s)
	}
	sort.Slice(t.syms, func(i, j int) bool { return t.syms[i].id < t.syms[j].id })
	termTab[key] = t
	termList = append(termList, t)
	return t
}

func (t *Term) contains(s *Term) bool {
	for _, x := range t.syms {
		if x == s {
			return true
		}
	}
	return false
}

var (
	tTrue  = mkConstRaw(constant.MakeBool(true), types.Typ[types.Bool])
	tFalse = mkConstRaw(constant.MakeBool(false), types.Typ[types.Bool])
	tNil   = mk("nil", "", 0, nil)
	tZero  = mkConstRaw(constant.MakeInt64(0), types.Typ[types.Int])
	tNow   = mk("app", "now", 0, nil)
)

func mkConstVal(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tNil
	}
	switch v.Kind() {
	case constant.Float:
		if w := constant.ToInt(v); w.Kind() == constant.Int {
			if b, ok := typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger != 0 {
				v = w
			}
		}
	}
	return mkConstRaw(v, typ)
}

func mkConstRaw(v constant.Value, typ types.Type) *Term {
	return mkFull(&Term{op: "const", aux: fmt.Sprintf("%d:%s", v.Kind(), v.ExactString()), typ: typ, cv: v})
}

func mkInt(i int64) *Term  { return mkConstRaw(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkStr(s string) *Term { return mkConstRaw(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkSym(name string, typ types.Type) *Term { return mk("sym", name, 0, typ) }

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) boolVal() (bool, bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	return false, false
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	g := ""
	if t.gen > 0 {
		g = fmt.Sprintf("'%d", t.gen)
	}
	switch t.op {
	case "const":
		return t.cv.ExactString()
	case "nil":
		return "nil"
	case "sym":
		return t.aux + g
	case "alloc":
		return "&" + t.aux + g
	case "global":
		return "G." + t.aux
	case "fn":
		return "fn:" + t.aux
	case "faddr":
		return as[0] + "." + t.aux
	case "field":
		return as[0] + "->" + t.aux
	case "mem":
		if as[1] == "epoch0" {
			return "*(" + as[0] + ")"
		}
		return "*(" + as[0] + ")@" + as[1]
	case "lin":
		var sb strings.Builder
		for i, a := range as {
			c := t.co[i]
			if c == 1 {
				sb.WriteString("+" + a)
			} else {
				fmt.Fprintf(&sb, "%+d*%s", c, a)
			}
		}
		fmt.Fprintf(&sb, "%+d", t.k)
		return sb.String()
	case "iface":
		return as[0]
	case "app":
		return t.aux + "(" + strings.Join(as, ",") + ")"
	}
	return t.op + ":" + t.aux + g + "(" + strings.Join(as, ",") + ")"
}

// ---- linear integer terms

func linOf(t *Term) (map[*Term]int64, int64) {
	if v, ok := t.intVal(); ok {
		return map[*Term]int64{}, v
	}
	if t.op == "lin" {
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.co[i]
		}
		return m, t.k
	}
	return map[*Term]int64{t: 1}, 0
}

func linMake(m map[*Term]int64, k int64, typ types.Type) *Term {
	var ts []*Term
	for t, c := range m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		if typ == nil {
			typ = types.Typ[types.Int]
		}
		return mkConstRaw(constant.MakeInt64(k), typ)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && m[ts[0]] == 1 && k == 0 {
		return ts[0]
	}
	co := make([]int64, len(ts))
	for i, t := range ts {
		co[i] = m[t]
	}
	return mkFull(&Term{op: "lin", args: ts, co: co, k: k, typ: typ})
}

func linAdd(a, b *Term, sb int64, typ types.Type) *Term {
	ma, ka := linOf(a)
	mb, kb := linOf(b)
	for t, c := range mb {
		ma[t] += sb * c
	}
	return linMake(ma, ka+sb*kb, typ)
}

func isNonNeg(t *Term) bool {
	if t.op == "app" && (t.aux == "len" || t.aux == "cap") {
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	if t.op == "and" {
		for _, a := range t.args {
			if v, ok := a.intVal(); ok && v >= 0 {
				return true
			}
		}
	}
	return false
}

// lt0 builds the truth value of "d < 0" for a linear integer term d.
func lt0(d *Term) *Term {
	m, k := linOf(d)
	if len(m) == 0 {
		return mkBool(k < 0)
	}
	l := linMake(m, k, nil)
	var first *Term
	var fc int64
	if l.op == "lin" {
		first, fc = l.args[0], l.co[0]
	} else {
		first, fc = l, 1
	}
	if fc < 0 {
		// d<0  <=>  not(-d-1 < 0)
		n := map[*Term]int64{}
		for t, c := range m {
			n[t] = -c
		}
		return mkNot(lt0(linMake(n, -k-1, nil)))
	}
	if len(m) == 1 && fc == 1 && isNonNeg(first) {
		if k >= 0 {
			return tFalse
		}
		if k == -1 { // first < 1 <=> first == 0
			return eq0(first)
		}
	}
	return mk("lt0", "", 0, types.Typ[types.Bool], l)
}

func eq0(d *Term) *Term {
	m, k := linOf(d)
	if len(m) == 0 {
		return mkBool(k == 0)
	}
	l := linMake(m, k, nil)
	if l.op == "lin" && l.co[0] < 0 {
		n := map[*Term]int64{}
		for t, c := range m {
			n[t] = -c
		}
		l = linMake(n, -k, nil)
	}
	if len(m) == 1 {
		for t, c := range m {
			if c == 1 && isNonNeg(t) && k > 0 {
				return tFalse
			}
			if c == -1 && isNonNeg(t) && k < 0 {
				return tFalse
			}
			// single-bit tests: (x & bit) == bit  <=>  not ((x & bit) == 0)
			if t.op == "and" && (c == 1 || c == -1) && k != 0 {
				for _, a := range t.args {
					if v, ok := a.intVal(); ok && v != 0 && v&(v-1) == 0 {
						kk := -k * c
						if kk == v {
							return mkNot(eq0(t))
						}
						return tFalse
					}
				}
			}
		}
	}
	if l.op != "lin" && l.op == "app" && l.aux == "len" {
		if l.args[0].op == "cat" {
			// a concatenation with a non-empty literal part is never empty
			for _, p := range l.args[0].args {
				if s, ok := p.strVal(); ok && s != "" {
					return tFalse
				}
			}
		}
	}
	return mk("eq0", "", 0, types.Typ[types.Bool], l)
}

func mkNot(t *Term) *Term {
	if b, ok := t.boolVal(); ok {
		return mkBool(!b)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return mk("not", "", 0, types.Typ[types.Bool], t)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func mkLen(x *Term) *Term {
	if s, ok := x.strVal(); ok {
		return mkInt(int64(len(s)))
	}
	switch x.op {
	case "nil":
		return tZero
	case "slicelit":
		return mkInt(int64(len(x.args)))
	case "append":
		return linAdd(mkLen(x.args[0]), mkLen(x.args[1]), 1, types.Typ[types.Int])
	case "slice":
		// slice(x, lo, hi): hi-lo
		if x.args[2] != tNil {
			return linAdd(x.args[2], x.args[1], -1, types.Typ[types.Int])
		}
		return linAdd(mkLen(x.args[0]), x.args[1], -1, types.Typ[types.Int])
	case "arrslice":
		if n, ok := x.obj.(int64); ok {
			return mkInt(n)
		}
	case "makeslice":
		return x.args[0]
	case "conv":
		// string <-> []byte keeps the length
		if x.aux == "bytes" {
			return mkLen(x.args[0])
		}
	case "iface":
		return mkLen(x.args[0])
	}
	return mk("app", "len", 0, types.Typ[types.Int], x)
}

func definitelyNonNil(t *Term) bool {
	switch t.op {
	case "alloc", "global", "fn", "closure", "faddr", "iaddr", "slicelit", "arrslice", "makemap", "makeslice", "const":
		return true
	case "iface":
		return true
	case "app":
		return nonNilApps[t.aux]
	case "conv":
		return false
	}
	return false
}

var nonNilApps = map[string]bool{"newerr": true}

// mkEq builds a == b. typ is the operand type.
func mkEq(a, b *Term, typ types.Type) *Term {
	if a == b && !a.summ {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		if a.cv.Kind() == b.cv.Kind() {
			return mkBool(constant.Compare(a.cv, token.EQL, b.cv))
		}
	}
	if a == tNil || b == tNil {
		o := a
		if a == tNil {
			o = b
		}
		if o == tNil {
			return tTrue
		}
		if definitelyNonNil(o) {
			return tFalse
		}
		if o.op == "append" {
			// append(x, y) == nil iff both empty; leave symbolic
		}
		return mkEqRaw(o, tNil)
	}
	if isBoolType(typ) {
		if v, ok := a.boolVal(); ok {
			if v {
				return b
			}
			return mkNot(b)
		}
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return mkNot(a)
		}
		// not(x)==not(y) => x==y ; not(x)==y => not(x==y)
		neg := false
		if a.op == "not" {
			a, neg = a.args[0], !neg
		}
		if b.op == "not" {
			b, neg = b.args[0], !neg
		}
		r := mkEqRaw(a, b)
		if neg {
			return mkNot(r)
		}
		return r
	}
	if isIntType(typ) || a.op == "lin" || b.op == "lin" {
		return eq0(linAdd(a, b, -1, nil))
	}
	if isStringType(typ) {
		if s, ok := a.strVal(); ok && s == "" {
			return eq0(mkLen(b))
		}
		if s, ok := b.strVal(); ok && s == "" {
			return eq0(mkLen(a))
		}
	}
	if a.op == "alloc" && b.op == "alloc" && a != b && !a.summ && !b.summ {
		return tFalse
	}
	if a.op == "iface" && b.op == "iface" {
		if a.aux != b.aux {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0], a.args[0].typ)
	}
	return mkEqRaw(a, b)
}

func mkEqRaw(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", 0, types.Typ[types.Bool], a, b)
}

func mkLt(a, b *Term, typ types.Type) *Term {
	if a.isConst() && b.isConst() && a.cv.Kind() == b.cv.Kind() {
		return mkBool(constant.Compare(a.cv, token.LSS, b.cv))
	}
	if isIntType(typ) {
		// single-char lengths etc all linear
		return lt0(linAdd(a, b, -1, nil))
	}
	return mk("lt", "", 0, types.Typ[types.Bool], a, b)
}

// ---- strings

// mkCat concatenates string parts, flattening and folding literals.
func mkCat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == "cat" {
			for _, x := range p.args {
				add(x)
			}
			return
		}
		if s, ok := p.strVal(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if s0, ok := out[n-1].strVal(); ok {
					out[n-1] = mkStr(s0 + s)
					return
				}
			}
			out = append(out, mkStr(s))
			return
		}
		if p.op == "conv" && p.aux == "bytes" {
			add(p.args[0])
			return
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk("cat", "", 0, types.Typ[types.String], out...)
}

func unIface(t *Term) *Term {
	for t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// fmtVal is the text of one value under a verb.
func fmtVal(verb string, a *Term) *Term {
	u := a
	var dt types.Type
	if a.op == "iface" {
		dt, _ = a.obj.(types.Type)
		u = a.args[0]
	} else {
		dt = a.typ
	}
	plain := verb == "%s" || verb == "%v"
	if plain {
		if dt != nil && hasStringMethod(dt) {
			// text through Error()/String()
			return mk("fmt", "%v", 0, types.Typ[types.String], u)
		}
		if s, ok := u.strVal(); ok {
			return mkStr(s)
		}
		if dt != nil && isStringType(dt) {
			return u
		}
		if u.op == "cat" {
			return u
		}
		if dt != nil {
			if sl, ok := dt.Underlying().(*types.Slice); ok && verb == "%s" {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					if u.op == "conv" && u.aux == "bytes" {
						return u.args[0]
					}
					return mk("conv", "bytes", 0, types.Typ[types.String], u)
				}
			}
		}
		if v, ok := u.intVal(); ok {
			return mkStr(strconv.FormatInt(v, 10))
		}
		verb = "%v"
	}
	if verb == "%d" {
		if v, ok := u.intVal(); ok {
			return mkStr(strconv.FormatInt(v, 10))
		}
		verb = "%v"
	}
	return mk("fmt", verb, 0, types.Typ[types.String], u)
}

func hasStringMethod(t types.Type) bool {
	for _, n := range []string{"Error", "String"} {
		obj, _, _ := types.LookupFieldOrMethod(t, true, nil, n)
		if f, ok := obj.(*types.Func); ok {
			s := f.Type().(*types.Signature)
			if s.Params().Len() == 0 && s.Results().Len() == 1 {
				return true
			}
		}
	}
	return false
}

// fmtCat turns a constant format and its arguments into a concatenation. ok is
// false if the format cannot be analysed.
func fmtCat(format string, args []*Term) (*Term, bool) {
	var parts []*Term
	lit := ""
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return nil, false
		}
		if format[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if format[j] == '*' || format[j] == '[' || ai >= len(args) {
			return nil, false
		}
		if lit != "" {
			parts = append(parts, mkStr(lit))
			lit = ""
		}
		parts = append(parts, fmtVal(format[i:j+1], args[ai]))
		ai++
		i = j
	}
	if lit != "" {
		parts = append(parts, mkStr(lit))
	}
	if ai != len(args) {
		return nil, false
	}
	return mkCat(parts...), true
}

// ---- substitution

// substTerm rebuilds t with f applied to leaves (sym/alloc) and to whole
// subterms found in m.
func substTerm(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

// rebuild reconstructs a term with new arguments, renormalising.
func rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case "lin":
		m := map[*Term]int64{}
		k := t.k
		for i, a := range na {
			mm, kk := linOf(a)
			for x, c := range mm {
				m[x] += c * t.co[i]
			}
			k += kk * t.co[i]
		}
		return linMake(m, k, t.typ)
	case "lt0":
		return lt0(na[0])
	case "eq0":
		return eq0(na[0])
	case "not":
		return mkNot(na[0])
	case "eq":
		return mkEq(na[0], na[1], na[0].typ)
	case "lt":
		return mkLt(na[0], na[1], na[0].typ)
	case "cat":
		return mkCat(na...)
	case "app":
		if t.aux == "len" {
			return mkLen(na[0])
		}
	case "and":
		return mkAnd(na[0], na[1], t.typ)
	case "bor":
		return mkOr(na[0], na[1], t.typ)
	case "field":
		return mkField(na[0], t.obj.(int), t.aux, t.typ)
	}
	return mkFull(&Term{op: t.op, aux: t.aux, gen: t.gen, typ: t.typ, cv: t.cv, obj: t.obj, args: na, k: t.k, co: t.co})
}

func mkAnd(a, b *Term, typ types.Type) *Term {
	va, oka := a.intVal()
	vb, okb := b.intVal()
	if oka && okb {
		return mkConstRaw(constant.MakeInt64(va&vb), typ)
	}
	if (oka && va == 0) || (okb && vb == 0) {
		return mkConstRaw(constant.MakeInt64(0), typ)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("and", "", 0, typ, a, b)
}

// mkOr builds a|b, flattened with one constant part.
func mkOr(a, b *Term, typ types.Type) *Term {
	set := map[*Term]bool{}
	var c int64
	var rec func(t *Term)
	rec = func(t *Term) {
		if v, ok := t.intVal(); ok {
			c |= v
			return
		}
		if t.op == "bor" {
			for _, x := range t.args {
				rec(x)
			}
			return
		}
		set[t] = true
	}
	rec(a)
	rec(b)
	var ts []*Term
	for t := range set {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if c != 0 || len(ts) == 0 {
		ts = append([]*Term{mkConstRaw(constant.MakeInt64(c), typ)}, ts...)
	}
	if len(ts) == 1 {
		return ts[0]
	}
	r := ts[0]
	for _, x := range ts[1:] {
		r = mk("bor", "", 0, typ, r, x)
	}
	return r
}

func mkField(x *Term, i int, name string, typ types.Type) *Term {
	if x.op == "struct" && i < len(x.args) {
		return x.args[i]
	}
	t := mk("field", name, 0, typ, x)
	t.obj = i
	return t
}

func mkFn(f *ssa.Function) *Term {
	t := mk("fn", f.String(), 0, f.Type())
	t.obj = f
	return t
}
