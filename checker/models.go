package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bufTypes = map[string]bool{"bytes.Buffer": true, "strings.Builder": true}

func noReturn(name string) bool {
	switch name {
	case "os.Exit", "builtin.panic", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "log.Panic", "log.Panicf":
		return true
	}
	return false
}

// noHavoc: library calls that do not modify the objects passed to them in ways
// the analysis looks at.
func noHavoc(name string) bool {
	for _, p := range []string{"fmt.", "(expvar.", "(*expvar.", "expvar.", "(*smtpd.Conn)", "github.com/siebenmann/smtpd.", "(net.", "net.", "os.", "(*os.File)", "bufio.New", "(*sync.", "sync.", "time.", "(time.", "flag.", "net/http.", "io.", "(*tls.", "(*x509.", "crypto/", "runtime.", "(hash.Hash)", "(io.Writer)", "errors.", "strings.", "net/mail.", "bytes.", "(*bufio.", "(*strings.", "strconv.", "(error)"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// pure library functions: same arguments, same result, no effect.
func isPure(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "path/filepath.", "path.", "unicode.", "unicode/utf8.", "bytes."} {
		if strings.HasPrefix(name, p) && !strings.HasPrefix(name, "strings.New") && !strings.HasPrefix(name, "bytes.New") {
			return true
		}
	}
	switch name {
	case "net.ParseIP", "net.ParseCIDR", "net.SplitHostPort", "net.JoinHostPort", "net.IPv4",
		"(net.IP).Equal", "(*net.IPNet).Contains", "(net.IP).IsGlobalUnicast", "(net.IP).String", "(net.IP).To4", "(net.IP).To16", "(net.IP).IsPrivate", "(net.IP).IsLoopback",
		"(net.Addr).String", "(net.Conn).RemoteAddr", "(net.Conn).LocalAddr", "(net.Addr).Network",
		"os.IsExist", "os.IsNotExist", "os.IsPermission", "errors.Is", "errors.Unwrap", "os.Getpid",
		"flag.NArg", "flag.Arg", "flag.Args",
		"(time.Time).Format", "(time.Time).String", "(time.Time).IsZero", "(time.Time).Unix", "(time.Time).UTC", "(time.Duration).String", "(time.Time).Equal",
		"(error).Error", "(*net.DNSError).Temporary", "(*net.DNSError).Timeout", "(*net.DNSError).Error":
		return true
	}
	return false
}

func (e *Eng) builtin(st *State, c *Call) *Term {
	switch c.fnv.aux {
	case "len":
		x := c.args[0]
		if c, ok := st.eqc[x]; ok {
			x = c
		}
		if n := e.mapSize(st, x); n != nil {
			return n
		}
		if x.op == "alloc" { // a map made here
			if _, ok := x.typ.(*types.Pointer); ok {
				return mk("app", "maplen", 0, types.Typ[types.Int], x, e.mapVer(st, x))
			}
		}
		if x.typ != nil {
			if _, ok := x.typ.Underlying().(*types.Map); ok {
				return mk("app", "len", 0, types.Typ[types.Int], x, e.mapVer(st, x))
			}
		}
		return mkLen(x)
	case "cap":
		x := c.args[0]
		if x.op == "makeslice" {
			return x.args[1]
		}
		return mk("app", "cap", 0, types.Typ[types.Int], x)
	case "append":
		if len(c.args) == 1 {
			return c.args[0]
		}
		return mkAppend(c.args[0], e.snapshot(st, c.args[1]), c.sig.Results().At(0).Type())
	case "copy":
		return nil
	case "delete":
		m, k := c.args[0], st.norm(c.args[1])
		mt := c.com.Args[0].Type()
		for a := range st.heap {
			if a.op == "melem" && (a.args[0] == m || st.mayEqPtr(a.args[0], m)) && !(a.args[1].isConst() && k.isConst() && a.args[1] != k) {
				delete(st.heap, a)
			}
		}
		va := mverAddr(m, mt)
		if cur, ok := st.heap[va]; !(ok && cur.op == "fresh") {
			st.heap[va] = e.fresh(st, c.in, ".mv", nil)
		}
		st.heap[melemAddr(m, k, mt)] = zeroTerm(mt.Underlying().(*types.Map).Elem())
		st.heap[mokAddr(m, k, mt)] = tFalse
		return tNil
	case "min", "max":
		return nil
	}
	return nil
}

// mapSize is the size of a map made here, if it is known to be empty.
func (e *Eng) mapSize(st *State, m *Term) *Term {
	for a, v := range st.heap {
		if a.op == "mver" && a.args[0] == m && v.op == "fresh" {
			for b := range st.heap {
				if b.op == "melem" && b.args[0] == m {
					return nil
				}
			}
			return mkInt(0)
		}
	}
	return nil
}

func (e *Eng) mapVer(st *State, m *Term) *Term {
	for a, v := range st.heap {
		if a.op == "mver" && a.args[0] == m {
			// number of updates matters too
			n := 0
			for b := range st.heap {
				if b.op == "melem" && b.args[0] == m {
					n++
				}
			}
			return mk("app", "ver", 0, nil, v, mkInt(int64(n)))
		}
	}
	if m.typ != nil {
		return st.epoch("M:" + typeStr(m.typ))
	}
	return epoch0
}

func mkAppend(a, b *Term, typ types.Type) *Term {
	if b.op == "nil" {
		return a
	}
	if a.op == "slice" && a.aux == "3" && a.args[2] == mkLen(a.args[0]) {
		if lo, ok := a.args[1].intVal(); ok && lo == 0 {
			a = a.args[0] // the same elements
		}
	}
	if a.op == "append" && a.args[1].op == "slicelit" && len(a.args[1].args) > 0 && b.op == "slicelit" {
		return mkAppend(a.args[0], mkSliceLit(append(append([]*Term{}, a.args[1].args...), b.args...), b.typ), typ)
	}
	return mk("append", "", 0, typ, a, b)
}

func mkSliceLit(es []*Term, typ types.Type) *Term {
	return mk("slicelit", "", 0, typ, es...)
}

// snapshot turns a slice over a local array with known contents into a literal.
func (e *Eng) snapshot(st *State, t *Term) *Term {
	if t.op == "arrslice" && t.args[0].op == "alloc" {
		n, _ := t.obj.(int64)
		pt, ok := t.args[0].typ.(*types.Pointer)
		if !ok || n > 32 {
			return t
		}
		ar, ok := pt.Elem().Underlying().(*types.Array)
		if !ok {
			return t
		}
		var es []*Term
		for i := int64(0); i < n; i++ {
			es = append(es, st.load(mkIaddr(t.args[0], mkInt(i), ar.Elem()), ar.Elem()))
		}
		return mkSliceLit(es, t.typ)
	}
	return t
}

// variadic returns the elements of a call's trailing ...interface{} argument.
func (e *Eng) variadic(st *State, t *Term) ([]*Term, bool) {
	if t == tNil {
		return nil, true
	}
	s := e.snapshot(st, t)
	if s.op == "slicelit" {
		return s.args, true
	}
	return nil, false
}

func bufAddr(b *Term) *Term { return mk("buf", "", 0, nil, b) }
func dstAddr(b *Term) *Term { return mk("ghost", "dst", 0, nil, b) }

// bufOf finds the modelled buffer a writer value denotes.
func (e *Eng) bufOf(st *State, w *Term) (*Term, bool) {
	w = unIface(w)
	_, ok := st.heap[bufAddr(w)]
	return w, ok
}

func (e *Eng) bufAppend(st *State, w *Term, parts ...*Term) {
	a := bufAddr(w)
	st.heap[a] = mkCat(append([]*Term{st.heap[a]}, parts...)...)
}

func asText(t *Term) *Term {
	if t.op == "conv" && t.aux == "bytes" {
		return t.args[0]
	}
	return t
}

// textOf is the text of a byte slice or string argument.
func (e *Eng) textOf(st *State, t *Term) *Term {
	t = asText(t)
	if t.op == "append" {
		return mkCat(e.textOf(st, t.args[0]), e.textOf(st, t.args[1]))
	}
	if t.op == "makeslice" {
		if v, ok := t.args[0].intVal(); ok && v == 0 {
			return mkStr("")
		}
	}
	if t == tNil {
		return mkStr("")
	}
	if t.op == "slice" && len(t.args) >= 3 {
		if v, ok := t.args[2].intVal(); ok && v == 0 {
			return mkStr("")
		}
	}
	if t.op == "slicelit" && len(t.args) == 0 || t.op == "arrslice" && t.aux == "0" {
		return mkStr("")
	}
	if t.op == "slicelit" {
		s := ""
		for _, a := range t.args {
			v, ok := a.intVal()
			if !ok || v < 0 || v > 255 {
				return t
			}
			s += string([]byte{byte(v)})
		}
		return mkStr(s)
	}
	return t
}

// model executes a library call the analysis knows. False: unknown.
func (e *Eng) model(st *State, c *Call) bool {
	rt := func(i int) types.Type { return c.sig.Results().At(i).Type() }
	switch c.name {
	case "fmt.Sprintf":
		if f, ok := st.norm(c.args[0]).strVal(); ok {
			if as, ok := e.variadic(st, c.args[1]); ok {
				if t, ok := fmtCat(f, as); ok {
					c.ret = []*Term{t}
					return true
				}
			}
		}
		c.ret = []*Term{mk("app", "fmt.Sprintf", 0, rt(0), c.args[0], e.snapshot(st, c.args[1]))}
		return true
	case "fmt.Sprint":
		if as, ok := e.variadic(st, c.args[0]); ok && len(as) == 1 {
			c.ret = []*Term{fmtVal("%v", as[0])}
			return true
		}
		c.ret = []*Term{mk("app", "fmt.Sprint", 0, rt(0), e.snapshot(st, c.args[0]))}
		return true
	case "fmt.Errorf":
		c.ret = []*Term{mk("app", "newerr", 0, rt(0), c.args[0], e.snapshot(st, c.args[1]))}
		return true
	case "errors.New":
		c.ret = []*Term{mk("app", "newerr", 0, rt(0), c.args[0])}
		return true
	case "time.Now":
		c.ret = []*Term{tNow}
		return true
	case "time.Since":
		c.ret = []*Term{tsub(tNow, c.args[0], rt(0))}
		return true
	case "time.Until":
		c.ret = []*Term{tsub(c.args[0], tNow, rt(0))}
		return true
	case "(time.Time).Sub":
		c.ret = []*Term{tsub(c.args[0], c.args[1], rt(0))}
		return true
	case "(time.Time).Add":
		c.ret = []*Term{mk("app", "timeadd", 0, rt(0), c.args[0], c.args[1])}
		return true
	case "(time.Time).Before":
		c.ret = []*Term{mkLt(tsub(c.args[0], c.args[1], types.Typ[types.Int64]), mkInt(0), types.Typ[types.Int64])}
		return true
	case "(time.Time).After":
		c.ret = []*Term{mkLt(tsub(c.args[1], c.args[0], types.Typ[types.Int64]), mkInt(0), types.Typ[types.Int64])}
		return true
	case "strings.HasPrefix", "strings.HasSuffix":
		a, b := st.norm(c.args[0]), st.norm(c.args[1])
		x, ok1 := a.strVal()
		y, ok2 := b.strVal()
		if ok1 && ok2 {
			if c.name == "strings.HasPrefix" {
				c.ret = []*Term{mkBool(strings.HasPrefix(x, y))}
			} else {
				c.ret = []*Term{mkBool(strings.HasSuffix(x, y))}
			}
			return true
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if x, ok := st.norm(c.args[0]).strVal(); ok {
			switch c.name {
			case "strings.ToLower":
				x = strings.ToLower(x)
			case "strings.ToUpper":
				x = strings.ToUpper(x)
			case "strings.TrimSpace":
				x = strings.TrimSpace(x)
			}
			c.ret = []*Term{mkStr(x)}
			return true
		}
		x := st.norm(c.args[0])
		if c.name == "strings.TrimSpace" {
			c.ret = []*Term{trimSpace(x, rt(0))}
			return true
		}
		if x.op == "app" && x.aux == c.name {
			c.ret = []*Term{x} // already in that case
			return true
		}
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		// others may have changed what the lock protects
		if o := rootOwner(c.args[0]); o != nil && !(o.op == "alloc" && !st.esc[o]) {
			e.havocOwned(st, o, e.fresh(st, c.in, ".locked", nil))
		}
		return true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		s := e.allocAt(st, c.in, derefType(rt(0)), "bufio")
		st.heap[bufAddr(s)] = mkStr("")
		st.heap[dstAddr(s)] = c.args[0]
		c.ret = []*Term{s}
		return true
	case "(*bufio.Writer).Flush":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			content := st.heap[bufAddr(w)]
			st.heap[bufAddr(w)] = mkStr("")
			if d := st.heap[dstAddr(w)]; d != nil {
				if b, ok := e.bufOf(st, d); ok {
					e.bufAppend(st, b, content)
				}
			}
			return true
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			t := e.writtenText(st, c)
			e.bufAppend(st, w, t)
			return true
		}
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			e.bufAppend(st, w, e.textOf(st, e.snapshot(st, c.args[1])))
			c.ret = []*Term{nil, nil}
			if !strings.HasPrefix(c.name, "(*bufio") {
				c.ret[1] = tNil
			}
			return true
		}
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			v := mk("fmt", "%c", 0, types.Typ[types.String], c.args[1])
			if n, ok := c.args[1].intVal(); ok {
				v = mkStr(string(rune(n)))
			}
			e.bufAppend(st, w, v)
			return true
		}
	case "(*bytes.Buffer).Bytes":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			c.ret = []*Term{mk("conv", "bytes", 0, rt(0), st.heap[bufAddr(w)])}
			return true
		}
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			c.ret = []*Term{st.heap[bufAddr(w)]}
			return true
		}
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			st.heap[bufAddr(w)] = mkStr("")
			return true
		}
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			c.ret = []*Term{mkLen(st.heap[bufAddr(w)])}
			return true
		}
	case "(*bytes.Buffer).WriteTo":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			if d, ok := e.bufOf(st, c.args[1]); ok {
				e.bufAppend(st, d, st.heap[bufAddr(w)])
				st.heap[bufAddr(w)] = mkStr("")
				return true
			}
		}
	case "io.Copy":
		if s, ok := e.bufOf(st, c.args[1]); ok {
			if d, ok := e.bufOf(st, c.args[0]); ok {
				e.bufAppend(st, d, st.heap[bufAddr(s)])
				st.heap[bufAddr(s)] = mkStr("")
				return true
			}
		}
	case "crypto/sha1.New", "crypto/sha256.New", "crypto/sha512.New", "crypto/md5.New":
		s := e.allocAt(st, c.in, types.Typ[types.Int], hashKind(c.name))
		st.heap[bufAddr(s)] = mkStr("")
		c.ret = []*Term{s}
		return true
	case "(hash.Hash).Write", "(io.Writer).Write":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			e.bufAppend(st, w, e.textOf(st, e.snapshot(st, c.args[1])))
			return true
		}
	case "(hash.Hash).Sum":
		if w, ok := e.bufOf(st, c.args[0]); ok {
			if c.args[1] == tNil {
				c.ret = []*Term{mk("app", hashKind(w.aux), 0, rt(0), st.heap[bufAddr(w)])}
			}
			return true
		}
	case "crypto/sha1.Sum", "crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/md5.Sum":
		c.ret = []*Term{mk("app", hashKind(c.name), 0, rt(0), e.textOf(st, c.args[0]))}
		return true
	case "sort.Strings":
		if r := rootOf(c.args[0]); r.op == "alloc" {
			st.havocObj(r, e.fresh(st, c.in, ".mem", nil))
		} else {
			st.havocCat("I:string", e.fresh(st, c.in, ".mem", nil))
		}
		return true
	case "strings.Join":
		a := e.snapshot(st, c.args[0])
		if sep, ok := c.args[1].strVal(); ok && a.op == "slicelit" {
			var ps []*Term
			for i, x := range a.args {
				if i > 0 {
					ps = append(ps, mkStr(sep))
				}
				ps = append(ps, x)
			}
			c.ret = []*Term{mkCat(ps...)}
			return true
		}
	case "(error).Error":
		c.ret = []*Term{mk("fmt", "%v", 0, rt(0), c.args[0])}
		return true
	case "strings.IndexByte", "strings.IndexRune":
		// same as Index of a one-character string
		if v, ok := c.args[1].intVal(); ok && v > 0 && v < 128 {
			c.ret = []*Term{mk("app", "strings.Index", 0, rt(0), c.args[0], mkStr(string(rune(v))))}
			return true
		}
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		if s, ok := c.args[1].strVal(); ok && (c.name == "strings.Contains" && s != "" || c.name == "strings.ContainsAny" && len(s) == 1) {
			c.ret = []*Term{mkNot(lt0(mk("app", "strings.Index", 0, types.Typ[types.Int], c.args[0], c.args[1])))}
			return true
		}
	}
	if isPure(c.name) {
		n := c.sig.Results().Len()
		var as []*Term
		for _, a := range c.args {
			as = append(as, e.snapshot(st, a))
		}
		if n == 1 {
			c.ret = []*Term{mk("app", c.name, 0, rt(0), as...)}
			return true
		}
		app := mk("app", c.name, 0, c.sig.Results(), as...)
		for i := 0; i < n; i++ {
			x := mk("extract", string(rune('0'+i)), 0, rt(i), app)
			c.ret = append(c.ret, x)
		}
		return true
	}
	return false
}

func hashKind(s string) string {
	for _, k := range []string{"sha256", "sha512", "md5"} {
		if strings.HasSuffix(s, k) || strings.Contains(s, k+".") {
			return k
		}
	}
	return "sha1"
}

// trimSpace in a normal form: trimming comes first, and only once.
func trimSpace(x *Term, typ types.Type) *Term {
	if x.op == "app" {
		switch x.aux {
		case "strings.TrimSpace":
			return x
		case "strings.ToLower", "strings.ToUpper":
			return mk("app", x.aux, 0, typ, trimSpace(x.args[0], typ))
		case "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimSuffix", "strings.TrimPrefix":
			if s, ok := x.args[1].strVal(); ok && strings.TrimSpace(s) == "" {
				return trimSpace(x.args[0], typ)
			}
		}
	}
	return mk("app", "strings.TrimSpace", 0, typ, x)
}

func charAt(s, i *Term) *Term {
	return mk("app", "charAt", 0, types.Universe.Lookup("byte").Type(), s, i)
}

func mkSlice(b, lo, hi *Term, typ types.Type) *Term { return mk("slice", "", 0, typ, b, lo, hi) }

func tsub(a, b *Term, typ types.Type) *Term {
	// (a+d) - b = (a-b)+d ; a-(b+d) = (a-b)-d
	if a.op == "app" && a.aux == "timeadd" {
		return linAdd(tsub(a.args[0], b, typ), a.args[1], 1, typ)
	}
	if b.op == "app" && b.aux == "timeadd" {
		return linAdd(tsub(a, b.args[0], typ), b.args[1], -1, typ)
	}
	if a == b {
		return mkConstRaw(constant.MakeInt64(0), types.Typ[types.Int])
	}
	// orient so that now - x is positive form
	if b == tNow {
		return linAdd(mkInt(0), mk("app", "timesub", 0, typ, b, a), -1, typ)
	}
	return mk("app", "timesub", 0, typ, a, b)
}

// writtenText is the text an fmt.Fprint-like call writes.
func (e *Eng) writtenText(st *State, c *Call) *Term {
	switch c.name {
	case "fmt.Fprintf":
		if f, ok := st.norm(c.args[1]).strVal(); ok {
			if as, ok := e.variadic(st, c.args[2]); ok {
				if t, ok := fmtCat(f, as); ok {
					return t
				}
			}
		}
		return mk("app", "fmt.Sprintf", 0, types.Typ[types.String], c.args[1], e.snapshot(st, c.args[2]))
	case "fmt.Fprint", "fmt.Fprintln":
		nl := mkStr("")
		if c.name == "fmt.Fprintln" {
			nl = mkStr("\n")
		}
		if as, ok := e.variadic(st, c.args[1]); ok && len(as) <= 1 {
			if len(as) == 0 {
				return nl
			}
			return mkCat(fmtVal("%v", as[0]), nl)
		}
		return mk("app", c.name, 0, types.Typ[types.String], e.snapshot(st, c.args[1]))
	case "io.WriteString":
		return c.args[1]
	}
	return mk("app", "text?", 0, types.Typ[types.String])
}

func rootOwner(a *Term) *Term {
	for a.op == "faddr" || a.op == "iaddr" {
		a = a.args[0]
	}
	return a
}

func (e *Eng) havocOwned(st *State, o *Term, tag *Term) {
	for a, v := range st.heap {
		if a.op == "buf" || a.op == "ghost" || a.op == "mver" {
			continue
		}
		r := a
		for r.op == "faddr" || r.op == "iaddr" || r.op == "melem" || r.op == "mem" || r.op == "mapget" {
			r = r.args[0]
		}
		if r == o {
			st.heap[a] = memTerm(a, tag, v.typ)
		}
	}
}

// ---- modification sets of opaque repo functions

type modSet struct {
	cats map[string]bool
	all  bool
}

func (P *Prog) mods(fn *ssa.Function) *modSet {
	if m, ok := P.modCache[fn]; ok {
		return m
	}
	m := &modSet{cats: map[string]bool{}}
	P.modCache[fn] = m
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) == 0 {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					P.addStoreCat(m, x.Addr, derefType(x.Addr.Type()))
				case *ssa.MapUpdate:
					m.cats["M:"+typeStr(x.Map.Type())] = true
					m.cats["M:ok:"+typeStr(x.Map.Type())] = true
				case *ssa.MakeClosure:
					walk(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					com := x.Common()
					if b, ok := com.Value.(*ssa.Builtin); ok {
						if b.Name() == "delete" {
							m.cats["M:"+typeStr(com.Args[0].Type())] = true
							m.cats["M:ok:"+typeStr(com.Args[0].Type())] = true
						}
						if b.Name() == "copy" || b.Name() == "append" {
							if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
								m.cats["I:"+typeStr(sl.Elem())] = true
							}
						}
						continue
					}
					if s := com.StaticCallee(); s != nil {
						walk(s)
						continue
					}
					if com.IsInvoke() {
						for _, g := range P.implementers(com) {
							walk(g)
						}
						continue
					}
					// dynamic call: any repo function of that type whose address is taken
					for _, g := range P.addrTaken(com.Signature()) {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	return m
}

func (P *Prog) addStoreCat(m *modSet, a ssa.Value, ty types.Type) {
	var addCat func(prefix string, t types.Type)
	addCat = func(prefix string, t types.Type) {
		if su, ok := structType(t); ok {
			for i := 0; i < su.NumFields(); i++ {
				addCat("F:"+typeStr(t)+"."+su.Field(i).Name(), su.Field(i).Type())
			}
			return
		}
		m.cats[prefix] = true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		f := fieldOf(x.X.Type(), x.Field)
		addCat("F:"+structName(x.X.Type())+"."+f.Name(), ty)
	case *ssa.Global:
		addCat("G:"+x.Name(), ty)
	case *ssa.IndexAddr:
		addCat("I:"+typeStr(ty), ty)
	case *ssa.Alloc:
	default:
		addCat("P:"+typeStr(a.Type()), ty)
	}
}

func (P *Prog) implementers(com *ssa.CallCommon) []*ssa.Function {
	it, ok := com.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, n := range P.pkg.Scope().Names() {
		tn, ok := P.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, it) {
				if f := P.prog.LookupMethod(t, com.Method.Pkg(), com.Method.Name()); f != nil {
					out = append(out, f)
				}
				break
			}
		}
	}
	return out
}

func (P *Prog) addrTaken(sig *types.Signature) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.funcs {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, sig) {
			out = append(out, f)
		}
	}
	return out
}

func (e *Eng) havocCall(st *State, c *Call) {
	if c.fn == nil {
		return
	}
	m := e.P.mods(c.fn)
	if len(m.cats) == 0 {
		return
	}
	tag := e.fresh(st, c.in, ".mem", nil)
	for cat := range m.cats {
		st.havocCat(cat, tag)
	}
	args := c.args
	if c.fnv != nil && c.fnv.op == "closure" {
		args = append(append([]*Term{}, args...), c.fnv.args...)
	}
	for _, a := range args {
		a = unIface(a)
		if a.op == "alloc" && a.typ != nil && m.cats["P:"+typeStr(a.typ)] {
			if v, ok := st.heap[a]; ok {
				st.heap[a] = memTerm(a, tag, v.typ)
			}
		}
	}
	// maps: forget versions
	for a := range st.heap {
		if a.op == "mver" && m.cats["M:"+a.aux] {
			st.heap[a] = tag
		}
	}
}
