package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A property's decision procedure.
type property struct {
	id   string
	rule string // the rule applied, in words
	run  func(cx *Cx)
	// assumptions the decision rests on
	assume []string
}

var registry = map[string]*property{}

func register(p *property) { registry[p.id] = p }

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	WallS       float64                `json:"wall_s"`
	Assumptions []string               `json:"assumptions,omitempty"`
	Violations  int                    `json:"violations"`
}

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	out := flag.String("out", "/verif/evidence", "directory for evidence and reports")
	prop := flag.String("prop", "", "property to decide, or 'all'")
	known := flag.String("known", "", "known findings file")
	list := flag.Bool("list", false, "list properties")
	part := flag.Int("part", -1, "do only this part of the analysis (see split.go)")
	dump := flag.String("dump", "", "print the SSA of a function")
	flag.Parse()
	if *part >= 0 {
		partOf, partNo = *prop, *part
	}
	if *list {
		for _, id := range ids() {
			fmt.Println(id)
		}
		return
	}
	if *dump != "" {
		P, err := loadProg(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f := P.fn(*dump)
		if f == nil {
			for _, f := range P.funcs {
				fmt.Println(fnName(f))
			}
			return
		}
		f.WriteTo(os.Stdout)
		return
	}
	var todo []string
	if *prop == "all" {
		todo = ids()
	} else {
		todo = strings.Split(*prop, ",")
	}
	if f := os.Getenv("CHECK_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	debug.SetGCPercent(400)
	rc := 0
	var P *Prog
	var lerr error
	t0 := time.Now()
	P, lerr = loadProg(*repo)
	load := time.Since(t0)
	for _, id := range todo {
		if r := decide(id, P, lerr, *out, *known, load); r > rc {
			rc = r
		}
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func ids() []string {
	var l []string
	for id := range registry {
		l = append(l, id)
	}
	sort.Strings(l)
	return l
}

func decide(id string, P *Prog, lerr error, out, known string, load time.Duration) int {
	p := registry[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no such property: %s\n", id)
		return 2
	}
	t0 := time.Now()
	cx := &Cx{P: P, id: id, counts: map[string]int{}, fns: map[string]bool{}, seen: map[string]bool{}, assume: append([]string{}, p.assume...)}
	if lerr != nil {
		cx.viol(0, "source loads", "the source tree cannot be type-checked: %v", lerr)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abort); ok {
						return
					}
					cx.viol(0, "analysis completes", "internal error: %v", e)
					if os.Getenv("CHECK_TRACE") != "" {
						debug.PrintStack()
					}
				}
			}()
			p.run(cx)
		}()
	}
	if partOf == id {
		cx.report(false)
		return 0
	}
	if len(cx.viols) == 0 && cx.obligations == 0 {
		cx.viol(0, "analysis completes", "nothing was checked")
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":        p.rule,
		"functions_analysed": sortedSet(cx.fns),
		"obligations":        cx.obligations,
		"discharged":         cx.obligations - cx.failed,
	}
	for k, v := range cx.counts {
		cov[k] = v
	}
	if len(cx.samples) > 0 {
		cov["samples"] = cx.samples
	}
	kn := readKnown(known)
	var fresh, listed []*Viol
	for _, v := range cx.viols {
		if kn[id+" "+v.key()] {
			listed = append(listed, v)
		} else {
			fresh = append(fresh, v)
		}
	}
	ev := &evidence{Property: id, Tier: tier, Seed: seed, Level: "other", Coverage: cov, WallS: (time.Since(t0) + load).Seconds(), Assumptions: cx.assume, Violations: len(fresh)}
	os.MkdirAll(out, 0777)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, id+".json"), append(b, '\n'), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rep := filepath.Join(out, id+".report.txt")
	os.Remove(rep)
	for _, v := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v.key())
	}
	if len(fresh) == 0 {
		fmt.Printf("ok property=%s obligations=%d functions=%d wall=%.1fs\n", id, cx.obligations, len(cx.fns), ev.WallS)
		return 0
	}
	var sb strings.Builder
	for _, v := range fresh {
		sb.WriteString(v.text())
	}
	os.WriteFile(rep, []byte(sb.String()), 0666)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}

func sortedSet(m map[string]bool) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// readKnown reads "finding: property=<id> <key>" lines. Lines starting with
// "fixed:" suppress nothing.
func readKnown(fn string) map[string]bool {
	m := map[string]bool{}
	if fn == "" {
		return m
	}
	b, err := os.ReadFile(fn)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property=") {
			m[strings.TrimPrefix(l, "finding: property=")] = true
		}
	}
	return m
}
