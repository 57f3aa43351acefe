package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sync"
)

// Independent parts of one property's analysis, each run by a process of its
// own: the child goes through the property's decision procedure up to the
// split, does its part and reports what it found.

type partReport struct {
	Viols       [][]string
	Paths       [][]string
	Obligations int
	Failed      int
	Counts      map[string]int
	Fns         []string
	Done        bool
}

var partOf, partNo = "", -1 // set in a child

func (cx *Cx) report(done bool) {
	r := &partReport{Obligations: cx.obligations, Failed: cx.failed, Counts: cx.counts, Fns: sortedSet(cx.fns), Done: done}
	for _, v := range cx.viols {
		r.Viols = append(r.Viols, []string{v.pos, v.fn, v.rule, v.msg})
		r.Paths = append(r.Paths, v.path)
	}
	b, _ := json.Marshal(r)
	os.Stdout.Write(append(b, '\n'))
}

// split runs f(0) ... f(n-1).
func (cx *Cx) split(n int, f func(i int)) {
	if partOf == cx.id {
		cx.counts, cx.obligations, cx.failed = map[string]int{}, 0, 0
		f(partNo)
		cx.report(true)
		os.Exit(0)
	}
	if os.Getenv("CHECK_NOSPLIT") != "" {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	outs := make([]partReport, n)
	errs := make([]error, n)
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c := exec.Command("/proc/self/exe", "-repo", cx.P.dir, "-prop", cx.id, "-part", fmt.Sprint(i))
			c.Env = append(os.Environ(), "GOMAXPROCS=2")
			var o bytes.Buffer
			c.Stdout, c.Stderr = &o, os.Stderr
			if errs[i] = c.Run(); errs[i] == nil {
				errs[i] = json.Unmarshal(o.Bytes(), &outs[i])
			}
		}()
	}
	wg.Wait()
	for i, r := range outs {
		for j, v := range r.Viols {
			k := fmt.Sprint(v)
			if !cx.seen[k] {
				cx.seen[k] = true
				cx.viols = append(cx.viols, &Viol{pos: v[0], fn: v[1], rule: v[2], msg: v[3], path: r.Paths[j]})
			}
		}
		if errs[i] != nil {
			cx.viol(0, "analysis completes", "part %d of the analysis failed: %v", i, errs[i])
		}
		cx.obligations += r.Obligations
		cx.failed += r.Failed
		for k, v := range r.Counts {
			cx.counts[k] += v
		}
		for _, f := range r.Fns {
			cx.fns[f] = true
		}
		if errs[i] == nil && !r.Done && len(r.Viols) == 0 {
			cx.viol(0, "analysis completes", "part %d of the analysis was not done", i)
		}
	}
}
