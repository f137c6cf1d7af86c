package main

// Distribution of one check over processes: every process walks the same
// sequence of constructs and claims the ones nobody has claimed yet.

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

var (
	claimDir string
	claimN   = map[string]int{}
	inGuard  int
)

// claimed says whether this process analyses the construct.
func claimed(what string) bool {
	if claimDir == "" || inGuard > 0 {
		return true
	}
	claimN[what]++
	n := fmt.Sprintf("%x", sha256.Sum256([]byte(fmt.Sprintf("%s#%d", what, claimN[what]))))
	f, err := os.OpenFile(filepath.Join(claimDir, n), os.O_CREATE|os.O_EXCL, 0o600)
	if err != nil {
		return false
	}
	f.Close()
	return true
}

func spread(ck checkFn, e *Env, rep *Report) {
	dir, err := os.MkdirTemp("", "ristcheck")
	if err != nil {
		panic(err.Error())
	}
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		panic(err.Error())
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var wg sync.WaitGroup
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c := exec.Command(exe, "-prop", rep.Prop, "-repo", e.repo, "-tier", e.tier, "-worker", fmt.Sprintf("%s:%d", dir, i))
			c.Stderr = os.Stderr
			c.Env = append(os.Environ(), "GOMAXPROCS=2")
			errs[i] = c.Run()
		}(i)
	}
	wg.Wait()
	for i := range errs {
		if errs[i] != nil {
			panic(fmt.Sprintf("analysis process: %v", errs[i]))
		}
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out.%d", i)))
		if err != nil {
			panic(err.Error())
		}
		var r Report
		if err := json.Unmarshal(b, &r); err != nil {
			panic(err.Error())
		}
		for _, v := range r.Violations {
			rep.violate(v)
		}
		for k, n := range r.Counts {
			rep.count(k, n)
		}
		for _, s := range r.Samples {
			rep.sample("%s", s)
		}
		rep.Notes = append(rep.Notes, r.Notes...)
	}
}

func runWorker(prop, repo, tier, w string) {
	i := strings.LastIndex(w, ":")
	claimDir = w[:i]
	rep := &Report{Prop: prop, Tier: tier, Counts: map[string]int{}}
	go watch(func(string) { os.Exit(3) })
	caught(rep, func() {
		env := &Env{repo: repo, tier: tier, start: time.Now()}
		env.load()
		checks[prop].run(env, rep)
	})
	b, _ := json.Marshal(rep)
	if err := os.WriteFile(filepath.Join(claimDir, "out."+w[i+1:]), b, 0o600); err != nil {
		os.Exit(3)
	}
}
