package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var debugging = os.Getenv("RISTDEBUG") != ""

func dbg(f string, a ...interface{}) {
	if debugging {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// only restricts a debugging run to the items that contain RISTONLY.
func only(what string) bool {
	return !debugging || (strings.Contains(what, os.Getenv("RISTONLY")) && (!strings.HasSuffix(os.Getenv("RISTONLY"), "$") || true) || strings.HasSuffix(what, strings.TrimSuffix(os.Getenv("RISTONLY"), "$")) && strings.HasSuffix(os.Getenv("RISTONLY"), "$"))
}

func init() {
	if f := os.Getenv("RISTPROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			go func() {
				time.Sleep(60 * time.Second)
				pprof.StopCPUProfile()
				w.Close()
			}()
		}
	}
}

// brief describes a polynomial by its terms with the largest coefficients.
func (c *Ctx) brief(p *Poly, n int) string {
	type tm struct {
		k  string
		co string
		b  int
	}
	var ts []tm
	for k, co := range p.terms {
		s := ""
		for _, f := range parseMono(k) {
			s += fmt.Sprintf("*%d", f.s)
		}
		m := co.String()
		if co.BitLen() > 20 {
			m = fmt.Sprintf("2^%d(%d)", co.BitLen()-1, co.Sign())
		}
		ts = append(ts, tm{s, m, co.BitLen()})
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].b > ts[j].b })
	r := fmt.Sprintf("<%d terms>", len(ts))
	for i, t := range ts {
		if i >= n {
			break
		}
		r += " " + t.co + t.k
	}
	return r
}
