// Command replay runs the library's exported API against an independent oracle, one oracle per
// property. It is the concrete side of the checks: it turns a broken property into a failing
// input. What it covers is bounded and never counted as proved.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type R struct {
	*rand.Rand
	deadline time.Time
	cases    int
	seen     map[string]bool
	desc     string
	sample   string
	steps    []string
	parts    []part
}

type part struct {
	name string
	f    func(r *R)
}

type failure struct{ msg string }

func (r *R) fail(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

// case starts a case: desc identifies the input.
func (r *R) start(f string, a ...any) {
	r.cases++
	r.desc = fmt.Sprintf(f, a...)
	r.steps = r.steps[:0]
	if len(r.seen) < 200000 {
		r.seen[r.desc] = true
	}
	if r.cases == 7 || r.sample == "" {
		r.sample = r.desc
	}
}
func (r *R) step(f string, a ...any) { r.steps = append(r.steps, fmt.Sprintf(f, a...)) }
func (r *R) in() string {
	s := r.desc
	for _, x := range r.steps {
		s += "\n   " + x
	}
	return s
}

type out struct {
	OK       bool   `json:"ok"`
	Cases    int    `json:"cases"`
	Distinct int    `json:"distinct"`
	Msg      string `json:"msg"`
	Input    string `json:"input"`
	Sample   string `json:"sample"`
}

var oracles = map[string][]part{}

func reg(prop, name string, f func(r *R)) { oracles[prop] = append(oracles[prop], part{name, f}) }

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Float64("budget", 4, "")
	flag.Parse()
	ps := oracles[*prop]
	o := out{OK: true}
	r := &R{Rand: rand.New(rand.NewSource(*seed)), seen: map[string]bool{}}
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	// every part in turn, in rounds, so each gets its share
	for round := 0; len(ps) > 0; round++ {
		for _, p := range ps {
			n := 1
			if round == 0 {
				n = 30
			}
			for i := 0; i < n && o.OK; i++ {
				run(r, p, &o)
			}
			if !o.OK {
				break
			}
		}
		if !o.OK || time.Now().After(end) {
			break
		}
	}
	o.Cases, o.Distinct, o.Sample = r.cases, len(r.seen), r.sample
	d, _ := json.Marshal(o)
	fmt.Println(string(d))
	if !o.OK {
		os.Exit(1)
	}
}

func run(r *R, p part, o *out) {
	defer func() {
		if x := recover(); x != nil {
			o.OK = false
			if f, ok := x.(failure); ok {
				o.Msg = p.name + ": " + f.msg
			} else {
				st := string(debug.Stack())
				if i := strings.Index(st, "godeep/"); i > 0 {
					st = st[i:]
				}
				if len(st) > 600 {
					st = st[:600]
				}
				o.Msg = fmt.Sprintf("%s: the library panicked: %v\n%s", p.name, x, st)
			}
			o.Input = r.in()
		}
	}()
	p.f(r)
}
