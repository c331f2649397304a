// Package vh holds the monitors. Every property has one check, run by TestCheck as VERIF_PROP says. A check runs the
// real code on generated workloads, records what it does, and compares it with an independent model.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/kpango/glg"
)

// ---- random numbers: a function of (seed, property, case), never of time or scheduling

type Rng struct{ s uint64 }

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func NewRng(parts ...any) *Rng {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return &Rng{mix64(h.Sum64())}
}

func (r *Rng) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix64(r.s) }
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *Rng) P(pct int) bool       { return r.N(100) < pct }
func (r *Rng) Dur(lo, hi time.Duration) time.Duration {
	return lo + time.Duration(r.U64()%uint64(hi-lo+1))
}
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func Pick[T any](r *Rng, l []T) T { return l[r.N(len(l))] }
func Shuffle[T any](r *Rng, l []T) []T {
	o := make([]T, len(l))
	for i, j := range r.Perm(len(l)) {
		o[i] = l[j]
	}
	return o
}

// ---- the run

type Violation struct {
	Class  string `json:"class"`
	Case   int    `json:"case"`
	Detail string `json:"detail"`
}

type Run struct {
	T        *testing.T
	Prop     string
	Seed     uint64
	Thorough bool

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	samples  []string
	counts   map[string]int64
	viols    []Violation
	only     int
	dead     []string
	progress atomic.Int64
}

// Tier picks the amount of work.
func (r *Run) Tier(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Eval counts one checked case. A case is distinct by its description, and nontrivial if the caller says so.
func (r *Run) Eval(nontrivial bool, desc ...any) {
	r.progress.Add(1)
	h := fnv.New64a()
	fmt.Fprint(h, desc...)
	k := h.Sum64()
	r.mu.Lock()
	r.evals++
	if nontrivial {
		if _, ok := r.distinct[k]; !ok {
			r.distinct[k] = struct{}{}
			if n := len(r.distinct); len(r.samples) < 8 && n&(n-1) == 0 && n > 2 {
				s := fmt.Sprint(desc...)
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				r.samples = append(r.samples, s)
			}
		}
	}
	r.mu.Unlock()
}

// Count adds to what the monitors observed.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += int64(n)
	r.mu.Unlock()
}

func (r *Run) Get(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counts[name]
}

// Violate records that the property was observed not to hold. The class identifies the kind of failure.
func (r *Run) Violate(cs int, class, format string, args ...any) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viols) < 200 {
		r.viols = append(r.viols, Violation{class, cs, d})
	}
}

func (r *Run) NViol() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viols)
}

// Inconclusive says that the run did not observe what it has to.
func (r *Run) Inconclusive(format string, args ...any) {
	r.mu.Lock()
	r.dead = append(r.dead, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

// Need fails the run as inconclusive unless the counter reached n.
func (r *Run) Need(name string, n int64) {
	if r.only >= 0 || r.NViol() > 0 {
		return
	}
	if g := r.Get(name); g < n {
		r.Inconclusive("observed only %d %q, need %d", g, name, n)
	}
}

// Cases runs n cases on all cores. The case decides everything by its rng.
func (r *Run) Cases(tag string, n int, f func(t *testing.T, i int, g *Rng)) {
	workers := runtime.GOMAXPROCS(0)
	r.casesOn(tag, n, workers, f)
}

func (r *Run) casesOn(tag string, n, workers int, f func(t *testing.T, i int, g *Rng)) {
	var next atomic.Int64
	r.T.Run(tag, func(t *testing.T) {
		for w := 0; w < workers; w++ {
			t.Run(strconv.Itoa(w), func(t *testing.T) {
				t.Parallel()
				for {
					i := int(next.Add(1)) - 1
					if i >= n || r.NViol() >= 20 {
						return
					}
					if r.only >= 0 && i != r.only {
						continue
					}
					f(t, i, NewRng(r.Seed, "|", r.Prop, "|", tag, "|", i))
					r.progress.Add(1)
				}
			})
		}
	})
}

// Bubbles is Cases with every case in its own bubble of virtual time.
func (r *Run) Bubbles(tag string, n int, f func(t *testing.T, i int, g *Rng)) {
	r.Cases(tag, n, func(t *testing.T, i int, g *Rng) {
		synctest.Test(t, func(t *testing.T) { f(t, i, g) })
	})
}

const stallLimit = 150 * time.Second

var checks = map[string]func(*Run){}

func TestCheck(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("no VERIF_PROP")
	}
	f, ok := checks[prop]
	if !ok {
		t.Fatalf("no check for %s", prop)
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	r := &Run{T: t, Prop: prop, Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, only: -1}
	if s := os.Getenv("VERIF_CASE"); s != "" {
		r.only, _ = strconv.Atoi(s)
	}
	if os.Getenv("VERIF_LOG") == "" {
		glg.Get().SetMode(glg.NONE)
	}
	glg.Get().DisableColor()
	start := time.Now()
	go func() { // a run without any progress for this long is stuck, the runner looks at the stacks
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if p := r.progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > stallLimit {
				buf := make([]byte, 16<<20)
				fmt.Fprintf(os.Stderr, "fatal error: stalled\n\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(87)
			}
		}
	}()
	f(r)
	r.mu.Lock()
	defer r.mu.Unlock()
	keys := make([]string, 0)
	for k := range r.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obs := map[string]int64{}
	for _, k := range keys {
		obs[k] = r.counts[k]
	}
	b, err := json.MarshalIndent(map[string]any{
		"property": prop, "seed": seed, "evaluations": r.evals, "distinct_nontrivial": len(r.distinct),
		"samples": r.samples, "observed": obs, "violations": r.viols, "inconclusive": r.dead,
		"wall_s": time.Since(start).Seconds(),
	}, "", " ")
	if err != nil {
		t.Fatal(err)
	}
	if out := os.Getenv("VERIF_OUT"); out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			t.Fatal(err)
		}
	} else {
		fmt.Println(string(b))
	}
}
