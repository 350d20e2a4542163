package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// ---------------------------------------------------------------- PRNG

// Rng is a splitmix64 generator: every case owns one, seeded from
// (VERIF_SEED, property, workload, case index) only.
type Rng struct{ s uint64 }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int        { return int(r.U64() % uint64(n)) }
func (r *Rng) Range(a, b int) int    { return a + r.Intn(b-a+1) } // inclusive
func (r *Rng) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Bool() bool            { return r.U64()&1 == 1 }
func (r *Rng) Chance(p float64) bool { return r.Float() < p }
func (r *Rng) Sym() float64          { return 2*r.Float() - 1 }
func (r *Rng) Norm() float64 {
	u := r.Float()
	for u == 0 {
		u = r.Float()
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*r.Float())
}
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func pick[T any](r *Rng, xs ...T) T { return xs[r.Intn(len(xs))] }

func mix(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	return h
}

func caseSeed(seed int64, prop, wl string, idx int) uint64 {
	h := uint64(0xcbf29ce484222325)
	h = mix(h, fmt.Sprintf("%d|%s|%s|%d", seed, prop, wl, idx))
	r := Rng{h}
	return r.U64()
}

// ---------------------------------------------------------------- workloads

type Workload struct {
	Name            string
	Quick, Thorough int
	Run             func(c *Ctx)
	Serial          bool // cases of this workload run one at a time
}

type Prop struct {
	ID        string
	Rule      string
	Technique string
	Level     string // level_note
	Assume    []string
	WL        []Workload
	Need      []string // event counters that must be non-zero, or the run observed too little
}

// quick is the number of cases of a quick run.
func (w *Workload) quick(p *Prop) int {
	switch p.ID {
	case "X01": // ten times slower under the race detector
		return w.Quick
	case "D12", "X04":
		return 2 * w.Quick
	}
	return 3 * w.Quick
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func propByID(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// ---------------------------------------------------------------- stats

type Stats struct {
	mu           sync.Mutex
	Cases        int
	Checks       int64
	Trivial      int
	FPs          map[uint64]struct{}
	Events       map[string]int64
	Worst        map[string]float64 // largest observed error / tolerance
	PerWL        map[string]int
	Samples      []string
	samplesPerWL map[string]int
}

func newStats() *Stats {
	return &Stats{FPs: map[uint64]struct{}{}, Events: map[string]int64{}, Worst: map[string]float64{}, PerWL: map[string]int{}, samplesPerWL: map[string]int{}}
}

func (s *Stats) merge(c *Ctx) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Cases++
	s.PerWL[c.WL]++
	s.Checks += c.checks
	if c.checks > 0 && c.size > 1 && !c.trivial {
		s.FPs[c.fp] = struct{}{}
	} else {
		s.Trivial++
	}
	for k, v := range c.events {
		s.Events[k] += v
	}
	for k, v := range c.worst {
		if w, ok := s.Worst[k]; !ok || v > w {
			s.Worst[k] = v
		}
	}
	if s.samplesPerWL[c.WL] < 2 && len(c.notes) > 0 && c.Idx < 40 {
		s.samplesPerWL[c.WL]++
		t := strings.Join(c.notes, "; ")
		if len(t) > 700 {
			t = t[:700] + "..."
		}
		s.Samples = append(s.Samples, fmt.Sprintf("%s#%d: %s", c.WL, c.Idx, t))
	}
}

// ---------------------------------------------------------------- case context

type violation struct{ msg string }

type Ctx struct {
	*Rng
	Prop, WL string
	Idx      int
	Thorough bool
	Verbose  bool
	strict   bool // the sign of zero counts
	faint    bool // entries that underflow among ordinary ones
	large    bool // orders across several storage blocks
	scaled   bool // extreme overall scales

	fp      uint64
	size    int
	checks  int64
	trivial bool
	events  map[string]int64
	worst   map[string]float64
	notes   []string
}

func newCtx(seed int64, p *Prop, w *Workload, idx int, thorough bool) *Ctx {
	return &Ctx{Rng: &Rng{caseSeed(seed, p.ID, w.Name, idx)}, Prop: p.ID, WL: w.Name, Idx: idx, Thorough: thorough, strict: strictProps[p.ID],
		fp: 0xcbf29ce484222325, events: map[string]int64{}, worst: map[string]float64{}}
}

// Failf reports a violation of the property under check and ends the case.
func (c *Ctx) Failf(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Check counts one oracle evaluation.
func (c *Ctx) Check(ok bool, format string, a ...interface{}) {
	c.checks++
	if !ok {
		panic(violation{fmt.Sprintf(format, a...)})
	}
}

func (c *Ctx) Count(k string)         { c.events[k]++ }
func (c *Ctx) CountN(k string, n int) { c.events[k] += int64(n) }
func (c *Ctx) Trivial()               { c.trivial = true }
func (c *Ctx) FP(s string)            { c.fp = mix(c.fp, s) }
func (c *Ctx) FPf(x float64)          { c.fp = (c.fp ^ math.Float64bits(x)) * 0x100000001b3; c.fp ^= c.fp >> 29 }
func (c *Ctx) FPi(x int)              { c.fp = (c.fp ^ uint64(x)) * 0x100000001b3; c.fp ^= c.fp >> 29 }
func (c *Ctx) Size(n int) {
	if n > c.size {
		c.size = n
	}
}
func (c *Ctx) Notef(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.FP(s)
	if len(c.notes) < 60 || c.Verbose {
		c.notes = append(c.notes, s)
	}
	if c.Verbose {
		fmt.Println("  note:", s)
	}
}

// Tol is a rounding-error oracle: err must not exceed tol. The worst ratio
// seen is recorded as evidence of the margin.
func (c *Ctx) Tol(name string, err, tol float64, format string, a ...interface{}) {
	c.checks++
	r := 0.0
	if err != 0 {
		r = err / tol
	}
	if math.IsNaN(r) {
		r = math.Inf(1)
	}
	if r > c.worst[name] {
		c.worst[name] = r
	}
	if !(err <= tol) {
		panic(violation{fmt.Sprintf("%s: error %.4g exceeds tolerance %.4g: ", name, err, tol) + fmt.Sprintf(format, a...)})
	}
}

// libErr recognises the library's error values: an error that carries a
// non-zero status code and a readable message.
func libErr(v interface{}) (string, bool) {
	e, ok := v.(interface {
		Error() string
		Status() int
	})
	if !ok {
		return fmt.Sprintf("%T: %v", v, v), false
	}
	if _, rt := v.(runtime.Error); rt {
		return fmt.Sprintf("%v", v), false
	}
	m := e.Error()
	if strings.TrimSpace(m) == "" || strings.Contains(m, "%!") || e.Status() == 0 {
		return fmt.Sprintf("malformed error %T status=%d %q", v, e.Status(), m), false
	}
	return m, true
}

// Guard runs f and tells how it ended: normally, or with a panic value. A
// violation raised by the harness itself passes through.
func (c *Ctx) Guard(f func()) (p interface{}, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			p, panicked = r, true
		}
	}()
	f()
	return nil, false
}

// NoPanic runs f, which must complete.
func (c *Ctx) NoPanic(what string, f func()) {
	if p, bad := c.Guard(f); bad {
		c.Failf("%s: unexpected panic: %s", what, panicText(p))
	}
}

func panicText(p interface{}) string {
	if e, ok := p.(error); ok {
		return fmt.Sprintf("%T: %s", p, e.Error())
	}
	return fmt.Sprintf("%T: %v", p, p)
}

// Refused runs f, which must be refused: it either panics with, or returns,
// the library's error. Returns the error text.
func (c *Ctx) Refused(what string, f func() error) string {
	c.checks++
	var err error
	p, bad := c.Guard(func() { err = f() })
	if bad {
		m, ok := libErr(p)
		if !ok {
			c.Failf("%s: refused with %s, which is not a library error", what, m)
		}
		c.Count("refusals")
		return m
	}
	if err == nil {
		c.Failf("%s: was accepted, must be refused", what)
	}
	m, ok := libErr(err)
	if !ok {
		c.Failf("%s: returned %s, which is not a library error", what, m)
	}
	c.Count("refusals")
	return m
}

// RefusedP is Refused for calls that can only panic.
func (c *Ctx) RefusedP(what string, f func()) string {
	return c.Refused(what, func() error { f(); return nil })
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
