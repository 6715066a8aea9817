// Package pbt is a small property-based testing engine.
//
// A test case is generated from a sequence of choices (small integers).
// The choices are drawn from a PRNG that is a pure function of
// the seed, the property and the number of the case;
// they are recorded, and a failing case is shrunk by shrinking its choices
// (deleting, zeroing and lowering them) and generating again.
package pbt

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// A Source is a source of choices.
type Source struct {
	rng    *rand.Rand
	replay []int // if not nil
	pos    int
	Record []int
}

const maxChoices = 20000

// Intn returns a number in [0,n).
func (s *Source) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.replay != nil {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			s.pos++
			if v >= n {
				v = n - 1
			}
		}
	} else {
		v = s.rng.IntN(n)
	}
	if len(s.Record) < maxChoices {
		s.Record = append(s.Record, v)
	}
	return v
}

// A Result is the result of checking a property on one case.
type Result struct {
	// Err is not empty if the property does not hold.
	Err string
	// Key identifies a non-trivial case; it is empty if the case is trivial.
	Key string
	// Classes are counted to show the distribution of cases.
	Classes []string
	// Known are the keys of known findings that the case shows.
	Known []string
}

// Fail sets the error, if it is not set.
func (r *Result) Fail(format string, args ...any) {
	if r.Err == "" {
		r.Err = fmt.Sprintf(format, args...)
	}
}

// Class adds a class.
func (r *Result) Class(c string) { r.Classes = append(r.Classes, c) }

// A Prop is a property to be checked.
type Prop struct {
	ID string
	// Rule says how cases are made, and when a case is non-trivial.
	Rule string
	// Gen generates a case: a pointer to a JSON-able value.
	Gen func(s *Source) any
	// Check checks the property on a case. A panic is a failure.
	Check func(c any, r *Result)
	// New returns a pointer to a zero case.
	New func() any
	// Quick and Thorough are the number of cases.
	Quick, Thorough int
	// CPULimit is the limit of CPU time of a single case; 0 is 30s.
	CPULimit time.Duration
	// MaxShrink is the maximum number of evaluations used for shrinking; 0 is 3000.
	MaxShrink int
	// Fixed are cases that are always checked first.
	Fixed func() []any
	// Setup and Teardown are called once around all cases of a process.
	Setup    func() error
	Teardown func()
}

// Stats are the statistics of a run.
type Stats struct {
	Evaluations int            `json:"evaluations"`
	Keys        []string       `json:"keys"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
	Failure     *Failure       `json:"failure"`
	Known       []string       `json:"known"`
	Complete    bool           `json:"complete"`
	WallS       float64        `json:"wall_s"`
	Rule        string         `json:"rule"`
}

// A Failure is a failing case.
type Failure struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Input    json.RawMessage `json:"input"`
	Original json.RawMessage `json:"original_input,omitempty"`
	Choices  []int           `json:"choices,omitempty"`
	Case     int             `json:"case"`
	Seed     uint64          `json:"seed"`
	Shrinks  int             `json:"shrink_evaluations"`
	Died     string          `json:"died,omitempty"`
}

func mix(id string, seed uint64, n int) (uint64, uint64) {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", id, seed, n)))
	return binary.LittleEndian.Uint64(h[:8]), binary.LittleEndian.Uint64(h[8:16])
}

// NewSource returns the source for a numbered case.
func NewSource(id string, seed uint64, n int) *Source {
	a, b := mix(id, seed, n)
	return &Source{rng: rand.New(rand.NewPCG(a, b))}
}

// ReplaySource returns a source that replays choices, followed by zeroes.
func ReplaySource(choices []int) *Source {
	if choices == nil {
		choices = []int{}
	}
	return &Source{replay: choices}
}

var (
	caseStart atomic.Int64 // CPU time at the start of the current case, in ns; 0 if none
	caseLimit atomic.Int64
	caseWall  atomic.Int64 // wall time at the start of the current case
)

func cpuTime() int64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Exit codes of a process that was ended by the watchdog:
// the CPU limit of a case, the limit of memory, or a case that is blocked.
const (
	ExitHang  = 17
	ExitMem   = 18
	ExitStuck = 19
	// ExitHarness is the exit code for errors of the harness itself.
	ExitHarness = 3
)

const (
	memLimit   = 3 << 30
	stuckLimit = 150 * time.Second
)

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// Watchdog ends the process if a case takes too much CPU time.
func Watchdog() {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			s := caseStart.Load()
			if s == 0 {
				continue
			}
			if cpuTime()-s > caseLimit.Load() {
				fmt.Fprintln(os.Stderr, "HANG: the case exceeded its limit of CPU time")
				os.Exit(ExitHang)
			}
			if rss() > memLimit {
				fmt.Fprintln(os.Stderr, "MEMORY: the case exceeded the limit of memory")
				os.Exit(ExitMem)
			}
			if w := caseWall.Load(); time.Since(time.Unix(0, w)) > stuckLimit && cpuTime()-s < int64(stuckLimit)/100 {
				fmt.Fprintln(os.Stderr, "STUCK: the case is blocked")
				os.Exit(ExitStuck)
			}
		}
	}()
}

// RunCheck runs the check on a case, turning a panic into a failure.
func RunCheck(p *Prop, c any) (r Result) {
	limit := p.CPULimit
	if limit == 0 {
		limit = 30 * time.Second
	}
	caseLimit.Store(int64(limit))
	caseWall.Store(time.Now().UnixNano())
	caseStart.Store(cpuTime() + 1)
	defer caseStart.Store(0)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(HarnessError); ok {
				panic(e)
			}
			r.Err = fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	p.Check(c, &r)
	return r
}

// A HarnessError is a panic value for errors of the harness itself,
// which are never reported as violations.
type HarnessError string

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/verif/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// A Current records the current case in a file, to be found if the process dies.
type Current struct{ f *os.File }

// OpenCurrent opens the file for the current case.
func OpenCurrent(path string) (*Current, error) {
	f, err := os.Create(path)
	if err != nil {
		return nil, err
	}
	return &Current{f}, nil
}

func (c *Current) set(n int, in []byte) {
	if c == nil {
		return
	}
	buf := make([]byte, 0, len(in)+32)
	buf = append(buf, fmt.Sprintf("%010d %012d\n", n, len(in))...)
	buf = append(buf, in...)
	c.f.WriteAt(buf, 0)
}

// Options are the options of a run.
type Options struct {
	Seed         uint64
	Shard, Total int // this process runs the cases with number%Total == Shard
	Cases        int
	Deadline     time.Time // no new case is started after this
	Current      *Current
	Thorough     bool
}

func mustJSON(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(HarnessError("case is not JSON-able: " + err.Error()))
	}
	return b
}

// Run runs the cases of a property.
func Run(p *Prop, o Options) *Stats {
	st := &Stats{Classes: make(map[string]int), Rule: p.Rule}
	keys := make(map[string]bool)
	begin := time.Now()
	defer func() { st.WallS = time.Since(begin).Seconds() }()

	one := func(n int, c any, rec []int) bool {
		in := mustJSON(c)
		o.Current.set(n, in)
		r := RunCheck(p, c)
		st.Evaluations++
		if r.Err != "" {
			f := &Failure{Property: p.ID, Message: r.Err, Input: in, Case: n, Seed: o.Seed}
			if rec != nil {
				shrink(p, f, rec, o.Current)
			}
			st.Failure = f
			return false
		}
		for _, k := range r.Known {
			if !slices.Contains(st.Known, k) {
				st.Known = append(st.Known, k)
			}
		}
		for _, cl := range r.Classes {
			st.Classes[cl]++
		}
		if r.Key != "" {
			st.Classes["nontrivial"]++
			h := sha256.Sum256([]byte(r.Key))
			k := string(h[:8])
			if !keys[k] {
				keys[k] = true
				// Keep samples from early, and then ever rarer.
				if len(st.Samples) < 3 || len(st.Samples) < 6 && len(keys)%1000 == 0 {
					st.Samples = append(st.Samples, json.RawMessage(in))
				}
			}
		}
		return true
	}

	if o.Shard == 0 && p.Fixed != nil {
		for i, c := range p.Fixed() {
			if !one(-1-i, c, nil) {
				return finish(st, keys)
			}
		}
	}
	for n := o.Shard; n < o.Cases; n += o.Total {
		if time.Now().After(o.Deadline) {
			return finish(st, keys)
		}
		src := NewSource(p.ID, o.Seed, n)
		c := p.Gen(src)
		if !one(n, c, src.Record) {
			return finish(st, keys)
		}
	}
	st.Complete = true
	return finish(st, keys)
}

func finish(st *Stats, keys map[string]bool) *Stats {
	for k := range keys {
		st.Keys = append(st.Keys, fmt.Sprintf("%x", k))
	}
	sort.Strings(st.Keys)
	return st
}

// shrink minimises a failure.
func shrink(p *Prop, f *Failure, choices []int, cur *Current) {
	f.Original = f.Input
	max := p.MaxShrink
	if max == 0 {
		max = 3000
	}
	deadline := time.Now().Add(60 * time.Second)
	best := append([]int{}, choices...)
	seen := map[string]bool{string(f.Input): true}
	try := func(cand []int) bool {
		if f.Shrinks >= max || time.Now().After(deadline) {
			return false
		}
		src := ReplaySource(cand)
		c := p.Gen(src)
		in := mustJSON(c)
		rec := src.Record
		if !simpler(rec, best) {
			return false
		}
		if seen[string(in)] && string(in) != string(f.Input) {
			return false
		}
		if string(in) == string(f.Input) { // the same case with fewer or lower choices
			best = append([]int{}, rec...)
			return true
		}
		seen[string(in)] = true
		f.Shrinks++
		cur.set(f.Case, in)
		r := RunCheck(p, c)
		if r.Err == "" {
			return false
		}
		best = append([]int{}, rec...)
		f.Input, f.Message = in, r.Err
		return true
	}
	for improved := true; improved; {
		improved = false
		for _, size := range []int{64, 32, 16, 8, 4, 3, 2, 1} {
			for i := len(best) - size; i >= 0; i-- {
				if i+size > len(best) {
					continue
				}
				cand := append(append([]int{}, best[:i]...), best[i+size:]...)
				if try(cand) {
					improved = true
				}
			}
		}
		for _, size := range []int{16, 4, 1} {
			for i := 0; i+size <= len(best); i += size {
				cand := append([]int{}, best...)
				zero := true
				for j := i; j < i+size; j++ {
					zero = zero && cand[j] == 0
					cand[j] = 0
				}
				if !zero && try(cand) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for d := best[i] / 2; d > 0; d /= 2 {
				cand := append([]int{}, best...)
				cand[i] -= d
				if try(cand) {
					improved = true
					break
				}
			}
			if i < len(best) && best[i] > 0 {
				cand := append([]int{}, best...)
				cand[i]--
				if try(cand) {
					improved = true
				}
			}
		}
	}
	f.Choices = best
}

// simpler returns whether a is strictly shortlex-smaller than b.
func simpler(a, b []int) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Decode decodes a case.
func Decode(p *Prop, in []byte) (any, error) {
	c := p.New()
	if reflect.TypeOf(c).Kind() != reflect.Ptr {
		return nil, fmt.Errorf("New must return a pointer")
	}
	err := json.Unmarshal(in, c)
	return c, err
}
