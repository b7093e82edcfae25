package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"flag"

	"pgregory.net/rapid"
)

// Obs collects what the generated cases look like.
type Obs struct {
	nontrivial bool
	labels     []string
	known      []string
}

func (o *Obs) nt()            { o.nontrivial = true }
func (o *Obs) label(s string) { o.labels = append(o.labels, s) }
func (o *Obs) labelIf(c bool, s string) {
	if c {
		o.labels = append(o.labels, s)
	}
}

// Prop is a property check: a generator of cases and an oracle for them.
type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases in total
	Thorough int
	Shards   int // number of worker processes; 0: default
	Race     bool
	NeedWasm bool
	// gen draws a case; it must be serializable as JSON.
	gen func(t *rapid.T) any
	// check decides a case.
	check func(c any, o *Obs) error
	// decode reads a case back.
	decode func(b []byte) (any, error)
	// show writes a case for humans.
	show func(c any) string
	// fixed cases that are run first by every worker 0 (regressions, known findings).
	fixed func() []any
	// finding classifies a failing case as a listed known finding; empty if it is not one.
	finding func(c any, err error) string
	assume  []string
	caseSec int // watchdog limit per case in seconds (default 60)
}

// defProp makes a Prop for a concrete case type.
func defProp[C any](id, rule string, quick, thorough int, gen func(t *rapid.T) C, check func(c C, o *Obs) error, show func(c C) string) *Prop {
	p := &Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough,
		gen:   func(t *rapid.T) any { return gen(t) },
		check: func(c any, o *Obs) error { return check(c.(C), o) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		show: func(c any) string { return show(c.(C)) },
	}
	registry[id] = p
	return p
}

var registry = map[string]*Prop{}

// violation is what a worker reports.
type violation struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Text     string          `json:"text"`
	Case     json.RawMessage `json:"case"`
}

type workerReport struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Enumerated  int            `json:"enumerated"` // of the evaluations: cases of the complete small scope
	Hashes      []uint64       `json:"hashes"`     // of distinct non-trivial cases
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Known       map[string]int `json:"known"`
	Violation   *violation     `json:"violation,omitempty"`
	GenError    string         `json:"genError,omitempty"`
	Stuck       bool           `json:"stuck,omitempty"`
	Incomplete  bool           `json:"incomplete,omitempty"`
	WallS       float64        `json:"wallS"`
}

// runCheck runs the oracle on one case; a panic of the code under test is a failure.
func (p *Prop) runCheck(c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, firstLines(string(debug.Stack()), 24))
		}
	}()
	return p.check(c, o)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type fakeTB struct{ failed bool }

type failNow struct{}

func (*fakeTB) Helper()             {}
func (*fakeTB) Name() string        { return "check" }
func (*fakeTB) Logf(string, ...any) {}
func (f *fakeTB) Log(a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, a...)
	}
}
func (*fakeTB) Skipf(string, ...any) { panic("skip") }
func (*fakeTB) Skip(...any)          { panic("skip") }
func (*fakeTB) SkipNow()             { panic("skip") }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, s+"\n", a...)
	}
}
func (f *fakeTB) Error(...any)              { f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.failed = true; panic(failNow{}) }
func (f *fakeTB) Fatal(...any)              { f.failed = true; panic(failNow{}) }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(failNow{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

var (
	caseStart   atomic.Int64 // unix nano, 0 if no case is running
	currentCase atomic.Value
)

// runShard runs one worker.
func (p *Prop) runShard(seed uint64, cases int, shard int, trace string, budget time.Duration) (rep workerReport) {
	start := time.Now()
	rep.Labels = map[string]int{}
	rep.Known = map[string]int{}
	seen := map[uint64]bool{}
	counting := true
	var last *violation
	var traceF *os.File
	if trace != "" {
		traceF, _ = os.Create(trace)
	}
	one := func(c any) error {
		var js []byte
		if traceF != nil {
			js, _ = json.Marshal(c)
			traceF.Truncate(0)
			traceF.WriteAt(js, 0)
		}
		o := &Obs{}
		currentCase.Store(&c)
		caseStart.Store(time.Now().UnixNano())
		err := p.runCheck(c, o)
		caseStart.Store(0)
		if err != nil && p.finding != nil {
			if k := p.finding(c, err); k != "" {
				rep.Known[k]++
				err = nil
			}
		}
		if counting {
			rep.Evaluations++
			for _, l := range o.labels {
				rep.Labels[l]++
			}
			if o.nontrivial {
				rep.Nontrivial++
				if js == nil {
					js, _ = json.Marshal(c)
				}
				h := fnv.New64a()
				h.Write(js)
				k := h.Sum64()
				if !seen[k] {
					seen[k] = true
					if len(rep.Samples) < 3 || (len(rep.Samples) < 6 && len(seen)%997 == 0) {
						rep.Samples = append(rep.Samples, clip(p.show(c), 600))
					}
				}
			}
		}
		if err != nil {
			counting = false
			js, _ = json.Marshal(c)
			last = &violation{Property: p.ID, Error: err.Error(), Text: p.show(c), Case: js}
		}
		return err
	}
	finish := func() {
		for h := range seen {
			rep.Hashes = append(rep.Hashes, h)
		}
		rep.Violation = last
		rep.WallS = time.Since(start).Seconds()
	}
	if shard == 0 && p.fixed != nil {
		for _, c := range p.fixed() {
			if one(c) != nil {
				finish()
				return
			}
		}
	}
	if enum := enums[p.ID]; enum != nil && *fEnum > 0 {
		k, failed := 0, false
		enum(*fEnum > 1, func(c any) bool {
			if k++; (k-1)%*fShards != shard {
				return true
			}
			rep.Enumerated++
			failed = one(c) != nil
			return !failed && (budget == 0 || time.Since(start) < budget)
		})
		if failed {
			finish()
			return
		}
	}
	// rapid stops at the first failure and shrinks it; the cases are split in chunks
	// so that the time budget can be honoured between chunks.
	const chunk = 200
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", fShrink.String())
	for done, k := 0, uint64(0); done < cases; k++ {
		n := cases - done
		if n > chunk {
			n = chunk
		}
		flag.Set("rapid.checks", fmt.Sprint(n))
		s := mix(seed, k)
		flag.Set("rapid.seed", fmt.Sprint(s))
		tb := &fakeTB{}
		var genErr string
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(failNow); !ok {
						genErr = fmt.Sprintf("%v\n%s", r, debug.Stack())
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c, gerr := p.draw(t)
				if gerr != "" {
					genErr = gerr
					t.Fatalf("generator")
				}
				if err := one(c); err != nil {
					t.Fatalf("violation")
				}
			})
		}()
		if last != nil {
			break
		}
		if genErr != "" || tb.failed {
			rep.GenError = genErr
			if rep.GenError == "" {
				rep.GenError = "rapid failed without a violation"
			}
			break
		}
		done += n
		if budget > 0 && time.Since(start) > budget && done < cases {
			rep.Incomplete = true
			break
		}
	}
	finish()
	return
}

// draw calls the generator; panics of the generator that are not rapid's own are errors of the harness.
func (p *Prop) draw(t *rapid.T) (c any, gerr string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && !strings.HasPrefix(s, "[rapid]") {
				gerr = s + "\n" + string(debug.Stack())
				return
			}
			if e, ok := r.(runtime.Error); ok {
				gerr = e.Error() + "\n" + string(debug.Stack())
				return
			}
			panic(r)
		}
	}()
	return p.gen(t), ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func mix(a, b uint64) uint64 {
	r := prng(a*0x9e3779b97f4a7c15 + b + 1)
	r.next()
	z := r.next() &^ (1 << 63)
	if z == 0 {
		z = 1
	}
	return z
}

func sortedIDs() []string {
	var z []string
	for k := range registry {
		z = append(z, k)
	}
	sort.Strings(z)
	return z
}

// watchdog ends the worker if a single case runs for too long or takes too much memory.
func watchdog(limit time.Duration, onStuck func(why string)) {
	go func() {
		var ms runtime.MemStats
		for i := 0; ; i++ {
			time.Sleep(500 * time.Millisecond)
			s := caseStart.Load()
			if s == 0 {
				continue
			}
			if time.Since(time.Unix(0, s)) > limit {
				onStuck(fmt.Sprintf("no result after %v", limit))
				return
			}
			if i%2 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 4<<30 {
					// count only what is really in use
					runtime.GC()
					runtime.ReadMemStats(&ms)
				}
				if ms.HeapAlloc > 3<<30 && caseStart.Load() == s {
					onStuck("more than 3 GB of memory in use")
					return
				}
			}
		}
	}()
}
