// Package kit holds the monitors' common machinery: case bookkeeping, deterministic randomness,
// result files, hooked dependencies, schedule control and concurrent history checking.
package kit

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one observed deviation from the property.
type Violation struct {
	Key    string `json:"key"`   // stable identification of the failing input / call site / history
	Label  string `json:"label"` // case that failed (replayable)
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
}

// Result is what a child process reports.
type Result struct {
	Property     string         `json:"property"`
	Mode         string         `json:"mode"`
	Evaluations  int64          `json:"evaluations"`
	Sigs         []string       `json:"sigs"`
	SigsDropped  int            `json:"sigs_dropped"`
	Samples      []string       `json:"samples"`
	Events       map[string]int `json:"events"`
	Violations   []Violation    `json:"violations"`
	Inconclusive string         `json:"inconclusive"`
	Done         bool           `json:"done"`
}

// Ctx is the state of one run of one mode of one check.
type Ctx struct {
	Prop     string
	Mode     string
	Seed     int64
	Thorough bool
	Only     string // replay: only cases whose label equals
	Race     bool

	mu       sync.Mutex
	res      Result
	sigs     map[string]struct{}
	req      map[string]int
	out      string
	progress atomic.Int64 // unix nano (real time) of the start of the current case; 0 when idle
	current  atomic.Value // string label
	failed   map[string]int
}

// Mono returns a real-time clock reading even inside a synctest bubble (set by the runner).
func NewCtx(prop, mode string, seed int64, thorough bool, only, out string, race bool) *Ctx {
	c := &Ctx{Prop: prop, Mode: mode, Seed: seed, Thorough: thorough, Only: only, out: out, Race: race,
		sigs: map[string]struct{}{}, req: map[string]int{}, failed: map[string]int{}}
	c.res = Result{Property: prop, Mode: mode, Events: map[string]int{}}
	c.current.Store("")
	return c
}

// N picks the number of cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Rng returns a deterministic generator for a label.
func (c *Ctx) Rng(label string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s", c.Seed, c.Prop, label)))
	var s int64
	for i := 0; i < 8; i++ {
		s = s<<8 | int64(h[i])
	}
	return rand.New(rand.NewSource(s))
}

// Case is one monitored execution.
type Case struct {
	*Ctx
	Label string
	R     *rand.Rand
	mu    sync.Mutex
	trace []string
	sig   []string
	triv  bool
	bad   bool
}

type stopCase struct{}

// Case runs one execution with panic containment. sig parts are gathered with Sig.
func (c *Ctx) Case(label string, fn func(k *Case)) (ok bool) {
	if c.Only != "" && c.Only != label {
		return true
	}
	c.mu.Lock()
	tooMany := len(c.res.Violations) >= 25
	c.mu.Unlock()
	if tooMany {
		return false
	}
	k := &Case{Ctx: c, Label: label, R: c.Rng(label)}
	c.current.Store(label)
	c.progress.Add(1)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(stopCase); is {
					return
				}
				k.bad = true
				c.report("panic", label, fmt.Sprintf("panic: %v", r), k.TraceString()+"\n"+string(debug.Stack()))
			}
		}()
		fn(k)
	}()
	c.mu.Lock()
	c.res.Evaluations++
	if !k.triv {
		sig := strings.Join(k.sig, "|")
		if sig == "" {
			sig = label
		}
		h := sha256.Sum256([]byte(sig))
		if len(c.sigs) < 400000 {
			c.sigs[hex.EncodeToString(h[:8])] = struct{}{}
		} else {
			c.res.SigsDropped++
		}
	}
	if len(c.res.Samples) < 4 && (c.res.Evaluations%97 == 1) {
		s := label
		if len(k.sig) > 0 {
			s += ": " + strings.Join(k.sig, " ")
		}
		if t := k.TraceString(); t != "" {
			s += "\n" + t
		}
		if len(s) > 1500 {
			s = s[:1500] + "…"
		}
		c.res.Samples = append(c.res.Samples, s)
	}
	c.mu.Unlock()
	c.current.Store("")
	return !k.bad
}

// Sig adds to the signature which tells distinct cases apart.
func (k *Case) Sig(format string, a ...any) {
	k.mu.Lock()
	k.sig = append(k.sig, fmt.Sprintf(format, a...))
	k.mu.Unlock()
}

// Trivial marks the case as not counting as non-trivial.
func (k *Case) Trivial() { k.triv = true }

// Log appends a line to the recorded trace of the case.
func (k *Case) Log(format string, a ...any) {
	k.mu.Lock()
	if len(k.trace) < 400 {
		k.trace = append(k.trace, fmt.Sprintf(format, a...))
	}
	k.mu.Unlock()
}

// TraceString returns the recorded trace.
func (k *Case) TraceString() string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return strings.Join(k.trace, "\n")
}

// Fail reports a violation; key identifies the kind of failure (used for known findings).
func (k *Case) Fail(key, format string, a ...any) {
	k.mu.Lock()
	k.bad = true
	k.mu.Unlock()
	k.report(key, k.Label, fmt.Sprintf(format, a...), k.TraceString())
}

// Fatal reports a violation and abandons the case.
func (k *Case) Fatal(key, format string, a ...any) {
	k.Fail(key, format, a...)
	panic(stopCase{})
}

// Check fails when cond is false.
func (k *Case) Check(cond bool, key, format string, a ...any) bool {
	if !cond {
		k.Fail(key, format, a...)
	}
	return cond
}

func (c *Ctx) report(key, label, msg, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.failed[key]++
	if c.failed[key] > 3 {
		return
	}
	if len(detail) > 12000 {
		detail = detail[:12000]
	}
	c.res.Violations = append(c.res.Violations, Violation{Key: key, Label: label, Msg: msg, Detail: detail})
	c.flushLocked()
}

// Event counts something a monitor observed.
func (c *Ctx) Event(name string) { c.Events(name, 1) }

// Events counts n observations.
func (c *Ctx) Events(name string, n int) {
	c.mu.Lock()
	c.res.Events[name] += n
	c.mu.Unlock()
}

// Require states that at least n events must have been observed for the run to conclude.
func (c *Ctx) Require(name string, n int) {
	c.mu.Lock()
	c.req[name] = n
	c.mu.Unlock()
}

// Sig at context level (for checks that count sub-cases themselves).
func (c *Ctx) AddSig(sig string) {
	h := sha256.Sum256([]byte(sig))
	c.mu.Lock()
	if len(c.sigs) < 400000 {
		c.sigs[hex.EncodeToString(h[:8])] = struct{}{}
	} else {
		c.res.SigsDropped++
	}
	c.mu.Unlock()
}

// Eval adds evaluations performed inside a case.
func (c *Ctx) Eval(n int) {
	c.mu.Lock()
	c.res.Evaluations += int64(n)
	c.mu.Unlock()
}

// Inconclusive ends the run without a verdict.
func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	c.res.Inconclusive = fmt.Sprintf(format, a...)
	c.mu.Unlock()
}

// Finish writes the result.
func (c *Ctx) Finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Violations) == 0 && c.Only == "" && c.res.Inconclusive == "" {
		var names []string
		for n := range c.req {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if c.res.Events[n] < c.req[n] {
				c.res.Inconclusive = fmt.Sprintf("monitor observed only %d %q events, %d required", c.res.Events[n], n, c.req[n])
			}
		}
	}
	c.res.Done = true
	c.flushLocked()
}

func (c *Ctx) flushLocked() {
	c.res.Sigs = c.res.Sigs[:0]
	if c.res.Done {
		for s := range c.sigs {
			c.res.Sigs = append(c.res.Sigs, s)
		}
	}
	b, _ := json.Marshal(&c.res)
	tmp := c.out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		_ = os.Rename(tmp, c.out)
	}
}

// Watchdog runs on real time (start it outside any bubble): a case which does not end within limit is a hang.
func (c *Ctx) Watchdog(limit time.Duration, dump func() string) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			p := c.progress.Load()
			label, _ := c.current.Load().(string)
			if p != last || label == "" {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > limit {
				c.report("hang", label, fmt.Sprintf("no answer after %s", limit), dump())
				c.mu.Lock()
				c.res.Done = true
				c.flushLocked()
				c.mu.Unlock()
				os.Exit(0)
			}
		}
	}()
}

// Beat tells the watchdog that a long case makes progress.
func (c *Ctx) Beat() { c.progress.Add(1) }

// Go runs fn in a goroutine with panic containment.
func (k *Case) Go(wg *sync.WaitGroup, fn func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(stopCase); is {
					return
				}
				k.mu.Lock()
				k.bad = true
				k.mu.Unlock()
				k.report("panic", k.Label, fmt.Sprintf("panic in goroutine: %v", r), string(debug.Stack()))
			}
		}()
		fn()
	}()
}

// Mode describes one child process of a check.
type Mode struct {
	Name   string
	Bubble bool // run inside a synctest bubble (virtual time)
	Race   bool // needs the race detector binary
	Run    func(c *Ctx)
}

// Check is a registered property check.
type Check struct {
	ID    string
	Modes []Mode
	Level string
	Rule  string
	// Assumptions are written in the evidence file.
	Assumptions []string
}

var Registry = map[string]*Check{}

// Register adds a check.
func Register(ch *Check) { Registry[ch.ID] = ch }
