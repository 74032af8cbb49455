package kit

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"
)

// Chooser decides which parked call proceeds (index in a list of n).
type Chooser interface{ Choose(ids []int) int }

// RandomChooser picks uniformly.
type RandomChooser struct{ R *rand.Rand }

func (c *RandomChooser) Choose(ids []int) int { return c.R.Intn(len(ids)) }

// PCTChooser runs the task of highest priority, with d random priority drops.
type PCTChooser struct {
	R     *rand.Rand
	D     int
	Steps int
	prio  map[int]int
	drops map[int]bool
	step  int
	low   int
}

func (c *PCTChooser) Choose(ids []int) int {
	if c.prio == nil {
		c.prio, c.drops = map[int]int{}, map[int]bool{}
		for i := 0; i < c.D; i++ {
			c.drops[c.R.Intn(c.Steps)] = true
		}
	}
	best := 0
	for i, id := range ids {
		if _, ok := c.prio[id]; !ok {
			c.prio[id] = 1 + c.R.Intn(1<<20)
		}
		if c.prio[id] > c.prio[ids[best]] {
			best = i
		}
	}
	if c.drops[c.step] {
		c.low--
		c.prio[ids[best]] = c.low
		best = 0
		for i, id := range ids {
			if c.prio[id] > c.prio[ids[best]] {
				best = i
			}
		}
	}
	c.step++
	return best
}

// Enumerator walks every sequence of choices (depth first).
type Enumerator struct {
	path []struct{ pick, n int }
	pos  int
	done bool
}

func (e *Enumerator) Choose(ids []int) int {
	if e.pos == len(e.path) {
		e.path = append(e.path, struct{ pick, n int }{0, len(ids)})
	}
	p := &e.path[e.pos]
	p.n = len(ids) // schedules are replayed against the same code; a change only shortens the walk
	if p.pick >= p.n {
		p.pick = p.n - 1
	}
	e.pos++
	return p.pick
}

// Next prepares the next sequence; false when all were walked.
func (e *Enumerator) Next() bool {
	e.path = e.path[:e.pos]
	e.pos = 0
	for i := len(e.path) - 1; i >= 0; i-- {
		if e.path[i].pick+1 < e.path[i].n {
			e.path[i].pick++
			e.path = e.path[:i+1]
			return true
		}
	}
	e.done = true
	return false
}

type parked struct {
	task  int
	op    string
	grant chan struct{}
}

type taskCtxKey struct{}

type taskRef struct {
	id int
	s  *Sched
}

// Sched runs tasks one dependency call at a time.
type Sched struct {
	mu      sync.Mutex
	parked  []*parked
	alive   map[int]bool
	wake    chan struct{}
	Trace   []string
	Blocked int
}

// SchedHook parks the calling task (found in ctx) before each dependency call.
func SchedHook(ctx context.Context, op string, do func() error) error {
	t, _ := ctx.Value(taskCtxKey{}).(*taskRef)
	if t != nil {
		t.s.park(t.id, op)
	}
	return do()
}

// Yield is an explicit scheduling point of harness code.
func Yield(ctx context.Context, op string) { _ = SchedHook(ctx, op, func() error { return nil }) }

func (s *Sched) signal() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *Sched) park(id int, op string) {
	p := &parked{task: id, op: op, grant: make(chan struct{})}
	s.mu.Lock()
	s.parked = append(s.parked, p)
	s.mu.Unlock()
	s.signal()
	<-p.grant
}

const blockTimeout = 25 * time.Millisecond

// RunTasks executes the tasks under the chooser; false on a hang.
func (k *Case) RunTasks(ch Chooser, tasks ...func(ctx context.Context)) *Sched {
	s := &Sched{alive: map[int]bool{}, wake: make(chan struct{}, 1)}
	var wg sync.WaitGroup
	for i, t := range tasks {
		i, t := i, t
		s.alive[i] = true
		ctx := context.WithValue(context.Background(), taskCtxKey{}, &taskRef{i, s})
		k.Go(&wg, func() {
			defer func() {
				s.mu.Lock()
				delete(s.alive, i)
				s.mu.Unlock()
				s.signal()
			}()
			s.park(i, "start")
			t(ctx)
		})
	}
	idle := time.Now()
	for {
		s.mu.Lock()
		busy := 0
		for id := range s.alive {
			found := false
			for _, p := range s.parked {
				if p.task == id {
					found = true
				}
			}
			if !found {
				busy++
			}
		}
		n, alive := len(s.parked), len(s.alive)
		s.mu.Unlock()
		if alive == 0 && n == 0 {
			break
		}
		if busy > 0 {
			select {
			case <-s.wake:
				idle = time.Now()
				continue
			case <-time.After(blockTimeout):
				s.mu.Lock()
				n = len(s.parked)
				s.mu.Unlock()
				if n == 0 {
					if time.Since(idle) > 45*time.Second {
						k.Fatal("hang", "tasks do not finish under schedule %s", s.String())
					}
					continue
				}
				s.Blocked++
			}
		}
		s.mu.Lock()
		sort.SliceStable(s.parked, func(a, b int) bool { return s.parked[a].task < s.parked[b].task })
		ids := make([]int, len(s.parked))
		for i, p := range s.parked {
			ids[i] = p.task
		}
		i := ch.Choose(ids)
		p := s.parked[i]
		s.parked = append(s.parked[:i], s.parked[i+1:]...)
		s.Trace = append(s.Trace, fmt.Sprintf("%d:%s", p.task, p.op))
		s.mu.Unlock()
		close(p.grant)
		idle = time.Now()
	}
	wg.Wait()
	return s
}

// String renders the interleaving.
func (s *Sched) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return strings.Join(s.Trace, " ")
}

// Enumerate runs fn under every schedule (at most max) and reports how many were run and whether all were.
func (c *Ctx) Enumerate(label string, max int, fn func(k *Case, ch Chooser)) (runs int, complete bool) {
	if c.Only != "" { // replay: walk the schedules from the start
		if !strings.HasPrefix(c.Only, label+"#") {
			return 0, false
		}
		only := c.Only
		c.Only = ""
		defer func() { c.Only = only }()
	}
	e := &Enumerator{}
	for {
		ok := c.Case(fmt.Sprintf("%s#%d", label, runs), func(k *Case) { fn(k, e) })
		runs++
		if !ok {
			return runs, false
		}
		if !e.Next() {
			return runs, true
		}
		if runs >= max {
			return runs, false
		}
	}
}
