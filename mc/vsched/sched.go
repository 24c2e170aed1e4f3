// Package vsched is the controlled scheduler the instrumented copy of the code under test
// runs on: goroutines, channels, select, WaitGroup, Mutex, RWMutex, Once and the order of
// map iterations become explicit choices, so that every execution is determined by a list
// of choices and all of them can be enumerated up to a number of deviations from the
// default schedule.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

type thread struct {
	id    int
	wake  chan struct{}
	run   bool // enabled
	dead  bool
	what  string
	place string
}

// Choice taken at one choice point: Take of N.
type Choice struct{ N, Take int }

// Result of one execution.
type Result struct {
	Choices []Choice
	Points  int
	Threads int
	Panic   string // a thread panicked
	Dead    string // threads blocked forever while main is not finished
	Leak    string // threads blocked forever after main returned
	Endless bool   // more than MaxPoints
	Diverge bool   // the replayed prefix did not fit: not deterministic
}

const MaxPoints = 200000

type sched struct {
	ts     []*thread
	cur    *thread
	prefix []int
	res    Result
	live   int
	end    chan struct{}
	over   bool
	procs  int
	hb     byte
}

var s *sched

// killed is the panic value that unwinds threads of an abandoned execution.
type killed struct{}

// Run executes f under the scheduler with the given choices (0 beyond the list).
// procs replaces the number of workers the code under test uses (0 keeps it).
func Run(prefix []int, procs int, f func()) Result {
	s = &sched{prefix: prefix, end: make(chan struct{}), procs: procs}
	sc := s
	spawn(f, "main")
	t := sc.ts[0]
	sc.cur = t
	raceOff()
	t.wake <- struct{}{}
	<-sc.end
	raceOn()
	// unwind what is left
	sc.over = true
	for _, t := range sc.ts {
		if !t.dead {
			raceOff()
			t.wake <- struct{}{}
			<-sc.end
			raceOn()
		}
	}
	s = nil
	acquire(&sc.hb)
	return sc.res
}

// Procs is the number of workers to use instead of n.
func Procs(n int) int {
	if s != nil && s.procs > 0 {
		return s.procs
	}
	return n
}

func active() bool { return s != nil && !s.over }

func spawn(f func(), what string) {
	sc := s
	t := &thread{id: len(sc.ts), wake: make(chan struct{}), run: true, what: what}
	sc.ts = append(sc.ts, t)
	sc.live++
	sc.res.Threads++
	go func() {
		raceOff()
		<-t.wake
		raceOn()
		defer func() {
			e := recover()
			if _, ok := e.(killed); ok || sc.over {
				t.dead = true
				raceOff()
				sc.end <- struct{}{}
				raceOn()
				return
			}
			if e != nil {
				sc.res.Panic = fmt.Sprintf("%v\n%s", e, stack())
				t.dead = true
				raceOff()
				sc.end <- struct{}{}
				raceOn()
				return
			}
			t.dead, t.run = true, false
			release(&sc.hb)
			sc.live--
			sc.leave()
		}()
		if sc.over {
			panic(killed{})
		}
		f()
	}()
}

func stack() string {
	var r []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "TopoSimplify") && !strings.HasPrefix(l, "\t") {
			r = append(r, l)
		}
	}
	if len(r) > 6 {
		r = r[:6]
	}
	return strings.Join(r, "\n")
}

// leave hands control on when the current thread has ended.
func (sc *sched) leave() {
	if n := sc.pick(); n != nil {
		sc.cur = n
		raceOff()
		n.wake <- struct{}{}
		raceOn()
		return
	}
	raceOff()
	sc.end <- struct{}{}
	raceOn()
}

// pick chooses the next thread among the enabled ones: the current one first, the others
// in cyclic order of creation; nil ends the execution.
func (sc *sched) pick() *thread {
	sc.res.Points++
	if sc.res.Points > MaxPoints {
		sc.res.Endless = true
		return nil
	}
	var en [256]*thread
	n := 0
	k := len(sc.ts)
	for i := 0; i < k; i++ {
		t := sc.ts[(sc.cur.id+i)%k]
		if t.run && !t.dead && n < len(en) {
			en[n] = t
			n++
		}
	}
	if n == 0 {
		if sc.live > 0 {
			var b []string
			for _, t := range sc.ts {
				if !t.dead {
					b = append(b, fmt.Sprintf("%s #%d at %s", t.what, t.id, t.place))
				}
			}
			if sc.ts[0].dead {
				sc.res.Leak = strings.Join(b, ", ")
			} else {
				sc.res.Dead = strings.Join(b, ", ")
			}
		}
		return nil
	}
	return en[sc.choose(n)]
}

func (sc *sched) choose(n int) int {
	if n < 2 {
		return 0
	}
	i := len(sc.res.Choices)
	k := 0
	if i < len(sc.prefix) {
		k = sc.prefix[i]
		if k >= n {
			sc.res.Diverge = true
			k = 0
		}
	}
	sc.res.Choices = append(sc.res.Choices, Choice{n, k})
	return k
}

// Point lets another thread run.
func Point() {
	if !active() {
		if s != nil && s.over {
			panic(killed{})
		}
		return
	}
	s.yield("")
}

// yield is a scheduling point of the current thread; if it is not enabled it is blocked
// until another thread enables it.
func (sc *sched) yield(place string) {
	t := sc.cur
	t.place = place
	n := sc.pick()
	if n == t {
		return
	}
	raceOff()
	if n != nil {
		sc.cur = n
		n.wake <- struct{}{}
	} else {
		sc.end <- struct{}{}
	}
	<-t.wake
	raceOn()
	if sc.over {
		panic(killed{})
	}
}

// block parks the current thread until unblock.
func (sc *sched) block(place string) {
	sc.cur.run = false
	sc.yield(place)
}

// Go starts a thread.
func Go(f func()) {
	if !active() {
		panic("vsched: goroutine outside of a controlled execution")
	}
	what := "goroutine"
	if _, file, line, ok := runtime.Caller(1); ok {
		if i := strings.LastIndex(file, "/"); i >= 0 {
			file = file[i+1:]
		}
		what = fmt.Sprintf("goroutine of %s:%d", file, line)
	}
	spawn(f, what)
	Point()
}

// Choose is a choice point for other nondeterminism.
func Choose(n int) int {
	if !active() {
		return 0
	}
	return s.choose(n)
}

// P is a scheduling point before a call of f.
func P[T any](f T) T { Point(); return f }
