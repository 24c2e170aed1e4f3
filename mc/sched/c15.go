// Package sched holds the properties about schedules. Every execution runs on vsched.
package sched

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
	"verifmc/vsched"
)

var registry []*run.Prop

// ByID finds a property.
func ByID(id string) *run.Prop {
	for _, p := range registry {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// Case is one execution: input, number of workers (0 = as written), schedule.
type Case struct {
	Lines   [][]geo.P  `json:"lines"`
	Cons    []geo.G    `json:"cons,omitempty"`
	Opt     lib.Opts   `json:"opt"`
	Metric  lib.Metric `json:"metric"`
	Way     string     `json:"way"` // class, together, single
	Procs   int        `json:"workers,omitempty"`
	Choices []int      `json:"choices,omitempty"`
	Race    bool       `json:"race,omitempty"`
}

type exec1 struct {
	vsched.Result
	out string
}

// free: the code under test could not be rewritten; inputs are executed as they are, without
// control over the schedule, and the exploration is reported as not exhaustive.
var free = os.Getenv("VERIF_FREE") != ""

func do(k *Case, prefix []int) exec1 {
	var e exec1
	cons := lib.IGeoms(k.Cons)
	start := vsched.Run
	if free {
		start = func(_ []int, _ int, f func()) (r vsched.Result) { f(); return }
	}
	e.Result = start(prefix, k.Procs, func() {
		var idx [][]int
		var err error
		switch k.Way {
		case "class":
			idx, err = lib.FC(k.Lines, cons, k.Opt, k.Metric)
		case "together":
			idx, err = lib.Instances(k.Lines, cons, k.Opt, k.Metric)
		default:
			for _, l := range k.Lines {
				var r []int
				if r, err = lib.One(l, cons, k.Opt, k.Metric); err != nil {
					break
				}
				idx = append(idx, r)
			}
		}
		e.out = fmt.Sprint(idx)
		if err != nil {
			e.out = err.Error()
		}
	})
	return e
}

// verdict of one execution given the result of the default schedule.
func (e *exec1) verdict(want string) (kind, msg string) {
	switch {
	case e.Diverge:
		return "", ""
	case e.Panic != "":
		return "panic", e.Panic
	case strings.HasPrefix(e.out, "panic"):
		return "panic", e.out
	case e.Dead != "":
		return "deadlock", e.Dead
	case e.Leak != "":
		return "leaked goroutine", e.Leak
	case e.Endless:
		return "endless", fmt.Sprintf("more than %d scheduling points", vsched.MaxPoints)
	case want != "" && e.out != want:
		return "schedule-dependent result", fmt.Sprintf("%s, in the default schedule %s", e.out, want)
	}
	return "", ""
}

type stats struct {
	runs, points, choices, threads, rounds int
	differ                                 bool
}

// explore enumerates all schedules of k with at most bound deviations. stop is called
// between executions.
func explore(k *Case, bound, limit int, st *stats, stop func() bool, fail func(kind, msg string, choices []int) bool) (complete bool) {
	base := do(k, nil)
	count := func(e *exec1) {
		st.runs++
		st.points += e.Points
		st.choices += len(e.Choices)
		if e.Threads > st.threads {
			st.threads = e.Threads
		}
	}
	count(&base)
	if kind, msg := base.verdict(""); kind != "" {
		fail(kind, msg, nil)
		return true
	}
	if raced() {
		fail("race", "", nil)
		return true
	}
	want := base.out
	if free {
		for i := 0; i < 3; i++ {
			n := do(k, nil)
			count(&n)
			if kind, msg := n.verdict(want); kind != "" {
				fail(kind, msg, nil)
				return false
			}
			if raced() {
				fail("race", "", nil)
				return false
			}
		}
		return false
	}
	var rec func(e *exec1, from, dev int) bool
	rec = func(e *exec1, from, dev int) bool {
		if dev >= bound {
			return true
		}
		for i := from; i < len(e.Choices); i++ {
			for a := 1; a < e.Choices[i].N; a++ {
				if st.runs >= limit || st.runs&15 == 0 && stop() {
					return false
				}
				p := make([]int, i+1)
				for j := 0; j < i; j++ {
					p[j] = e.Choices[j].Take
				}
				p[i] = a
				n := do(k, p)
				count(&n)
				if n.Diverge {
					complete = false
					return false
				}
				if kind, msg := n.verdict(want); kind != "" && !fail(kind, msg, p) {
					return true
				}
				if raced() && !fail("race", "", p) {
					return true
				}
				if !rec(&n, i+1, dev+1) {
					return false
				}
			}
		}
		return true
	}
	return rec(&base, 0, 0)
}

var races int

// raced tells whether the race detector has reported since the last call.
func raced() bool {
	n := vsched.RaceErrors()
	if n != races {
		races = n
		return true
	}
	return false
}

// report is the text of the race detector.
func report(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	if len(fs) == 0 {
		return "data race"
	}
	dat, _ := os.ReadFile(fs[len(fs)-1])
	var r []string
	for _, l := range strings.Split(string(dat), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") || strings.HasSuffix(l, ")") && strings.Contains(l, ".") || strings.Contains(l, ".go:") {
			r = append(r, l)
		}
		if len(r) > 12 || strings.HasPrefix(l, "Goroutine") {
			break
		}
	}
	return "data race: " + strings.Join(r, " | ")
}

func trim(p []int) []int {
	for len(p) > 0 && p[len(p)-1] == 0 {
		p = p[:len(p)-1]
	}
	return append([]int{}, p...)
}

// family explores the schedules of n cases.
func family(c *run.Ctx, name string, n, procs, bound, limit int, mk func(i int) (Case, bool)) {
	what := "schedules of"
	if vsched.Racing {
		what = "data races in schedules of"
	}
	w := "all"
	if procs > 0 {
		w = fmt.Sprint(procs)
	}
	full := 0
	title := fmt.Sprintf("%s %s, %s workers, up to %d deviations from the default schedule", what, name, w, bound)
	if vsched.Racing && procs > 0 {
		return // races do not need fewer workers
	}
	short := 0
	c.For(title, n, func(i int, t *run.Tally) {
		k, ok := mk(i)
		if !ok || c.Late() {
			if ok {
				short++
			}
			return
		}
		k.Procs = procs
		c.Now(func() interface{} { return k })
		var st stats
		done := explore(&k, bound, limit, &st, c.Late, func(kind, msg string, p []int) bool {
			f := k
			f.Choices = trim(p)
			if kind == "race" {
				f.Race = true
				kind, msg = "data race", report(c.Scratch)
			}
			if procs > 0 {
				// fewer workers than the code starts: confirm with the real number
				g := k
				g.Procs = 0
				var s2 stats
				found := false
				explore(&g, bound, limit, &s2, c.Late, func(kind, msg string, p []int) bool {
					f := g
					f.Choices = trim(p)
					c.Fail(kind, msg, f)
					found = true
					return false
				})
				if !found {
					c.Cap(fmt.Sprintf("%s with %d workers in %v, not found with the real number", kind, procs, k.Lines))
				}
				return false
			}
			c.Fail(kind, msg, f)
			return false
		})
		if !done {
			short++
		} else {
			full++
		}
		t.States += st.runs
		t.Trans += st.points
		t.Evals += st.runs
		t.Traces += st.runs
		t.Nontriv += st.runs - 1
		if c.WantSample() {
			c.Sample(fmt.Sprintf("%v: %d schedules, %d scheduling points, %d choice points, %d threads", k, st.runs, st.points, st.choices, st.threads))
		}
	})
	c.Sum("inputs_with_all_schedules", int64(full))
	if short > 0 {
		c.Cap(fmt.Sprintf("%s: %d inputs not completely explored", title, short))
	}
}

func replay(c *run.Ctx, raw json.RawMessage) string {
	var k Case
	if json.Unmarshal(raw, &k) != nil {
		return ""
	}
	if k.Race && !vsched.Racing {
		if len(c.Also) == 0 {
			return ""
		}
		f := filepath.Join(c.Scratch, "race-case.json")
		dat, _ := json.Marshal(map[string]interface{}{"case": k})
		os.WriteFile(f, dat, 0o644)
		cmd := exec.Command(c.Also[0], "-property", "C15", "-replay", f, "-scratch", c.Scratch)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(c.Scratch, "race"))
		out, err := cmd.Output()
		if err != nil {
			return strings.TrimSpace(string(out))
		}
		return ""
	}
	d := do(&k, nil)
	if kind, msg := d.verdict(""); kind != "" {
		return kind + ": " + msg
	}
	e := do(&k, k.Choices)
	if kind, msg := e.verdict(d.out); kind != "" {
		return kind + ": " + msg
	}
	if raced() {
		return report(c.Scratch)
	}
	return ""
}

func withT(xy ...int64) []geo.P {
	var r []geo.P
	for i := 0; i+1 < len(xy); i += 2 {
		r = append(r, geo.P{X: xy[i], Y: xy[i+1], T: int64(i/2 + 1)})
	}
	return r
}

func shift(l []geo.P, dx, dy int64) []geo.P {
	r := append([]geo.P{}, l...)
	for i := range r {
		r[i].X += dx
		r[i].Y += dy
	}
	return r
}

func flat(n int, w, h int64, i int) ([]geo.P, bool) {
	var r []geo.P
	c := int(w * h)
	last := -1
	for k := 0; k < n; k++ {
		v := i % c
		i /= c
		if v == last {
			return nil, false
		}
		last = v
		r = append(r, geo.P{X: int64(v) % w, Y: int64(v) / w, T: int64(k + 1)})
	}
	return r, true
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

func bits(k int, th, md, np float64) lib.Opts {
	return lib.Opts{Threshold: th, MinDist: md, NonPlanarDisplacement: np,
		PlanarSelf: k&1 > 0, NonPlanarSelf: k&2 > 0, AvoidNewSelfIntersects: k&4 > 0,
		GeomRelation: k&8 > 0, DistRelation: k&16 > 0, DirRelation: k&32 > 0}
}

// zigzag walks over repeated words.
func zigzag(word []geo.P, rep int) []geo.P {
	r := []geo.P{{T: 1}}
	for ; rep > 0; rep-- {
		for _, s := range word {
			p := r[len(r)-1]
			r = append(r, geo.P{X: p.X + s.X, Y: p.Y + s.Y, T: p.T + 1})
		}
	}
	return r
}

// nested is a stack of k roofs whose apexes share one obstacle line below.
func nested(k int) [][]geo.P {
	var r [][]geo.P
	w, h, b := int64(4), int64(3), int64(0)
	for i := 0; i < k; i++ {
		r = append(r, withT(-w, b, 0, h, w, b))
		w, h, b = w*2+2, h*2, b*2+2
	}
	return append(r, withT(0, 1, 0, 2))
}

var contexts = []geo.G{geo.Point(1, 1), geo.LineG(geo.P{X: 2, Y: 0}, geo.P{X: 2, Y: 1})}

const all = 1 << 30

func roofs(o lib.Opts, way string) func(i int) (Case, bool) {
	return func(i int) (Case, bool) {
		return Case{Lines: nested(i + 1), Way: way, Opt: o}, true
	}
}

func init() {
	registry = append(registry, &run.Prop{ID: "C15", Rule: rule, Assumptions: assume, Replay: replay, Run: func(c *run.Ctx) {
		b := func(plain, race int) int {
			if vsched.Racing {
				return race
			}
			return plain
		}
		word := []geo.P{{X: 2}, {X: 1, Y: 3}, {X: 1, Y: -3}, {X: -1, Y: 2}}
		long := func(rep int, o lib.Opts, m lib.Metric, way string) Case {
			l := zigzag(word, rep)
			return Case{Lines: [][]geo.P{l, shift(l, 1, 1)}, Cons: contexts, Way: way, Opt: o, Metric: m}
		}
		// many features, one obstacle: several rounds of repair, many hulls in each
		family(c, "roofs over one obstacle", 4, 0, 1, all, roofs(bits(4, 20, 1, 1), "class"))
		family(c, "roofs over one obstacle", c.Pick(2, 4), 2, 2, all, roofs(bits(4, 20, 1, 1), "class"))
		family(c, "roofs over one obstacle, all constraints", 3, 0, 1, all, roofs(bits(63, 20, 1, 1), "class"))
		family(c, "one roof over one obstacle", 1, 0, c.Pick(1, b(2, 1)), all, roofs(bits(6, 20, 1, 1), "class"))
		family(c, "roofs simplified together", 3, 0, 1, all, roofs(bits(63, 20, 1, 1), "together"))
		// long lines: more hulls than workers
		os := []lib.Opts{bits(63, 2, 1, 1), bits(7, 4, 1, 1), bits(60, 1, 1, 1), bits(37, 1, 2, 1)}
		family(c, "two overlapping long walks", c.Pick(b(8, 4), 8), 0, 1, all, func(i int) (Case, bool) {
			return long(3+i/4*2, os[i%4], lib.Metric(i%2*2), "class"), true
		})
		family(c, "two overlapping long walks", 8, 2, 1, all, func(i int) (Case, bool) {
			return long(3+i/4*5, os[i%4], lib.Metric(i%2*2), "class"), true
		})
		// more lines than workers
		family(c, "9 to 18 parallel walks", c.Pick(2, 4), 0, 1, all, func(i int) (Case, bool) {
			n, way := 9+i/2*9, [...]string{"class", "together"}[i%2]
			k := Case{Cons: contexts, Way: way, Opt: os[i%4]}
			for j := 0; j < n; j++ {
				k.Lines = append(k.Lines, shift(zigzag(word[:2+i%2], 2), 0, int64(j)))
			}
			if vsched.Racing {
				k.Lines = k.Lines[:9]
			}
			return k, true
		})
		// every small input
		n3 := pow(4, 3)
		masks := []int{4, 3, 36, 63}
		small := func(w, h int64, na, nb, step int) func(i int) (Case, bool) {
			ca, cb := pow(int(w*h), na), pow(int(w*h), nb)
			return func(i int) (Case, bool) {
				if i%step != 0 {
					return Case{}, false
				}
				o := bits(masks[i%4], 1.5, 1, 1)
				i /= 4
				a, ok1 := flat(na, w, h, i%ca)
				i /= ca
				b, ok2 := flat(nb, w, h, i%cb)
				return Case{Lines: [][]geo.P{a, b}, Cons: contexts[:1], Way: "class", Opt: o}, ok1 && ok2
			}
		}
		family(c, c.PickS("every fifth", "every")+" pair of 3-vertex lines on 2x2 x 4 options", 4*n3*n3, 0, 0, all, small(2, 2, 3, 3, c.Pick(5, 1)))
		family(c, c.PickS("every seventh", "every")+" pair of 3-vertex lines on 2x2 x 4 options", 4*n3*n3, 2, 1, all, small(2, 2, 3, 3, c.Pick(7, 1)))
		// the order of map iterations in a single line
		n := c.Pick(5, 6)
		family(c, fmt.Sprintf("every line of %d vertices on 2x2 x 3 options", n), 3*pow(4, n), 0, c.Pick(1, 2), all, func(i int) (Case, bool) {
			l, ok := flat(n, 2, 2, i/3)
			return Case{Lines: [][]geo.P{l}, Cons: contexts, Way: "single", Opt: bits([]int{3, 35, 63}[i%3], 1.5, 1, 1)}, ok
		})
		if c.Thorough() {
			family(c, "every pair of 4- and 3-vertex lines on 3x2 x 4 options", 4*pow(6, 4)*pow(6, 3), 2, b(1, 0), all, small(3, 2, 4, 3, 1))
			family(c, "one roof over one obstacle", 1, 0, b(3, 2), all, roofs(bits(4, 20, 1, 1), "class"))
			family(c, "roofs over one obstacle", 2, 2, 3, all, roofs(bits(4, 20, 1, 1), "class"))
			family(c, "roofs over one obstacle", 4, 3, 2, all, roofs(bits(12, 20, 1, 1), "class"))
			family(c, "roofs over one obstacle", 4, 0, 2, all, roofs(bits(12, 20, 1, 1), "class"))
			family(c, "two overlapping long walks", 4, 2, 2, all, func(i int) (Case, bool) {
				return long(2, os[i%4], lib.Metric(i%2*2), "class"), true
			})
			family(c, "two overlapping long walks", 4, 0, 2, all, func(i int) (Case, bool) {
				return long(2, os[i%4], lib.Metric(i%2*2), "class"), true
			})
		}
	}})
}

const rule = "the goroutines, channels, select statements, wait groups, locks and map iterations of the code under test (rewritten by cmd/instr from /repo's working tree, together with its two dependencies that use goroutines) run on a cooperative scheduler that turns every scheduling point into a recorded choice; for each input the default schedule and every schedule with at most the stated number of deviations from it are executed to the end. Non-trivial executions are those with at least one deviation."

var assume = []string{
	"between two synchronisation operations a goroutine is not preempted: plain memory accesses are covered by the race detector, which runs in a second build on the schedules listed as data races in schedules of ...; the scheduler passes it exactly the happens-before edges of the Go memory model",
	"map iterations: all orders of up to three entries, otherwise the order of the keys, its reverse and three rotations",
	"goroutines inside the Go standard library and the other dependencies are not controlled (they use none)",
	"where fewer workers than the constant of the code are used to get deeper, an anomaly counts only if it is found again with the number of workers as written",
}
