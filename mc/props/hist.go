package props

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/TopoSimplify/plugin/geometry"
	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
)

// ---------------------------------------------------------------- C20 reference model

// dpModel is the set of index sets that Douglas-Peucker decomposition followed by a left to
// right merge of single edge pieces may produce; ties and threshold comparisons within a
// relative 1e-9 go both ways.
type dpModel struct {
	l   []geo.P
	th  float64
	sed bool
	raw bool // offsets of the metric are exact when zero
}

const rel = 1e-9

func (m dpModel) dist(a, b, v int) float64 {
	if m.sed {
		return math.Sqrt(sed2(m.l[a], m.l[b], m.l[v]))
	}
	return math.Sqrt(geo.PtSeg2(m.l[a], m.l[b], m.l[v]).Float())
}

// far returns the greatest offset and all vertices that attain it.
func (m dpModel) far(a, b int) (float64, []int) {
	best := 0.0
	for v := a + 1; v < b; v++ {
		if d := m.dist(a, b, v); d > best {
			best = d
		}
	}
	var at []int
	for v := a + 1; v < b; v++ {
		if m.dist(a, b, v) >= best-rel*(1+best) {
			at = append(at, v)
		}
	}
	return best, at
}

// ok tells whether val <= threshold may hold, may fail.
func (m dpModel) ok(val float64) (may, mayNot bool) {
	e := rel * (1 + m.th)
	return val <= m.th+e, val > m.th-e && (val > 0 || !m.raw)
}

// decomps lists the possible decompositions of [a,b] as sorted index sets.
func (m dpModel) decomps(a, b int, memo map[[2]int][][]int) [][]int {
	if r, ok := memo[[2]int{a, b}]; ok {
		return r
	}
	var r [][]int
	best, at := m.far(a, b)
	may, mayNot := m.ok(best)
	if b-a == 1 {
		may, mayNot = true, false
	}
	if may {
		r = append(r, []int{a, b})
	}
	if mayNot {
		for _, k := range at {
			for _, x := range m.decomps(a, k, memo) {
				for _, y := range m.decomps(k, b, memo) {
					z := append(append([]int{}, x...), y[1:]...)
					r = append(r, z)
				}
			}
		}
	}
	r = uniq(r)
	memo[[2]int{a, b}] = r
	return r
}

func uniq(r [][]int) [][]int {
	seen := map[string]bool{}
	var u [][]int
	for _, x := range r {
		if k := fmt.Sprint(x); !seen[k] {
			seen[k] = true
			u = append(u, x)
		}
	}
	return u
}

// merges lists the possible results of merging single edge pieces of decomposition idx
// from left to right, with the next piece first, then with the previous one.
func (m dpModel) merges(idx []int) [][]int {
	var r [][]int
	var walk func(idx []int, at int, tried map[[3]int]bool)
	walk = func(idx []int, at int, tried map[[3]int]bool) {
		// piece number at: idx[at]..idx[at+1]
		for ; at+1 < len(idx); at++ {
			if idx[at+1]-idx[at] == 1 {
				break
			}
		}
		if at+1 >= len(idx) {
			r = append(r, idx)
			return
		}
		drop := func(i int) []int {
			return append(append([]int{}, idx[:i]...), idx[i+1:]...)
		}
		mayN, mayNotN := false, true
		mayP, mayNotP := false, true
		t2 := map[[3]int]bool{}
		for k := range tried {
			t2[k] = true
		}
		if at > 0 {
			k := [3]int{idx[at-1], idx[at], idx[at+1]}
			if !t2[k] {
				t2[k] = true
				v, _ := m.far(idx[at-1], idx[at+1])
				mayP, mayNotP = m.ok(v)
			}
		}
		if at+2 < len(idx) {
			k := [3]int{idx[at], idx[at+1], idx[at+2]}
			if !t2[k] {
				t2[k] = true
				v, _ := m.far(idx[at], idx[at+2])
				mayN, mayNotN = m.ok(v)
			}
		}
		if mayN { // merged piece replaces both, processing goes on after it
			walk(drop(at+1), at+1, t2)
		}
		if mayNotN && mayP {
			walk(drop(at), at, t2)
		}
		if mayNotN && mayNotP {
			walk(idx, at+1, t2)
		}
	}
	walk(idx, 0, map[[3]int]bool{})
	return uniq(r)
}

func (m dpModel) outcomes() [][]int {
	var r [][]int
	for _, d := range m.decomps(0, len(m.l)-1, map[[2]int][][]int{}) {
		r = append(r, m.merges(d)...)
	}
	return uniq(r)
}

// ckPlain: no constraint enabled: the result is one the reference model allows.
func ckPlain(k *Case, o *Outcome) (string, string) {
	for i, l := range k.Lines {
		m := dpModel{l, k.Opt.Threshold, k.Metric == lib.SED || k.Metric == lib.SEDSq, k.Metric == lib.DP}
		outs := m.outcomes()
		ok := false
		for _, x := range outs {
			ok = ok || reflect.DeepEqual(x, o.Idx[i])
		}
		if !ok {
			return "model", fmt.Sprintf("line %d: retained %v, the reference algorithm gives %v", i, o.Idx[i], outs)
		}
	}
	return "", ""
}

// ---------------------------------------------------------------- metamorphic cases

// PairCase compares two executions of the same lines.
type PairCase struct {
	Case
	Way string `json:"way"`
	Arg []int  `json:"arg,omitempty"`
}

func execWay(c *run.Ctx, k Case) Outcome {
	if k.CLI {
		o, err := CLI(c, []Case{k})
		if err != nil {
			return Outcome{Err: err.Error()}
		}
		return o[0]
	}
	return Exec(&k)
}

// otherWay executes the case in the alternative way and maps the result back.
func otherWay(c *run.Ctx, k PairCase) Outcome {
	b := cloneCase(k.Case)
	switch k.Way {
	case "alone": // each line in a run of its own
		var o Outcome
		for i := range k.Lines {
			b.Lines = k.Lines[i : i+1]
			x := execWay(c, b)
			if x.Err != "" {
				return x
			}
			o.Idx = append(o.Idx, x.Idx[0])
		}
		return o
	case "order": // the lines in another order
		b.Lines = permute(k.Lines, k.Arg)
		x := execWay(c, b)
		if x.Err != "" {
			return x
		}
		o := Outcome{Idx: make([][]int, len(k.Lines))}
		for i, p := range k.Arg {
			o.Idx[p] = x.Idx[i]
		}
		return o
	case "again":
		return execWay(c, b)
	case "axes": // mirrored or turned
		for i := range b.Lines {
			b.Lines[i] = symL(k.Lines[i], k.Arg[0])
		}
		b.Cons = symG(k.Cons, k.Arg[0])
		return execWay(c, b)
	case "writing": // the objects listed in another way
		b.Cons = otherWriting(k.Cons, k.Arg[0], k.Arg[1])
		return execWay(c, b)
	case "no objects":
		b.Cons = nil
		return execWay(c, b)
	case "no relations":
		b.Opt.GeomRelation, b.Opt.DistRelation, b.Opt.DirRelation = false, false, false
		return execWay(c, b)
	case "not planar_self":
		b.Opt.PlanarSelf = false
		return execWay(c, b)
	case "not non_planar_self":
		b.Opt.NonPlanarSelf = false
		return execWay(c, b)
	case "not is_feature_class":
		b.FC = false
		return execWay(c, b)
	}
	return Outcome{Err: "unknown way " + k.Way}
}

func pairJudge(c *run.Ctx, k PairCase) (o Outcome, msg string) {
	if k.Way == "alone" && !k.CLI { // together through the library entry point
		idx, err := lib.Instances(k.Lines, lib.IGeoms(k.Cons), k.Opt, k.Metric)
		if err != nil {
			return o, err.Error()
		}
		o.Idx = idx
	} else {
		o = execWay(c, k.Case)
	}
	if o.Err != "" {
		return o, o.Err
	}
	p := otherWay(c, k)
	if p.Err != "" {
		return o, p.Err
	}
	if !reflect.DeepEqual(o.Idx, p.Idx) {
		return o, fmt.Sprintf("retained %v, but %v when run: %s %v", o.Idx, p.Idx, k.Way, k.Arg)
	}
	return o, ""
}

func pair(c *run.Ctx, k PairCase, t *run.Tally) {
	c.Now(func() interface{} { return k })
	o, m := pairJudge(c, k)
	t.States += 2
	t.Trans += 2
	t.Evals++
	if k.CLI {
		t.Traces += 2
	}
	for i := range o.Idx {
		if len(o.Idx[i]) < len(k.Lines[i]) {
			t.Nontriv++
			if c.WantSample() {
				c.Sample(fmt.Sprintf("%v %s -> %v", k.Case, k.Way, o.Idx))
			}
			break
		}
	}
	if m != "" {
		x := k
		x.Case = cloneCase(k.Case)
		c.Fail("differs", m, x)
	}
}

func replayPair(c *run.Ctx, raw json.RawMessage) string {
	var k PairCase
	json.Unmarshal(raw, &k)
	_, m := pairJudge(c, k)
	return m
}

// ---------------------------------------------------------------- C19 histories

type histCase struct {
	Lines [][]geo.P
	Cons  []geo.G
	Opts  []lib.Opts
	FC    []bool
	// Put, if given, holds the context set in force at each simplification (an
	// index of histCons); the instances are built with Cons.
	Put []int `json:",omitempty"`
}

var histCons = [][]geo.G{nil, {pt(2, 1)}, {seg(5, 0, 5, 2), pt(1, 2)}, {poly(0, -2, 1, -2, 1, -1), poly(3, 1, 4, 1, 4, 3), pt(2, 1), pt(-4, 5)}}

func histRun(k histCase) string {
	var put [][]geometry.IGeometry
	for _, j := range k.Put {
		put = append(put, lib.IGeoms(histCons[j]))
	}
	return lib.History(k.Lines, lib.IGeoms(k.Cons), k.Opts, k.FC, put)
}

func init() {
	register(&run.Prop{ID: "C13", Rule: "every listed set of lines x options x context is simplified together (not as a feature class) and each line on its own; results are compared; non-trivial = at least one vertex was dropped", Assumptions: assumeLines, Replay: replayPair, Run: func(c *run.Ctx) {
		b3 := Grid{N: 3, W: 3, H: 2}.All(canonDir)
		a5 := Grid{N: 5, W: 3, H: 2}.All(func(l []geo.P) bool { return l[0].X == 0 && l[0].Y == 0 && l[4].X == 2 })
		cs := confAll([]float64{1, 10}, 1, lib.DP)
		c.For(fmt.Sprintf("triples of lines x %d options, library", len(cs)), len(b3)*20, func(i int, t *run.Tally) {
			k := PairCase{Way: "alone"}
			k.Lines = [][]geo.P{b3[i%len(b3)], a5[(i*7)%len(a5)], b3[(i/len(b3)*3+i)%len(b3)]}
			k.Cons = mixed
			for _, cf := range cs {
				k.Opt, k.Metric = cf.o, cf.m
				pair(c, k, t)
			}
		})
		c.For("12 lines x 64 options, library", len(a5), func(i int, t *run.Tally) {
			k := PairCase{Way: "alone"}
			for j := 0; j < 12; j++ {
				k.Lines = append(k.Lines, a5[(i+j*j*11)%len(a5)])
			}
			k.Cons = mixed
			for b := 0; b < 64; b++ {
				k.Opt = optBits(b, 10, 1, 1)
				pair(c, k, t)
			}
		})
		nc := c.Pick(24, 60)
		c.For(fmt.Sprintf("a line among 2 to %d others, 5 forms x 14 option sets, library", nc), (nc-1)*5*2, func(i int, t *run.Tally) {
			k := PairCase{Way: "alone"}
			k.Lines, k.Cons = crowd(nc-i/10, nc-i/10, i/2%5, i%2 == 1), mixed
			for _, cf := range confSingles([]float64{1000}, 1, lib.DP, lib.SED) {
				k.Opt, k.Metric = cf.o, cf.m
				pair(c, k, t)
			}
		})
		words := all(Words{Name: "teeth", Steps: teeth, L: 3, Rep: 4}, nil)
		c.For("9 long lines x 14 option sets, library", len(words), func(i int, t *run.Tally) {
			for _, cf := range confSingles([]float64{3}, 1, lib.DP, lib.SED) {
				k := PairCase{Way: "alone"}
				k.Lines = comb(words[i], 9, 2)
				k.Cons = []geo.G{pt(5, 1), seg(9, 0, 9, 3), pt(14, -1)}
				k.Opt, k.Metric = cf.o, cf.m
				pair(c, k, t)
			}
		})
		// program: batches against the library run of each line on its own
		same := func(k *Case, o *Outcome) (string, string) {
			b := *k
			b.CLI = false
			x := Exec(&b)
			if x.Err != "" || !reflect.DeepEqual(x.Idx, o.Idx) {
				return "differs", fmt.Sprintf("the program retained %v, alone %v %s", o.Idx, x.Idx, x.Err)
			}
			return "", ""
		}
		cliSweep(c, Grid{N: 5, W: 3, H: 2}, [][]geo.G{mixed}, confAll([]float64{1}, 1, lib.DP), nil, same)
		cliSweep(c, Words{Name: "teeth", Steps: teeth, L: 3, Rep: 5}, [][]geo.G{mixed}, confAll([]float64{3}, 1, lib.DP, lib.SED), nil, same)
		if c.Thorough() {
			sets := Grid{N: 4, W: 3, H: 2}.All(canonDir)
			c.For("pairs of 4-vertex lines x 64 options, library", len(sets)*len(sets), func(i int, t *run.Tally) {
				k := PairCase{Way: "alone"}
				k.Lines = [][]geo.P{sets[i%len(sets)], sets[i/len(sets)]}
				k.Cons = mixed
				for b := 0; b < 64; b++ {
					k.Opt = optBits(b, 10, 1, 1)
					pair(c, k, t)
				}
			})
		}
	}})

	register(&run.Prop{ID: "C14", Rule: "every listed feature class x every order of its features (or rotations and reversal for large classes) x options; results are compared feature by feature, also with a repeated run; non-trivial = at least one vertex was dropped", Assumptions: assumeLines, Replay: replayPair, Run: func(c *run.Ctx) {
		p3 := Grid{N: 3, W: 3, H: 2}.All(func(l []geo.P) bool { return canonDir(l) && bent(l) })
		a4 := Grid{N: 4, W: 3, H: 2}.All(canonDir)
		var all64 []conf
		for b := 0; b < 64; b++ {
			all64 = append(all64, conf{optBits(b, 10, 1, 0.5), lib.DP})
		}
		fcPair := func(name string, n int, mk func(i int) ([][]geo.P, [][]int), cons []geo.G, cfs []conf) {
			c.For(fmt.Sprintf("feature class %s: %d x %d options", name, n, len(cfs)), n, func(i int, t *run.Tally) {
				ls, ps := mk(i)
				for _, p := range ps {
					way := "order"
					if p == nil {
						way = "again"
					}
					for _, cf := range cfs {
						k := PairCase{Way: way, Arg: p}
						k.Lines, k.Cons, k.FC, k.Opt, k.Metric = ls, cons, true, cf.o, cf.m
						pair(c, k, t)
					}
				}
			})
		}
		swap := [][]int{{1, 0}}
		fcPair("pairs of 4- and 3-vertex lines on 3x2", len(a4)*len(p3), func(i int) ([][]geo.P, [][]int) {
			return [][]geo.P{a4[i%len(a4)], p3[i/len(a4)]}, swap
		}, nil, confs(lib.DP, optBits(4, 10, 1, 0.5), optBits(5, 1, 1, 1), optBits(2, 10, 1, 0.5)))
		fcPair("pairs of 3-vertex lines on 3x2", len(p3)*len(p3), func(i int) ([][]geo.P, [][]int) {
			return [][]geo.P{p3[i%len(p3)], p3[i/len(p3)]}, swap
		}, mixed, all64)
		p6 := perms(3)[1:]
		p3s := Grid{N: 3, W: 3, H: 2}.All(func(l []geo.P) bool { return canonDir(l) && bent(l) && l[0].Y == 0 && l[2].Y == 0 })
		n3 := len(p3s)
		fcPair("triples of 3-vertex lines on 3x2", n3*n3*n3, func(i int) ([][]geo.P, [][]int) {
			return [][]geo.P{p3s[i%n3], p3s[i/n3%n3], p3s[i/n3/n3]}, p6
		}, nil, confs(lib.DP, optBits(4, 10, 1, 0.5)))
		var st [][][]geo.P
		for k := 2; k <= 3; k++ {
			for _, h0 := range []int64{6, 10} {
				for _, obx := range []int64{-1, 0} {
					for _, oby := range []int64{-1, 2} {
						st = append(st, nested(k, 2, h0, 3, obx, oby))
					}
				}
			}
		}
		st = append(st, [][]geo.P{withT(-3, 0, 0, 10, 3, 0), withT(-8, 2, 0, 20, 8, 2), withT(-16, 4, 0, 40, 16, 4), withT(0, 1, 0, -3)})
		fcPair("nested roofs", len(st), func(i int) ([][]geo.P, [][]int) { return st[i], perms(len(st[i])) }, nil,
			confs(lib.DP, optBits(4, 100, 1, 1), optBits(7, 3, 1, 1), optBits(2, 100, 1, 0.5)))
		words := all(Words{Name: "teeth", Steps: teeth, L: 3, Rep: 4}, nil)
		turns := func(n int) [][]int {
			var r [][]int
			id := make([]int, n)
			for i := range id {
				id[i] = i
			}
			for s := 1; s < n; s++ {
				r = append(r, append(append([]int{}, id[s:]...), id[:s]...))
			}
			rev := append([]int{}, id...)
			sort.Sort(sort.Reverse(sort.IntSlice(rev)))
			return append(append(r, rev), nil, nil)
		}
		fcPair("weaves 3+3", len(words)/2, func(i int) ([][]geo.P, [][]int) {
			ls := weave(words[i], shift(turn(words[(i*7+3)%len(words)]), 3, -6), 3, 4, 5)
			return ls, turns(len(ls))
		}, nil, confs(lib.DP, optBits(4, 6, 1, 1), optBits(7, 6, 1, 1), optBits(2, 6, 1, 0.5)))
		fcPair("12 parallel walks", len(words)/4, func(i int) ([][]geo.P, [][]int) {
			return comb(words[i*4], 12, 1), [][]int{turns(12)[i%11], turns(12)[11], nil}
		}, []geo.G{pt(5, 1), seg(9, 0, 9, 3)}, confs(lib.DP, optBits(4, 6, 1, 1), optBits(61, 6, 1, 1)))
		nc := c.Pick(14, 30)
		fcPair(fmt.Sprintf("a line among 2 to %d others, 5 forms", nc), (nc-1)*(nc-1)*5, func(i int) ([][]geo.P, [][]int) {
			k, v, m := nc-i/5/(nc-1), i/5%(nc-1), i%5
			if v > k {
				return nil, nil
			}
			ts := turns(k + 1)
			return crowd(k, v, m, v%2 == 1), [][]int{ts[0], ts[k/2], ts[k-1], ts[k]}
		}, nil, confs(lib.DP, optBits(4, 1000, 1, 1), optBits(5, 4, 1, 1), optBits(2, 1000, 1, 0.5)))
		c.For("program: nested roofs in every order", len(st), func(i int, t *run.Tally) {
			for _, p := range perms(len(st[i])) {
				k := PairCase{Way: "order", Arg: p}
				k.Lines, k.FC, k.CLI, k.Opt = st[i], true, true, optBits(4, 100, 1, 1)
				pair(c, k, t)
			}
		})
		c.For("program: weaves", len(words)/4, func(i int, t *run.Tally) {
			k := PairCase{Way: "order"}
			k.Lines = weave(words[i*4], shift(turn(words[(i*7+3)%len(words)]), 3, -6), 3, 4, 5)
			k.FC, k.CLI, k.Opt = true, true, optBits(6, 6, 1, 1)
			k.Arg = turns(6)[i%6]
			pair(c, k, t)
		})
		if c.Thorough() {
			fcPair("pairs of 4- and 4-vertex lines on 3x2", len(a4)*len(a4), func(i int) ([][]geo.P, [][]int) {
				return [][]geo.P{a4[i%len(a4)], a4[i/len(a4)]}, swap
			}, mixed, confs(lib.DP, optBits(4, 10, 1, 0.5), optBits(63, 1, 1, 1), optBits(2, 10, 1, 0.5), optBits(56, 10, 1, 1)))
			n := len(p3)
			fcPair("triples of 3-vertex lines on 3x2, all", n*n*n, func(i int) ([][]geo.P, [][]int) {
				return [][]geo.P{p3[i%n], p3[i/n%n], p3[i/n/n]}, p6
			}, nil, confs(lib.DP, optBits(4, 10, 1, 0.5)))
		}
	}})

	ckRuns := func(k *Case, o *Outcome) (string, string) { return "", "" }
	register(&run.Prop{ID: "C16", Rule: "every listed line (repeated vertices, spikes, loops, closed rings, zero length lines) x all 64 option combinations x thresholds and distances from 0 to 1e12 is executed; each execution must end with a result; non-trivial = at least one vertex was dropped", Assumptions: []string{"lines have at least two vertices; SED runs use strictly increasing time stamps", "an execution that makes no progress for 120 s counts as not terminating"}, Replay: replayCase(ckRuns), Run: func(c *run.Ctx) {
		wide := append(confAll([]float64{0}, 0, lib.DP), confAll([]float64{0.5}, 1e12, lib.DP)...)
		wide = append(wide, confAll([]float64{1e12}, 0.5, lib.DP, lib.SED)...)
		for _, n := range []int{2, 3, 4} {
			sweep(c, Grid{N: n, W: 2, H: 2, Dup: true}, [][]geo.G{nil, mixed, {pt(0, 0), seg(0, 0, 1, 1), seg(0, 0, 0, 0), poly(0, 0, 1, 0, 1, 1)}}, wide, nil, ckRuns)
		}
		sweep(c, Grid{N: 5, W: 2, H: 2, Dup: true}, [][]geo.G{mixed}, confAll([]float64{1e12}, 1, lib.DP), nil, ckRuns)
		sweep(c, Grid{N: 5, W: 3, H: 1, Dup: true}, [][]geo.G{mixed}, confAll([]float64{0, 10}, 1, lib.DP), nil, ckRuns)
		sweep(c, Grid{N: 6, W: 3, H: 1, Dup: true}, [][]geo.G{mixed}, confAll([]float64{10}, 1, lib.DP), nil, ckRuns)
		sweep(c, Words{Name: "lattice", Steps: append([]geo.P{{}}, four...), L: 5}, [][]geo.G{mixed}, confSingles([]float64{1, 1e9}, 1, lib.DP), nil, ckRuns)
		sweep(c, Words{Name: "lattice", Steps: append([]geo.P{{}}, four...), L: 3, Rep: 12}, [][]geo.G{mixed}, confAll([]float64{1, 1e9}, 1, lib.DP), nil, ckRuns)
		sweep(c, Dense{c.Pick(18, 60)}, [][]geo.G{mixed}, confSingles([]float64{1, 100}, 1, lib.DP), nil, ckRuns)
		sweep(c, Outlier{[]int{c.Pick(300, 2000)}}, [][]geo.G{mixed}, confs(lib.DP, optBits(0, 3, 1, 1), optBits(7, 3, 1, 1)), nil, ckRuns)
		sweep(c, Peels{c.Pick(120, 300), true}, peelCtx, confs(lib.DP, optBits(4, 2000, 1, 1), optBits(63, 2000, 1, 1)), nil, ckRuns)
		sweep(c, Knots{c.Pick(150, 600), c.Pick(10, 5), false}, nil, confs(lib.DP, optBits(5, 20, 1, 1), optBits(6, 20, 1, 1), optBits(4, 20, 1, 1)), nil, ckRuns)
		sweep(c, Hubs{c.Pick(100, 300), c.Pick(10, 5)}, nil, confs(lib.DP, optBits(5, 100, 1, 1), optBits(6, 100, 1, 1)), nil, ckRuns)
		sweep(c, Words{Name: "teeth", Steps: teeth, L: 2, Rep: 100}, [][]geo.G{mixed}, confSingles([]float64{1, 3, 30}, 1, lib.DP, lib.SED), nil, ckRuns)
		t3 := Grid{N: 3, W: 2, H: 2, Dup: true}.All(nil)
		fcSweep(c, "3-vertex lines on 2x2", t3, t3, mixed, confAll([]float64{1e12}, 0.5, lib.DP), nil, ckRuns)
		fcSweep(c, "3-vertex lines on 2x2 without context", t3, t3, nil, confSingles([]float64{0, 1}, 0.5, lib.DP, lib.SED), nil, ckRuns)
		words := all(Words{Name: "lattice", Steps: four, L: 3, Rep: 3}, nil)
		fcCases(c, "20 overlapping walks", len(words), func(i int) [][]geo.P {
			var r [][]geo.P
			for j := 0; j < 20; j++ {
				r = append(r, shift(words[(i*(j+1)+j)%len(words)], int64(j%3), int64(j%4)))
			}
			return r
		}, mixed, confSingles([]float64{1, 1e9}, 1, lib.DP), ckRuns)
		same1 := t3[0]
		fcCases(c, "one line up to 30 times", 30, func(i int) [][]geo.P {
			var r [][]geo.P
			for j := 0; j <= i; j++ {
				r = append(r, [][]geo.P{same1, t3[27], withT(0, 0, 3, 3, 0, 3, 3, 0)}[j%3])
			}
			return r
		}, mixed, confAll([]float64{1, 1e9}, 1, lib.DP), ckRuns)
		cliSweep(c, Grid{N: 4, W: 2, H: 2, Dup: true}, [][]geo.G{nil, mixed}, wide, nil, ckRuns)
		cliSweep(c, Words{Name: "teeth", Steps: teeth, L: 2, Rep: 100}, [][]geo.G{mixed}, confSingles([]float64{3}, 1, lib.DP, lib.SED), nil, ckRuns)
		cliFC(c, "20 overlapping walks", len(words)*4, func(i int) (Case, bool) {
			var r [][]geo.P
			for j := 0; j < 20; j++ {
				r = append(r, shift(words[(i/4*(j+1)+j)%len(words)], int64(j%3), int64(j%4)))
			}
			return Case{Lines: r, Cons: mixed, Opt: optBits([]int{4, 7, 63, 58}[i%4], 1e9, 1, 1)}, true
		}, ckRuns)
		if c.Thorough() {
			sweep(c, Grid{N: 5, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, wide, nil, ckRuns)
			sweep(c, Grid{N: 6, W: 2, H: 2, Dup: true}, [][]geo.G{mixed}, confAll([]float64{1, 1e12}, 1, lib.DP), nil, ckRuns)
			sweep(c, Grid{N: 7, W: 3, H: 1, Dup: true}, [][]geo.G{mixed}, confAll([]float64{10}, 1, lib.DP), nil, ckRuns)
			sweep(c, Words{Name: "lattice", Steps: append([]geo.P{{}}, four...), L: 7}, [][]geo.G{mixed}, confSingles([]float64{1e9}, 1, lib.DP), nil, ckRuns)
			fcCases(c, "triples of 3-vertex lines on 2x2", len(t3)*len(t3)*8, func(i int) [][]geo.P {
				return [][]geo.P{t3[i%64], t3[i/64%64], t3[i/4096*7]}
			}, mixed, confSingles([]float64{1e9}, 1, lib.DP), ckRuns)
		}
	}})

	register(&run.Prop{ID: "C19", Rule: "every sequence of up to the listed number of simplifications of the same instances, with the options, the mode (instance by instance, feature class) or the context objects changed in between; the last result is compared with fresh instances; non-trivial = consecutive results differ",
		Assumptions: assumeLines,
		Replay: func(c *run.Ctx, raw json.RawMessage) string {
			var k histCase
			json.Unmarshal(raw, &k)
			m := histRun(k)
			return strings.TrimPrefix(m, "+")
		},
		Run: func(c *run.Ctx) {
			alpha := []lib.Opts{optBits(0, 1, 1, 1), optBits(0, 100, 1, 1), optBits(1, 100, 1, 1), optBits(3, 100, 1, 1), optBits(4, 100, 1, 1), optBits(8, 100, 1, 1), optBits(48, 100, 1, 1), optBits(63, 2, 0.5, 1)}
			words := all(Words{Name: "teeth", Steps: teeth, L: 3, Rep: 2}, nil)
			oct := all(Words{Name: "octo", Steps: eight, L: 4, First: true, Rep: 2}, nil)
			sets := [][][]geo.P{
				{withT(0, 0, 4, 4, 4, 0, 0, 4, -2, 4, 0, 0, 7, 1)},
				{withT(-3, 0, 0, 10, 3, 0), withT(-8, 2, 0, 20, 8, 2), withT(-16, 4, 0, 40, 16, 4), withT(0, 1, 0, -3)},
				{withT(0, 0, 2, 2, 4, 0, 6, 2, 8, 0), withT(0, 2, 2, 1, 4, 2, 6, 0, 8, 2)},
			}
			for i := 0; i < 12; i++ {
				sets = append(sets, [][]geo.P{words[i*17%len(words)], shift(oct[i*37%len(oct)], 3, 1)})
			}
			cons := []geo.G{pt(2, 1), seg(5, 0, 5, 2), poly(0, -2, 1, -2, 1, -1)}
			for depth := 1; depth <= c.Pick(3, 4); depth++ {
				nsteps := len(alpha) * 2
				n := 1
				for i := 0; i < depth; i++ {
					n *= nsteps
				}
				c.For(fmt.Sprintf("histories of length %d over %d options x 2 modes x %d line sets", depth, len(alpha), len(sets)), n*len(sets), func(i int, t *run.Tally) {
					k := histCase{Lines: sets[i%len(sets)], Cons: cons}
					i /= len(sets)
					for d := 0; d < depth; d++ {
						s := i % nsteps
						i /= nsteps
						k.Opts = append(k.Opts, alpha[s%len(alpha)])
						k.FC = append(k.FC, s >= len(alpha))
					}
					c.Now(func() interface{} { return k })
					m := histRun(k)
					t.States += depth
					t.Trans += depth
					t.Evals++
					if strings.HasPrefix(m, "+") {
						t.Nontriv++
						m = m[1:]
						if c.WantSample() {
							c.Sample(k)
						}
					}
					if m != "" {
						c.Fail("history", m, k)
					}
				})
			}
			ctxOpts := []lib.Opts{optBits(8, 100, 1, 1), optBits(48, 100, 1, 1), optBits(31, 100, 1, 1), optBits(63, 2, 0.5, 1)}
			for depth := 2; depth <= c.Pick(3, 4); depth++ {
				nc := len(histCons)
				n := len(ctxOpts) * 2
				for i := 0; i < depth; i++ {
					n *= nc
				}
				c.For(fmt.Sprintf("histories of length %d, context replaced out of %d sets, over %d options x 2 modes x %d line sets", depth, nc, len(ctxOpts), len(sets)), n*len(sets), func(i int, t *run.Tally) {
					k := histCase{Lines: sets[i%len(sets)]}
					i /= len(sets)
					o, fc := ctxOpts[i%len(ctxOpts)], i/len(ctxOpts)%2 == 1
					i /= 2 * len(ctxOpts)
					for d := 0; d < depth; d++ {
						k.Opts, k.FC, k.Put = append(k.Opts, o), append(k.FC, fc), append(k.Put, i%nc)
						i /= nc
					}
					k.Cons = histCons[k.Put[0]]
					c.Now(func() interface{} { return k })
					m := histRun(k)
					t.States += depth
					t.Trans += depth
					t.Evals++
					if strings.HasPrefix(m, "+") {
						t.Nontriv++
						m = m[1:]
						if c.WantSample() {
							c.Sample(k)
						}
					}
					if m != "" {
						c.Fail("history", m, k)
					}
				})
			}
		}})

	register(&run.Prop{ID: "C20", Rule: "every listed line x thresholds: with no option enabled the result must be an outcome of the reference model (Douglas-Peucker on exact offsets, all tie choices, then left to right merging of single edge pieces); options without occasion to act must not change the result; non-trivial = at least one vertex was dropped", Assumptions: assumeLines,
		Replay: func(c *run.Ctx, raw json.RawMessage) string {
			var k PairCase
			json.Unmarshal(raw, &k)
			if k.Way != "" {
				return replayPair(c, raw)
			}
			return replayCase(ckPlain)(c, raw)
		},
		Run: func(c *run.Ctx) {
			pc := func(ms []lib.Metric, ths ...float64) []conf {
				var r []conf
				for _, m := range ms {
					r = append(r, confs(m, opts(ths, func(th float64) lib.Opts { return lib.Opts{Threshold: th, MinDist: 1, NonPlanarDisplacement: 1} })...)...)
				}
				return r
			}
			four4 := []lib.Metric{lib.DP, lib.SED, lib.DPSq, lib.SEDSq}
			two2 := []lib.Metric{lib.DP, lib.SED}
			sweep(c, Grid{N: 3, W: 4, H: 3, Dup: true}, [][]geo.G{nil, mixed}, pc(four4, 0, 0.5, 0.9, 1.2, 2.3), nil, ckPlain)
			sweep(c, Grid{N: 4, W: 3, H: 3, Dup: true}, nil, pc(four4, 0.4, 0.8, 1.1, 1.7), nil, ckPlain)
			sweep(c, Grid{N: 5, W: 3, H: 3}, nil, pc(two2, 0.6, 1.1), nil, ckPlain)
			sweep(c, Grid{N: 6, W: 3, H: 2}, nil, pc(two2, 0.6, 1.1), nil, ckPlain)
			sweep(c, Words{Name: "lattice", Steps: four, L: 7, First: true}, nil, pc(two2, 0.8, 1.3), nil, ckPlain)
			sweep(c, Words{Name: "teeth", Steps: teeth, L: 5}, [][]geo.G{mixed}, pc(two2, 0.7, 1.3, 2.6), nil, ckPlain)
			sweep(c, Outlier{[]int{1100, 600, 300}}, nil, pc(two2, 3), nil, ckPlain)
			sweep(c, Peels{c.Pick(200, 600), false}, nil, pc(two2, 200, 350, 500), nil, ckPlain)
			sweep(c, Moved{Grid{N: 5, W: 3, H: 2}, farX, farY}, nil, pc([]lib.Metric{lib.DP}, 0.6, 1.1), nil, ckPlain)
			cliSweep(c, Grid{N: 5, W: 3, H: 2}, [][]geo.G{nil, mixed}, pc(two2, 0.6, 1.1), nil, ckPlain)
			// uneven times
			c.For("lines(n=5,3x2) with uneven times", 6*6*6*6*6, func(i int, t *run.Tally) {
				l, ok := Grid{N: 5, W: 3, H: 2}.At(i, nil)
				if !ok {
					return
				}
				for _, g := range [][]int64{{1, 3}, {5, 1, 1}} {
					for j := 1; j < len(l); j++ {
						l[j].T = l[j-1].T + g[(j-1)%len(g)]
					}
					k := Case{Lines: [][]geo.P{l}}
					for _, cf := range pc([]lib.Metric{lib.SED, lib.SEDSq}, 0.6, 1.1) {
						k.Opt, k.Metric = cf.o, cf.m
						step(c, &k, t, ckPlain)
					}
				}
			})
			// options without occasion
			farObj := [][]geo.G{{pt(500, 500)}, {pt(-300, 0), seg(0, 400, 9, 400), poly(0, -300, 9, -300, 9, -299)}}
			repeats := func(l []geo.P) bool {
				for i := range l {
					for j := 0; j < i; j++ {
						if geo.Eq2(l[i], l[j]) {
							return true
						}
					}
				}
				return false
			}
			without := func(name string, f Family, way string, bits []int, cons [][]geo.G, fc bool, keep func(l []geo.P) bool) {
				c.For(fmt.Sprintf("%s: %v x %d options", name, f, len(bits)), f.Size(), func(i int, t *run.Tally) {
					l, ok := f.At(i, make([]geo.P, 0, 16))
					if !ok || keep != nil && !keep(l) {
						return
					}
					for _, g := range cons {
						for _, b := range bits {
							for _, th := range []float64{1, 10} {
								k := PairCase{Way: way}
								k.Lines, k.Cons, k.Opt, k.FC = [][]geo.P{l}, g, optBits(b, th, 1, 1), fc
								pair(c, k, t)
							}
						}
					}
				})
			}
			g5 := Grid{N: 5, W: 3, H: 2}
			rel := []int{8, 16, 32, 56, 60, 59}
			without("relations without objects", g5, "no relations", rel, [][]geo.G{nil}, false, nil)
			without("relations with objects far away", g5, "no relations", rel, farObj, false, nil)
			without("objects without relations", g5, "no objects", []int{0, 1, 3, 4, 7}, [][]geo.G{mixed, {pt(1, 1), pt(1, 0), pt(0, 1)}}, false, nil)
			without("planar_self without repeated vertices", g5, "not planar_self", []int{1, 3, 5, 57}, [][]geo.G{mixed}, false, func(l []geo.P) bool { return !repeats(l) })
			without("planar_self without repeated vertices", Words{Name: "octo", Steps: eight, L: 5, First: true}, "not planar_self", []int{1, 3, 5}, [][]geo.G{nil}, false, func(l []geo.P) bool { return !repeats(l) })
			without("non_planar_self on simple lines", g5, "not non_planar_self", []int{2, 3, 6, 58}, [][]geo.G{mixed}, false, geo.SimplePath)
			without("class of one line", g5, "not is_feature_class", []int{0, 1, 2, 4, 7, 8, 16, 32, 63}, [][]geo.G{mixed}, true, nil)
			if c.Thorough() {
				sweep(c, Grid{N: 6, W: 3, H: 3}, nil, pc(two2, 0.6, 1.1), nil, ckPlain)
				sweep(c, Grid{N: 7, W: 3, H: 2}, nil, pc(two2, 0.6, 1.1), nil, ckPlain)
				sweep(c, Words{Name: "lattice", Steps: four, L: 9, First: true}, nil, pc(two2, 0.8, 1.3), nil, ckPlain)
				without("class of one line", Grid{N: 6, W: 3, H: 2}, "not is_feature_class", []int{0, 4, 7, 63}, [][]geo.G{mixed}, true, nil)
				without("planar_self without repeated vertices", Words{Name: "octo", Steps: eight, L: 6, First: true}, "not planar_self", []int{1, 3, 5}, [][]geo.G{nil}, false, func(l []geo.P) bool { return !repeats(l) })
			}
		}})
}

// Decompositions lists the vertex sets Douglas-Peucker may produce for a line, all ties both
// ways; raw: the offsets of the metric are exact when zero.
func Decompositions(l []geo.P, th float64, sed, raw bool) [][]int {
	return dpModel{l, th, sed, raw}.decomps(0, len(l)-1, map[[2]int][][]int{})
}

// Offset is the distance of vertex v from segment a-b, or from its synchronized position.
func Offset(l []geo.P, a, b, v int, sed bool) float64 { return dpModel{l: l, sed: sed}.dist(a, b, v) }
