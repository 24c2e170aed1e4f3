package props

import (
	"fmt"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
)

// ckMoved: every place where two features meet keeps a meeting place within the
// displacement distance.
func ckMoved(k *Case, o *Outcome) (string, string) {
	if kind, msg := ckMeet(k, o); kind != "" {
		return kind, msg
	}
	d := k.Opt.NonPlanarDisplacement + 1e-6
	for i := range k.Lines {
		si := lib.Sub(k.Lines[i], o.Idx[i])
		for j := 0; j < i; j++ {
			sj := lib.Sub(k.Lines[j], o.Idx[j])
			var after []geo.Place
			for n, p := range geo.Places(k.Lines[i], k.Lines[j]) {
				if n == 0 {
					after = geo.Places(si, sj)
				}
				for _, at := range []geo.F{p.A, p.B} {
					ok := false
					for _, q := range after {
						if q.Dist(at) <= d {
							ok = true
							break
						}
					}
					if !ok {
						return "displaced", fmt.Sprintf("features %d and %d meet at %v, simplified %v and %v not within %g of it", j, i, at, sj, si, k.Opt.NonPlanarDisplacement)
					}
				}
			}
		}
	}
	return "", ""
}

// permutations of 0..n-1
func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			r = append(r, append(q, p[i:]...))
		}
	}
	return r
}

func permute(ls [][]geo.P, p []int) [][]geo.P {
	r := make([][]geo.P, len(ls))
	for i, k := range p {
		r[i] = ls[k]
	}
	return r
}

// fcCases runs explicitly listed feature classes with every option set.
func fcCases(c *run.Ctx, name string, n int, mk func(i int) [][]geo.P, cons []geo.G, cfs []conf, ck checker) {
	c.For(fmt.Sprintf("feature class %s: %d x %d options", name, n, len(cfs)), n, func(i int, t *run.Tally) {
		ls := mk(i)
		if ls == nil {
			return
		}
		k := Case{Lines: ls, FC: true, Cons: cons}
		for _, cf := range cfs {
			k.Opt, k.Metric = cf.o, cf.m
			step(c, &k, t, ck)
		}
	})
}

func bent(l []geo.P) bool { return len(l) < 3 || geo.Orient(l[0], l[1], l[2]) != 0 }

func withT(xy ...int64) []geo.P {
	var r []geo.P
	for i := 0; i+1 < len(xy); i += 2 {
		r = append(r, geo.P{X: xy[i], Y: xy[i+1], T: int64(i/2 + 1)})
	}
	return r
}

// nested is a stack of k roofs whose apexes share one obstacle line below, so that one
// segment conflicts with many features at once.
func nested(k int, grow, h0, w0, obx, oby int64) [][]geo.P {
	var r [][]geo.P
	w, h, b := w0, h0, int64(0)
	for i := 0; i < k; i++ {
		r = append(r, withT(-w, b, 0, h, w, b))
		w, h, b = w*grow+2, h*grow, b*2+2
	}
	return append(r, withT(obx, 1, obx, oby))
}

// comb: the same walk at several heights (lines run in parallel), n features.
func comb(word []geo.P, n int, dy int64) [][]geo.P {
	var r [][]geo.P
	for i := 0; i < n; i++ {
		r = append(r, shift(word, 0, int64(i)*dy))
	}
	return r
}

// weave: n horizontal walks and n vertical walks.
func weave(h, v []geo.P, n int, dx, dy int64) [][]geo.P {
	r := comb(h, n, dy)
	for i := 0; i < n; i++ {
		r = append(r, shift(v, int64(i)*dx, 0))
	}
	return r
}
func turn(l []geo.P) []geo.P {
	r := append([]geo.P{}, l...)
	for i := range r {
		r[i].X, r[i].Y = -l[i].Y, l[i].X
	}
	return r
}

// crowd is a line among k others, of which the v-th is in its way (v = k: all of them):
// mode 0, one roof over all; 1, a line with a tooth over each; 2, a line that each crosses
// with a bend of its own; 3, all meet in one vertex; 4, each has a vertex in common with
// another vertex of the line. last: the line comes after the others.
func crowd(k, v, mode int, last bool) [][]geo.P {
	var long []geo.P
	var r [][]geo.P
	add := func(x, y int) { long = append(long, geo.P{X: int64(x), Y: int64(y), T: int64(len(long) + 1)}) }
	low := func(j, a, b int) int64 {
		if j == v || v == k {
			return int64(b)
		}
		return int64(a)
	}
	switch mode {
	case 0:
		add(-4, -2)
		add(2*k, 4*k+10)
		add(4*k+4, -2)
		for j := 0; j < k; j++ {
			x := int64(4 * j)
			r = append(r, withT(x, low(j, -1, -3), x+1, 1, x+2, 0))
		}
	case 1:
		for j := 0; j < k; j++ {
			add(8*j, 0)
			add(8*j+3, 9)
			x := int64(8*j + 3)
			r = append(r, withT(x, low(j, 1, -1), x+1, 4, x+1, 2))
		}
		add(8*k, 0)
	case 2:
		for j := 0; j <= k; j++ {
			add(6*j, j%2)
			x := int64(6*j + 2)
			if j < k {
				r = append(r, withT(x, -3, x+low(j, 0, 2), 5, x+1, 7))
			}
		}
	case 3:
		add(-5, 0)
		add(0, 0)
		add(5, 1)
		for j := 0; j < k; j++ {
			x := int64(j - k/2)
			r = append(r, withT(x, 6, 0, low(j, 1, 0), x, -6-int64(j%2)))
		}
	case 4:
		for j := 0; j < k; j++ {
			add(3*j, j%2)
			x, y := int64(3*j), int64(j%2)
			r = append(r, withT(x-1, 5, x, low(j, int(y)+1, int(y)), x+1, 6))
		}
		add(3*k, 0)
	}
	if last {
		return append(r, long)
	}
	return append([][]geo.P{long}, r...)
}

// crowds runs the crowds of the modes with 2 to max others.
func crowds(c *run.Ctx, max int, modes []int, cons []geo.G, cfs []conf, ck checker) {
	type at struct{ k, v, mode int }
	var as []at
	for k := max; k >= 2; k-- {
		for v := 0; v <= k; v++ {
			for _, m := range modes {
				as = append(as, at{k, v, m})
			}
		}
	}
	fcCases(c, fmt.Sprintf("a line among 2 to %d others, one or all in its way, first or last, forms %v", max, modes), len(as)*2, func(i int) [][]geo.P {
		a := as[i/2]
		return crowd(a.k, a.v, a.mode, i%2 == 1)
	}, cons, cfs, ck)
}

func disjoint(a, b []geo.P) bool { return !geo.LinesIntersect(a, b) }

// triples of pairwise disjoint lines drawn from a pool, as index triples
func disjointTriples(pool [][]geo.P, limit int) [][3]int {
	n := len(pool)
	m := make([][]bool, n)
	for i := range m {
		m[i] = make([]bool, n)
		for j := range m[i] {
			m[i][j] = disjoint(pool[i], pool[j])
		}
	}
	var r [][3]int
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			if !m[a][b] {
				continue
			}
			for d := b + 1; d < n; d++ {
				if m[a][d] && m[b][d] {
					r = append(r, [3]int{a, b, d})
				}
			}
		}
	}
	_ = limit
	return r
}

// each n-th line
func each(ls [][]geo.P, n int) [][]geo.P {
	var r [][]geo.P
	for i := 0; i < len(ls); i += n {
		r = append(r, ls[i])
	}
	return r
}

// cutting runs every line of a family in one class with every two-vertex obstacle that is
// disjoint from the line but meets what the line alone is simplified to.
func cutting(c *run.Ctx, f Family, obs [][]geo.P, cfs []conf, keep func(l []geo.P) bool, ck checker) {
	c.For(fmt.Sprintf("feature class %v and one obstacle that cuts its simplification, of %d x %d options", f, len(obs), len(cfs)), f.Size(), func(i int, t *run.Tally) {
		l, ok := f.At(i, make([]geo.P, 0, 16))
		if !ok || keep != nil && !keep(l) {
			return
		}
		for _, cf := range cfs {
			idx, err := lib.One(l, nil, cf.o, cf.m)
			t.States++
			if err != nil {
				c.Fail("crash", err.Error(), Case{Lines: [][]geo.P{l}, Opt: cf.o, Metric: cf.m})
				return
			}
			if len(idx) == len(l) {
				continue
			}
			s := lib.Sub(l, idx)
			for j, o := range obs {
				if geo.LinesIntersect(s, o) && !geo.LinesIntersect(l, o) {
					k := Case{Lines: [][]geo.P{l, o}, FC: true, Opt: cf.o, Metric: cf.m}
					if j%2 == 1 {
						k.Lines = [][]geo.P{o, l}
					}
					step(c, &k, t, ck)
				}
			}
		}
	})
}

func init() {
	ckFC := ckAll(ckSubset, ckDisjoint, ckSelf)
	register(&run.Prop{ID: "C08", Rule: ruleLines + "; lines of a case form one feature class; pairs that intersect in the input are not judged against each other", Assumptions: assumeLines, Replay: replayCase(ckFC), Run: func(c *run.Ctx) {
		av := func(th float64, bits int) lib.Opts { return optBits(4|bits, th, 1, 1) }
		cs := confs(lib.DP, av(1.5, 0), av(10, 0), av(10, 1))
		one := confs(lib.DP, av(10, 0))
		// nested roofs with one obstacle in all orders of the features
		var stacks [][][]geo.P
		for k := 2; k <= 3; k++ {
			for _, grow := range []int64{2, 3} {
				for _, h0 := range []int64{6, 10} {
					for _, obx := range []int64{-1, 0, 1} {
						for _, oby := range []int64{-1, -3, 2} {
							stacks = append(stacks, nested(k, grow, h0, 3, obx, oby))
						}
					}
				}
			}
		}
		stacks = append(stacks, [][]geo.P{withT(-3, 0, 0, 10, 3, 0), withT(-8, 2, 0, 20, 8, 2), withT(-16, 4, 0, 40, 16, 4), withT(0, 1, 0, -3)})
		type sp struct {
			ls [][]geo.P
			p  []int
		}
		var sps []sp
		for _, s := range stacks {
			for _, p := range perms(len(s)) {
				sps = append(sps, sp{s, p})
			}
		}
		fcCases(c, "nested roofs over an obstacle, all orders", len(sps), func(i int) [][]geo.P { return permute(sps[i].ls, sps[i].p) }, nil,
			confs(lib.DP, av(3, 0), av(100, 0), av(100, 1), av(100, 3)), ckFC)

		fcCases(c, "zigzags to be cut one by one and a line below their first peak", c.Pick(90, 200)*2, func(i int) [][]geo.P {
			n := c.Pick(90, 200) - i/2
			if n < 3 {
				return nil
			}
			r := [][]geo.P{peel(n), withT(10, -5000, 10, 70)}
			if i%2 == 1 {
				r[0], r[1] = r[1], r[0]
			}
			return r
		}, nil, confs(lib.DP, av(2000, 0)), ckFC)
		a4 := Grid{N: 4, W: 4, H: 2}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) })
		b3 := Grid{N: 3, W: 4, H: 2}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) && bent(l) })
		fcSweep(c, "disjoint 4- and 3-vertex lines on 4x2", a4, b3, nil, cs, disjoint, ckFC)
		even4 := Grid{N: 4, W: 3, H: 3, Scale: 2}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) })
		odd3 := Grid{N: 3, W: 3, H: 2, Scale: 2}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) && bent(l) })
		for _, d := range [][2]int64{{1, 1}, {1, 0}, {0, 1}} {
			odd := make([][]geo.P, len(odd3))
			for i := range odd {
				odd[i] = shift(odd3[i], d[0], d[1])
			}
			fcSweep(c, fmt.Sprintf("disjoint 4-vertex lines on even and 3-vertex lines on (%d,%d)+even coordinates", d[0], d[1]), even4, odd, nil, confs(lib.DP, av(10, 0), av(3, 1)), disjoint, ckFC)
			fcSweep(c, fmt.Sprintf("disjoint 3-vertex lines on (%d,%d)+even and 4-vertex lines on even coordinates", d[0], d[1]), odd, even4, nil, confs(lib.DP, av(10, 0)), disjoint, ckFC)
		}
		p3 := Grid{N: 3, W: 3, H: 3}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) })
		a43 := Grid{N: 4, W: 4, H: 3}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) && bent(l) && bent(l[1:]) })
		b43 := Grid{N: 3, W: 4, H: 3}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) && bent(l) })
		fcSweep(c, "disjoint 4- and 3-vertex lines on 4x3", a43, b43, nil, one, disjoint, ckFC)
		fcSweep(c, "disjoint 3-vertex lines on 3x3", p3, p3, nil, append(cs, confs(lib.SED, av(2, 0))...), disjoint, ckFC)
		t3 := Grid{N: 3, W: 4, H: 3}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) && bent(l) && geo.D2(l[0], l[2]) <= 9 })
		tr := disjointTriples(t3, 0)
		every := 1
		if !c.Thorough() {
			every = len(tr)/300000 + 1
		}
		fcCases(c, fmt.Sprintf("triples of disjoint 3-vertex lines on 4x3 (1 of %d)", every), len(tr)/every, func(i int) [][]geo.P {
			x := tr[i*every]
			ls := [][]geo.P{t3[x[0]], t3[x[1]], t3[x[2]]}
			return ls
		}, nil, one, ckFC)
		odd2 := func(w, h int, dx, dy int64) [][]geo.P {
			var r [][]geo.P
			for _, l := range (Grid{N: 2, W: w, H: h, Scale: 2}).All(canonDir) {
				r = append(r, shift(l, dx, dy))
			}
			return r
		}
		cutting(c, Grid{N: 6, W: 3, H: 3, Scale: 2}, odd2(4, 4, -1, -1), confs(lib.DP, av(2, 0), av(3.5, 0)), simpleOpen, ckFC)
		cutting(c, Grid{N: 5, W: 4, H: 3, Scale: 2}, odd2(5, 4, -1, -1), confs(lib.DP, av(2, 0), av(5, 0)), simpleOpen, ckFC)
		cutting(c, Grid{N: 7, W: 3, H: 3, Scale: 2}, odd2(4, 4, -1, -1), confs(lib.DP, av(3, 0)), simpleOpen, ckFC)
		// long parallel lines: many hulls in one index
		words := all(Words{Name: "teeth", Steps: teeth, L: 3, Rep: 4}, simpleOpen)
		fcCases(c, "3 parallel walks", len(words)*3, func(i int) [][]geo.P { return comb(words[i/3], 3, int64(1+i%3)) }, nil, cs, ckFC)
		fcCases(c, "9 parallel walks", len(words)*2, func(i int) [][]geo.P { return comb(words[i/2], 9, int64(1+i%2*3)) }, nil, one, ckFC)
		fcCases(c, "weaves 2+2", len(words), func(i int) [][]geo.P {
			w := words[i]
			return weave(w, turn(words[(i*7+3)%len(words)]), 2, 40, 4)
		}, nil, cs, ckFC)
		crowds(c, c.Pick(20, 60), []int{0, 1}, nil, confs(lib.DP, av(4, 0), av(1000, 0), av(1000, 1)), ckFC)
		crowds(c, c.Pick(12, 30), []int{0, 1}, []geo.G{pt(1, 3), pt(9, -2)}, confWith(4, []float64{1000}, 1, 1, lib.DP), ckFC)
		farp := func(ls [][]geo.P) [][]geo.P { return shiftAll(ls, farX, farY) }
		// together with every combination of the other options
		near := []geo.G{pt(1, 1), seg(2, 0, 2, 1), pt(5, 3)}
		fcSweep(c, "disjoint 4- and 3-vertex lines on 4x2 near context", a4, b3, near, confWith(4, []float64{10}, 1, 1, lib.DP), disjoint, ckFC)
		fcSweep(c, "disjoint 4-vertex lines on even and 3-vertex lines on odd coordinates near context", even4, shiftAll(odd3, 1, 1), []geo.G{pt(2, 3), seg(3, 0, 3, 1)}, confWith(4, []float64{10}, 1, 0, lib.DP), disjoint, ckFC)
		fcCases(c, "3 parallel walks near context", len(words)*3, func(i int) [][]geo.P { return comb(words[i/3], 3, int64(1+i%3)) }, near, append(confWith(4, []float64{3}, 1, 1, lib.DP), confWith(4, []float64{6}, 1, 0.5, lib.SED)...), ckFC)
		fcCases(c, "nested roofs over an obstacle, all orders, near context", len(sps), func(i int) [][]geo.P { return permute(sps[i].ls, sps[i].p) }, []geo.G{pt(1, 3), pt(-2, 7)}, confWith(4, []float64{100}, 1, 1, lib.DP), ckFC)
		fcSweep(c, "disjoint far 3-vertex lines on 3x3", farp(p3), farp(p3), nil, one, disjoint, ckFC)
		fcSweep(c, "disjoint 3-vertex lines on 3x3 near context", p3, p3, []geo.G{pt(1, 1), seg(2, 0, 2, 1)}, confs(lib.DP, av(10, 8), av(10, 32)), disjoint, ckFC)
		cliFC(c, "nested roofs over an obstacle, all orders", len(sps), func(i int) (Case, bool) {
			return Case{Lines: permute(sps[i].ls, sps[i].p), Opt: av(100, 0)}, i%4 == 0 || i >= len(sps)-24
		}, ckFC)
		cliFC(c, "9 parallel walks", len(words), func(i int) (Case, bool) {
			return Case{Lines: comb(words[i], 9, 2), Opt: av(3, 0)}, true
		}, ckFC)
		cliFC(c, "pairs of 3-vertex lines on 3x3", len(p3), func(i int) (Case, bool) {
			for j := 1; j < len(p3); j++ {
				if b := p3[(i*13+j)%len(p3)]; disjoint(p3[i], b) {
					return Case{Lines: [][]geo.P{p3[i], b}, Opt: av(10, i&1)}, true
				}
			}
			return Case{}, false
		}, ckFC)
		if c.Thorough() {
			a5 := Grid{N: 5, W: 4, H: 2}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) })
			fcSweep(c, "disjoint 5- and 3-vertex lines on 4x2", a5, b3, nil, one, disjoint, ckFC)
			for _, d := range [][2]int64{{1, 1}, {1, 0}, {0, 1}} {
				odd := make([][]geo.P, len(even4))
				for i := range odd {
					odd[i] = shift(even4[i], d[0], d[1])
				}
				fcSweep(c, fmt.Sprintf("disjoint 4-vertex lines on even and on (%d,%d)+even coordinates", d[0], d[1]), even4, odd, nil, one, disjoint, ckFC)
			}
			b4 := Grid{N: 4, W: 3, H: 3}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) })
			fcSweep(c, "disjoint 4-vertex lines on 3x3", b4, b4, nil, one, disjoint, ckFC)
			w5 := all(Words{Name: "teeth", Steps: teeth, L: 5, Rep: 3}, simpleOpen)
			fcCases(c, "9 parallel walks of 15 steps", len(w5)*3, func(i int) [][]geo.P { return comb(w5[i/3], 9, int64(1+i%3*2)) }, nil, one, ckFC)
		}
	}})

	register(&run.Prop{ID: "C09", Rule: ruleLines + "; lines of a case form one feature class; crossing places are compared before and after", Assumptions: assumeLines, Replay: replayCase(ckMoved), Run: func(c *run.Ctx) {
		np := func(th, d float64, bits int) lib.Opts { return optBits(2|bits, th, 1, d) }
		cs := confs(lib.DP, np(1.5, 0.5, 0), np(10, 0.25, 4), np(10, 1, 0), np(10, 1, 5), np(3, 0, 4), np(10, 1, 60))
		cs2 := confs(lib.DP, np(10, 0.5, 0), np(10, 0.5, 4))
		meet := func(a, b []geo.P) bool { return geo.LinesIntersect(a, b) }
		p3 := Grid{N: 3, W: 3, H: 3}.All(func(l []geo.P) bool { return open(l) && canonDir(l) })
		p3b := Grid{N: 3, W: 3, H: 3}.All(func(l []geo.P) bool { return simpleOpen(l) && canonDir(l) && bent(l) })
		fcSweep(c, "intersecting 3-vertex lines on 3x3", p3, p3b, nil, cs, meet, ckMoved)
		a4 := Grid{N: 4, W: 3, H: 2}.All(func(l []geo.P) bool { return open(l) && canonDir(l) })
		b3 := Grid{N: 3, W: 3, H: 2}.All(func(l []geo.P) bool { return canonDir(l) })
		fcSweep(c, "intersecting 4- and 3-vertex lines on 3x2", a4, b3, nil, cs2, meet, ckMoved)
		fcSweep(c, "intersecting 4- and 2-vertex lines on 3x3", Grid{N: 4, W: 3, H: 3}.All(open), Grid{N: 2, W: 3, H: 3}.All(canonDir), nil, cs2, meet, ckMoved)
		// together with every combination of the other options
		near := []geo.G{pt(1, 1), seg(2, 0, 2, 1), pt(5, 3)}
		fcSweep(c, "intersecting 3-vertex lines on 3x3 near context", each(p3, c.Pick(7, 1)), p3b, near, confWith(2, []float64{10}, 1, 0.5, lib.DP), meet, ckMoved)
		fcSweep(c, "intersecting 4- and 3-vertex lines on 3x2 near context", each(a4, c.Pick(4, 1)), b3, near, append(confWith(2, []float64{10}, 1, 0.25, lib.DP), confWith(2, []float64{2}, 0, 1, lib.SED)...), meet, ckMoved)
		crowds(c, c.Pick(16, 40), []int{2, 3, 4}, nil, confs(lib.DP, np(2, 0.5, 0), np(1000, 1, 0), np(1000, 0, 4), np(1000, 1, 5)), ckMoved)
		braids(c, c.Pick(80, 200), confs(lib.DP, np(10, 0.5, 0), np(100, 1, 4), np(5, 0, 0)), ckMoved)
		words := all(Words{Name: "teeth", Steps: teeth, L: 3, Rep: 4}, nil)
		fcCases(c, "weaves 2+2 near context", len(words), func(i int) [][]geo.P {
			w := words[i]
			return weave(w, shift(turn(words[(i*7+3)%len(words)]), 3, -6), 2, int64(2+i%4*3), 4)
		}, near, confWith(2, []float64{6}, 1, 1, lib.DP), ckMoved)
		fcCases(c, "weaves 2+2", len(words)*4, func(i int) [][]geo.P {
			w := words[i/4]
			return weave(w, shift(turn(words[(i*7+3)%len(words)]), 3, -6), 2, int64(2+i%4*3), 4)
		}, nil, confs(lib.DP, np(3, 1, 0), np(6, 2, 4), np(10, 0, 0), np(10, 0, 4)), ckMoved)
		fcCases(c, "weaves 5+5", len(words), func(i int) [][]geo.P {
			w := words[i]
			return weave(w, shift(turn(words[(i*7+3)%len(words)]), 3, -6), 5, 4, 5)
		}, nil, confs(lib.DP, np(6, 1, 0), np(6, 1, 4)), ckMoved)
		cliFC(c, "weaves 3+3", len(words), func(i int) (Case, bool) {
			w := words[i]
			return Case{Lines: weave(w, shift(turn(words[(i*7+3)%len(words)]), 3, -6), 3, 4, 5), Opt: np(6, 1, i%2*4)}, true
		}, ckMoved)
		cliFC(c, "intersecting 3-vertex lines on 3x3", len(p3)*2, func(i int) (Case, bool) {
			a := p3[i/2]
			for j := 1; j < len(p3b); j++ {
				if b := p3b[(i*13+j)%len(p3b)]; meet(a, b) {
					return Case{Lines: [][]geo.P{a, b}, Opt: np(10, 0.5, i%2*4)}, true
				}
			}
			return Case{}, false
		}, ckMoved)
		if c.Thorough() {
			a4 := Grid{N: 4, W: 3, H: 3}.All(func(l []geo.P) bool { return open(l) && canonDir(l) })
			fcSweep(c, "intersecting 4- and 3-vertex lines on 3x3", a4, p3b, nil, cs2, meet, ckMoved)
			w5 := all(Words{Name: "teeth", Steps: teeth, L: 4, Rep: 4}, nil)
			fcCases(c, "weaves 4+4", len(w5)*2, func(i int) [][]geo.P {
				return weave(w5[i/2], shift(turn(w5[(i*7+3)%len(w5)]), 3, -6), 4, int64(3+i%2*3), 5)
			}, nil, confs(lib.DP, np(6, 1, 0), np(6, 1, 4)), ckMoved)
		}
	}})

	register(&run.Prop{ID: "C10", Rule: ruleLines + "; a case is judged at every pair of coincident vertices", Assumptions: assumeLines, Replay: replayCase(ckPlanar), Run: func(c *run.Ctx) {
		pl := func(th float64, bits int) lib.Opts { return optBits(1|bits, th, 1, 1) }
		var cs, all64 []conf
		for b := 0; b < 64; b++ {
			if b&1 == 1 {
				all64 = append(all64, conf{optBits(b, 10, 1, 1), lib.DP})
			}
		}
		cs = confs(lib.DP, pl(1.5, 0), pl(10, 0), pl(10, 2), pl(10, 4), pl(10, 62))
		touchesSelf := func(l []geo.P) bool {
			for i := range l {
				for j := 0; j < i; j++ {
					if geo.Eq2(l[i], l[j]) {
						return true
					}
				}
			}
			return false
		}
		sweep(c, Grid{N: 4, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, all64, touchesSelf, ckPlanar)
		sweep(c, Grid{N: 5, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, cs, touchesSelf, ckPlanar)
		sweep(c, Grid{N: 5, W: 3, H: 3}, nil, cs, touchesSelf, ckPlanar)
		sweep(c, Grid{N: 6, W: 3, H: 2}, nil, cs[:3], touchesSelf, ckPlanar)
		sweep(c, Words{Name: "lattice", Steps: four, L: 8, First: true}, nil, confs(lib.DP, pl(2, 0), pl(10, 4), pl(10, 2)), touchesSelf, ckPlanar)
		sweep(c, Knots{c.Pick(150, 400), c.Pick(3, 1), false}, nil, confs(lib.DP, pl(20, 0), pl(20, 4)), touchesSelf, ckPlanar)
		sweep(c, Hubs{c.Pick(150, 400), c.Pick(3, 1)}, nil, confs(lib.DP, pl(20, 0), pl(100, 4)), nil, ckPlanar)
		sweep(c, Words{Name: "lattice", Steps: four, L: 4, First: true, Rep: 6}, nil, confs(lib.SED, pl(2, 0), pl(10, 4)), touchesSelf, ckPlanar)
		sweep(c, Moved{Grid{N: 5, W: 3, H: 2}, farX, farY}, nil, cs, touchesSelf, ckPlanar)
		sweep(c, Train{Grid{N: 5, W: 3, H: 2}, 40}, nil, confs(lib.DP, pl(1.5, 0), pl(10, 2)), touchesSelf, ckPlanar)
		sweep(c, Dense{c.Pick(24, 90)}, nil, confs(lib.DP, pl(1, 0), pl(10, 0), pl(100, 2), pl(100, 4)), touchesSelf, ckPlanar)
		share := func(a, b []geo.P) bool {
			for _, p := range a {
				for _, q := range b {
					if geo.Eq2(p, q) {
						return true
					}
				}
			}
			return false
		}
		a4 := Grid{N: 4, W: 3, H: 2}.All(canonDir)
		b3 := Grid{N: 3, W: 3, H: 2}.All(nil)
		fcSweep(c, "4- and 3-vertex lines on 3x2 with common vertices", a4, b3, nil, confs(lib.DP, pl(10, 0), pl(10, 4)), share, ckPlanar)
		// together with every combination of the other options
		near := []geo.G{pt(1, 1), seg(2, 0, 2, 1), pt(5, 3)}
		sets := append(confWith(1, []float64{10}, 1, 1, lib.DP), confWith(1, []float64{2}, 1, 0, lib.SED)...)
		fcSweep(c, "4- and 3-vertex lines on 3x2 with common vertices near context", each(a4, c.Pick(4, 1)), b3, near, sets[:32], share, ckPlanar)
		sweep(c, Grid{N: 5, W: 3, H: 3}, [][]geo.G{near}, sets[:32], touchesSelf, ckPlanar)
		sweep(c, Words{Name: "lattice", Steps: four, L: 8, First: true}, [][]geo.G{near}, sets, touchesSelf, ckPlanar)
		crowds(c, c.Pick(20, 60), []int{3, 4}, nil, confs(lib.DP, pl(1, 0), pl(1000, 0), pl(1000, 2), pl(1000, 4)), ckPlanar)
		t3 := Grid{N: 3, W: 2, H: 2}.All(nil)
		fcCases(c, "triples of 3-vertex lines on 2x2", len(t3)*len(t3)*len(t3), func(i int) [][]geo.P {
			n := len(t3)
			return [][]geo.P{t3[i%n], t3[i/n%n], t3[i/n/n]}
		}, nil, confs(lib.DP, pl(10, 0)), ckPlanar)
		words := all(Words{Name: "lattice", Steps: four, L: 3, Rep: 4}, nil)
		fcCases(c, "5 walks over common vertices", len(words)*2, func(i int) [][]geo.P {
			var r [][]geo.P
			for j := 0; j < 5; j++ {
				r = append(r, shift(words[(i/2*(j+1)+j)%len(words)], int64(j%2), int64(j%3)))
			}
			return r
		}, nil, confs(lib.DP, pl(10, 0), pl(2, 4)), ckPlanar)
		cliSweep(c, Grid{N: 5, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, cs, touchesSelf, ckPlanar)
		cliFC(c, "4- and 3-vertex lines on 3x2 with common vertices", len(a4), func(i int) (Case, bool) {
			b := b3[(i*37)%len(b3)]
			return Case{Lines: [][]geo.P{a4[i], b}, Opt: pl(10, i%2*4)}, share(a4[i], b)
		}, ckPlanar)
		if c.Thorough() {
			sweep(c, Grid{N: 5, W: 3, H: 3, Dup: true}, [][]geo.G{mixed}, all64, touchesSelf, ckPlanar)
			sweep(c, Grid{N: 6, W: 3, H: 3}, nil, cs[:3], touchesSelf, ckPlanar)
			sweep(c, Words{Name: "lattice", Steps: four, L: 10, First: true}, nil, confs(lib.DP, pl(2, 0), pl(10, 4), pl(10, 2)), touchesSelf, ckPlanar)
			fcSweep(c, "4- and 4-vertex lines on 3x2 with common vertices", a4, Grid{N: 4, W: 3, H: 2}.All(nil), nil, confs(lib.DP, pl(10, 0), pl(10, 4)), share, ckPlanar)
		}
	}})

	register(&run.Prop{ID: "C11", Rule: ruleLines + "; a case is judged at every pair of edges of the same line that meet without sharing a vertex", Assumptions: assumeLines, Replay: replayCase(ckNonPlanar), Run: func(c *run.Ctx) {
		np := func(th float64, bits int) lib.Opts { return optBits(2|bits, th, 1, 1) }
		cs := confs(lib.DP, np(1.5, 0), np(10, 0), np(10, 1), np(10, 4), np(10, 61))
		crosses := func(l []geo.P) bool {
			for i := 0; i+1 < len(l); i++ {
				for j := i + 2; j+1 < len(l); j++ {
					if geo.SegSeg(l[i], l[i+1], l[j], l[j+1]) {
						return true
					}
				}
			}
			return false
		}
		var all64 []conf
		for b := 0; b < 64; b++ {
			if b&2 == 2 {
				all64 = append(all64, conf{optBits(b, 10, 1, 1), lib.DP})
			}
		}
		sweep(c, Train{Grid{N: 5, W: 3, H: 2}, 39}, nil, confs(lib.DP, np(1.5, 0), np(10, 1)), crosses, ckNonPlanar)
		sweep(c, Grid{N: 4, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, all64, crosses, ckNonPlanar)
		sweep(c, Grid{N: 5, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, cs, crosses, ckNonPlanar)
		sweep(c, Grid{N: 4, W: 4, H: 4}, nil, cs, crosses, ckNonPlanar)
		sweep(c, Grid{N: 5, W: 3, H: 3}, nil, cs, crosses, ckNonPlanar)
		sweep(c, Grid{N: 6, W: 3, H: 2}, nil, cs[:3], crosses, ckNonPlanar)
		sweep(c, Words{Name: "octo", Steps: eight, L: 6, First: true}, nil, confs(lib.DP, np(2, 0), np(10, 1)), crosses, ckNonPlanar)
		sweep(c, Knots{c.Pick(600, 1200), c.Pick(25, 10), true}, nil, confs(lib.DP, np(20, 0), np(20, 1)), crosses, ckNonPlanar)
		sweep(c, Words{Name: "octo", Steps: eight, L: 4, First: true, Rep: 4}, nil, confs(lib.SED, np(2, 0), np(10, 5)), crosses, ckNonPlanar)
		sweep(c, Moved{Grid{N: 5, W: 3, H: 2}, farX, farY}, nil, cs, crosses, ckNonPlanar)
		sweep(c, Dense{c.Pick(24, 90)}, nil, confs(lib.DP, np(1, 0), np(10, 0), np(100, 1), np(100, 4)), crosses, ckNonPlanar)
		a4 := Grid{N: 4, W: 3, H: 3}.All(func(l []geo.P) bool { return canonDir(l) && crosses(l) })
		b3 := Grid{N: 3, W: 3, H: 2}.All(canonDir)
		crowds(c, c.Pick(16, 40), []int{2}, nil, confs(lib.DP, np(1000, 0), np(1000, 4)), ckNonPlanar)
		fcSweep(c, "crossing 4-vertex and 3-vertex lines on 3x3", a4, b3, nil, confs(lib.DP, np(10, 0), np(10, 4), np(10, 1), np(10, 5)), nil, ckNonPlanar)
		// together with every combination of the other options
		near := []geo.G{pt(1, 1), seg(2, 0, 2, 1), pt(5, 3)}
		sweep(c, Grid{N: 4, W: 4, H: 4}, [][]geo.G{near}, append(all64, confWith(2, []float64{2}, 0, 1, lib.SED)...), crosses, ckNonPlanar)
		sweep(c, Grid{N: 5, W: 3, H: 3}, [][]geo.G{near}, all64, crosses, ckNonPlanar)
		fcSweep(c, "crossing 4-vertex and 3-vertex lines on 3x3 near context", each(a4, c.Pick(8, 1)), b3, near, all64, nil, ckNonPlanar)
		cliSweep(c, Grid{N: 5, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, cs, crosses, ckNonPlanar)
		cliSweep(c, Grid{N: 4, W: 4, H: 4}, nil, cs, crosses, ckNonPlanar)
		cliFC(c, "crossing 4-vertex and 3-vertex lines on 3x3", len(a4), func(i int) (Case, bool) {
			return Case{Lines: [][]geo.P{a4[i], b3[(i*37)%len(b3)]}, Opt: np(10, i%2*5)}, true
		}, ckNonPlanar)
		if c.Thorough() {
			sweep(c, Grid{N: 5, W: 4, H: 3}, [][]geo.G{mixed}, cs, crosses, ckNonPlanar)
			sweep(c, Grid{N: 6, W: 3, H: 3}, nil, cs[:3], crosses, ckNonPlanar)
			sweep(c, Words{Name: "octo", Steps: eight, L: 8, First: true}, nil, confs(lib.DP, np(2, 0), np(10, 1)), crosses, ckNonPlanar)
		}
	}})
}
