package props

import (
	"fmt"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
)

const ruleLines = "every polyline of the listed families (all vertex sequences of the given length on the integer grid, or all walks over the step alphabet) x every listed option set x every listed context is executed once by the real simplifier; non-trivial = at least one vertex was dropped"

var assumeLines = []string{
	"coordinates are small integers, so the oracle (exact int64 predicates) has no tolerance of its own; inputs needing rounding in float64 predicates are outside the explored bound",
	"lines have at least two vertices; SED runs use strictly increasing time stamps",
}

func pt(x, y int64) geo.G { return geo.Point(x, y) }
func seg(a, b, c, d int64) geo.G {
	return geo.LineG(geo.P{X: a, Y: b}, geo.P{X: c, Y: d})
}
func ring(xy ...int64) []geo.P {
	var r []geo.P
	for i := 0; i+1 < len(xy); i += 2 {
		r = append(r, geo.P{X: xy[i], Y: xy[i+1]})
	}
	return append(r, r[0])
}
func poly(xy ...int64) geo.G { return geo.PolyG(ring(xy...)) }

// one mixed context: a point, a line and a polygon
var mixed = []geo.G{pt(1, 1), seg(0, 2, 2, 2), poly(2, 0, 3, 0, 3, 1)}

// options: each constraint alone, none, all, and natural pairs
func confSingles(ths []float64, md float64, ms ...lib.Metric) []conf {
	bits := []int{0, 1, 2, 3, 4, 7, 8, 16, 32, 12, 20, 36, 56, 63}
	var r []conf
	for _, th := range ths {
		for _, b := range bits {
			for _, m := range ms {
				r = append(r, conf{optBits(b, th, md, 1), m})
			}
		}
	}
	return r
}

// confWith: an option together with every combination of the others.
func confWith(bit int, ths []float64, md, np float64, ms ...lib.Metric) []conf {
	var r []conf
	for _, th := range ths {
		for b := 0; b < 64; b++ {
			if b&bit == 0 {
				continue
			}
			for _, m := range ms {
				r = append(r, conf{optBits(b, th, md, np), m})
			}
		}
	}
	return r
}
func confAll(ths []float64, md float64, ms ...lib.Metric) []conf {
	var r []conf
	for _, th := range ths {
		for b := 0; b < 64; b++ {
			for _, m := range ms {
				r = append(r, conf{optBits(b, th, md, 1), m})
			}
		}
	}
	return r
}

func confs(m lib.Metric, os ...lib.Opts) []conf {
	var r []conf
	for _, o := range os {
		r = append(r, conf{o, m})
	}
	return r
}

func opts(ths []float64, f func(th float64) lib.Opts) []lib.Opts {
	var r []lib.Opts
	for _, t := range ths {
		r = append(r, f(t))
	}
	return r
}

// fcPairs sweeps ordered pairs of lines (A, B), B optionally shifted, as a feature class.
func fcSweep(c *run.Ctx, name string, as, bs [][]geo.P, cons []geo.G, cfs []conf, keep func(a, b []geo.P) bool, ck checker) {
	c.For(fmt.Sprintf("feature class %s: %d x %d x %d options", name, len(as), len(bs), len(cfs)), len(as)*len(bs), func(i int, t *run.Tally) {
		a, b := as[i%len(as)], bs[i/len(as)]
		if keep != nil && !keep(a, b) {
			return
		}
		k := Case{Lines: [][]geo.P{a, b}, FC: true, Cons: cons}
		for _, cf := range cfs {
			k.Opt, k.Metric = cf.o, cf.m
			step(c, &k, t, ck)
		}
	})
}

func init() {
	register(&run.Prop{ID: "C01", Rule: ruleLines, Assumptions: assumeLines, Replay: replayCase(ckSubset), Run: func(c *run.Ctx) {
		th := []float64{0, 1, 10}
		for n := 2; n <= 4; n++ {
			sweep(c, Grid{N: n, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, confAll(th, 1, lib.DP, lib.SED), nil, ckSubset)
		}
		sweep(c, Grid{N: 5, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, confSingles([]float64{1, 2}, 1, lib.DP, lib.SED, lib.DPSq, lib.SEDSq), nil, ckSubset)
		sweep(c, Words{Name: "teeth", Steps: teeth, L: 3, Rep: 6}, [][]geo.G{mixed}, confSingles([]float64{1, 3}, 1, lib.DP, lib.SED), nil, ckSubset)
		sweep(c, Words{Name: "teeth", Steps: teeth, L: 2, Rep: 40}, [][]geo.G{mixed}, confSingles([]float64{1, 3}, 1, lib.DP, lib.SED), nil, ckSubset)
		fcl := Grid{N: 3, W: 2, H: 2}.All(nil)
		fcSweep(c, "3-vertex lines on 2x2", fcl, fcl, mixed, confAll([]float64{1, 10}, 1, lib.DP, lib.SED), nil, ckSubset)
		cliSweep(c, Grid{N: 4, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, confAll([]float64{1}, 1, lib.DP, lib.SED), nil, ckSubset)
		cliSweep(c, Words{Name: "teeth", Steps: teeth, L: 2, Rep: 20}, [][]geo.G{mixed}, confSingles([]float64{1, 3}, 1, lib.DP, lib.SED), nil, ckSubset)
		cliFC(c, "pairs of 3-vertex lines on 2x2, 4 option sets", len(fcl)*len(fcl)*4, func(i int) (Case, bool) {
			k := Case{Opt: optBits([]int{0, 5, 37, 63}[i%4], 1, 1, 1), Cons: mixed}
			i /= 4
			k.Lines = [][]geo.P{fcl[i%len(fcl)], fcl[i/len(fcl)]}
			return k, i%3 == 0 || c.Thorough()
		}, ckSubset)
		if c.Thorough() {
			sweep(c, Grid{N: 5, W: 3, H: 2, Dup: true}, [][]geo.G{mixed}, confAll(th, 1, lib.DP, lib.SED), nil, ckSubset)
			sweep(c, Grid{N: 6, W: 3, H: 2}, [][]geo.G{mixed}, confSingles([]float64{1, 2}, 1, lib.DP, lib.SED), nil, ckSubset)
			sweep(c, Words{Name: "lattice", Steps: four, L: 8, First: true}, [][]geo.G{mixed}, confSingles([]float64{1.5, 2}, 1, lib.DP, lib.SED), nil, ckSubset)
		}
	}})

	register(&run.Prop{ID: "C02", Rule: ruleLines, Assumptions: assumeLines, Replay: replayCase(ckDP), Run: func(c *run.Ctx) {
		ctx := [][]geo.G{{pt(1, 1), pt(2, 0), seg(0, 2, 1, 3)}}
		for legs := 37; legs <= 40; legs++ {
			sweep(c, Train{Grid{N: 5, W: 3, H: 2}, legs}, nil, confs(lib.DP, optBits(1, 1, 1, 1), optBits(2, 1, 1, 1)), nil, ckDP)
		}
		sweep(c, Grid{N: 3, W: 4, H: 4}, ctx, confAll([]float64{0, 0.5, 1, 1.5, 2}, 1, lib.DP, lib.DPSq), nil, ckDP)
		sweep(c, Grid{N: 4, W: 3, H: 3}, ctx, confAll([]float64{1, 1.5}, 1, lib.DP), nil, ckDP)
		sweep(c, Grid{N: 5, W: 3, H: 3}, ctx, confSingles([]float64{1, 1.5}, 1, lib.DP), nil, ckDP)
		sweep(c, Words{Name: "lattice", Steps: four, L: 8, First: true}, ctx, confSingles([]float64{1, 2}, 1, lib.DP), nil, ckDP)
		sweep(c, Words{Name: "teeth", Steps: teeth, L: 3, Rep: 7}, ctx, confSingles([]float64{1, 3, 6}, 1, lib.DP, lib.DPSq), nil, ckDP)
		sweep(c, Dense{c.Pick(20, 90)}, ctx, confSingles([]float64{1, 10}, 1, lib.DP), nil, ckDP)
		sweep(c, Outlier{[]int{1100, 600, 300}}, nil, confs(lib.DP, optBits(0, 3, 1, 1), optBits(7, 3, 1, 1)), nil, ckDP)
		sweep(c, Peels{c.Pick(90, 200), false}, peelCtx, confs(lib.DP, optBits(8, 2000, 1, 1), optBits(32, 2000, 1, 1)), nil, ckDP)
		pieces(c, c.Pick(10, 130), []float64{3}, func(th float64) []conf { return confs(lib.DP, optBits(8, th, 1, 1), optBits(52, th, 1, 1)) }, ckDP)
		fa := Grid{N: 4, W: 3, H: 2}.All(nil)
		fb := Grid{N: 3, W: 3, H: 2}.All(nil)
		fcSweep(c, "4- and 3-vertex lines on 3x2", fa, fb, ctx[0], confs(lib.DP, optBits(4, 1, 1, 1), optBits(5, 1, 1, 0), optBits(60, 1.5, 1, 1)), nil, ckDP)
		cliSweep(c, Grid{N: 4, W: 3, H: 3}, ctx, confSingles([]float64{1, 1.5}, 1, lib.DP), nil, ckDP)
		cliFC(c, "pairs of 4- and 3-vertex lines on 3x2", len(fa), func(i int) (Case, bool) {
			return Case{Lines: [][]geo.P{fa[i], fb[(i*37)%len(fb)]}, Cons: ctx[0], Opt: optBits([]int{4, 5, 60, 0}[i%4], 1, 1, 1)}, true
		}, ckDP)
		if c.Thorough() {
			sweep(c, Grid{N: 5, W: 3, H: 3}, ctx, confAll([]float64{1, 1.5, 2}, 1, lib.DP), nil, ckDP)
			sweep(c, Grid{N: 6, W: 3, H: 2}, ctx, confSingles([]float64{1, 2}, 1, lib.DP), nil, ckDP)
			sweep(c, Words{Name: "lattice", Steps: four, L: 10, First: true}, ctx, confSingles([]float64{1, 2}, 1, lib.DP), nil, ckDP)
		}
	}})

	register(&run.Prop{ID: "C03", Rule: ruleLines, Assumptions: assumeLines, Replay: replayCase(ckSED), Run: func(c *run.Ctx) {
		ctx := [][]geo.G{{pt(1, 1), pt(2, 0)}}
		times := func(c *run.Ctx, f Family, gaps [][]int64, cfs []conf) {
			c.For(fmt.Sprintf("%v x %d time stamp patterns x %d options", f, len(gaps), len(cfs)), f.Size(), func(i int, t *run.Tally) {
				l, ok := f.At(i, make([]geo.P, 0, 16))
				if !ok {
					return
				}
				k := Case{Lines: [][]geo.P{l}, Cons: ctx[0]}
				for _, g := range gaps {
					l[0].T = 1
					for j := 1; j < len(l); j++ {
						l[j].T = l[j-1].T + g[(j-1)%len(g)]
					}
					for _, cf := range cfs {
						k.Opt, k.Metric = cf.o, cf.m
						step(c, &k, t, ckSED)
					}
				}
			})
		}
		gaps := [][]int64{{1}, {1, 2}, {3, 1, 1}, {1, 1, 5}, {2, 7}}
		times(c, Grid{N: 3, W: 4, H: 3, Dup: true}, gaps, confAll([]float64{0, 0.5, 1, 2}, 1, lib.SED, lib.SEDSq))
		times(c, Grid{N: 4, W: 3, H: 3}, gaps, confSingles([]float64{1, 1.5}, 1, lib.SED))
		times(c, Grid{N: 5, W: 3, H: 2, Dup: true}, gaps[:3], confSingles([]float64{1}, 1, lib.SED, lib.SEDSq))
		sweep(c, Words{Name: "teeth", Steps: teeth, L: 3, Rep: 7}, ctx, confSingles([]float64{1, 3, 6}, 1, lib.SED, lib.SEDSq), nil, ckSED)
		for legs := 37; legs <= 40; legs++ {
			sweep(c, Train{Grid{N: 5, W: 3, H: 2}, legs}, nil, confs(lib.SED, optBits(1, 1, 1, 1), optBits(2, 1, 1, 1)), nil, ckSED)
		}
		sweep(c, Outlier{[]int{1100, 600, 300}}, nil, confs(lib.SED, optBits(0, 3, 1, 1)), nil, ckSED)
		fa := Grid{N: 4, W: 3, H: 2}.All(nil)
		fb := Grid{N: 3, W: 3, H: 2}.All(nil)
		fcSweep(c, "4- and 3-vertex lines on 3x2", fa, fb, ctx[0], confs(lib.SED, optBits(4, 1, 1, 1), optBits(5, 1, 1, 0), optBits(60, 1.5, 1, 1)), nil, ckSED)
		cliSweep(c, Grid{N: 4, W: 3, H: 3}, ctx, confSingles([]float64{1, 1.5}, 1, lib.SED), nil, ckSED)
		cliFC(c, "pairs of 4- and 3-vertex lines on 3x2", len(fa), func(i int) (Case, bool) {
			return Case{Lines: [][]geo.P{fa[i], fb[(i*37)%len(fb)]}, Cons: ctx[0], Metric: lib.SED, Opt: optBits([]int{4, 5, 60, 0}[i%4], 1, 1, 1)}, true
		}, ckSED)
		if c.Thorough() {
			times(c, Grid{N: 5, W: 3, H: 3}, gaps, confSingles([]float64{1, 1.5}, 1, lib.SED))
			times(c, Grid{N: 6, W: 3, H: 2}, gaps[:3], confSingles([]float64{1}, 1, lib.SED))
			sweep(c, Words{Name: "lattice", Steps: four, L: 9, First: true}, ctx, confSingles([]float64{1, 2}, 1, lib.SED), nil, ckSED)
		}
	}})

	// contexts around a w x h grid with coordinates scaled by 1
	// a polygon with three holes, the lines are in the third
	holes := func(r []geo.P) []geo.G {
		return []geo.G{geo.PolyG(ring(-9, -9, 12, -9, 12, 12, -9, 12), ring(-8, -8, -7, -8, -7, -7), ring(9, 9, 10, 9, 10, 10), r)}
	}
	around := func(w, h int64) [][]geo.G {
		var r [][]geo.G
		for x := int64(-1); x <= w; x++ {
			for y := int64(-1); y <= h; y++ {
				r = append(r, []geo.G{pt(x, y)})
			}
		}
		r = append(r,
			[]geo.G{seg(1, 0, 1, 1)}, []geo.G{seg(0, 0, 2, 1)}, []geo.G{seg(0, 1, 1, 0)}, []geo.G{seg(1, -1, 1, 0)},
			[]geo.G{poly(0, 0, 1, 0, 1, 1)}, []geo.G{poly(1, 0, 2, 0, 2, 1, 1, 1)},
			[]geo.G{geo.LineG(geo.P{X: 0, Y: 2}, geo.P{X: 1, Y: 1}, geo.P{X: 2, Y: 2})},
			[]geo.G{geo.PolyG(ring(-3, -3, 6, -3, 6, 6, -3, 6), ring(-2, -2, 5, -2, 5, 5, -2, 5))},
			[]geo.G{geo.PolyG(ring(-3, -3, 6, -3, 6, 6, -3, 6), ring(0, 0, 1, 0, 1, 1, 0, 1))},
			[]geo.G{pt(1, 1), pt(1, 0)}, []geo.G{pt(0, 1), seg(2, 0, 2, 1)}, []geo.G{pt(1, 1), poly(2, 0, 3, 0, 3, 1), seg(0, 0, 0, 1)},
			holes(ring(-1, -1, 4, -1, 4, 3, -1, 3, -1, 1, 1, 1)))
		return r
	}
	// the same at twice the resolution: lines on even coordinates, objects anywhere
	fine := func(w, h int64) [][]geo.G {
		var r [][]geo.G
		for x := int64(0); x < 2*w; x++ {
			for y := int64(0); y < 2*h; y++ {
				if x%2 == 1 || y%2 == 1 {
					r = append(r, []geo.G{pt(x, y)})
				}
			}
		}
		r = append(r, []geo.G{seg(1, 1, 3, 1)}, []geo.G{seg(1, 1, 1, 3)}, []geo.G{poly(1, 1, 3, 1, 2, 3)},
			[]geo.G{pt(1, 1), pt(3, 1)}, []geo.G{pt(1, 1), pt(3, 3), seg(1, 3, 2, 3)}, []geo.G{poly(1, 0, 3, 0, 3, 3, 1, 3)},
			holes(ring(-1, -1, 7, -1, 7, 7, -1, 7, -1, 2, 1, 1)))
		return r
	}
	// many objects: exercises the context index
	many := func(step, n int64) []geo.G {
		var r []geo.G
		for x := int64(0); x < n; x++ {
			for y := int64(0); y < n; y++ {
				r = append(r, pt(x*step+1, y*step+1-n/2*step))
			}
		}
		return r
	}
	relation := func(id string, ck checker, mk func(th, md float64) lib.Opts, mds []float64, rule string) {
		bit := map[string]int{"C04": 8, "C05": 16, "C06": 32}[id]
		register(&run.Prop{ID: id, Rule: ruleLines + rule, Assumptions: assumeLines, Replay: replayCase(ck), Run: func(c *run.Ctx) {
			var cs, cs1 []conf
			for _, th := range []float64{1, 10} {
				for _, md := range mds {
					cs = append(cs, conf{mk(th, md), lib.DP})
				}
				cs1 = append(cs1, conf{mk(th, mds[len(mds)-1]), lib.DP})
			}
			withSelf := func(o lib.Opts) lib.Opts { o.AvoidNewSelfIntersects, o.PlanarSelf = true, true; return o }
			cs2 := append(append([]conf{}, cs1...), conf{withSelf(cs1[0].o), lib.DP}, conf{withSelf(cs1[1].o), lib.SED})
			sweep(c, Grid{N: 3, W: 3, H: 2}, around(3, 2), cs, nil, ck)
			sweep(c, Grid{N: 4, W: 3, H: 2}, around(3, 2), cs2, nil, ck)
			sweep(c, Grid{N: 5, W: 3, H: 2}, around(3, 2), cs1, nil, ck)
			sweep(c, Grid{N: 4, W: 3, H: 3, Scale: 2}, fine(3, 3), cs2, nil, ck)
			// together with every combination of the other options
			sets := confWith(bit, []float64{10}, 1, 1, lib.DP)
			ctx := [][]geo.G{{pt(1, 1)}, {pt(3, 3), pt(1, 2)}, {seg(1, 1, 3, 1)}, {poly(1, 1, 3, 1, 2, 3)}, {pt(2, 1), seg(3, 2, 3, 3), pt(1, 3)}}
			sweep(c, Grid{N: 4, W: 3, H: 3, Scale: 2}, ctx, sets, nil, ck)
			sweep(c, Grid{N: 4, W: 3, H: 2}, [][]geo.G{{pt(1, 1)}, mixed, {pt(0, 1), seg(2, 0, 2, 1)}, {pt(-1, 0), pt(1, 0), pt(2, 2)}}, append(confWith(bit, []float64{1.5}, 1.5, 0.5, lib.DP), confWith(bit, []float64{10}, 0, 1, lib.SED)...), nil, ck)
			sweep(c, Words{Name: "teeth", Steps: teeth, L: 3, Rep: 3, Scale: 2}, [][]geo.G{many(3, 6), many(5, 5)}, sets, nil, ck)
			// lines that wind around an object more than once
			wind := confs(lib.DP, mk(10, 1))
			if id == "C06" {
				sweep(c, Grid{N: 6, W: 3, H: 3, Scale: 2}, [][]geo.G{{pt(1, 1)}, {pt(3, 1), pt(1, 2)}}, wind, canonDir, ck)
				sweepPaths(c, Paths{N: 7, W: 4, H: 3}.scaled(2), []geo.G{pt(3, 1), pt(1, 3)}, wind, ck)
				sweep(c, Words{Name: "lattice", Steps: four, L: 9, First: true, Scale: 2}, [][]geo.G{{pt(1, 1)}, {pt(1, 1), pt(-1, 1)}}, wind, nil, ck)
			}
			for n := 1; n <= c.Pick(5, 6); n++ {
				sweep(c, Loops{n}, LoopCtx, append(wind, confs(lib.DP, mk(3, 0))...), nil, ck)
			}
			sweep(c, Moved{Loops{4}, farX, farY}, moveCtx(LoopCtx, farX, farY), wind, nil, ck)
			sweep(c, Words{Name: "octo", Steps: eight, L: 5, First: true, Rep: 2, Scale: 2}, [][]geo.G{{pt(1, 1)}, {pt(1, 3), pt(3, 1)}, {pt(2, 1), pt(-1, 2), pt(-1, -1)}}, wind, nil, ck)
			sweep(c, Words{Name: "lattice", Steps: four, L: 6, First: true, Rep: 3, Scale: 2}, [][]geo.G{{pt(1, 1)}, {pt(1, 3), pt(3, 1)}, {seg(1, 1, 1, 2)}}, wind, nil, ck)
			sweep(c, Words{Name: "lattice", Steps: four, L: 7, First: true, Self: true, Scale: 2}, fine(3, 2), cs1, nil, ck)
			sweep(c, Words{Name: "teeth", Steps: teeth, L: 3, Rep: 5, Scale: 2}, [][]geo.G{many(3, 6), many(4, 8)}, cs1, nil, ck)
			sweep(c, Peels{c.Pick(90, 200), false}, peelCtx, confs(lib.DP, mk(2000, 1), withSelf(mk(2000, 1))), nil, ck)
			dips(c, c.Pick(130, 300), confs(lib.DP, mk(200, 1), withSelf(mk(1000, 1))), ck)
			edges(c, c.Pick(200, 600), confs(lib.DP, mk(200, 2), withSelf(mk(100, 2))), ck)
			pieces(c, c.Pick(50, 130), []float64{3, 4}, func(th float64) []conf {
				return confs(lib.DP, mk(th, mds[len(mds)-1]), mk(th, 1), withSelf(mk(th, 1)))
			}, ck)
			fa := Grid{N: 4, W: 3, H: 2}.All(nil)
			fb := Grid{N: 3, W: 3, H: 2}.All(nil)
			o := withSelf(mk(1.5, 1))
			o2 := o
			o2.PlanarSelf = false
			for _, g := range [][]geo.G{{pt(1, 0)}, {pt(1, 1), seg(2, 0, 2, 1)}} {
				fcSweep(c, fmt.Sprintf("4- and 3-vertex lines on 3x2 near %v", g), each(fa, c.Pick(3, 1)), fb, g, confs(lib.DP, o, o2, mk(1, 1)), nil, ck)
			}
			fcSweep(c, "4- and 3-vertex lines on even 3x2 and odd 2x2 coordinates", Grid{N: 4, W: 3, H: 2, Scale: 2}.All(canonDir), shiftAll(Grid{N: 3, W: 2, H: 2, Scale: 2}.All(canonDir), 1, 1), []geo.G{pt(2, 1), seg(3, 0, 3, 1)}, sets, nil, ck)
			sweep(c, Moved{Grid{N: 4, W: 3, H: 2}, farX, farY}, moveCtx(around(3, 2), farX, farY), cs2, nil, ck)
			sweep(c, Moved{Grid{N: 4, W: 3, H: 3, Scale: 2}, -farX, farY}, moveCtx(fine(3, 3), -farX, farY), cs2, nil, ck)
			cliSweep(c, Grid{N: 4, W: 3, H: 2}, around(3, 2), cs1[:1], nil, ck)
			cliSweep(c, Grid{N: 3, W: 3, H: 3, Scale: 2}, fine(3, 3)[:12], cs, nil, ck)
			cliFC(c, "pairs of 4- and 3-vertex lines on 3x2", len(fa), func(i int) (Case, bool) {
				return Case{Lines: [][]geo.P{fa[i], fb[(i*37)%len(fb)]}, Cons: around(3, 2)[i%20], Opt: []lib.Opts{o, o2, mk(10, 1)}[i%3]}, true
			}, ck)
			if c.Thorough() {
				sweep(c, Grid{N: 5, W: 3, H: 2}, around(3, 2), cs, nil, ck)
				sweep(c, Grid{N: 5, W: 3, H: 3, Scale: 2}, fine(3, 3), cs2, nil, ck)
				sweep(c, Grid{N: 6, W: 3, H: 2}, around(3, 2), cs1[:1], nil, ck)
				sweep(c, Words{Name: "lattice", Steps: four, L: 9, First: true, Self: true, Scale: 2}, fine(3, 2), cs1, nil, ck)
			}
		}})
	}
	relation("C04", ckGeom, func(th, md float64) lib.Opts { return lib.Opts{Threshold: th, MinDist: md, GeomRelation: true} }, []float64{0, 1.5}, "")
	relation("C05", ckDist, func(th, md float64) lib.Opts { return lib.Opts{Threshold: th, MinDist: md, DistRelation: true} }, []float64{0.5, 1, 2, 1.5}, "")
	relation("C06", ckSide, func(th, md float64) lib.Opts { return lib.Opts{Threshold: th, MinDist: md, DirRelation: true} }, []float64{0, 1}, "; the oracle compares freely reduced crossing words with one ray per context object")

	register(&run.Prop{ID: "C07", Rule: ruleLines + "; only simple open lines are executed", Assumptions: assumeLines, Replay: replayCase(ckSelf), Run: func(c *run.Ctx) {
		cf := func(planar bool, ths ...float64) []conf {
			return confs(lib.DP, opts(ths, func(th float64) lib.Opts {
				return lib.Opts{Threshold: th, AvoidNewSelfIntersects: true, PlanarSelf: planar, NonPlanarSelf: planar}
			})...)
		}
		both := append(cf(false, 1, 1.5, 10), cf(true, 1.5, 10)...)
		sweep(c, Grid{N: 4, W: 4, H: 3}, nil, append(both, confs(lib.SED, lib.Opts{Threshold: 2, AvoidNewSelfIntersects: true})...), simpleOpen, ckSelf)
		sweep(c, Grid{N: 5, W: 4, H: 3}, nil, both, simpleOpen, ckSelf)
		sweep(c, Grid{N: 6, W: 3, H: 3}, nil, both, simpleOpen, ckSelf)
		sweep(c, Words{Name: "lattice", Steps: four, L: 12, First: true, Self: true}, nil, cf(false, 1.5, 2, 3), simpleOpen, ckSelf)
		sweep(c, Words{Name: "octo", Steps: eight, L: 7, First: true}, nil, cf(false, 1.5, 3), simpleOpen, ckSelf)
		sweep(c, Moved{Grid{N: 6, W: 3, H: 3}, farX, farY}, nil, both, simpleOpen, ckSelf)
		sweep(c, Moved{Words{Name: "octo", Steps: eight, L: 6, First: true}, farX, farY}, nil, cf(false, 1.5, 3), simpleOpen, ckSelf)
		sweep(c, Words{Name: "teeth", Steps: teeth, L: 4, Rep: 4}, nil, cf(false, 1.5, 3, 6), simpleOpen, ckSelf)
		sweep(c, Words{Name: "teeth", Steps: teeth, L: 3, Rep: 24}, nil, cf(false, 1.5, 3, 6), simpleOpen, ckSelf)
		for legs := 38; legs <= 40; legs++ {
			sweep(c, Train{Grid{N: 5, W: 3, H: 3}, legs}, nil, cf(false, 1.5), simpleOpen, ckSelf)
		}
		sweep(c, Dense{c.Pick(24, 90)}, nil, cf(false, 1, 3, 10, 100), simpleOpen, ckSelf)
		sweep(c, Peels{c.Pick(90, 200), true}, nil, cf(false, 2000), simpleOpen, ckSelf)
		sweepPaths(c, Paths{N: 7, W: 3, H: 3}, nil, cf(false, 0, 1, 1.5, 2, 10), ckSelf)
		sweepPaths(c, Paths{N: 8, W: 3, H: 3}, nil, cf(false, 1, 1.5, 10), ckSelf)
		sweepPaths(c, Paths{N: 9, W: 3, H: 3}, nil, cf(false, 1.5, 10), ckSelf)
		sweepPaths(c, Paths{N: 6, W: 4, H: 3}, nil, cf(false, 1, 1.5, 2, 10), ckSelf)
		sweepPaths(c, Paths{N: 7, W: 4, H: 3}, nil, cf(false, 1.5, 2), ckSelf)
		sweepPaths(c, Paths{N: 8, W: 4, H: 3}, nil, cf(false, 1.5), ckSelf)
		sweepPaths(c, Paths{N: 7, W: 5, H: 3}, nil, cf(false, 1.5), ckSelf)
		sweepPaths(c, Paths{N: 7, W: 4, H: 4}, nil, cf(false, 2), ckSelf)
		ctx := [][]geo.G{{pt(1, 1), seg(2, 0, 2, 1)}}
		sweep(c, Grid{N: 5, W: 3, H: 3}, ctx, confs(lib.DP, optBits(4+8, 1.5, 1, 1), optBits(4+16, 1.5, 1, 1), optBits(4+32, 1.5, 1, 1)), simpleOpen, ckSelf)
		// together with every combination of the other options
		sets := confWith(4, []float64{10}, 1, 1, lib.DP)
		sweep(c, Grid{N: 5, W: 3, H: 3}, [][]geo.G{ctx[0], {pt(0, 1), poly(1, 1, 2, 1, 2, 2)}}, sets, simpleOpen, ckSelf)
		sweep(c, Words{Name: "teeth", Steps: teeth, L: 3, Rep: 4}, [][]geo.G{{pt(2, 2), seg(6, 1, 7, 4), pt(12, -3)}}, append(confWith(4, []float64{3}, 2, 0, lib.DP), confWith(4, []float64{6}, 1, 1, lib.SED)...), simpleOpen, ckSelf)
		sweepPaths(c, Paths{N: 7, W: 3, H: 3}, ctx[0], sets, ckSelf)
		cliSweep(c, Grid{N: 5, W: 3, H: 3}, nil, both, simpleOpen, ckSelf)
		cliSweep(c, Words{Name: "lattice", Steps: four, L: 8, First: true, Self: true}, nil, cf(false, 1.5, 2), simpleOpen, ckSelf)
		if c.Thorough() {
			sweep(c, Grid{N: 6, W: 4, H: 3}, nil, both, simpleOpen, ckSelf)
			sweep(c, Words{Name: "lattice", Steps: four, L: 13, First: true, Self: true}, nil, cf(false, 1.5, 2, 3), simpleOpen, ckSelf)
			sweep(c, Words{Name: "octo", Steps: eight, L: 8, First: true}, nil, cf(false, 1.5, 3), simpleOpen, ckSelf)
			sweep(c, Words{Name: "teeth", Steps: teeth, L: 6, Rep: 3}, nil, cf(false, 1.5, 3, 6), simpleOpen, ckSelf)
			sweep(c, Grid{N: 7, W: 4, H: 3}, nil, cf(false, 1.5), simpleOpen, ckSelf)
		}
	}})
}
