package props

import (
	"fmt"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
)

// symmetry s of the square: bit 0 swaps the axes, bits 1 and 2 negate one.
func symP(p geo.P, s int) geo.P {
	if s&2 != 0 {
		p.X = -p.X
	}
	if s&4 != 0 {
		p.Y = -p.Y
	}
	if s&1 != 0 {
		p.X, p.Y = p.Y, p.X
	}
	return p
}

func symL(l []geo.P, s int) []geo.P {
	r := make([]geo.P, len(l))
	for i := range l {
		r[i] = symP(l[i], s)
	}
	return r
}

func symG(gs []geo.G, s int) []geo.G {
	r := make([]geo.G, len(gs))
	for i, g := range gs {
		r[i].Kind = g.Kind
		for _, x := range g.Rings {
			r[i].Rings = append(r[i].Rings, symL(x, s))
		}
	}
	return r
}

// otherWriting writes the same point sets in another way: rings start at the n-th vertex,
// run backwards (bit 0 of way), vertices are repeated (bit 1); lines are reversed.
func otherWriting(gs []geo.G, n, way int) []geo.G {
	r := make([]geo.G, len(gs))
	for i, g := range gs {
		r[i].Kind = g.Kind
		for _, x := range g.Rings {
			y := append([]geo.P{}, x...)
			if g.Kind == geo.Poly {
				m := len(x) - 1
				for j := range y {
					y[j] = x[(j+n)%m]
				}
			}
			if way&1 != 0 {
				for a, b := 0, len(y)-1; a < b; a, b = a+1, b-1 {
					y[a], y[b] = y[b], y[a]
				}
			}
			if way&2 != 0 && g.Kind != geo.Pt {
				z := []geo.P{}
				for j, p := range y {
					z = append(z, p)
					if j%2 == n%2 {
						z = append(z, p)
					}
				}
				y = z
			}
			r[i].Rings = append(r[i].Rings, y)
		}
	}
	return r
}

// general: no three of the vertices are collinear.
func general(l []geo.P) bool {
	for i := range l {
		for j := 0; j < i; j++ {
			for k := 0; k < j; k++ {
				if geo.Orient(l[i], l[j], l[k]) == 0 {
					return false
				}
			}
		}
	}
	return true
}

// steps of which few are parallel
var skew = []geo.P{{X: 3, Y: 1}, {X: 1, Y: 4}, {X: -2, Y: 3}, {X: 5, Y: -2}, {X: 2, Y: -5}, {X: -3, Y: -4}}

func init() {
	register(&run.Prop{ID: "C33", Rule: "every line (and pair as a feature class) of the families x options x contexts is simplified as it is and mirrored or turned together with the objects (swap of the axes, both mirrors, turn); and with the objects written in other ways: rings from every start, either direction, repeated vertices; the retained vertices are compared; non-trivial = at least one vertex was dropped",
		Assumptions: []string{"for the symmetries: no two vertices tie for the greatest offset of a stretch; with avoid_new_self_intersects or non_planar_self lines are simple and no three vertices collinear (a vertex on the boundary of a hull counts as in it or not)"},
		Replay:      replayPair, Run: func(c *run.Ctx) {
			syms := []int{1, 2, 4, 7}
			off := func(r []conf) []conf { // no crossings just at the displacement
				for i := range r {
					r[i].o.NonPlanarDisplacement = 0.83
				}
				return r
			}
			two := func(th float64) []conf {
				return off(append(confAll([]float64{th}, 0.7, lib.DP), confSingles([]float64{th}, 0.7, lib.SED)...))
			}
			few := func(ths ...float64) []conf { return off(confSingles(ths, 0.7, lib.DP, lib.SED)) }
			ctxs := [][]geo.G{nil, mixed}
			hulls := func(o *lib.Opts) bool { return o.AvoidNewSelfIntersects || o.NonPlanarSelf }
			sw := func(f Family, ctxs [][]geo.G, cfs []conf) {
				c.For(fmt.Sprintf("%v x %d contexts x %d options x %d symmetries", f, len(ctxs), len(cfs), len(syms)), f.Size(), func(i int, t *run.Tally) {
					l, ok := f.At(i, make([]geo.P, 0, 16))
					if !ok {
						return
					}
					gen := simpleOpen(l) && general(l)
					tie := [2]bool{ties(l, false), ties(l, true)}
					for _, g := range ctxs {
						for _, cf := range cfs {
							n := 0
							if cf.m >= lib.SED {
								n = 1
							}
							if tie[n] || hulls(&cf.o) && !gen {
								continue
							}
							for _, s := range syms {
								k := PairCase{Way: "axes", Arg: []int{s}}
								k.Lines, k.Cons, k.Opt, k.Metric = [][]geo.P{l}, g, cf.o, cf.m
								pair(c, k, t)
							}
						}
					}
				})
			}
			sw(Grid{N: 3, W: 3, H: 3, Dup: true}, ctxs, two(1.1))
			sw(Grid{N: 4, W: 3, H: 2, Dup: true}, ctxs, two(1.1))
			sw(Grid{N: 4, W: 4, H: 3}, ctxs[1:], few(1.1))
			sw(Grid{N: 5, W: 3, H: 3}, ctxs[1:], few(1.1))
			if c.Thorough() {
				sw(Grid{N: 5, W: 4, H: 4}, ctxs[1:], few(1.1))
				sw(Grid{N: 5, W: 3, H: 3}, ctxs, few(5.3))
				sw(Grid{N: 6, W: 3, H: 3}, ctxs, few(1.1, 5.3))
			}
			sw(Words{Name: "skew", Steps: skew, L: c.Pick(5, 7), First: true}, ctxs, few(1.1, 3.07))
			pairs := Grid{N: 3, W: 3, H: 3, Scale: 3}.All(func(l []geo.P) bool { return simpleOpen(l) && bent(l) && canonDir(l) })
			others := shiftAll(pairs, 1, 2)
			cls := off(confs(lib.DP, optBits(4, 29.3, 0.7, 1), optBits(2, 29.3, 0.7, 1), optBits(6, 3.07, 0.7, 1), optBits(62, 29.3, 0.7, 1)))
			c.For(fmt.Sprintf("pairs of 3-vertex lines in general position x %d options x %d symmetries", len(cls), len(syms)), len(pairs)*len(pairs), func(i int, t *run.Tally) {
				a, b := pairs[i%len(pairs)], others[i/len(pairs)]
				if !general(append(append([]geo.P{}, a...), b...)) {
					return
				}
				for _, cf := range cls {
					for _, s := range syms {
						k := PairCase{Way: "axes", Arg: []int{s}}
						k.Lines, k.FC, k.Cons, k.Opt, k.Metric = [][]geo.P{a, b}, true, ctxs[1], cf.o, cf.m
						pair(c, k, t)
					}
				}
			})
			q := func(xy ...int64) []geo.P { return withT(xy...) }
			objs := [][]geo.G{
				{geo.PolyG(q(-1, -1, 4, -1, 4, 3, -1, 3, -1, -1), q(0, 0, 1, 0, 1, 2, 0, 0)), geo.PolyG(q(1, 1, 2, 1, 2, 2, 1, 1))},
				{seg(0, 1, 2, 1), geo.LineG(q(1, 0, 1, 1, 2, 2, 0, 3)...), pt(1, 1)},
				{geo.PolyG(q(2, -1, 3, 0, 3, 2, 5, 2, 2, 4, 2, -1)), geo.LineG(q(-1, 0, 0, -1, 1, 0)...)},
			}
			wr := func(f Family, cfs []conf, ws []int) {
				c.For(fmt.Sprintf("%v x %d sets of objects x %d options x %d ways to write them", f, len(objs), len(cfs), len(ws)), f.Size(), func(i int, t *run.Tally) {
					l, ok := f.At(i, make([]geo.P, 0, 16))
					if !ok {
						return
					}
					for _, g := range objs {
						for _, cf := range cfs {
							for _, w := range ws {
								k := PairCase{Way: "writing", Arg: []int{w / 4, w % 4}}
								k.Lines, k.Cons, k.Opt, k.Metric = [][]geo.P{l}, g, cf.o, cf.m
								pair(c, k, t)
							}
						}
					}
				})
			}
			all := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
			some := []int{1, 2, 7, 8, 14}
			if c.Thorough() {
				some = all
			}
			rel := off(confs(lib.DP, optBits(8, 5.3, 0.7, 1), optBits(16, 5.3, 0.7, 1), optBits(16, 5.3, 1.53, 1), optBits(32, 5.3, 0.7, 1), optBits(63, 1.1, 0.7, 1)))
			wr(Grid{N: 4, W: 3, H: 2, Dup: true}, off(confAll([]float64{10.3}, 0.7, lib.DP)), []int{1, 6, 11})
			wr(Grid{N: 4, W: 3, H: 3}, rel, all)
			wr(Grid{N: 5, W: 3, H: 2}, rel, some)
			wr(Words{Name: "octo", Steps: eight, L: c.Pick(5, 6), First: true}, rel, some)
			if c.Thorough() {
				wr(Grid{N: 5, W: 3, H: 3}, rel, all)
			}
			prog := Grid{N: 4, W: 3, H: 2}.All(open)
			const batch = 200
			nb := (len(prog) + batch - 1) / batch
			c.For(fmt.Sprintf("program: %d lines x %d sets of objects x %d options x %d ways to write them", len(prog), len(objs), len(rel), len(all)), nb*len(objs)*len(rel)*len(all), func(i int, t *run.Tally) {
				w := all[i%len(all)]
				i /= len(all)
				cf := rel[i%len(rel)]
				i /= len(rel)
				g := objs[i%len(objs)]
				b := prog[i/len(objs)*batch:]
				if len(b) > batch {
					b = b[:batch]
				}
				k := PairCase{Way: "writing", Arg: []int{w / 4, w % 4}}
				k.Lines, k.Cons, k.Opt, k.Metric, k.CLI = b, g, cf.o, cf.m, true
				pair(c, k, t)
			})
		}})
}
