//go:build c29 || all

package comp

import (
	"fmt"
	"math"

	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/deform"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/iter"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/props"
	"verifmc/run"
)

// KCase relates two pieces: of one line (Same) or of two lines.
type KCase struct {
	A, B  []geo.P
	Same  bool // pieces of one line; contiguous when B starts where A ends
	Disp  float64
	Class bool
	Bits  int
}

func conflictCase(k KCase) string {
	id := iter.NewIgen()
	ia, ib := &inst{id: 1}, &inst{id: 2}
	off := 0
	if k.Same {
		ib = ia
		off = len(k.A) - 1
		if !geo.Eq2(k.A[len(k.A)-1], k.B[0]) {
			off += 5
		}
	}
	na := piece(id, lib.Coords(k.A), 0, len(k.A)-1, ia)
	nb := piece(id, lib.Coords(k.B), 0, len(k.B)-1, ib)
	if k.Same {
		nb.Range.I += off
		nb.Range.J += off
	}
	ha, hb := hullOf(k.A), hullOf(k.B)
	sa, sb := ends(k.A), ends(k.B)
	meet := dist2(ha, hb).N == 0
	lines := geo.LinesIntersect(k.A, k.B)
	segs := geo.LinesIntersect(sa, sb)
	o := &opts.Opts{NonPlanarDisplacement: k.Disp, AvoidNewSelfIntersects: k.Bits&1 > 0, NonPlanarSelf: k.Bits&2 > 0}
	db := hdb.NewHdb()
	ns := []node.Node{na, nb}
	db.Load(ns)
	shared := false
	for _, p := range sa {
		for _, q := range sb {
			shared = shared || geo.Eq2(p, q)
		}
	}
	bln, contig, n := node.IsContiguous(&ns[0], &ns[1])
	if bln != meet {
		return fmt.Sprintf("hulls meet: %v", bln)
	}
	if contig && !shared {
		return "contiguous without a common end"
	}
	if bln && n == 0 && ha.Kind != geo.Poly && hb.Kind != geo.Poly {
		return "hulls meet nowhere"
	}
	// the selection is asked from both pieces
	for turn := 0; turn < 2; turn++ {
		x := &ns[turn]
		var sel []*node.Node
		var ok bool
		if k.Class {
			ok = constrain.ByFeatureClassIntersection(o, x, db, &sel)
		} else {
			ok = constrain.BySelfIntersection(o, x, db, &sel)
		}
		got := map[int]bool{}
		for _, s := range sel {
			if s != &ns[0] && s != &ns[1] {
				return "selected an unknown piece"
			}
			if got[s.Id] {
				return "selected twice"
			}
			got[s.Id] = true
		}
		if ok == got[x.Id] {
			return fmt.Sprintf("piece %d valid: %v, selected %v", turn, ok, sel)
		}
		if !k.Class { // same choice without the constraint
			if m := len(deform.Select(o, db, x)); m != len(got) {
				return "constraint and selection differ"
			}
		} else if m := len(deform.SelectFeatureClass(o, db, x)); m != len(got) {
			return "constraint and selection differ"
		}
		a, b := got[ns[0].Id], got[ns[1].Id]
		// pieces of the same line are not looked at for crossings between features only
		skip := k.Class && k.Same && k.Bits == 2
		relevant := !k.Class || !skip
		if !meet && (a || b) {
			return "selected although the hulls are apart"
		}
		if k.Class && k.Bits == 2 && !lines && (a || b) {
			return "selected for a crossing that is not there"
		}
		if !relevant || !meet {
			continue
		}
		if k.Same && geo.Eq2(sa[1], sb[0]) { // neighbours give way to each other
			for v, x := range []struct {
				got  bool
				p, q []geo.P
			}{{a, k.A, k.B}, {b, k.B, k.A}} {
				if may, must := blocked(x.p, x.q); x.got && !may || !x.got && must {
					return fmt.Sprintf("neighbour %d in the way: selected %v", v, x.got)
				}
			}
		}
		if k.Same && contig {
			continue
		}
		if shared && k.Same {
			continue // touching ends of one line
		}
		switch {
		case lines && !segs && !(a && b):
			return fmt.Sprintf("lines meet, segments do not, selected %v %v", a, b)
		case !lines && segs && k.Bits != 2 && crossProper(sa, sb) && !a && !b:
			return "segments cross, lines do not, none selected"
		case !lines && !segs && (a || b):
			return "neither lines nor segments meet, selected"
		case lines && segs:
			// places of both kinds further apart than the displacement
			lo, hi := farthest(k.A, k.B, sa, sb)
			if lo > k.Disp+1e-9 && !(a && b) {
				return fmt.Sprintf("crossings %g apart, displacement %g, selected %v %v", lo, k.Disp, a, b)
			}
			if hi <= k.Disp-1e-9 && (a || b) {
				return fmt.Sprintf("crossings %g apart, displacement %g, selected %v %v", hi, k.Disp, a, b)
			}
		}
	}
	return ""
}

func crossProper(a, b []geo.P) bool { return geo.Proper(a[0], a[1], b[0], b[1]) }

// farthest gives bounds of the largest distance between a place where the lines meet and one
// where the segments meet: over single points, over all places.
func farthest(l, m, s, t []geo.P) (lo, hi float64) {
	for _, p := range geo.Places(l, m) {
		for _, q := range geo.Places(s, t) {
			for _, x := range []geo.F{p.A, p.B} {
				for _, y := range []geo.F{q.A, q.B} {
					d := math.Hypot(x.X-y.X, x.Y-y.Y)
					hi = math.Max(hi, d)
					if p.A == p.B && q.A == q.B {
						lo = math.Max(lo, d)
					}
				}
			}
		}
	}
	return
}

// blocked: is piece b in the way of the collapse of its neighbour a: its far end lies inside
// the hull of a or on its segment.  On the boundary of the hull both answers are right.
func blocked(a, b []geo.P) (may, must bool) {
	h := hullOf(a)
	if len(a) == 2 || h.Kind != geo.Poly {
		return
	}
	sa, sb := ends(a), ends(b)
	in := func(p geo.P) bool { return geo.Eq2(p, sa[0]) || geo.Eq2(p, sa[1]) }
	var t geo.P
	switch {
	case in(sb[0]):
		t = sb[1]
	case in(sb[1]):
		t = sb[0]
	default:
		return
	}
	if geo.Eq2(sb[0], sb[1]) {
		return true, false
	}
	where := geo.InRing(h.Rings[0], t)
	must = where > 0 || where == 0 && !in(t) && geo.OnSeg(sa[0], sa[1], t)
	return where >= 0, must
}

// collapse: piece B against its neighbour A.
func collapseCase(k KCase) string {
	na, nb := nodeOf(k.A), nodeOf(k.B)
	may, must := blocked(k.A, k.B)
	if got := na.Collapsible(&nb); got && must || !got && !may {
		return fmt.Sprintf("collapsible: %v", got)
	}
	return ""
}

func judgeK(k KCase) string {
	if k.Disp < 0 {
		return collapseCase(k)
	}
	return conflictCase(k)
}

// GCase asks for the selection of one piece among several: it is made pair by pair.
type GCase struct {
	Lines [][]geo.P
	Cuts  [][]int
	Disp  float64
	Bits  int
	Class bool
	Clean bool // the lines are in order: only other lines matter
}

func groupCase(k GCase) string {
	id := iter.NewIgen()
	var ns []node.Node
	for i, l := range k.Lines {
		in := &inst{id: i}
		if k.Clean {
			in.s.MarkClean()
		}
		p, _ := piecesOf(id, l, k.Cuts[i], in)
		ns = append(ns, p...)
	}
	o := &opts.Opts{NonPlanarDisplacement: k.Disp, AvoidNewSelfIntersects: k.Bits&1 > 0, NonPlanarSelf: k.Bits&2 > 0}
	sel := func(db *hdb.Hdb, x *node.Node) (map[int]bool, string) {
		s := deform.Select
		if k.Class {
			s = deform.SelectFeatureClass
		}
		r := map[int]bool{}
		for _, n := range s(o, db, x) {
			if r[n.Id] {
				return nil, "selected twice"
			}
			r[n.Id] = true
		}
		return r, ""
	}
	all := hdb.NewHdb()
	all.Load(ns)
	for i := range ns {
		got, m := sel(all, &ns[i])
		if m != "" {
			return m
		}
		want := map[int]bool{}
		for j := range ns {
			if i == j || k.Clean && ns[i].Instance == ns[j].Instance {
				continue
			}
			two := []node.Node{ns[i], ns[j]}
			db := hdb.NewHdb()
			db.Load(two)
			r, m := sel(db, &two[0])
			if m != "" {
				return m
			}
			for v := range r {
				want[v] = true
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("piece %d: selected %v, pair by pair %v", i, got, want)
		}
	}
	return ""
}

func init() {
	register(&run.Prop{ID: "C29", Rule: "every pair of pieces of the grids, as pieces of one line (contiguous or not) and as pieces of two lines, several displacements and options: the pieces selected for deformation against exact intersections of hulls, lines and segments; non-trivial = the hulls meet",
		Assumptions: []string{"where lines or segments overlap along a stretch, only distances between its ends count"},
		Replay: replay(func(k struct {
			KCase
			Lines [][]geo.P
			Cuts  [][]int
			Clean bool
		}) string {
			if k.Lines != nil {
				return groupCase(GCase{k.Lines, k.Cuts, k.KCase.Disp, k.KCase.Bits, k.KCase.Class, k.Clean})
			}
			k2 := k.KCase
			return judgeK(k2)
		}),
		Run: func(c *run.Ctx) {
			conf := func(name string, as, bs [][]geo.P, keep func(a, b []geo.P) bool, ks ...KCase) {
				n := len(as)
				c.For(fmt.Sprintf("%s: %d x %d pieces x %d", name, n, len(bs), len(ks)), n*len(bs), func(i int, t *run.Tally) {
					a, b := as[i%n], bs[i/n]
					if keep != nil && !keep(a, b) {
						return
					}
					met := boxOf(hullOf(a)).meets(boxOf(hullOf(b)))
					for _, k := range ks {
						k.A, k.B = a, b
						each(c, k, met, t, conflictCase, "conflict")
					}
				})
			}
			g3 := props.Grid{N: 3, W: 3, H: 3}.All(nil)
			g4 := props.Grid{N: 4, W: 3, H: 3}.All(geo.SimplePath)
			s4 := props.Grid{N: 4, W: 3, H: 2}.All(nil)
			s2 := props.Grid{N: 2, W: 4, H: 4}.All(nil)
			var all []KCase
			for _, d := range []float64{0, 0.7, 1.5} {
				all = append(all, KCase{Disp: d, Class: true, Bits: 1}, KCase{Disp: d, Class: true, Bits: 3})
			}
			all = append(all, KCase{Disp: 1, Class: true, Bits: 2})
			same := []KCase{{Disp: 0.4, Same: true, Bits: 1}, {Disp: 1.2, Same: true, Class: true, Bits: 1}, {Disp: 1, Same: true, Class: true, Bits: 2}, {Disp: 0, Same: true, Class: true, Bits: 3}}
			q3 := props.Grid{N: 3, W: 3, H: 2}.All(nil)
			q4 := props.Grid{N: 4, W: 3, H: 2}.All(geo.SimplePath)
			t2 := props.Grid{N: 2, W: 3, H: 3}.All(nil)
			joined := func(a, b []geo.P) bool { return geo.Eq2(a[len(a)-1], b[0]) }
			conf("two lines", q3, q3, nil, all...)
			conf("two lines", g3, t2, nil, all...)
			conf("two lines", g4, t2, nil, all[2], all[6])
			conf("one line", q3, q3, nil, same...)
			conf("one line", q4, q4, joined, same...)
			conf("one line", g4, t2, joined, same...)
			conf("two lines", g3, g3, nil, all[3])
			if c.Thorough() {
				conf("two lines", g3, g3, nil, all...)
				conf("two lines", s4, s4, nil, all[2], all[6])
				conf("two lines", g4, s2, nil, all[0], all[6])
				conf("one line", g3, g3, nil, same...)
				conf("one line", g4, g3, joined, same...)
				conf("two lines", g4, g3, nil, all...)
				conf("one line", g4, g4, joined, same...)
				g5 := props.Grid{N: 5, W: 3, H: 3}.All(geo.SimplePath)
				conf("two lines", g5, g3, func(a, b []geo.P) bool { return b[0].X == 1 && b[0].Y == 1 }, all[2], all[6])
			}
			col := func(as, bs [][]geo.P) {
				n := len(as)
				c.For(fmt.Sprintf("collapsible: %d x %d pieces", n, len(bs)), n*len(bs), func(i int, t *run.Tally) {
					each(c, KCase{A: as[i%n], B: bs[i/n], Disp: -1}, true, t, collapseCase, "collapse")
				})
			}
			col(g3, g3)
			col(s4, s2)
			col(g4, s2)
			group := func(f props.Family, nv int, other []geo.P, ks ...GCase) {
				masks := 1 << uint(nv-2)
				c.For(fmt.Sprintf("groups: %v x %d cuts x %d, other line of %d", f, masks, len(ks), len(other)), f.Size()*masks, func(i int, t *run.Tally) {
					l, ok := f.At(i/masks, make([]geo.P, 0, 16))
					if !ok || i%masks == 0 && other == nil {
						return
					}
					l = append([]geo.P{}, l...)
					for _, k := range ks {
						k.Lines, k.Cuts = [][]geo.P{l}, [][]int{cuts(nv, i%masks)}
						if other != nil {
							var cs []int
							for v := 1 + i%2; v < len(other); v += 2 {
								cs = append(cs, v)
							}
							if len(cs) == 0 || cs[len(cs)-1] != len(other)-1 {
								cs = append(cs, len(other)-1)
							}
							k.Lines, k.Cuts = append(k.Lines, other), append(k.Cuts, cs)
						}
						each(c, k, true, t, groupCase, "group")
					}
				})
			}
			one := []GCase{{Disp: 0.7, Bits: 1}, {Disp: 0.7, Bits: 1, Class: true}, {Disp: 0, Bits: 3, Class: true}}
			var more []GCase
			for _, k := range one[1:] {
				more = append(more, k)
				k.Clean = true
				more = append(more, k)
			}
			more = append(more, GCase{Disp: 0.7, Bits: 2, Class: true})
			other := gseg(0, 1, 1, 2, 2, 1, 2, 0, 3, 1).Rings[0]
			group(props.Grid{N: 4, W: 3, H: 2}, 4, nil, one...)
			group(props.Grid{N: 5, W: 3, H: 2}, 5, nil, one[1])
			group(props.Grid{N: 4, W: 3, H: 2}, 4, other, more...)
			group(props.Words{Name: "teeth", Steps: props.Teeth, L: c.Pick(4, 5)}, c.Pick(5, 6), gseg(0, 1, 3, 2, 6, -1, 9, 1, 3, 1).Rings[0], more...)
			if c.Thorough() {
				group(props.Grid{N: 4, W: 3, H: 3}, 4, other, more...)
				group(props.Grid{N: 5, W: 3, H: 3}, 5, nil, one...)
				group(props.Words{Name: "octo", Steps: props.Eight, L: 5, First: true}, 6, other, more...)
			}
		}})
}
