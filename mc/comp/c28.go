//go:build c28 || all

package comp

import (
	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/homotopy"
	"github.com/TopoSimplify/plugin/relate"

	"verifmc/geo"
	"verifmc/props"
	"verifmc/run"
)

func sideCase(k LCase) string {
	cs := contexts(k.Objs)
	nd := nodeOf(k.L)
	s := ends(k.L)
	hull := hullOf(k.L)
	near, xor := false, false
	var obs []geo.P
	for _, g := range k.Objs {
		a, b := geo.Intersects(k.L, g), geo.Intersects(s, g)
		xor = xor || a != b
		if !a && !b {
			obs = append(obs, g.Rep())
			near = near || dist2(hull, g).N == 0
		}
	}
	for _, got := range []bool{homotopy.Homotopy(nd.Coordinates(), cs), relate.IsDirRelateValid(&nd, cs), constrain.BySideRelation(&nd, cs)} {
		switch {
		case got && xor:
			return "accepted although an object meets only one of line and segment"
		case got && len(obs) > 0 && !geo.Homotopic(k.L, s, obs):
			return "accepted although an object changes sides"
		case !got && !xor && !near:
			return "refused although no object is near"
		}
	}
	return ""
}

func init() {
	register(&run.Prop{ID: "C28", Rule: "every piece of the grids against every set of objects of the lists: accepted only if homotopic by exact crossing words, not refused when no object meets the hull; non-trivial = the piece has interior vertices",
		Assumptions: []string{"objects are connected without holes", "acceptance of every homotopic piece is not claimed"},
		Replay:      replay(sideCase),
		Run: func(c *run.Ctx) {
			objs := objects()
			var solid []geo.G
			for _, g := range objs {
				if len(g.Rings) == 1 {
					solid = append(solid, g)
				}
			}
			pts := []geo.G{geo.Point(1, 1), geo.Point(2, 1), geo.Point(1, 0), gseg(0, 1, 0, 1), geo.PolyG(gring(2, 2, 3, 2, 3, 3))}
			dbl := func(gs []geo.G) []geo.G { // between the vertices of a doubled grid
				var r []geo.G
				for _, g := range gs {
					r = append(r, shiftG(g, 0, 0))
				}
				return r
			}
			objSweep(c, props.Grid{N: 3, W: 4, H: 4, Dup: true}, singles(solid), []float64{0}, sideCase, "side")
			objSweep(c, props.Grid{N: 4, W: 3, H: 3, Dup: true}, append(singles(solid), pairs(solid)...), []float64{0}, sideCase, "side")
			objSweep(c, props.Grid{N: 4, W: 3, H: 3, Scale: 2}, append(singles(dbl(pts)), pairs(pts)...), []float64{0}, sideCase, "side")
			objSweep(c, props.Grid{N: 5, W: 3, H: 2, Scale: 2}, append(singles(pts), pairs(pts)...), []float64{0}, sideCase, "side")
			objSweep(c, props.Grid{N: 5, W: 3, H: 3, Scale: 2}, [][]geo.G{{geo.Point(1, 1)}, {geo.Point(3, 1), geo.Point(1, 3)}, {geo.Point(1, 1), geo.Point(3, 3), geo.Point(2, 1)}}, []float64{0}, sideCase, "side")
			objSweep(c, props.Words{Name: "lattice", Steps: props.Four, L: 8, First: true, Scale: 2}, [][]geo.G{{geo.Point(1, 1)}, {geo.Point(1, 1), geo.Point(3, -1)}, {geo.Point(1, -1), geo.Point(3, 1), geo.Point(-1, 1)}}, []float64{0}, sideCase, "side")
			objSweep(c, props.Words{Name: "teeth", Steps: props.Teeth, L: 5}, [][]geo.G{{geo.Point(2, 1)}, {geo.Point(3, -1), geo.Point(4, 2)}}, []float64{0}, sideCase, "side")
			for n := 1; n <= c.Pick(5, 7); n++ {
				objSweep(c, props.Loops{L: n}, props.LoopCtx, []float64{0}, sideCase, "side")
			}
			objSweep(c, props.Words{Name: "octo", Steps: props.Eight, L: 5, First: true, Rep: 2, Scale: 2}, [][]geo.G{{geo.Point(1, 1)}, {geo.Point(3, 1), geo.Point(1, 3)}}, []float64{0}, sideCase, "side")
			c.For("an M with many objects", props.DipCases(c.Pick(130, 300)), func(i int, t *run.Tally) {
				l, g := props.Dip(c.Pick(130, 300), i)
				each(c, LCase{L: l, Objs: g, Dist: 0}, true, t, sideCase, "side")
			})
			c.For("an arch over large objects", props.EdgeCases(c.Pick(200, 600)), func(i int, t *run.Tally) {
				l, g := props.Edge(c.Pick(200, 600), i)
				if len(g[0].Rings) > 1 {
					return // no holes
				}
				each(c, LCase{L: l, Objs: g, Dist: 0}, true, t, sideCase, "side")
			})
			if c.Thorough() {
				objSweep(c, props.Grid{N: 6, W: 3, H: 2, Scale: 2}, append(singles(pts), pairs(pts)...), []float64{0}, sideCase, "side")
				objSweep(c, props.Words{Name: "lattice", Steps: props.Four, L: 10, First: true, Scale: 2}, [][]geo.G{{geo.Point(1, 1)}, {geo.Point(1, 1), geo.Point(3, -1)}, {geo.Point(1, -1), geo.Point(3, 1), geo.Point(-1, 1)}}, []float64{0}, sideCase, "side")
				objSweep(c, props.Words{Name: "octo", Steps: props.Eight, L: 6, First: true, Scale: 2}, [][]geo.G{{geo.Point(1, 1)}, {geo.Point(3, 1), geo.Point(1, -1)}}, []float64{0}, sideCase, "side")
			}
		}})
}
