//go:build c27 || all

package comp

import (
	"fmt"
	"math"

	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"

	"verifmc/geo"
	"verifmc/props"
	"verifmc/run"
)

func relateCase(k LCase) string {
	nd := nodeOf(k.L)
	s := ends(k.L)
	cs := contexts(k.Objs)
	geom, may, must := true, true, true
	for _, g := range k.Objs {
		if geo.Intersects(k.L, g) != geo.Intersects(s, g) {
			geom = false
		}
		// original < dist or simple >= dist
		o, x := geo.Dist2(k.L, g), geo.Dist2(s, g)
		oMay, oNot := below(o, k.Dist)
		xMay, xNot := below(x, k.Dist)
		if !(oMay || xNot) {
			may = false
		}
		if oNot && xMay {
			must = false
		}
	}
	for n := 0; n < 2; n++ { // answers do not depend on being asked before
		if got := relate.IsGeomRelateValid(&nd, cs); got != geom {
			return fmt.Sprintf("geometric relation kept: %v", got)
		}
		if got := constrain.ByGeometricRelation(&nd, cs); got != geom {
			return fmt.Sprintf("constraint: geometric relation kept: %v", got)
		}
		if got := relate.IsDistRelateValid(&opts.Opts{MinDist: k.Dist}, &nd, cs); got && !may || !got && must {
			return fmt.Sprintf("minimum distance kept: %v", got)
		}
		if got := constrain.ByMinDistRelation(&opts.Opts{MinDist: k.Dist}, &nd, cs); got && !may || !got && must {
			return fmt.Sprintf("constraint: minimum distance kept: %v", got)
		}
	}
	return ""
}

// below: may sqrt(q) < d hold, may it fail (ties of inexact roots both).
func below(q geo.Q, d float64) (may, not bool) {
	v := math.Sqrt(q.Float())
	if q.N == 0 || q.D == 1 && float64(int64(v)) == v {
		return v < d, v >= d
	}
	e := 1e-9 * (1 + d)
	return v < d+e, v >= d-e
}

func init() {
	register(&run.Prop{ID: "C27", Rule: "every piece of the grids against every set of objects of the lists and several distances, compared with exact predicates; non-trivial = the piece has interior vertices",
		Assumptions: []string{"distances equal to the limit within 1e-9 but not integers may go both ways"},
		Replay:      replay(relateCase),
		Run: func(c *run.Ctx) {
			objs := objects()
			ds := []float64{0, 0.6, 1, 1.7, 3}
			objSweep(c, props.Grid{N: 3, W: 4, H: 4, Dup: true}, singles(objs), ds, relateCase, "relation")
			objSweep(c, props.Grid{N: 3, W: 3, H: 3}, pairs(objs), []float64{1.2}, relateCase, "relation")
			objSweep(c, props.Grid{N: 4, W: 3, H: 3, Dup: true}, singles(objs), []float64{1, 1.5}, relateCase, "relation")
			objSweep(c, props.Grid{N: 5, W: 3, H: 2}, singles(objs), []float64{0.8}, relateCase, "relation")
			objSweep(c, props.Words{Name: "octo", Steps: props.Eight, L: 5, First: true}, singles(objs), []float64{1}, relateCase, "relation")
			c.For("an M with many objects", props.DipCases(c.Pick(130, 300)), func(i int, t *run.Tally) {
				l, g := props.Dip(c.Pick(130, 300), i)
				each(c, LCase{L: l, Objs: g, Dist: 1.2}, true, t, relateCase, "relation")
			})
			c.For("an arch over large objects", props.EdgeCases(c.Pick(200, 600)), func(i int, t *run.Tally) {
				l, g := props.Edge(c.Pick(200, 600), i)
				each(c, LCase{L: l, Objs: g, Dist: 1.2}, true, t, relateCase, "relation")
			})
			if c.Thorough() {
				objSweep(c, props.Grid{N: 4, W: 4, H: 3}, pairs(objs), []float64{0.9}, relateCase, "relation")
				objSweep(c, props.Grid{N: 5, W: 3, H: 3}, singles(objs), []float64{1, 1.5}, relateCase, "relation")
			}
		}})
}
