package comp

import (
	"fmt"
	"reflect"
	"sort"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/props"
	"verifmc/run"

	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
	"github.com/intdxdt/mbr"

	"github.com/TopoSimplify/plugin/common"
)

// dist2 is the exact squared distance of two closed point sets.
func dist2(a, b geo.G) geo.Q {
	if a.Kind == geo.Poly {
		if b.Kind == geo.Poly {
			if geo.Covers(a.Rings, b.Rings[0][0]) || geo.Covers(b.Rings, a.Rings[0][0]) {
				return geo.Q{N: 0, D: 1}
			}
			m := geo.Q{N: 1 << 30, D: 1}
			for _, r := range a.Rings {
				if q := geo.Dist2(r, geo.G{Kind: geo.Line, Rings: b.Rings[:1]}); q.Less(m) {
					m = q
				}
				for _, h := range b.Rings[1:] {
					if q := geo.Dist2(r, geo.LineG(h...)); q.Less(m) {
						m = q
					}
				}
			}
			return m
		}
		a, b = b, a
	}
	return geo.Dist2(a.Rings[0], b)
}

// hullOf is the exact convex hull: a point, a segment or a ring without collinear vertices.
func hullOf(l []geo.P) geo.G {
	ps := append([]geo.P{}, l...)
	sort.Slice(ps, func(i, j int) bool { return ps[i].X < ps[j].X || ps[i].X == ps[j].X && ps[i].Y < ps[j].Y })
	u := ps[:1]
	for _, p := range ps[1:] {
		if !geo.Eq2(p, u[len(u)-1]) {
			u = append(u, p)
		}
	}
	if len(u) == 1 {
		return geo.Point(u[0].X, u[0].Y)
	}
	var h []geo.P
	for pass := 0; pass < 2; pass++ {
		base := len(h)
		for i := range u {
			p := u[i]
			if pass == 1 {
				p = u[len(u)-1-i]
			}
			for len(h) >= base+2 && geo.Orient(h[len(h)-2], h[len(h)-1], p) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, p)
		}
		h = h[:len(h)-1]
	}
	if len(h) == 2 {
		return geo.LineG(h...)
	}
	return geo.PolyG(append(h, h[0]))
}

func boxOf(g geo.G) B {
	b := B{1 << 30, 1 << 30, -1 << 30, -1 << 30}
	for _, p := range g.Rings[0] {
		x, y := int(p.X), int(p.Y)
		if x < b[0] {
			b[0] = x
		}
		if y < b[1] {
			b[1] = y
		}
		if x > b[2] {
			b[2] = x
		}
		if y > b[3] {
			b[3] = y
		}
	}
	return b
}

// piece builds the hull node of vertices i..j of a line.
func piece(id *iter.Igen, c geom.Coords, i, j int, in lnr.Linegen) node.Node {
	return node.CreateNode(id, c.Slice(i, j+1), rng.Range(i, j), common.Geometry, in)
}

func context(g geo.G) *ctx.ContextGeometry { return ctx.New(lib.IGeom(g), 0, -1).AsContextNeighbour() }

func contexts(gs []geo.G) *ctx.ContextGeometries {
	r := ctx.NewContexts()
	for _, g := range gs {
		r.Push(context(g))
	}
	return r
}

func wantSplit(a [2]int, at []int) [][2]int {
	in := map[int]bool{}
	for _, v := range at {
		if a[0] < v && v < a[1] {
			in[v] = true
		}
	}
	if len(in) == 0 {
		return nil
	}
	var vs []int
	for v := range in {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	var r [][2]int
	p := a[0]
	for _, v := range append(vs, a[1]) {
		r = append(r, [2]int{p, v})
		p = v
	}
	return r
}

func scoreOf(m lib.Metric) (lnr.ScoreFn, func(th float64) func(float64) bool) {
	le := func(th float64) func(float64) bool { return func(v float64) bool { return v <= th } }
	sq := func(th float64) func(float64) bool { return func(v float64) bool { return v <= th*th } }
	switch m {
	case lib.DPSq:
		return offset.SquareMaxOffset, sq
	case lib.SED:
		return offset.MaxSEDOffset, le
	case lib.SEDSq:
		return offset.SqureMaxSEDOffset, sq
	}
	return offset.MaxOffset, le
}

// isPiece: nd is the piece i..j of the line.
func isPiece(nd *node.Node, l []geo.P, i, j int, in lnr.Linegen) string {
	c := nd.Coordinates()
	switch {
	case nd.Range.I != i || nd.Range.J != j:
		return fmt.Sprintf("range %v instead of %d..%d", nd.Range, i, j)
	case c.Len() != j-i+1:
		return fmt.Sprintf("%d vertices in piece %d..%d", c.Len(), i, j)
	case nd.Instance != in:
		return fmt.Sprintf("piece %d..%d belongs to another line", i, j)
	}
	at := func(p *geom.Point, q geo.P) bool {
		return p[0] == float64(q.X) && p[1] == float64(q.Y) && p[2] == float64(q.T)
	}
	for v := i; v <= j; v++ {
		if c.Idxs[v-i] != v || !at(c.Pt(v-i), l[v]) {
			return fmt.Sprintf("vertex %d of piece %d..%d is number %d %v", v, i, j, c.Idxs[v-i], *c.Pt(v - i))
		}
	}
	if !at(nd.First(), l[i]) || !at(nd.Last(), l[j]) {
		return fmt.Sprintf("ends of piece %d..%d", i, j)
	}
	h := hullOf(l[i : j+1])
	if b := boxOf(h); nd.MBR != b.mbr() || nd.Bounds() != b.mbr() {
		return fmt.Sprintf("piece %d..%d has box %v", i, j, nd.MBR)
	}
	var cs geom.Coords
	switch g := nd.Geom.Geometry().(type) {
	case *geom.Polygon:
		cs = g.Shell.Coordinates
		if len(g.Holes) > 0 {
			return "hull with a hole"
		}
	case *geom.LineString:
		cs = g.Coordinates
	default:
		cs = geom.Coordinates(nil)
	}
	got, want := map[[2]int64]bool{}, map[[2]int64]bool{}
	for v := 0; v < cs.Len(); v++ {
		p := cs.Pt(v)
		got[[2]int64{int64(p[0]), int64(p[1])}] = true
	}
	for _, p := range h.Rings[0] {
		want[[2]int64{p.X, p.Y}] = true
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("hull of piece %d..%d is %v", i, j, nd.Geom.WKT())
	}
	return ""
}

// cuts of a line of n vertices: bit i-1 of m set = a piece ends at vertex i
func cuts(n, m int) []int {
	var r []int
	for i := 1; i < n-1; i++ {
		if m>>(i-1)&1 > 0 {
			r = append(r, i)
		}
	}
	return append(r, n-1)
}

func gseg(v ...int64) geo.G {
	var l []geo.P
	for i := 0; i < len(v); i += 2 {
		l = append(l, geo.P{X: v[i], Y: v[i+1]})
	}
	return geo.LineG(l...)
}

func gring(v ...int64) []geo.P {
	l := gseg(v...).Rings[0]
	return append(l, l[0])
}

func shiftG(g geo.G, dx, dy int64) geo.G {
	r := geo.G{Kind: g.Kind}
	for _, l := range g.Rings {
		var m []geo.P
		for _, p := range l {
			m = append(m, geo.P{X: p.X + dx, Y: p.Y + dy})
		}
		r.Rings = append(r.Rings, m)
	}
	return r
}

// objects over a small grid
func objects() []geo.G {
	return []geo.G{
		geo.Point(0, 0), geo.Point(1, 1), geo.Point(3, 1), geo.Point(5, 2),
		gseg(0, 2, 3, 2), gseg(2, 0, 2, 3), gseg(3, 0, 4, 3), gseg(0, 4, 2, 4, 2, 5),
		geo.PolyG(gring(1, 0, 2, 0, 2, 1)), geo.PolyG(gring(0, 0, 4, 0, 4, 4, 0, 4)),
		geo.PolyG(gring(-1, -1, 5, -1, 5, 4, -1, 4), gring(0, 0, 0, 3, 4, 3, 4, 0)),
		geo.PolyG(gring(4, 1, 6, 1, 6, 3, 4, 3)), geo.PolyG(gring(-2, 0, -1, 1, -2, 2)),
	}
}

// B is a box minx,miny,maxx,maxy.
type B [4]int

func (b B) mbr() mbr.MBR {
	return mbr.MBR{float64(b[0]), float64(b[1]), float64(b[2]), float64(b[3])}
}
func (b B) meets(c B) bool {
	return b[0] <= c[2] && c[0] <= b[2] && b[1] <= c[3] && c[1] <= b[3]
}
func (b B) d2(c B) int {
	gap := func(a, b, c, d int) int {
		if a > d {
			return a - d
		}
		if c > b {
			return c - b
		}
		return 0
	}
	x, y := gap(b[0], b[2], c[0], c[2]), gap(b[1], b[3], c[1], c[3])
	return x*x + y*y
}

// LCase relates a piece to objects.
type LCase struct {
	L    []geo.P
	Objs []geo.G
	Dist float64
}

func nodeOf(l []geo.P) node.Node { return piece(iter.NewIgen(), lib.Coords(l), 0, len(l)-1, &inst{}) }

func ends(l []geo.P) []geo.P { return []geo.P{l[0], l[len(l)-1]} }

func objSweep(c *run.Ctx, f props.Family, sets [][]geo.G, ds []float64, ck func(LCase) string, kind string) {
	c.For(fmt.Sprintf("%v x %d sets of objects x %v", f, len(sets), ds), f.Size(), func(i int, t *run.Tally) {
		l, ok := f.At(i, make([]geo.P, 0, 16))
		if !ok {
			return
		}
		l = append([]geo.P{}, l...)
		for _, s := range sets {
			for _, d := range ds {
				each(c, LCase{L: l, Objs: s, Dist: d}, len(l) > 2, t, ck, kind)
			}
		}
	})
}
func singles(gs []geo.G) [][]geo.G {
	r := [][]geo.G{nil}
	for _, g := range gs {
		r = append(r, []geo.G{g})
	}
	return r
}
func pairs(gs []geo.G) [][]geo.G {
	var r [][]geo.G
	for i := range gs {
		for j := 0; j < i; j++ {
			r = append(r, []geo.G{gs[i], gs[j]})
		}
	}
	return r
}

// piecesOf cuts a line at the given vertices (the last one is the end of the line).
func piecesOf(id *iter.Igen, l []geo.P, cuts []int, in lnr.Linegen) ([]node.Node, map[int]bool) {
	var ns []node.Node
	at := map[int]bool{0: true}
	c := lib.Coords(l)
	a := 0
	for _, b := range cuts {
		ns = append(ns, piece(id, c, a, b, in))
		at[b] = true
		a = b
	}
	return ns, at
}
