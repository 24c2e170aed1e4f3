// Package geo is the exact integer-geometry oracle: every predicate is decided with
// int64 arithmetic on small integer coordinates, so it has no tolerance of its own.
package geo

import (
	"fmt"
	"math"
)

// P is an integer point; T is the third coordinate (time / z), ignored by the 2D predicates.
type P struct{ X, Y, T int64 }

// Kind of a context geometry.
type Kind int

const (
	Pt Kind = iota
	Line
	Poly
)

// G is a context geometry: Point (Rings[0][0]), LineString (Rings[0]) or Polygon (shell, holes...).
type G struct {
	Kind  Kind
	Rings [][]P
}

func Point(x, y int64) G   { return G{Pt, [][]P{{{X: x, Y: y}}}} }
func LineG(ps ...P) G      { return G{Line, [][]P{ps}} }
func PolyG(rings ...[]P) G { return G{Poly, rings} }
func (g G) String() string {
	return fmt.Sprintf("%v%v", [...]string{"Point", "LineString", "Polygon"}[g.Kind], g.Rings)
}
func eq(a, b P) bool        { return a.X == b.X && a.Y == b.Y }
func Eq2(a, b P) bool       { return eq(a, b) }
func cross(a, b, c P) int64 { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }
func Orient(a, b, c P) int  { return sgn(cross(a, b, c)) }
func dot(a, b, c P) int64   { return (b.X-a.X)*(c.X-a.X) + (b.Y-a.Y)*(c.Y-a.Y) }
func D2(a, b P) int64       { return (a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) }
func between(a, b, c int64) bool {
	if a > b {
		a, b = b, a
	}
	return a <= c && c <= b
}
func sgn(v int64) int {
	if v > 0 {
		return 1
	} else if v < 0 {
		return -1
	}
	return 0
}

// OnSeg: c lies on closed segment ab.
func OnSeg(a, b, c P) bool {
	return cross(a, b, c) == 0 && between(a.X, b.X, c.X) && between(a.Y, b.Y, c.Y)
}

// SegSeg: closed segments ab and cd share a point.
func SegSeg(a, b, c, d P) bool {
	o1, o2 := Orient(a, b, c), Orient(a, b, d)
	o3, o4 := Orient(c, d, a), Orient(c, d, b)
	if o1*o2 < 0 && o3*o4 < 0 {
		return true
	}
	return OnSeg(a, b, c) || OnSeg(a, b, d) || OnSeg(c, d, a) || OnSeg(c, d, b)
}

// Proper: the open segments cross at a single interior point of both.
func Proper(a, b, c, d P) bool {
	return Orient(a, b, c)*Orient(a, b, d) < 0 && Orient(c, d, a)*Orient(c, d, b) < 0
}

// InRing: -1 outside, 0 on the boundary, 1 inside.
func InRing(ring []P, p P) int {
	n := len(ring)
	in := false
	for i := 0; i < n; i++ {
		a, b := ring[i], ring[(i+1)%n]
		if eq(a, b) {
			if eq(a, p) {
				return 0
			}
			continue
		}
		if OnSeg(a, b, p) {
			return 0
		}
		if (a.Y > p.Y) != (b.Y > p.Y) {
			// x of crossing > p.X ?
			c := cross(a, b, p)
			if b.Y > a.Y {
				if c > 0 {
					in = !in
				}
			} else if c < 0 {
				in = !in
			}
		}
	}
	if in {
		return 1
	}
	return -1
}

// Covers: polygon (closed set, shell minus open holes) contains p.
func Covers(rings [][]P, p P) bool {
	if InRing(rings[0], p) < 0 {
		return false
	}
	for _, h := range rings[1:] {
		if InRing(h, p) > 0 {
			return false
		}
	}
	return true
}

func segs(ps []P, f func(a, b P) bool) bool {
	if len(ps) == 1 {
		return f(ps[0], ps[0])
	}
	for i := 0; i+1 < len(ps); i++ {
		if f(ps[i], ps[i+1]) {
			return true
		}
	}
	return false
}

// Intersects: the polyline meets the closed point set of g.
func Intersects(ln []P, g G) bool {
	for _, r := range g.Rings {
		if segs(ln, func(a, b P) bool { return segs(r, func(c, d P) bool { return SegSeg(a, b, c, d) }) }) {
			return true
		}
	}
	return g.Kind == Poly && Covers(g.Rings, ln[0])
}

// LinesIntersect: two polylines share a point.
func LinesIntersect(l, m []P) bool { return Intersects(l, G{Line, [][]P{m}}) }

// Q is a non-negative rational N/D.
type Q struct{ N, D int64 }

func (q Q) Less(r Q) bool   { return q.N*r.D < r.N*q.D }
func (q Q) LessEq(r Q) bool { return q.N*r.D <= r.N*q.D }
func (q Q) Float() float64  { return float64(q.N) / float64(q.D) }

// PtSeg2: squared distance point - closed segment.
func PtSeg2(a, b, p P) Q {
	l := D2(a, b)
	if l == 0 {
		return Q{D2(a, p), 1}
	}
	t := dot(a, b, p)
	if t <= 0 {
		return Q{D2(a, p), 1}
	}
	if t >= l {
		return Q{D2(b, p), 1}
	}
	c := cross(a, b, p)
	return Q{c * c, l}
}

func SegSeg2(a, b, c, d P) Q {
	if SegSeg(a, b, c, d) {
		return Q{0, 1}
	}
	m := PtSeg2(a, b, c)
	for _, q := range []Q{PtSeg2(a, b, d), PtSeg2(c, d, a), PtSeg2(c, d, b)} {
		if q.Less(m) {
			m = q
		}
	}
	return m
}

// Dist2: squared distance polyline - context geometry.
func Dist2(ln []P, g G) Q {
	if Intersects(ln, g) {
		return Q{0, 1}
	}
	first := true
	var m Q
	for _, r := range g.Rings {
		segs(ln, func(a, b P) bool {
			return segs(r, func(c, d P) bool {
				if q := SegSeg2(a, b, c, d); first || q.Less(m) {
					m, first = q, false
				}
				return false
			})
		})
	}
	return m
}

// SimplePath: no two edges of the polyline share a point, except consecutive ones at their
// common vertex (and, for a closed polyline, the first and last edge at the closing vertex).
func SimplePath(l []P) bool {
	n := len(l) - 1
	for i := 0; i < n; i++ {
		if eq(l[i], l[i+1]) {
			return false
		}
		for j := i + 1; j < n; j++ {
			if !edgePairOK(l, i, j, n) {
				return false
			}
		}
	}
	return true
}

func edgePairOK(l []P, i, j, n int) bool {
	a, b, c, d := l[i], l[i+1], l[j], l[j+1]
	if !SegSeg(a, b, c, d) {
		return true
	}
	if j == i+1 { // share b==c, must not fold back
		if i == 0 && j == n-1 && eq(a, d) {
			return false // a-b-a
		}
		return !(cross(a, b, d) == 0 && dot(b, a, d) > 0)
	}
	if i == 0 && j == n-1 && eq(a, d) { // closed
		return !(cross(b, a, c) == 0 && dot(a, b, c) > 0) && !OnSeg(a, b, c) && !OnSeg(c, d, b)
	}
	return false
}

// ---------------------------------------------------------------------------
// Homotopy oracle: crossing word of a path with upward rays from one representative
// point of every obstacle, reduced in the free group.  Valid for a path that does not
// touch any obstacle, obstacles being connected and simply connected.

type letter struct {
	ob  int
	dir int
}

// Word returns the freely reduced crossing word.
func Word(path []P, obs []P) []int {
	var w []int
	order := make([]int, len(obs))
	for i := range order {
		order[i] = i
	}
	// sort by (x, index)
	for i := 1; i < len(order); i++ {
		for j := i; j > 0 && obs[order[j]].X < obs[order[j-1]].X; j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	push := func(v int) {
		if n := len(w); n > 0 && w[n-1] == -v {
			w = w[:n-1]
		} else {
			w = append(w, v)
		}
	}
	for i := 0; i+1 < len(path); i++ {
		a, b := path[i], path[i+1]
		if a.X == b.X {
			continue
		}
		if a.X < b.X {
			for _, k := range order {
				p := obs[k]
				if a.X <= p.X && p.X < b.X && cross(a, b, p) < 0 { // p below a->b
					push(k + 1)
				}
			}
		} else {
			for q := len(order) - 1; q >= 0; q-- {
				k := order[q]
				p := obs[k]
				if b.X <= p.X && p.X < a.X && cross(b, a, p) < 0 {
					push(-(k + 1))
				}
			}
		}
	}
	return w
}

func SameWord(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Homotopic with fixed end points in the plane minus the representative points.
func Homotopic(a, b []P, obs []P) bool { return SameWord(Word(a, obs), Word(b, obs)) }

// Rep returns a representative point of a geometry.
func (g G) Rep() P { return g.Rings[0][0] }

// ---------------------------------------------------------------------------
// Crossing places of two polylines (float64 positions of exactly decided intersections).

type F struct{ X, Y float64 }
type Place struct{ A, B F } // A==B for a point

func segPlace(a, b, c, d P) (Place, bool) {
	if !SegSeg(a, b, c, d) {
		return Place{}, false
	}
	f := func(p P) F { return F{float64(p.X), float64(p.Y)} }
	if eq(a, b) {
		return Place{f(a), f(a)}, true
	}
	if eq(c, d) {
		return Place{f(c), f(c)}, true
	}
	den := (b.X-a.X)*(d.Y-c.Y) - (b.Y-a.Y)*(d.X-c.X)
	if den == 0 { // collinear overlap
		var ps []P
		for _, p := range []P{a, b} {
			if OnSeg(c, d, p) {
				ps = append(ps, p)
			}
		}
		for _, p := range []P{c, d} {
			if OnSeg(a, b, p) {
				ps = append(ps, p)
			}
		}
		lo, hi := ps[0], ps[0]
		for _, p := range ps {
			if p.X < lo.X || p.X == lo.X && p.Y < lo.Y {
				lo = p
			}
			if p.X > hi.X || p.X == hi.X && p.Y > hi.Y {
				hi = p
			}
		}
		return Place{f(lo), f(hi)}, true
	}
	num := (c.X-a.X)*(d.Y-c.Y) - (c.Y-a.Y)*(d.X-c.X)
	t := float64(num) / float64(den)
	p := F{float64(a.X) + t*float64(b.X-a.X), float64(a.Y) + t*float64(b.Y-a.Y)}
	return Place{p, p}, true
}

// Places where two polylines meet.
func Places(l, m []P) []Place {
	var r []Place
	segs(l, func(a, b P) bool {
		return segs(m, func(c, d P) bool {
			if p, ok := segPlace(a, b, c, d); ok {
				r = append(r, p)
			}
			return false
		})
	})
	return r
}

// Dist from point p to a place.
func (pl Place) Dist(p F) float64 {
	dx, dy := pl.B.X-pl.A.X, pl.B.Y-pl.A.Y
	t := 0.0
	if l := dx*dx + dy*dy; l > 0 {
		t = ((p.X-pl.A.X)*dx + (p.Y-pl.A.Y)*dy) / l
		if t < 0 {
			t = 0
		} else if t > 1 {
			t = 1
		}
	}
	ex, ey := pl.A.X+t*dx-p.X, pl.A.Y+t*dy-p.Y
	return math.Sqrt(ex*ex + ey*ey)
}

// LastEdgeOK: the last edge of an open path touches the edges before it at most at the
// vertex shared with its predecessor.
func LastEdgeOK(l []P) bool {
	m := len(l) - 1
	if m < 1 {
		return true
	}
	a, b := l[m-1], l[m]
	if eq(a, b) {
		return false
	}
	if m > 1 {
		if p := l[m-2]; cross(p, a, b) == 0 && dot(a, p, b) > 0 {
			return false
		}
	}
	for i := 0; i+2 < m; i++ {
		if SegSeg(l[i], l[i+1], a, b) {
			return false
		}
	}
	return true
}
