// Package lib drives the real simplifier through its exported Go API.
package lib

import (
	"fmt"

	"verifmc/geo"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

type Opts = opts.Opts

// Metric selects the score functions handed to the simplifier.
type Metric int

const (
	DP    Metric = iota // MaxOffset only (as the command line does)
	DPSq                // MaxOffset + SquareMaxOffset
	SED                 // MaxSEDOffset only (as the command line does)
	SEDSq               // MaxSEDOffset + SqureMaxSEDOffset
)

func (m Metric) String() string { return [...]string{"DP", "DP+sq", "SED", "SED+sq"}[m] }

// Unit and Shift place the integer grid of the cases in the plane (see props.Place).
var Unit, TimeUnit = 1.0, 1.0
var Shift [3]float64

// XY is where a grid vertex lies.
func XY(p geo.P) (x, y float64) {
	return float64(p.X)*Unit + Shift[0], float64(p.Y)*Unit + Shift[1]
}

// Time is the third coordinate of a grid vertex.
func Time(p geo.P) float64 { return float64(p.T)*TimeUnit + Shift[2] }

func Coords(l []geo.P) geom.Coords {
	ps := make([]geom.Point, len(l))
	for i, p := range l {
		x, y := XY(p)
		ps[i] = geom.Point{x, y, Time(p)}
	}
	return geom.Coordinates(ps)
}

func Pln(l []geo.P) *geometry.Polyline {
	return geometry.CreatePolyline("idx:0-pos:0", Coords(l), "null")
}

func IGeom(g geo.G) geometry.IGeometry {
	switch g.Kind {
	case geo.Pt:
		x, y := XY(g.Rings[0][0])
		return geometry.CreatePoint("0", []float64{x, y}, "")
	case geo.Line:
		return geometry.CreatePolyline("0", Coords(g.Rings[0]), "")
	}
	var cs []geom.Coords
	for _, r := range g.Rings {
		cs = append(cs, Coords(r))
	}
	return geometry.CreatePolygon("0", cs, "")
}

func IGeoms(gs []geo.G) []geometry.IGeometry {
	r := make([]geometry.IGeometry, 0, len(gs))
	for _, g := range gs {
		r = append(r, IGeom(g))
	}
	return r
}

func New(id int, l []geo.P, cons []geometry.IGeometry, o *Opts, m Metric) *constdp.ConstDP {
	var sq []lnr.ScoreFn
	var sc lnr.ScoreFn = offset.MaxOffset
	switch m {
	case DPSq:
		sq = append(sq, offset.SquareMaxOffset)
	case SED:
		sc = offset.MaxSEDOffset
	case SEDSq:
		sc = offset.MaxSEDOffset
		sq = append(sq, offset.SqureMaxSEDOffset)
	}
	return constdp.NewConstDP(id, Pln(l), cons, o, sc, sq...)
}

// Simple indices of an instance.
func Simple(c *constdp.ConstDP) []int {
	var r []int
	for _, v := range c.SimpleSet.Values() {
		r = append(r, v.(int))
	}
	return r
}

// One simplifies a single polyline.
func One(l []geo.P, cons []geometry.IGeometry, o Opts, m Metric) (idx []int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	id := iter.NewIgen()
	c := New(id.Next(), l, cons, &o, m)
	c.Simplify(id)
	return Simple(c), nil
}

// FC simplifies a feature class.
func FC(ls [][]geo.P, cons []geometry.IGeometry, o Opts, m Metric) (idx [][]int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	id := iter.NewIgen()
	var fs []*constdp.ConstDP
	for _, l := range ls {
		fs = append(fs, New(id.Next(), l, cons, &o, m))
	}
	constdp.SimplifyFeatureClass(id, fs, &o)
	for _, f := range fs {
		idx = append(idx, Simple(f))
	}
	return idx, nil
}

func Sub(l []geo.P, idx []int) []geo.P {
	r := make([]geo.P, len(idx))
	for i, k := range idx {
		r[i] = l[k]
	}
	return r
}

// Instances simplifies lines together, not as a feature class.
func Instances(ls [][]geo.P, cons []geometry.IGeometry, o Opts, m Metric) (idx [][]int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	id := iter.NewIgen()
	var fs []*constdp.ConstDP
	for _, l := range ls {
		fs = append(fs, New(id.Next(), l, cons, &o, m))
	}
	constdp.SimplifyInstances(id, fs, map[int][]int{})
	for _, f := range fs {
		idx = append(idx, Simple(f))
	}
	return idx, nil
}

// History simplifies the same instances several times, changing the options in place, and
// compares the last result with fresh instances.  "" = agreed; a leading "+" marks a history
// whose last step changed the result.
func History(ls [][]geo.P, cons []geometry.IGeometry, os []Opts, fc []bool, put [][]geometry.IGeometry) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	id := iter.NewIgen()
	var o Opts
	var fs []*constdp.ConstDP
	for _, l := range ls {
		fs = append(fs, New(id.Next(), l, cons, &o, DP))
	}
	do := func(fs []*constdp.ConstDP, o *Opts, class bool) string {
		if class {
			constdp.SimplifyFeatureClass(id, fs, o)
		} else {
			for _, f := range fs {
				f.Simplify(id)
			}
		}
		var r [][]int
		for _, f := range fs {
			r = append(r, Simple(f))
		}
		return fmt.Sprint(r)
	}
	var prev, last string
	for i := range os {
		o = os[i]
		if put != nil {
			if cons = put[i]; i > 0 {
				for _, f := range fs {
					f.BuildContextDB(cons)
				}
			}
		}
		prev, last = last, do(fs, &o, fc[i])
	}
	n := len(os) - 1
	p := os[n]
	var fresh []*constdp.ConstDP
	for _, l := range ls {
		fresh = append(fresh, New(id.Next(), l, cons, &p, DP))
	}
	want := do(fresh, &p, fc[n])
	mark := ""
	if n > 0 && prev != last {
		mark = "+"
	}
	if want != last {
		return mark + fmt.Sprintf("after %d simplifications %s, fresh %s", n+1, last, want)
	}
	return mark
}
