//go:build c26 || all

package comp

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/TopoSimplify/plugin/lnr"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/props"
	"verifmc/run"
)

// SCase is a line or several.
type SCase struct{ Lines [][]geo.P }

type place struct {
	at   [4]int
	x, y float64
}

// crossings of two edges that are not a vertex of both.
func crossings(l []geo.P, i, j int) []place {
	a, b, c, d := l[i], l[i+1], l[j], l[j+1]
	ps := geo.Places([]geo.P{a, b}, []geo.P{c, d})
	if len(ps) == 0 {
		return nil
	}
	fs := []geo.F{ps[0].A}
	if ps[0].A != ps[0].B {
		fs = append(fs, ps[0].B)
	}
	is := func(f geo.F, p geo.P) bool { return f.X == float64(p.X) && f.Y == float64(p.Y) }
	var r []place
	for _, f := range fs {
		if (is(f, a) || is(f, b)) && (is(f, c) || is(f, d)) {
			continue
		}
		r = append(r, place{[4]int{i, i + 1, j, j + 1}, f.X, f.Y})
	}
	return r
}

func selfCase(k SCase) string {
	if len(k.Lines) > 1 {
		return classCase(k)
	}
	l := k.Lines[0]
	wantV := map[geo.P][]int{}
	for i, p := range l {
		p.T = 0
		wantV[p] = append(wantV[p], i)
	}
	for p, v := range wantV {
		if len(v) < 2 {
			delete(wantV, p)
		}
	}
	var wantX []place
	for i := 0; i+1 < len(l); i++ {
		for j := i + 1; j+1 < len(l); j++ {
			wantX = append(wantX, crossings(l, i, j)...)
		}
	}
	for m := 0; m < 4; m++ {
		gotV := map[geo.P][]int{}
		var gotX []place
		for _, cg := range lnr.SelfIntersection(lib.Pln(l), m&1 > 0, m&2 > 0).DataView() {
			bb := cg.Bounds()
			x, y := bb.MinX, bb.MinY
			switch {
			case cg.IsPlanarVertex():
				p := geo.P{X: int64(math.Round(x)), Y: int64(math.Round(y))}
				if float64(p.X) != x || float64(p.Y) != y || gotV[p] != nil {
					return fmt.Sprintf("vertex group at %v,%v twice or at no vertex", x, y)
				}
				gotV[p] = cg.Meta.Planar
			case cg.IsNonPlanarVertex():
				v := append([]int{}, cg.Meta.NonPlanar...)
				sort.Ints(v)
				if len(v) == 3 { // consecutive edges share the middle one
					v = []int{v[0], v[1], v[1], v[2]}
				}
				if len(v) != 4 {
					return fmt.Sprintf("crossing of vertices %v", v)
				}
				gotX = append(gotX, place{[4]int{v[0], v[1], v[2], v[3]}, x, y})
			default:
				return "neither vertex nor crossing"
			}
		}
		if m&1 > 0 {
			if len(gotV) != len(wantV) {
				return fmt.Sprintf("mode %d: vertex groups %v instead of %v", m, gotV, wantV)
			}
			for p, v := range wantV {
				if !reflect.DeepEqual(gotV[p], v) {
					return fmt.Sprintf("mode %d: vertices %v at %d,%d instead of %v", m, gotV[p], p.X, p.Y, v)
				}
			}
		} else if len(gotV) > 0 {
			return fmt.Sprintf("mode %d: vertex groups %v", m, gotV)
		}
		if m&2 > 0 {
			used := make([]bool, len(gotX))
		next:
			for _, w := range wantX {
				for n, g := range gotX {
					if !used[n] && g.at == w.at && math.Abs(g.x-w.x) < 1e-6 && math.Abs(g.y-w.y) < 1e-6 {
						used[n] = true
						continue next
					}
				}
				return fmt.Sprintf("mode %d: crossing %v is missing in %v", m, w, gotX)
			}
			if len(gotX) != len(wantX) {
				return fmt.Sprintf("mode %d: crossings %v instead of %v", m, gotX, wantX)
			}
		} else if len(gotX) > 0 {
			return fmt.Sprintf("mode %d: crossings %v", m, gotX)
		}
	}
	return ""
}

// classCase: vertices shared in a feature class.
func classCase(k SCase) string {
	var fcs []*lnr.FC
	want := map[int][]int{}
	for i, l := range k.Lines {
		fcs = append(fcs, lnr.NewFC(lib.Coords(l), i))
		for v, p := range l {
			n := 0
			for _, m := range k.Lines {
				for _, q := range m {
					if geo.Eq2(p, q) {
						n++
					}
				}
			}
			if n > 1 {
				want[i] = append(want[i], v)
			}
		}
	}
	got := lnr.FCPlanarSelfIntersection(fcs)
	for i := range got {
		if i < 0 || i >= len(k.Lines) {
			return fmt.Sprintf("unknown feature %d", i)
		}
	}
	for i := range k.Lines {
		g := append([]int{}, got[i]...)
		sort.Ints(g)
		if fmt.Sprint(g) != fmt.Sprint(want[i]) {
			return fmt.Sprintf("feature %d: vertices %v instead of %v", i, g, want[i])
		}
	}
	return ""
}

func init() {
	register(&run.Prop{ID: "C26", Rule: "every line of the grids: groups of equal vertices and crossings of every two edges found by brute force with exact arithmetic, four modes; every pair and triple of lines as a feature class; non-trivial = there is something to find",
		Assumptions: []string{"coordinates of crossings are compared within 1e-6"},
		Replay:      replay(selfCase),
		Run: func(c *run.Ctx) {
			busy := func(l []geo.P) bool {
				for i := range l {
					for j := 0; j < i; j++ {
						if geo.Eq2(l[i], l[j]) {
							return true
						}
					}
				}
				return !geo.SimplePath(l)
			}
			sw := func(f props.Family) {
				c.For(fmt.Sprintf("%v", f), f.Size(), func(i int, t *run.Tally) {
					l, ok := f.At(i, make([]geo.P, 0, 16))
					if ok {
						l = append([]geo.P{}, l...)
						each(c, SCase{[][]geo.P{l}}, busy(l), t, selfCase, "selfintersection")
					}
				})
			}
			sw(props.Grid{N: 3, W: 4, H: 3})
			sw(props.Grid{N: 4, W: 4, H: 3})
			sw(props.Grid{N: 5, W: 3, H: 3})
			sw(props.Grid{N: 6, W: 3, H: 2})
			sw(props.Words{Name: "octo", Steps: props.Eight, L: c.Pick(6, 8), First: true})
			sw(props.Words{Name: "octo", Steps: props.Eight, L: 3, Rep: 5})
			sw(props.Words{Name: "teeth", Steps: props.Teeth, L: 6, Rep: 2})
			sw(props.Dense{Max: c.Pick(40, 120)})
			sw(props.Hubs{Max: c.Pick(100, 300), Step: 5})
			sw(props.Knots{Max: 150, Step: 10})
			sw(props.Knots{Max: c.Pick(300, 600), Step: 25, Cross: true})
			sw(props.Moved{F: props.Grid{N: 4, W: 3, H: 3}, DX: 100000, DY: -54321})
			two := func(f, g props.Grid) {
				n := f.Size()
				c.For(fmt.Sprintf("class of %v and %v", f, g), n*g.Size(), func(i int, t *run.Tally) {
					a, ok := f.At(i%n, nil)
					b, ok2 := g.At(i/n, nil)
					if ok && ok2 {
						each(c, SCase{[][]geo.P{a, b}}, true, t, selfCase, "class")
					}
				})
			}
			two(props.Grid{N: 3, W: 3, H: 3}, props.Grid{N: 3, W: 3, H: 3, Dup: true})
			two(props.Grid{N: 4, W: 3, H: 2, Dup: true}, props.Grid{N: 3, W: 3, H: 2, Dup: true})
			tri := props.Grid{N: 3, W: 2, H: 2}.All(nil)
			n := len(tri)
			c.For("classes of three lines", n*n*n, func(i int, t *run.Tally) {
				each(c, SCase{[][]geo.P{tri[i%n], tri[i/n%n], tri[i/n/n]}}, true, t, selfCase, "class")
			})
			if c.Thorough() {
				sw(props.Grid{N: 6, W: 3, H: 3})
				sw(props.Grid{N: 5, W: 4, H: 3})
				sw(props.Grid{N: 7, W: 3, H: 2})
				two(props.Grid{N: 4, W: 3, H: 3}, props.Grid{N: 3, W: 3, H: 3})
			}
		}})
}
