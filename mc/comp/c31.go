//go:build c31 || all

package comp

import (
	"fmt"
	"reflect"
	"sort"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/props"
	"verifmc/run"

	"github.com/TopoSimplify/plugin/constrain"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/intdxdt/iter"
)

// VCase cuts the pieces of a line at its self-intersections and at further vertices.
type VCase struct {
	L     []geo.P
	Cuts  []int
	Mode  int // bit 0 planar, bit 1 non-planar
	Const []int
}

func vertexCase(k VCase) string {
	id := iter.NewIgen()
	in := &inst{id: 4}
	pln := lib.Pln(k.L)
	n := len(k.L) - 1
	nodes, want := piecesOf(id, k.L, k.Cuts, in)
	found := map[int]bool{}
	if k.Mode&1 > 0 {
		for i := range k.L {
			for j := range k.L {
				if i != j && geo.Eq2(k.L[i], k.L[j]) {
					found[i] = true
				}
			}
		}
	}
	if k.Mode&2 > 0 {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if crosses(k.L, i, j) {
					found[i], found[i+1], found[j], found[j+1] = true, true, true, true
				}
			}
		}
	}
	if k.Mode > 0 {
		for _, v := range k.Const {
			found[v] = true
		}
	}
	var verts []int
	for v := range found {
		verts = append(verts, v)
		want[v] = true
	}
	sort.Ints(verts)
	arg := append([]int{}, k.Const...)
	got, _, idx := constrain.ToSelfIntersects(id, nodes, pln, &opts.Opts{PlanarSelf: k.Mode&1 > 0, NonPlanarSelf: k.Mode&2 > 0}, arg)
	if len(idx) != len(verts) || len(idx) > 0 && !reflect.DeepEqual(idx, verts) {
		return fmt.Sprintf("vertices %v instead of %v", idx, verts)
	}
	if fmt.Sprint(arg) != fmt.Sprint(k.Const) {
		return "the list of vertices was changed"
	}
	ids := map[int]bool{}
	at := 0
	for i := range got {
		p := &got[i]
		if p.Range.I != at {
			return fmt.Sprintf("piece %v after vertex %d", p.Range, at)
		}
		if m := isPiece(p, k.L, p.Range.I, p.Range.J, in); m != "" {
			return m
		}
		for v := p.Range.I + 1; v < p.Range.J; v++ {
			if want[v] {
				return fmt.Sprintf("piece %v is not cut at %d", p.Range, v)
			}
		}
		if at = p.Range.J; !want[at] {
			return fmt.Sprintf("cut at %d", at)
		}
		if ids[p.Id] {
			return "two pieces with one id"
		}
		ids[p.Id] = true
	}
	if at != n {
		return fmt.Sprintf("pieces end at %d", at)
	}
	return ""
}

// crosses: edges i and j share a place that is not a vertex of both.
func crosses(l []geo.P, i, j int) bool {
	a, b, c, d := l[i], l[i+1], l[j], l[j+1]
	ps := geo.Places([]geo.P{a, b}, []geo.P{c, d})
	if len(ps) == 0 {
		return false
	}
	is := func(f geo.F, p geo.P) bool { return f.X == float64(p.X) && f.Y == float64(p.Y) }
	for _, f := range []geo.F{ps[0].A, ps[0].B} {
		if !((is(f, a) || is(f, b)) && (is(f, c) || is(f, d))) {
			return true
		}
	}
	return false
}

func init() {
	register(&run.Prop{ID: "C31", Rule: "every line of the grids, every way to cut it into pieces, four modes and sets of further vertices: the pieces cut at the self-intersections against exact crossings and coincidences; non-trivial = there is something to cut at",
		Replay: replay(vertexCase),
		Run: func(c *run.Ctx) {
			sw := func(f props.Family, nv int, consts func(n int) [][]int) {
				masks := 1 << uint(nv-2)
				c.For(fmt.Sprintf("%v x %d cuts", f, masks), f.Size()*masks, func(i int, t *run.Tally) {
					l, ok := f.At(i/masks, make([]geo.P, 0, 16))
					if !ok {
						return
					}
					l = append([]geo.P{}, l...)
					for m := 0; m < 4; m++ {
						for _, v := range consts(nv) {
							each(c, VCase{L: l, Cuts: cuts(nv, i%masks), Mode: m, Const: v}, m > 0, t, vertexCase, "vertices")
						}
					}
				})
			}
			subsets := func(n int) [][]int {
				r := [][]int{nil}
				for m := 1; m < 1<<uint(n); m++ {
					var s []int
					for v := 0; v < n; v++ {
						if m>>uint(v)&1 > 0 {
							s = append(s, v)
						}
					}
					r = append(r, s)
				}
				return r
			}
			some := func(n int) [][]int { return [][]int{nil, {n / 2}, {n - 1, 1, 0}} }
			none := func(n int) [][]int { return [][]int{nil} }
			sw(props.Grid{N: 4, W: 3, H: 3, Dup: true}, 4, subsets)
			sw(props.Grid{N: 5, W: 3, H: 2, Dup: true}, 5, some)
			sw(props.Grid{N: 5, W: 3, H: 3}, 5, none)
			sw(props.Words{Name: "octo", Steps: props.Eight, L: c.Pick(5, 6), First: true}, c.Pick(6, 7), some)
			long := func(f props.Family) {
				c.For(fmt.Sprintf("%v in long pieces", f), f.Size()*4, func(i int, t *run.Tally) {
					l, ok := f.At(i/4, make([]geo.P, 0, 32))
					if !ok {
						return
					}
					var cs []int
					for v := 3 + i%4; v < len(l)-1; v += 2 + i%4 {
						cs = append(cs, v)
					}
					for m := 1; m < 4; m++ {
						each(c, VCase{L: append([]geo.P{}, l...), Cuts: append(cs, len(l)-1), Mode: m, Const: []int{2, len(l) - 1}}, true, t, vertexCase, "vertices")
					}
				})
			}
			long(props.Words{Name: "octo", Steps: props.Eight, L: 3, Rep: 6})
			long(props.Words{Name: "teeth", Steps: props.Teeth, L: 4, Rep: 4})
			long(props.Dense{Max: c.Pick(30, 90)})
			long(props.Hubs{Max: c.Pick(80, 200), Step: 10})
			long(props.Knots{Max: 100, Step: 5})
			if c.Thorough() {
				sw(props.Grid{N: 5, W: 3, H: 3, Dup: true}, 5, subsets)
				sw(props.Grid{N: 6, W: 3, H: 2}, 6, some)
				sw(props.Grid{N: 6, W: 3, H: 3}, 6, none)
				long(props.Words{Name: "octo", Steps: props.Eight, L: 5, Rep: 3})
			}
		}})
}
