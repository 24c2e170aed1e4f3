//go:build c22 || all

package comp

import (
	"fmt"
	"math"

	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/knn"
	"github.com/TopoSimplify/plugin/node"
	"github.com/intdxdt/iter"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/props"
	"verifmc/run"
)

// NCase queries objects (Objs) with the hull of Query, or the pieces of Line.
type NCase struct {
	Objs  []geo.G   `json:",omitempty"`
	Query []geo.P   `json:",omitempty"`
	Lines [][]geo.P `json:",omitempty"`
	Cuts  [][]int   `json:",omitempty"` // per line: indices where its pieces end
	Dist  float64
}

// within tells whether sqrt(q) <= d must hold, must not hold; on ties of inexact roots both.
func within(q geo.Q, d float64) (may, mayNot bool) {
	v := math.Sqrt(q.Float())
	if q.N == 0 || q.N == int64(d)*int64(d)*q.D && q.D == 1 && int64(d)*int64(d) == q.N && float64(int64(d)) == d {
		return v <= d, v > d // integer distances are exact
	}
	e := 1e-9 * (1 + d)
	return v <= d+e, v > d-e
}

func nearCase(k NCase) string {
	if len(k.Lines) > 0 {
		return pieceNeighbours(k)
	}
	db := hdb.NewHdb()
	ns := make([]node.Node, 0, len(k.Objs))
	for i, g := range k.Objs {
		cg := context(g)
		ns = append(ns, node.Node{Id: i, MBR: cg.Bounds(), Geom: cg})
	}
	db.Load(ns)
	q := hullOf(k.Query)
	hull := piece(iter.NewIgen(), lib.Coords(k.Query), 0, len(k.Query)-1, nil)
	got := knn.ContextNeighbours(db, hull.Geom, k.Dist)
	return compare(len(ns), ids(got), func(i int) (bool, bool) { return within(dist2(q, k.Objs[i]), k.Dist) })
}

func ids(ns []*node.Node) []int {
	var r []int
	for _, n := range ns {
		if n == nil {
			r = append(r, -1)
		} else {
			r = append(r, n.Id)
		}
	}
	return r
}

func compare(n int, got []int, want func(i int) (may, mayNot bool)) string {
	has := map[int]bool{}
	for _, i := range got {
		if i < 0 || i >= n {
			return fmt.Sprintf("unknown neighbour %d", i)
		}
		if has[i] {
			return fmt.Sprintf("neighbour %d twice", i)
		}
		has[i] = true
	}
	for i := 0; i < n; i++ {
		may, mayNot := want(i)
		if has[i] && !may {
			return fmt.Sprintf("%d is no neighbour", i)
		}
		if !has[i] && !mayNot {
			return fmt.Sprintf("neighbour %d is missing", i)
		}
	}
	return ""
}

func pieceNeighbours(k NCase) string {
	id := iter.NewIgen()
	var ns []node.Node
	var hs []geo.G
	for i, l := range k.Lines {
		in := &inst{id: i}
		c := lib.Coords(l)
		a := 0
		for _, b := range k.Cuts[i] {
			ns = append(ns, piece(id, c, a, b, in))
			hs = append(hs, hullOf(l[a:b+1]))
			a = b
		}
	}
	num := map[int]int{}
	for i := range ns {
		if _, ok := num[ns[i].Id]; ok {
			return "two pieces with one id"
		}
		num[ns[i].Id] = i
	}
	db := hdb.NewHdb()
	db.Load(ns)
	for i := range ns {
		var got []int
		for _, o := range knn.NodeNeighbours(db, &ns[i], k.Dist) {
			j, ok := num[o.Id]
			if !ok {
				return "unknown neighbour"
			}
			got = append(got, j)
		}
		bi := boxOf(hs[i])
		m := compare(len(ns), got, func(j int) (bool, bool) {
			if i == j || !bi.meets(boxOf(hs[j])) {
				return false, true
			}
			return within(dist2(hs[i], hs[j]), k.Dist)
		})
		if m != "" {
			return fmt.Sprintf("pieces around %d: %s", i, m)
		}
		if len(k.Lines) == 1 { // the pieces before and after
			var want [2]*node.Node
			all := knn.NodeNeighbours(db, &ns[i], k.Dist)
			for _, o := range all {
				if j := num[o.Id]; j == i-1 {
					want[0] = o
				} else if j == i+1 {
					want[1] = o
				}
			}
			prev, next := node.Neighbours(&ns[i], all)
			if prev != want[0] || next != want[1] || (prev == nil) != (i == 0) || (next == nil) != (i == len(ns)-1) {
				return fmt.Sprintf("pieces next to %d: %v %v", i, prev, next)
			}
		}
	}
	return ""
}

func init() {
	register(&run.Prop{ID: "C22", Rule: "every query hull of a grid against every set of one to three objects and larger sets over several index nodes, several distances; every way to cut lines of a grid into pieces, every piece queried; neighbours compared with exact distances; non-trivial = more than one object or piece",
		Assumptions: []string{"integer coordinates; distances equal to the limit within 1e-9 but not by an integer may go both ways"},
		Replay:      replay(nearCase),
		Run: func(c *run.Ctx) {
			exec := func(k NCase, t *run.Tally) {
				c.Now(func() interface{} { return k })
				m := safe(func() string { return nearCase(k) })
				t.States++
				t.Trans++
				t.Traces++
				t.Evals++
				if len(k.Objs) > 1 || len(k.Lines) > 0 {
					t.Nontriv++
					if c.WantSample() {
						c.Sample(k)
					}
				}
				if m != "" {
					kind := "neighbours"
					if len(m) > 5 && m[:5] == "panic" {
						kind = "panic"
					}
					c.Fail(kind, m, k)
				}
			}
			objs := objects()
			var queries [][]geo.P
			seen := map[string]bool{}
			g := props.Grid{N: 3, W: 4, H: 4, Dup: true}
			for i := 0; i < g.Size(); i++ {
				l, _ := g.At(i, nil)
				h := hullOf(l)
				if s := fmt.Sprint(h); !seen[s] {
					seen[s] = true
					queries = append(queries, append([]geo.P{}, l...))
				}
			}
			dists := []float64{0, 0.4, 1, 1.3, 2.6}
			n := len(objs)
			c.For(fmt.Sprintf("%d queries x %d objects x distances", len(queries), n), len(queries)*n*len(dists), func(i int, t *run.Tally) {
				exec(NCase{Query: queries[i%len(queries)], Objs: objs[i/len(queries)%n : i/len(queries)%n+1], Dist: dists[i/len(queries)/n]}, t)
			})
			c.For("queries x sets of 3 objects", len(queries)*n*n*n, func(i int, t *run.Tally) {
				d := digits(i/len(queries), n, 3)
				if d[0] > d[1] || d[1] > d[2] {
					return
				}
				exec(NCase{Query: queries[i%len(queries)], Objs: []geo.G{objs[d[0]], objs[d[1]], objs[d[2]]}, Dist: dists[(d[0]+d[1]+d[2])%len(dists)]}, t)
			})
			// several index nodes
			c.For("queries x large sets of objects", len(queries)*24*len(dists), func(i int, t *run.Tally) {
				q := queries[i%len(queries)]
				i /= len(queries)
				d := dists[i%len(dists)]
				v := i / len(dists)
				size := []int{8, 9, 13, 20, 40, 75}[v%6]
				var os []geo.G
				for j := 0; j < size; j++ {
					o := objs[(j*(1+v/6)+v)%n]
					dx, dy := int64(j*5%17-6), int64(j*7%13-5)
					if v/6 == 2 {
						dx, dy = int64(j%5), int64(j/5)
					}
					if v/6 == 3 {
						dx, dy = 0, 0
					}
					os = append(os, shiftG(o, dx, dy))
				}
				exec(NCase{Query: q, Objs: os, Dist: d}, t)
			})
			piecesOf := func(f props.Family, nv int) {
				masks := 1 << uint(nv-2)
				c.For(fmt.Sprintf("pieces of %v", f), f.Size()*masks, func(i int, t *run.Tally) {
					l, ok := f.At(i/masks, make([]geo.P, 0, 16))
					if !ok {
						return
					}
					for _, d := range []float64{knn.EpsilonDist, 0.8} {
						exec(NCase{Lines: [][]geo.P{l}, Cuts: [][]int{cuts(nv, i%masks)}, Dist: d}, t)
					}
				})
			}
			piecesOf(props.Grid{N: 4, W: 3, H: 3, Dup: true}, 4)
			piecesOf(props.Grid{N: 5, W: 3, H: 2}, 5)
			piecesOf(props.Words{Name: "octo", Steps: props.Eight, L: c.Pick(5, 6), First: true}, c.Pick(6, 7))
			if c.Thorough() {
				piecesOf(props.Grid{N: 5, W: 3, H: 3}, 5)
			}
			two := props.Grid{N: 3, W: 3, H: 3}
			c.For("pieces of two lines", two.Size()*two.Size(), func(i int, t *run.Tally) {
				a, ok := two.At(i%two.Size(), nil)
				b, ok2 := two.At(i/two.Size(), nil)
				if ok && ok2 {
					exec(NCase{Lines: [][]geo.P{a, b}, Cuts: [][]int{cuts(3, i&1), cuts(3, i>>1&1)}, Dist: knn.EpsilonDist}, t)
				}
			})
			long := props.Words{Name: "teeth", Steps: props.Teeth, L: 3, Rep: 8}
			c.For("pieces of long lines", long.Size()*3, func(i int, t *run.Tally) {
				l, ok := long.At(i/3, nil)
				if !ok {
					return
				}
				var cs []int
				for j := i%3 + 1; j < len(l)-1; j += i%3 + 1 {
					cs = append(cs, j)
				}
				exec(NCase{Lines: [][]geo.P{l}, Cuts: [][]int{append(cs, len(l)-1)}, Dist: knn.EpsilonDist}, t)
			})
		}})
}
