//go:build c24 || all

package comp

import (
	"fmt"
	"math"
	"sort"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/merge"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/split"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/props"
	"verifmc/run"
)

// PCase is a line cut into pieces and operations on them.
type PCase struct {
	L      []geo.P
	I, J   int // the piece
	At     []int
	K      int // second piece J..K
	Th     float64
	Metric lib.Metric
	Cuts   []int `json:",omitempty"`
	Fixed  []int `json:",omitempty"`
	What   string
}

func pieceCase(k PCase) string {
	id := iter.NewIgen()
	c := lib.Coords(k.L)
	in := &inst{id: 3}
	score, rel := scoreOf(k.Metric)
	sed := k.Metric == lib.SED || k.Metric == lib.SEDSq
	max := func(i, j int) float64 {
		m := 0.0
		for v := i + 1; v < j; v++ {
			m = math.Max(m, props.Offset(k.L, i, j, v, sed))
		}
		return m
	}
	var used []*node.Node
	check := func(nd *node.Node, i, j int) string {
		for _, u := range used {
			if u.Id == nd.Id {
				return fmt.Sprintf("piece %d..%d has the id of another", i, j)
			}
		}
		used = append(used, nd)
		return isPiece(nd, k.L, i, j, in)
	}
	if k.What == "fragments" {
		return fragmentCase(k, id, c, in, score, rel(k.Th), max)
	}
	nd := piece(id, c, k.I, k.J, in)
	if m := check(&nd, k.I, k.J); m != "" {
		return m
	}
	switch k.What {
	case "at":
		arg := append([]int{}, k.At...)
		sub := split.AtIndex(id, &nd, arg, common.Geometry)
		w := wantSplit([2]int{k.I, k.J}, k.At)
		if len(sub) != len(w) {
			return fmt.Sprintf("%d pieces instead of %v", len(sub), w)
		}
		for n := range sub {
			if m := check(&sub[n], w[n][0], w[n][1]); m != "" {
				return m
			}
		}
		if fmt.Sprint(arg) != fmt.Sprint(k.At) {
			return "AtIndex changed the list it was given"
		}
	case "score":
		ha, hb := split.AtScoreSelection(id, &nd, score, common.Geometry)
		v := ha.Range.J
		if v <= k.I || v >= k.J {
			return fmt.Sprintf("cut at %d of %d..%d", v, k.I, k.J)
		}
		if m := check(&ha, k.I, v); m != "" {
			return m
		}
		if m := check(&hb, v, k.J); m != "" {
			return m
		}
		if d, far := props.Offset(k.L, k.I, k.J, v, sed), max(k.I, k.J); d < far-1e-9*(1+far) {
			return fmt.Sprintf("cut at %d with offset %g, the largest is %g", v, d, far)
		}
	case "join":
		b := piece(id, c, k.J, k.K, in)
		used = append(used, &b)
		for n := 0; n < 2; n++ {
			x, y := &nd, &b
			if n == 1 {
				x, y = y, x
			}
			cs := merge.ContiguousCoordinates(x, y)
			if cs.Len() != k.K-k.I+1 {
				return fmt.Sprintf("joined coordinates: %v", cs.Idxs)
			}
			for v := range cs.Idxs {
				if cs.Idxs[v] != k.I+v {
					return fmt.Sprintf("joined coordinates: %v", cs.Idxs)
				}
			}
			ok, m := merge.ContiguousFragmentsAtThreshold(id, score, x, y, rel(k.Th), common.Geometry)
			far := max(k.I, k.K)
			if e := 1e-9 * (1 + far); ok && far > k.Th+e || !ok && far < k.Th-e || !ok && far == 0 && k.Metric == lib.DP {
				return fmt.Sprintf("join is %v with offset %g, threshold %g", ok, far, k.Th)
			}
			if ok {
				if m := check(&m, k.I, k.K); m != "" {
					return m
				}
			}
		}
		if m := isPiece(&b, k.L, k.J, k.K, in); m != "" {
			return "after joining: " + m
		}
	}
	if m := isPiece(&nd, k.L, k.I, k.J, in); m != "" {
		return "afterwards: " + m
	}
	return ""
}

// fragmentCase: the fragments of a cut line are merged by size.
func fragmentCase(k PCase, id *iter.Igen, c geom.Coords, in *inst, score lnr.ScoreFn, valid func(float64) bool, far func(i, j int) float64) string {
	var ns []node.Node
	a := 0
	for _, b := range k.Cuts {
		ns = append(ns, piece(id, c, a, b, in))
		a = b
	}
	fixed := map[int]bool{}
	for _, v := range k.Fixed {
		fixed[v] = true
	}
	db := hdb.NewHdb()
	db.Load(ns)
	keep, rm := merge.ContiguousFragmentsBySize(id, ns, db, fixed, map[[2]int]*node.Node{}, 1, valid, score, common.Geometry)
	old := map[[2]int]bool{}
	for i := range ns {
		old[ns[i].Range.AsArray()] = true
		if m := isPiece(&ns[i], k.L, ns[i].Range.I, ns[i].Range.J, in); m != "" {
			return "afterwards: " + m
		}
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].Range.I < keep[j].Range.I })
	gone := map[[2]int]bool{}
	for _, n := range rm {
		r := n.Range.AsArray()
		if !old[r] || gone[r] {
			return fmt.Sprintf("%v removed but not there", r)
		}
		gone[r] = true
	}
	at := 0
	kept := map[[2]int]bool{}
	for _, n := range keep {
		r := n.Range.AsArray()
		if r[0] != at {
			return fmt.Sprintf("pieces do not follow each other at %d: %v", at, r)
		}
		at = r[1]
		kept[r] = true
		if m := isPiece(n, k.L, r[0], r[1], in); m != "" {
			return m
		}
		if old[r] {
			if gone[r] {
				return fmt.Sprintf("%v removed and kept", r)
			}
			continue
		}
		// joined of two, one of them a fragment
		ok := false
		for v := r[0] + 1; v < r[1]; v++ {
			x, y := [2]int{r[0], v}, [2]int{v, r[1]}
			if old[x] && old[y] && gone[x] && gone[y] && !fixed[v] && (v == r[0]+1 || v == r[1]-1) {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("%v is not a piece joined with one of its fragments", r)
		}
		if f := far(r[0], r[1]); f > k.Th+1e-9*(1+k.Th) {
			return fmt.Sprintf("%v joined with offset %g, threshold %g", r, f, k.Th)
		}
	}
	if at != len(k.L)-1 {
		return fmt.Sprintf("pieces end at %d", at)
	}
	for r := range old {
		if !kept[r] && !gone[r] {
			return fmt.Sprintf("%v neither kept nor removed", r)
		}
	}
	// two neighbours left, one a fragment, that could have been joined
	for i := 0; i+1 < len(keep); i++ {
		x, y := keep[i].Range.AsArray(), keep[i+1].Range.AsArray()
		if old[x] && old[y] && !fixed[y[0]] && (x[1]-x[0] == 1 || y[1]-y[0] == 1) {
			if f := far(x[0], y[1]); f < k.Th-1e-9*(1+k.Th) {
				return fmt.Sprintf("%v and %v not joined with offset %g, threshold %g", x, y, f, k.Th)
			}
		}
	}
	return ""
}

func init() {
	metrics := []lib.Metric{lib.DP, lib.DPSq, lib.SED, lib.SEDSq}
	register(&run.Prop{ID: "C24", Rule: "every piece of every line of the grids: cut at every list of indices, cut at its farthest vertex, joined with every piece that follows it (both argument orders, several thresholds and metrics); every way to cut a line into pieces with every set of fixed vertices, fragments merged by size; non-trivial = the piece has interior vertices",
		Assumptions: []string{"third coordinates increase along a line"},
		Replay:      replay(pieceCase),
		Run: func(c *run.Ctx) {
			fams := []props.Family{props.Grid{N: 4, W: 3, H: 2, Dup: true}, props.Grid{N: 5, W: 2, H: 2, Dup: true}, props.Grid{N: 5, W: 3, H: 2}, props.Words{Name: "octo", Steps: props.Eight, L: c.Pick(4, 6), First: true}}
			if c.Thorough() {
				fams = append(fams, props.Grid{N: 5, W: 3, H: 3}, props.Grid{N: 6, W: 3, H: 2})
			}
			for _, f := range fams {
				c.For(fmt.Sprintf("pieces of %v", f), f.Size(), func(i int, t *run.Tally) {
					l, ok := f.At(i, make([]geo.P, 0, 16))
					if !ok {
						return
					}
					l = append([]geo.P{}, l...)
					n := len(l) - 1
					for a := 0; a < n; a++ {
						for b := a + 1; b <= n; b++ {
							long := b-a > 1
							for m := 0; m < 1<<uint(n+1); m++ {
								var at []int
								for v := n; v >= 0; v-- {
									if m>>uint(v)&1 > 0 {
										at = append(at, v)
									}
								}
								if m&1 > 0 && len(at) > 1 {
									at = append(at, at[0])
								}
								each(c, PCase{L: l, I: a, J: b, At: at, What: "at"}, long, t, pieceCase, "piece")
							}
							for _, m := range metrics {
								if long {
									each(c, PCase{L: l, I: a, J: b, Metric: m, What: "score"}, true, t, pieceCase, "piece")
								}
								for k := b + 1; k <= n; k++ {
									for _, th := range []float64{0, 0.9, 1.3} {
										each(c, PCase{L: l, I: a, J: b, K: k, Th: th, Metric: m, What: "join"}, true, t, pieceCase, "piece")
									}
								}
							}
						}
					}
				})
			}
			fr := func(f props.Family, nv int, ms ...lib.Metric) {
				masks := 1 << uint(nv-2)
				c.For(fmt.Sprintf("fragments of %v", f), f.Size()*masks, func(i int, t *run.Tally) {
					l, ok := f.At(i/masks, make([]geo.P, 0, 16))
					if !ok {
						return
					}
					l = append([]geo.P{}, l...)
					for fx := 0; fx < masks; fx++ {
						if fx&^(i%masks) != 0 {
							continue // fixed vertices inside pieces do not matter
						}
						var fixed []int
						for v := 1; v < nv-1; v++ {
							if fx>>uint(v-1)&1 > 0 {
								fixed = append(fixed, v)
							}
						}
						for _, m := range ms {
							for _, th := range []float64{0.6, 1.2} {
								each(c, PCase{L: l, Cuts: cuts(nv, i%masks), Fixed: fixed, Th: th, Metric: m, What: "fragments"}, true, t, pieceCase, "fragments")
							}
						}
					}
				})
			}
			fr(props.Grid{N: 4, W: 3, H: 3, Dup: true}, 4, metrics...)
			fr(props.Grid{N: 5, W: 3, H: 2}, 5, lib.DP, lib.SED)
			fr(props.Words{Name: "octo", Steps: props.Eight, L: 5, First: true}, 6, lib.DP)
			if c.Thorough() {
				fr(props.Grid{N: 5, W: 3, H: 3}, 5, metrics...)
				fr(props.Grid{N: 6, W: 3, H: 2}, 6, lib.DP, lib.SED)
			}
		}})
}
