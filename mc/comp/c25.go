//go:build c25 || all

package comp

import (
	"fmt"
	"math"
	"reflect"

	"github.com/TopoSimplify/plugin/dp"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/intdxdt/iter"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/props"
	"verifmc/run"
)

// DCase decomposes a line.
type DCase struct {
	L      []geo.P
	Th     float64
	Metric lib.Metric
}

func decompCase(k DCase) string {
	n := len(k.L) - 1
	sed := k.Metric == lib.SED || k.Metric == lib.SEDSq
	sqr := k.Metric == lib.SEDSq || k.Metric == lib.DPSq
	score, _ := scoreOf(k.Metric)
	// the offset of the whole line
	at, v := score(lib.Coords(k.L))
	if n <= 1 {
		if at != n || v != 0 {
			return fmt.Sprintf("offset of a segment: %d %g", at, v)
		}
	} else {
		if at <= 0 || at >= n {
			return fmt.Sprintf("offset at vertex %d", at)
		}
		far := 0.0
		for i := 1; i < n; i++ {
			far = math.Max(far, props.Offset(k.L, 0, n, i, sed))
		}
		d := props.Offset(k.L, 0, n, at, sed)
		if sqr {
			v = math.Sqrt(v)
		}
		if e := 1e-7 * (1 + far); math.Abs(v-far) > e || math.Abs(d-far) > e {
			return fmt.Sprintf("offset %g at %d (%g), the largest is %g", v, at, d, far)
		}
	}
	id := iter.NewIgen()
	var sq []lnr.ScoreFn
	first := score
	if sqr {
		sq = append(sq, score)
		first, _ = scoreOf(k.Metric - 1)
	}
	x := dp.New(7, lib.Pln(k.L), &lib.Opts{Threshold: k.Th}, first, sq...).Simplify(id)
	var idx []int
	seen := map[int]bool{}
	for i := range x.Hulls {
		h := &x.Hulls[i]
		if i == 0 {
			idx = append(idx, h.Range.I)
		} else if idx[len(idx)-1] != h.Range.I {
			return fmt.Sprintf("piece %v after vertex %d", h.Range, idx[len(idx)-1])
		}
		idx = append(idx, h.Range.J)
		if seen[h.Id] {
			return "two pieces with one id"
		}
		seen[h.Id] = true
		if m := isPiece(h, k.L, h.Range.I, h.Range.J, x); m != "" {
			return m
		}
	}
	if s := x.Simple(); !reflect.DeepEqual(s, idx) {
		return fmt.Sprintf("simple vertices %v of pieces %v", s, idx)
	}
	for _, o := range props.Decompositions(k.L, k.Th, sed, k.Metric == lib.DP) {
		if reflect.DeepEqual(o, idx) {
			return ""
		}
	}
	return fmt.Sprintf("pieces end at %v, the reference algorithm gives %v", idx, props.Decompositions(k.L, k.Th, sed, k.Metric == lib.DP))
}

func init() {
	metrics := []lib.Metric{lib.DP, lib.DPSq, lib.SED, lib.SEDSq}
	register(&run.Prop{ID: "C25", Rule: "every line of the grids x thresholds x metrics: offset function against exact offsets, decomposition against all outcomes of the reference algorithm; non-trivial = more than two vertices",
		Assumptions: []string{"third coordinates increase along a line", "offsets equal within 1e-9 count as ties"},
		Replay:      replay(decompCase),
		Run: func(c *run.Ctx) {
			sw := func(f props.Family, ms []lib.Metric, ths ...float64) {
				c.For(fmt.Sprintf("%v x %d metrics x %v", f, len(ms), ths), f.Size(), func(i int, t *run.Tally) {
					l, ok := f.At(i, make([]geo.P, 0, 16))
					if !ok {
						return
					}
					l = append([]geo.P{}, l...)
					for _, m := range ms {
						if i%2 == 1 && (m == lib.SED || m == lib.SEDSq) { // uneven times
							for v := 1; v < len(l); v++ {
								l[v].T = l[v-1].T + int64(1+v*v%5)
							}
						}
						for _, th := range ths {
							each(c, DCase{L: l, Th: th, Metric: m}, len(l) > 2, t, decompCase, "decomposition")
						}
					}
				})
			}
			two := []lib.Metric{lib.DP, lib.SED}
			sw(props.Grid{N: 2, W: 4, H: 4, Dup: true}, metrics, 0, 1)
			sw(props.Grid{N: 3, W: 5, H: 4, Dup: true}, metrics, 0, 0.4, 0.9, 1.5, 2.5)
			sw(props.Grid{N: 4, W: 3, H: 3, Dup: true}, metrics, 0.4, 0.8, 1.1, 1.7)
			sw(props.Grid{N: 5, W: 3, H: 3}, two, 0.6, 1.1)
			sw(props.Words{Name: "teeth", Steps: props.Teeth, L: 6}, two, 0.7, 1.3, 2.6)
			sw(props.Words{Name: "teeth", Steps: props.Teeth, L: 3, Rep: 4}, metrics, 0.7, 1.3, 2.6)
			sw(props.Outlier{Sizes: []int{1100, 600, 300}}, two, 3)
			sw(props.Moved{F: props.Grid{N: 4, W: 3, H: 3}, DX: 100000, DY: -54321}, two, 0.6, 1.1)
			if c.Thorough() {
				sw(props.Grid{N: 5, W: 3, H: 3, Dup: true}, metrics, 0.6, 1.1, 1.6)
				sw(props.Grid{N: 6, W: 3, H: 3}, two, 0.6, 1.1)
				sw(props.Words{Name: "teeth", Steps: props.Teeth, L: 8}, two, 0.7, 1.3, 2.6)
			}
		}})
}
