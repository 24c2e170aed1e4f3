//go:build c32 || all

package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/intdxdt/iter"
	"github.com/intdxdt/mbr"
)

// tileCase simplifies lines (alone, together or as a class) with vertices given as fixed.
type tileCase struct {
	Lines  [][]geo.P
	Cons   []geo.G
	Opt    lib.Opts
	Metric lib.Metric
	Way    string // alone, together, class
	Fixed  [][]int
}

// tileRun is the complaint and whether a vertex was dropped.
func tileRun(k tileCase) (msg string, dropped bool) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	id := iter.NewIgen()
	o := k.Opt
	cons := lib.IGeoms(k.Cons)
	var fs []*constdp.ConstDP
	fixed := map[int][]int{}
	for i, l := range k.Lines {
		f := lib.New(id.Next(), l, cons, &o, k.Metric)
		fs = append(fs, f)
		if i < len(k.Fixed) {
			fixed[f.Id()] = append([]int{}, k.Fixed[i]...)
		}
	}
	switch k.Way {
	case "alone":
		for _, f := range fs {
			if v, ok := fixed[f.Id()]; ok {
				f.Simplify(id, v)
			} else {
				f.Simplify(id)
			}
		}
	case "together":
		constdp.SimplifyInstances(id, fs, fixed)
	case "class":
		constdp.SimplifyFeatureClass(id, fs, &o)
	}
	if o != k.Opt {
		return "the options were changed", false
	}
	ids := map[int]bool{}
	for i, f := range fs {
		l := k.Lines[i]
		n := len(l) - 1
		if !reflect.DeepEqual(f.Coordinates(), lib.Coords(l)) {
			return fmt.Sprintf("the vertices of line %d were changed", i), false
		}
		if f.ContextDB.IsEmpty() != (len(k.Cons) == 0) || len(f.ContextDB.All()) != len(k.Cons) {
			return fmt.Sprintf("line %d has %d context objects", i, len(f.ContextDB.All())), false
		}
		if k.Way != "class" && i < len(k.Fixed) && !reflect.DeepEqual(append([]int{}, k.Fixed[i]...), fixed[f.Id()]) {
			return "the list of fixed vertices was changed", false
		}
		var ends [][2]int
		for j := range f.Hulls {
			h := &f.Hulls[j]
			ends = append(ends, [2]int{h.Range.I, h.Range.J})
			if ids[h.Id] {
				return fmt.Sprintf("two pieces have the number %d", h.Id), false
			}
			ids[h.Id] = true
			if h.Instance != f {
				return fmt.Sprintf("piece %v of line %d belongs to another line", h.Range, i), false
			}
			if h.Range.I < 0 || h.Range.J > n || h.Range.I >= h.Range.J {
				return fmt.Sprintf("line %d has a piece %v", i, h.Range), false
			}
			cs := h.Coordinates()
			if cs.Len() != h.Range.J-h.Range.I+1 {
				return fmt.Sprintf("piece %v of line %d has %d vertices", h.Range, i, cs.Len()), false
			}
			x0, y0 := lib.XY(l[h.Range.I])
			box := mbr.MBR{MinX: x0, MinY: y0, MaxX: x0, MaxY: y0}
			for v := h.Range.I; v <= h.Range.J; v++ {
				p := cs.Pt(v - h.Range.I)
				x, y := lib.XY(l[v])
				if p[0] != x || p[1] != y || p[2] != lib.Time(l[v]) {
					return fmt.Sprintf("piece %v of line %d has other vertices", h.Range, i), false
				}
				box.ExpandIncludeXY(x, y)
				if !h.Geom.Intersects(p) {
					return fmt.Sprintf("vertex %d of line %d is outside of the hull of its piece %v", v, i, h.Range), false
				}
			}
			if h.MBR != box {
				return fmt.Sprintf("piece %v of line %d has the box %v", h.Range, i, h.MBR), false
			}
		}
		sort.Slice(ends, func(a, b int) bool { return ends[a][0] < ends[b][0] })
		want := []int{0}
		at := 0
		for _, e := range ends {
			if e[0] != at {
				return fmt.Sprintf("the pieces %v do not tile line %d", ends, i), false
			}
			at = e[1]
			want = append(want, at)
		}
		if at != n {
			return fmt.Sprintf("the pieces %v do not tile line %d", ends, i), false
		}
		dropped = dropped || len(want) <= n
		if got := lib.Simple(f); !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("line %d: retained %v but pieces end at %v", i, got, want), dropped
		}
		if got := f.Simple(); !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("line %d: Simple gives %v but pieces end at %v", i, got, want), dropped
		}
		if k.Way != "class" && i < len(k.Fixed) && (k.Opt.PlanarSelf || k.Opt.NonPlanarSelf) {
			for _, v := range k.Fixed[i] {
				if !has(want, v) {
					return fmt.Sprintf("line %d: vertex %d is fixed but not retained in %v", i, v, want), dropped
				}
			}
		}
	}
	return "", dropped
}

func init() {
	register(&run.Prop{ID: "C32", Rule: "every listed line (or set of lines) x options x context x way of simplification (alone, together, as a class) x set of vertices given as fixed is run once by the real simplifier and the pieces it leaves are inspected; non-trivial = at least one vertex was dropped",
		Assumptions: assumeLines,
		Replay: func(c *run.Ctx, raw json.RawMessage) string {
			var k tileCase
			json.Unmarshal(raw, &k)
			m, _ := tileRun(k)
			return m
		},
		Run: func(c *run.Ctx) {
			one := func(k tileCase, t *run.Tally) {
				c.Now(func() interface{} { return k })
				m, d := tileRun(k)
				t.States++
				t.Trans++
				t.Evals++
				if d {
					t.Nontriv++
					if c.WantSample() {
						c.Sample(k)
					}
				}
				if m != "" {
					c.Fail("pieces", m, k)
				}
			}
			subset := func(b, n int) []int {
				var r []int
				for v := 0; v < n; v++ {
					if b>>v&1 == 1 {
						r = append(r, v)
					}
				}
				return r
			}
			obj := []geo.G{pt(1, 1), seg(0, 2, 2, 2), poly(2, 0, 3, 0, 3, 1)}
			ctxs := [][]geo.G{nil, obj}
			// every subset of the vertices of a line as fixed
			fixing := func(f Family, n int, cfs []conf) {
				ls := all(f, nil)
				c.For(fmt.Sprintf("%v x every subset of vertices fixed x %d options", f, len(cfs)), len(ls)<<n, func(i int, t *run.Tally) {
					k := tileCase{Lines: [][]geo.P{ls[i>>n]}, Way: "alone", Fixed: [][]int{subset(i, n)}}
					for j, cf := range cfs {
						k.Opt, k.Metric = cf.o, cf.m
						k.Cons = ctxs[j%2]
						if j%3 == 1 {
							k.Way = "together"
						} else {
							k.Way = "alone"
						}
						one(k, t)
					}
				})
			}
			all64 := func(ths []float64, ms ...lib.Metric) []conf { return confAll(ths, 1, ms...) }
			fixing(Grid{N: 3, W: 2, H: 2, Dup: true}, 3, all64([]float64{0.5, 10}, lib.DP, lib.SED))
			fixing(Grid{N: 4, W: 3, H: 2}, 4, confSingles([]float64{10}, 1, lib.DP, lib.SED))
			fixing(Grid{N: 5, W: 2, H: 2}, 5, confSingles([]float64{10}, 1, lib.DP, lib.SED))
			fixing(Words{Name: "lattice", Steps: four, L: 5, First: true}, 6, confSingles([]float64{1, 10}, 1, lib.DP))
			fixing(Words{Name: "teeth", Steps: teeth, L: 2, Rep: 4}, 9, confs(lib.DP, optBits(1, 3, 1, 1), optBits(6, 30, 1, 1), optBits(63, 30, 1, 1)))
			// several lines with fixed vertices, and classes
			pool := Grid{N: 4, W: 3, H: 2}.All(func(l []geo.P) bool { return canonDir(l) && (l[1].X+2*l[2].Y+l[3].Y)%2 == 0 })
			ways := []string{"alone", "together", "class"}
			c.For("triples of 4-vertex lines on 3x2 x 3 ways x 64 options, fixed vertices", len(pool)*8, func(i int, t *run.Tally) {
				j := i / len(pool)
				k := tileCase{Lines: [][]geo.P{pool[i%len(pool)], shift(pool[(i*7+j*31)%len(pool)], int64(j%3), 1), shift(pool[(i*13+j*5)%len(pool)], 1, int64(j%2))}, Cons: obj}
				for _, w := range ways {
					k.Way = w
					k.Fixed = [][]int{subset(i+j, 4), subset(i/3, 4), subset(i/5+j, 4)}
					for b := 0; b < 64; b++ {
						k.Opt = optBits(b, []float64{1, 10}[(b+i)%2], 1, 1)
						one(k, t)
					}
				}
			})
			for _, f := range []Family{Peels{60, false}, Peels{60, true}, Knots{60, 3, false}, Hubs{60, 4}} {
				c.For(fmt.Sprintf("%v, vertices fixed, 6 options", f), f.Size(), func(i int, t *run.Tally) {
					l, _ := f.At(i, nil)
					n := len(l)
					for j, b := range []int{0, 1, 4, 5, 12, 63} {
						one(tileCase{Lines: [][]geo.P{l}, Cons: peelCtx[i%3], Way: "alone", Fixed: [][]int{[]int{n / 2, n / 3, j % n}[:j%4]}, Opt: optBits(b, []float64{2000, 100}[j%2], 1, 1)}, t)
					}
				})
			}
			words := all(Words{Name: "teeth", Steps: teeth, L: 4, Rep: 4}, nil)
			c.For("classes of 9 long overlapping lines x 14 options x 3 ways", len(words), func(i int, t *run.Tally) {
				for n, cf := range confSingles([]float64{3, 40}, 1, lib.DP, lib.SED) {
					k := tileCase{Opt: cf.o, Metric: cf.m, Way: ways[(n+i)%3], Cons: []geo.G{pt(5, 1), seg(9, 0, 9, 3), pt(14, -1)}}
					k.Lines = comb(words[i], 9, 2)
					for j := range k.Lines {
						k.Fixed = append(k.Fixed, []int{(i + j) % 17, (i * j) % 17, 9})
					}
					one(k, t)
				}
			})
			if c.Thorough() {
				fixing(Grid{N: 5, W: 3, H: 2}, 5, confSingles([]float64{1, 10}, 1, lib.DP, lib.SED))
				fixing(Grid{N: 4, W: 3, H: 2}, 4, all64([]float64{10}, lib.DP))
				fixing(Grid{N: 6, W: 2, H: 2}, 6, confSingles([]float64{10}, 1, lib.DP))
				fixing(Words{Name: "octo", Steps: eight, L: 5, First: true}, 6, confSingles([]float64{1, 10}, 1, lib.DP))
				p3 := Grid{N: 3, W: 3, H: 2}.All(nil)
				c.For("pairs of 3-vertex lines on 3x2 as a class x 64 options", len(p3)*len(p3), func(i int, t *run.Tally) {
					for b := 0; b < 64; b++ {
						one(tileCase{Lines: [][]geo.P{p3[i%len(p3)], p3[i/len(p3)]}, Cons: obj, Way: "class", Opt: optBits(b, 10, 1, 1)}, t)
					}
				})
			}
		}})
}
