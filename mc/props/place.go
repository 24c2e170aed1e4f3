package props

import (
	"fmt"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
)

// Place puts the integer grid of a case elsewhere: scaled and shifted in the plane and in time.
// Powers of two and shifts by multiples of the unit are exact in floating point.
type Place struct {
	Unit  float64    // length of one grid step
	Time  float64    // length of one time step
	Shift [3]float64 // of x, y and time
	Exact bool       // the placed vertices are the scaled grid without rounding
}

// exact: the place makes no difference.  Offsets are rounded where they lie, which can break
// ties between vertices of equal offset: shifted lines have none.
func (p *Place) exact(k *Case) bool {
	if !p.Exact || p.Shift[0] == 0 && p.Shift[1] == 0 {
		return p.Exact
	}
	for _, l := range k.Lines {
		if ties(l, k.Metric == lib.SED || k.Metric == lib.SEDSq) {
			return false
		}
	}
	return true
}

// ties: some stretch has two vertices of greatest offset.
func ties(l []geo.P, sed bool) bool {
	for i := range l {
		for j := i + 3; j < len(l); j++ {
			max, next := -1.0, -1.0
			for v := i + 1; v < j; v++ {
				if d := Offset(l, i, j, v, sed); d > max {
					max, next = d, max
				} else if d > next {
					next = d
				}
			}
			if max-next < 1e-6 {
				return true
			}
		}
	}
	return false
}

// enter scales the distances of k and moves the plane; the returned function restores them.
func (p *Place) enter(k *Case) func() {
	o, u, t, s := k.Opt, lib.Unit, lib.TimeUnit, lib.Shift
	lib.Unit, lib.TimeUnit, lib.Shift = p.Unit, p.Time, p.Shift
	k.Opt.Threshold *= p.Unit
	k.Opt.MinDist *= p.Unit
	k.Opt.NonPlanarDisplacement *= p.Unit
	return func() { k.Opt, lib.Unit, lib.TimeUnit, lib.Shift = o, u, t, s }
}

var places = []Place{
	{Unit: 1.0 / 8, Time: 0.5, Shift: [3]float64{0.375, -0.625, 1.6e9}, Exact: true},
	{Unit: 1 << 20, Time: 64, Shift: [3]float64{0, 0, 1.6e9}, Exact: true},
	{Unit: 1.0 / (1 << 14), Time: 1.0 / 8, Shift: [3]float64{0, 0, -33.5}, Exact: true},
	{Unit: 1.0 / 1024, Time: 1.0 / 64, Shift: [3]float64{-0.5, 51.25, -7}, Exact: true},
	{Unit: 1.0 / 4, Time: 4096, Shift: [3]float64{500000.25, 4500000.75, 1.6e9}, Exact: true},
}

// decimals as they are found in files
var decimals = []Place{
	{Unit: 0.1, Time: 0.1, Shift: [3]float64{-179.987654321, 12.3, 0.05}},
	{Unit: 1.0 / 3, Time: 7, Shift: [3]float64{1e-7, 123456789.123, 1.6e9}},
	{Unit: 1e-6, Time: 1e-3, Shift: [3]float64{-1.2345678901234567, 0.1, 1}},
}

// ckPlace: the placed case is simplified as on the grid; by the program as by the library.
func ckPlace(k *Case, o *Outcome) (string, string) {
	m := *k
	if k.At.exact(k) {
		m.At = nil
	}
	want := Exec(&m)
	if want.Err != "" {
		return "error", want.Err
	}
	if fmt.Sprint(want.Idx) != fmt.Sprint(o.Idx) {
		return "place", fmt.Sprintf("placed at %+v: %v instead of %v", *k.At, o.Idx, want.Idx)
	}
	return "", ""
}

func init() {
	register(&run.Prop{ID: "C30", Rule: "every line of the families, and every pair as a feature class, x every listed option set and context, is simplified as it is and after scaling (powers of two) and shifting of plane and time by exactly representable amounts, by the library and by the program; with decimal coordinates the program is compared with the library; non-trivial = at least one vertex was dropped",
		Assumptions: []string{"units from 2^-14 to 2^20; shifted coordinates below 2^23 with at most 10 binary digits after the point, where all differences are exact"},
		Replay:      replayCase(ckPlace),
		Run: func(c *run.Ctx) {
			ctxs := [][]geo.G{nil, mixed}
			off := func(r []conf) []conf { // no crossings just at the displacement
				for i := range r {
					r[i].o.NonPlanarDisplacement = 0.83
				}
				return r
			}
			two := off(append(confAll([]float64{1.3}, 0.7, lib.DP), confSingles([]float64{0.8}, 1.2, lib.SED, lib.DPSq)...))
			few := off(confSingles([]float64{1.1}, 0.7, lib.DP, lib.SED))
			sw := func(f Family, ctxs [][]geo.G, cfs []conf, ps []Place) {
				c.For(fmt.Sprintf("%v x %d contexts x %d options x %d places", f, len(ctxs), len(cfs), len(ps)), f.Size(), func(i int, t *run.Tally) {
					l, ok := f.At(i, make([]geo.P, 0, 16))
					if !ok {
						return
					}
					k := Case{Lines: [][]geo.P{l}}
					fit := map[bool][]bool{}
					for _, k.Metric = range []lib.Metric{lib.DP, lib.SED} {
						for n := range ps {
							fit[k.Metric == lib.SED] = append(fit[k.Metric == lib.SED], ps[n].exact(&k))
						}
					}
					for n := range ps {
						k.At = &ps[n]
						for _, g := range ctxs {
							k.Cons = g
							for _, cf := range cfs {
								if k.Opt, k.Metric = cf.o, cf.m; !fit[cf.m >= lib.SED][n] {
									continue
								}
								step(c, &k, t, ckPlace)
							}
						}
					}
				})
			}
			sw(Grid{N: 3, W: 3, H: 3, Dup: true}, ctxs, two, places)
			sw(Grid{N: 4, W: 3, H: 2}, ctxs, two, places)
			sw(Grid{N: 5, W: 3, H: 2}, ctxs[1:], few, places[:2])
			sw(Words{Name: "teeth", Steps: teeth, L: 3, Rep: 4}, ctxs, few, places)
			sw(Words{Name: "octo", Steps: eight, L: c.Pick(5, 6), First: true}, ctxs[1:], few, places[:1])
			pairs := Grid{N: 3, W: 3, H: 2}.All(bent)
			np := len(pairs)
			cls := off(confSingles([]float64{1.3}, 0.7, lib.DP))
			fcCases(c, "pairs", np*np, func(i int) [][]geo.P { return [][]geo.P{pairs[i%np], pairs[i/np]} }, nil, cls, func(k *Case, o *Outcome) (string, string) {
				for n := range places[:2] {
					m := *k
					if !places[n].exact(k) {
						continue
					}
					m.At = &places[n]
					p := Exec(&m)
					if p.Err != "" || fmt.Sprint(p.Idx) != fmt.Sprint(o.Idx) {
						return "place", fmt.Sprintf("placed at %+v: %v %s, on the grid %v", places[n], p.Idx, p.Err, o.Idx)
					}
				}
				return "", ""
			})
			all := append(append([]Place{}, places...), decimals...)
			prog := func(f Family, ctxs [][]geo.G, cfs []conf) {
				ls := every(f)
				const batch = 500
				nb := (len(ls) + batch - 1) / batch
				c.For(fmt.Sprintf("command line: %v x %d contexts x %d options x %d places", f, len(ctxs), len(cfs), len(all)), nb*len(ctxs)*len(cfs)*len(all), func(i int, t *run.Tally) {
					p := &all[i%len(all)]
					i /= len(all)
					cf := cfs[i%len(cfs)]
					i /= len(cfs)
					b := ls[i/len(ctxs)*batch:]
					if len(b) > batch {
						b = b[:batch]
					}
					var ks []Case
					for _, l := range b {
						ks = append(ks, Case{Lines: [][]geo.P{l}, Cons: ctxs[i%len(ctxs)], Opt: cf.o, Metric: cf.m, CLI: true, At: p})
					}
					cliBatch(c, ks, t, ckPlace)
				})
			}
			var some []conf
			for _, b := range []int{0, 7, 12, 16, 32, 63} {
				some = append(some, conf{optBits(b, 1.1, 0.7, 0.83), lib.DP}, conf{optBits(b, 1.1, 0.7, 0.83), lib.SED})
			}
			prog(Grid{N: 4, W: 3, H: 2, Dup: true}, ctxs, some)
			prog(Words{Name: "teeth", Steps: teeth, L: 4, Rep: 2}, ctxs[1:], some)
			if c.Thorough() {
				sw(Grid{N: 4, W: 3, H: 3}, ctxs, two, places)
				sw(Grid{N: 5, W: 3, H: 3}, ctxs[1:], few, places)
				prog(Grid{N: 4, W: 3, H: 3}, ctxs, two)
			}
		}})
}

func every(f Family) [][]geo.P { return all(f, nil) }
