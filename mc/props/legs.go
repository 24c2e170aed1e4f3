package props

import (
	"fmt"

	"verifmc/geo"
	"verifmc/run"
)

// legs is a zigzag of h legs, each 60 high, which are pieces of their own at thresholds
// between 3 and 50. Each leg has one bump of 2.85; leg v has three inner vertices shifted
// by 3*(s-1) for the digits s of shape in base 3.
func legs(h, v, shape int) []geo.P {
	var r []geo.P
	add := func(x, y int) { r = append(r, geo.P{X: int64(x), Y: int64(y), T: int64(len(r) + 1)}) }
	y := func(j, d int) int { // height d of leg j
		if j%2 == 1 {
			return 60 - d
		}
		return d
	}
	for j := 0; j < h; j++ {
		add(20*j, y(j, 0))
		if j != v {
			add(20*j+13, y(j, 30))
			continue
		}
		for i, s := 1, shape; i < 4; i, s = i+1, s/3 {
			add(20*j+5*i+3*(s%3-1), y(j, 15*i))
		}
	}
	add(20*h, y(h-1, 60))
	return r
}

// pieces runs lines of up to max pieces with the objects obj(v) at the v-th, and lines of
// about 40 pieces the v-th of which has any of 27 shapes.
func pieces(c *run.Ctx, max int, ths []float64, mk func(th float64) []conf, ck checker) {
	var at func(h, v, kind int) []geo.G
	at = func(h, v, kind int) []geo.G {
		x := int64(20 * v)
		y := int64(15 + v%2*30)
		switch kind {
		case 0:
			return []geo.G{seg(x+9, 30, x+11, 30)}
		case 1:
			return []geo.G{pt(x+11, 30)}
		case 2:
			return []geo.G{pt(x+9, 30), seg(x+4, y, x+6, y)}
		}
		if kind == 4 { // two at every piece
			var r []geo.G
			for j := 0; j < h; j++ {
				r = append(r, at(h, (j+v)%h, 0)...)
				r = append(r, at(h, (j+v)%h, 1)...)
			}
			return r
		}
		return []geo.G{poly(x+15, 60-y, x+17, 60-y, x+16, 60-y+1)}
	}
	var cfs []conf
	for _, th := range ths {
		cfs = append(cfs, mk(th)...)
	}
	type place struct{ h, v, shape int }
	var ps []place
	for h := max; h >= 1; h-- {
		for v := 0; v < h; v++ {
			ps = append(ps, place{h, v, 13 + 4})
		}
	}
	for _, h := range []int{41, 46} {
		for v := 0; v < h; v++ {
			if c.Thorough() || v%8 < 2 || v > h-3 {
				for s := 0; s < 27; s++ {
					ps = append(ps, place{h, v, s})
				}
			}
		}
	}
	c.For(fmt.Sprintf("%d zigzags of 1 to %d pieces with objects at one of them, of 5 kinds, x %d options", len(ps), max, len(cfs)), len(ps)*5, func(i int, t *run.Tally) {
		p := ps[i/5]
		k := Case{Lines: [][]geo.P{legs(p.h, p.v, p.shape)}, Cons: at(p.h, p.v, i%5)}
		if i%5 == 4 && p.v%24 != 0 {
			return
		}
		for _, cf := range cfs {
			k.Opt, k.Metric = cf.o, cf.m
			step(c, &k, t, ck)
		}
	})
}

// Train puts a zigzag of single edges before every line of a family.
type Train struct {
	F    Family
	Legs int
}

func (m Train) Size() int      { return m.F.Size() }
func (m Train) String() string { return fmt.Sprintf("%v after %d edges", m.F, m.Legs) }
func (m Train) At(i int, buf []geo.P) ([]geo.P, bool) {
	l, ok := m.F.At(i, buf)
	if !ok {
		return l, ok
	}
	var r []geo.P
	for j := m.Legs; j > 0; j-- {
		r = append(r, geo.P{X: int64(-20*j - 9), Y: int64(60 * (j % 2)), T: int64(len(r) + 1)})
	}
	for _, p := range l {
		p.T = int64(len(r) + 1)
		r = append(r, p)
	}
	return r, true
}
