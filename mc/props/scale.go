package props

import (
	"fmt"

	"verifmc/geo"
	"verifmc/run"
)

// Families of few but large inputs: every size of a range, the decisive part at every place.

// Outlier lines are flat (heights 0 and 1) but for one vertex, at any place.
type Outlier struct{ Sizes []int }

func (w Outlier) String() string {
	return fmt.Sprintf("flat lines of %v vertices with one outlier anywhere", w.Sizes)
}
func (w Outlier) Size() int {
	s := 0
	for _, n := range w.Sizes {
		s += n
	}
	return s
}
func (w Outlier) At(i int, buf []geo.P) ([]geo.P, bool) {
	n := w.Sizes[0]
	for k := 0; i >= n; {
		i -= n
		k++
		n = w.Sizes[k]
	}
	r := buf[:0]
	for j := 0; j < n; j++ {
		p := geo.P{X: int64(4 * j), Y: int64(j / 3 % 2), T: int64(j + 1)}
		if j == i {
			p.Y = 9
		}
		r = append(r, p)
	}
	return r, true
}

// peel is a zigzag with vertices 0 to n of which DP always cuts off the last edge, and whose
// chords from the first vertex all pass below the peak of vertex 1.
func peel(n int) []geo.P {
	r := withT(0, 0, 10, 100)
	for j := 2; j <= n; j++ {
		y := int64(200 + 4*j)
		if j%2 == 0 {
			y = -y
		}
		r = append(r, geo.P{X: int64(10 * j), Y: y, T: int64(j + 1)})
	}
	return r
}

// Peels are zigzags of 3 to Max edges. Poke: they go on and end below the peak of vertex 1.
type Peels struct {
	Max  int
	Poke bool
}

func (w Peels) String() string {
	return fmt.Sprintf("zigzags of 3 to %d edges to be cut one by one (poke %v)", w.Max, w.Poke)
}
func (w Peels) Size() int { return w.Max - 2 }
func (w Peels) At(i int, buf []geo.P) ([]geo.P, bool) {
	n := w.Max - i
	r := append(buf[:0], peel(n)...)
	if w.Poke {
		t := int64(n + 2)
		r = append(r, geo.P{X: int64(10*n + 50), Y: -5000, T: t}, geo.P{X: 10, Y: -5000, T: t + 1}, geo.P{X: 10, Y: 70, T: t + 2})
	}
	return r, true
}

var peelCtx = [][]geo.G{{seg(10, -10, 10, 50)}, {poly(9, -10, 11, -10, 10, 50)}, {pt(10, 90), pt(10, 10)}}

// dip is a line like an M with k objects in the middle that it passes and one object, at
// place v of the list, that its chord cuts off.
func dip(k, v, kind int) ([]geo.P, []geo.G) {
	l := withT(0, 0, 100, 200, 150, 120, 200, 20, 250, 110, 300, 200, 400, 0)
	var g []geo.G
	for j := 0; j < k; j++ {
		if j == v {
			g = append(g, [][]geo.G{{pt(90, 30)}, {seg(80, -8, 80, 40)}, {poly(300, -8, 304, -8, 304, 8)}}[kind]...)
		}
		x, y := int64(190+3*(j%8)), int64(90+5*(j/8))
		switch (j + kind) % 3 {
		case 0:
			g = append(g, pt(x, y))
		case 1:
			g = append(g, seg(x, y, x+1, y+2))
		case 2:
			g = append(g, poly(x, y, x+1, y, x, y+2))
		}
	}
	return l, g
}

// dips runs the M with up to max objects.
func dips(c *run.Ctx, max int, cfs []conf, ck checker) {
	c.For(fmt.Sprintf("an M with up to %d objects in its dip and one, at any place of the list, below: %d x %d options", max, DipCases(max), len(cfs)), DipCases(max), func(i int, t *run.Tally) {
		l, g := Dip(max, i)
		k := Case{Lines: [][]geo.P{l}, Cons: g}
		for _, cf := range cfs {
			k.Opt, k.Metric = cf.o, cf.m
			step(c, &k, t, ck)
		}
	})
}

// braid is a flat line that a zigzag crosses k times; form: where the zigzag starts and
// whether it crosses at vertices of the line.
func braid(k, form int) [][]geo.P {
	var a, b []geo.P
	for j := 0; j <= k; j++ {
		x, t := int64(8*j), int64(j+1)
		a = append(a, geo.P{X: x, Y: int64(j / 2 % 2), T: t})
		y := int64(6)
		if (j+form)%2 == 0 {
			y = -6
		}
		x += int64(form / 2 * 4)
		b = append(b, geo.P{X: x, Y: y, T: t})
		if form/2 == 1 && j < k { // cross in the vertex
			b = append(b, geo.P{X: int64(8*j + 8), Y: int64((j + 1) / 2 % 2), T: t})
		}
	}
	for i := range b {
		b[i].T = int64(i + 1)
	}
	return [][]geo.P{a, b}
}

func braids(c *run.Ctx, max int, cfs []conf, ck checker) {
	fcCases(c, fmt.Sprintf("a line and a zigzag that crosses it 1 to %d times, 4 forms", max), max*4*2, func(i int) [][]geo.P {
		r := braid(max-i/8, i/2%4)
		if i%2 == 1 {
			r[0], r[1] = r[1], r[0]
		}
		return r
	}, nil, cfs, ck)
}

// Knots are lines that go out and back and meet themselves at 1 to Max vertices (or, when
// Cross, cross edges only), every Skip-th meeting left out.
type Knots struct {
	Max, Step int
	Cross     bool
}

func (w Knots) String() string {
	return fmt.Sprintf("lines that return through themselves at up to %d places (crossing edges %v)", w.Max, w.Cross)
}
func (w Knots) Size() int { return w.Max / w.Step * 4 }
func (w Knots) At(i int, buf []geo.P) ([]geo.P, bool) {
	k, skip := w.Max-i/4*w.Step, i%4
	r := buf[:0]
	add := func(x, y int) { r = append(r, geo.P{X: int64(x), Y: int64(y), T: int64(len(r) + 1)}) }
	for j := 0; j <= k; j++ {
		if w.Cross {
			add(8*j, 3*(j%2))
		} else {
			add(8*j, 0)
			add(8*j+4, 3-6*(j%2))
		}
	}
	add(8*k+12, 9)
	for j := k; j > 0; j-- {
		switch {
		case skip > 0 && j%4 >= 4-skip:
			add(8*j, 7)
		case w.Cross:
			add(8*j, 7)
			add(8*j-1, -4)
			j--
		default:
			add(8*j, 0)
			add(8*j-3, -5+10*(j%2))
		}
	}
	add(-5, 9)
	return r, true
}

// Hubs are lines through one vertex 2 to Max times, in two forms.
type Hubs struct{ Max, Step int }

func (w Hubs) String() string { return fmt.Sprintf("lines through one vertex up to %d times", w.Max) }
func (w Hubs) Size() int      { return (w.Max/w.Step - 1) * 2 }
func (w Hubs) At(i int, buf []geo.P) ([]geo.P, bool) {
	k, r := w.Max-i/2*w.Step, buf[:0]
	add := func(x, y int) { r = append(r, geo.P{X: int64(x), Y: int64(y), T: int64(len(r) + 1)}) }
	for j := 0; j < k; j++ {
		add(40, 4*j-2*k-1)
		add(0, 0)
		if i%2 == 0 {
			add(-40, 4*j-2*k+1)
		}
	}
	return r, true
}

// DipCases is the number of cases of Dip with up to max objects.
func DipCases(max int) int {
	s := 0
	for k := max; k > 0; k = k * 3 / 5 {
		s += 3 * k
	}
	return s
}

// Dip is the i-th line and its objects.
func Dip(max, i int) ([]geo.P, []geo.G) {
	k := max
	for ; i >= 3*k; k = k * 3 / 5 {
		i -= 3 * k
	}
	return dip(k, i/3, i%3)
}

// Edge is a flat arch and one object of k vertices below its chord, but for vertex v, which
// comes through (poke 0) or near (poke 1) the chord. kind: a line, a polygon, the border of a
// hole, the parts of one of them in another order.
func edge(k, v, poke, kind int) ([]geo.P, []geo.G) {
	w := int64(4 * k)
	l := withT(0, 0, -6, 30, w/2, 34, w+6, 30, w, 0)
	var xy []int64
	for j := 0; j < k; j++ {
		x, y := int64(4*j+2), int64(-3-j*5%7)
		if j == v {
			y = []int64{8, -1}[poke]
		}
		xy = append(xy, x, y)
	}
	line := func(xy []int64) []geo.P {
		r := ring(xy...)
		return r[:len(r)-1]
	}
	switch kind {
	case 0:
		return l, []geo.G{geo.LineG(line(xy)...)}
	case 1:
		return l, []geo.G{geo.PolyG(ring(append(xy, w+4, -40, -4, -40)...))}
	case 2:
		return l, []geo.G{geo.PolyG(ring(-60, -60, w+60, -60, w+60, 90, -60, 90), ring(append(xy, w+20, 0, w+20, 60, -20, 60, -20, 0)...))}
	}
	h := len(xy) / 4 * 2 // two rings
	if h < 4 || len(xy)-h < 4 {
		return l, []geo.G{geo.LineG(line(xy)...)}
	}
	return l, []geo.G{geo.PolyG(ring(append(append([]int64{}, xy[h:]...), w, -40)...)), geo.PolyG(ring(append(append([]int64{}, xy[:h]...), 0, -40)...))}
}

// EdgeCases is the number of cases of Edge with objects of up to max vertices.
func EdgeCases(max int) int {
	s := 0
	for k := max; k > 2; k = k * 3 / 5 {
		s += 8 * k
	}
	return s
}

// Edge is the i-th line and its objects.
func Edge(max, i int) ([]geo.P, []geo.G) {
	k := max
	for ; i >= 8*k; k = k * 3 / 5 {
		i -= 8 * k
	}
	return edge(k, i/8, i%2, i/2%4)
}

// edges runs the arches.
func edges(c *run.Ctx, max int, cfs []conf, ck checker) {
	c.For(fmt.Sprintf("an arch over objects of up to %d vertices, one of which reaches its chord: %d x %d options", max, EdgeCases(max), len(cfs)), EdgeCases(max), func(i int, t *run.Tally) {
		l, g := Edge(max, i)
		k := Case{Lines: [][]geo.P{l}, Cons: g}
		for _, cf := range cfs {
			k.Opt, k.Metric = cf.o, cf.m
			step(c, &k, t, ck)
		}
	})
}
