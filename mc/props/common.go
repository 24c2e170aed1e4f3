package props

import (
	"encoding/json"
	"fmt"

	"verifmc/geo"
	"verifmc/lib"
	"verifmc/run"
)

// Case is one explored configuration of the simplifier: input lines, context objects, options.
type Case struct {
	Fam    string      `json:"fam,omitempty"`
	Lines  [][]geo.P   `json:"lines,omitempty"`
	Cons   []geo.G     `json:"cons,omitempty"`
	Opt    lib.Opts    `json:"opt"`
	Metric lib.Metric  `json:"metric"`
	FC     bool        `json:"fc,omitempty"`
	CLI    bool        `json:"cli,omitempty"`
	Ops    []int       `json:"ops,omitempty"`
	Extra  interface{} `json:"extra,omitempty"`
	At     *Place      `json:"at,omitempty"`
}

// Outcome of executing a case: the retained vertex indices of every line.
type Outcome struct {
	Idx [][]int
	Err string
}

func (o Outcome) Sub(k Case, i int) []geo.P { return lib.Sub(k.Lines[i], o.Idx[i]) }

// Exec runs the real simplifier (library entry points used by the command line program).
func Exec(k *Case) Outcome {
	if k.At != nil {
		defer k.At.enter(k)()
	}
	cons := lib.IGeoms(k.Cons)
	if k.FC {
		idx, err := lib.FC(k.Lines, cons, k.Opt, k.Metric)
		if err != nil {
			return Outcome{Err: err.Error()}
		}
		return Outcome{Idx: idx}
	}
	var out Outcome
	for _, l := range k.Lines {
		idx, err := lib.One(l, cons, k.Opt, k.Metric)
		if err != nil {
			return Outcome{Err: err.Error()}
		}
		out.Idx = append(out.Idx, idx)
	}
	return out
}

func cloneCase(k Case) Case {
	ls := make([][]geo.P, len(k.Lines))
	for i := range k.Lines {
		ls[i] = append([]geo.P{}, k.Lines[i]...)
	}
	k.Lines = ls
	return k
}

// ---------------------------------------------------------------- line families

// Grid is the family of all polylines with N vertices on a W x H integer grid.
type Grid struct {
	N, W, H int
	Dup     bool // consecutive vertices may be equal
	Scale   int64
}

func (g Grid) String() string { return fmt.Sprintf("lines(n=%d,%dx%d)", g.N, g.W, g.H) }
func (g Grid) Size() int {
	s := 1
	for i := 0; i < g.N; i++ {
		s *= g.W * g.H
	}
	return s
}

// At decodes line i into buf; false when i is outside the family.
func (g Grid) At(i int, buf []geo.P) ([]geo.P, bool) {
	c := g.W * g.H
	s := g.Scale
	if s == 0 {
		s = 1
	}
	buf = buf[:0]
	last := -1
	for k := 0; k < g.N; k++ {
		v := i % c
		i /= c
		if v == last && !g.Dup {
			return buf, false
		}
		last = v
		buf = append(buf, geo.P{X: s * int64(v%g.W), Y: s * int64(v/g.W), T: int64(k + 1)})
	}
	return buf, true
}

// All materialises the lines accepted by keep.
func (g Grid) All(keep func(l []geo.P) bool) [][]geo.P {
	var r [][]geo.P
	buf := make([]geo.P, 0, g.N)
	for i, n := 0, g.Size(); i < n; i++ {
		l, ok := g.At(i, buf)
		if ok && (keep == nil || keep(l)) {
			r = append(r, append([]geo.P{}, l...))
		}
	}
	return r
}

// Words is the family of all turtle walks of length L over a step alphabet.
type Words struct {
	Name  string
	Steps []geo.P
	L     int
	First bool // fix the first step (quotient by rotation of the alphabet)
	Self  bool // self-avoiding vertices only
	Rep   int  // the word is repeated Rep times (0 = 1)
	Scale int64
}

func (w Words) String() string {
	return fmt.Sprintf("walks(%s,len=%d,rep=%d,selfavoiding=%v)", w.Name, w.L, w.rep(), w.Self)
}
func (w Words) rep() int {
	if w.Rep == 0 {
		return 1
	}
	return w.Rep
}
func (w Words) Size() int {
	s := 1
	for i := 0; i < w.L; i++ {
		if i == 0 && w.First {
			continue
		}
		s *= len(w.Steps)
	}
	return s
}
func (w Words) At(i int, buf []geo.P) ([]geo.P, bool) {
	sc := w.Scale
	if sc == 0 {
		sc = 1
	}
	buf = append(buf[:0], geo.P{T: 1})
	var word [64]int
	for k := 0; k < w.L; k++ {
		if k == 0 && w.First {
			continue
		}
		word[k] = i % len(w.Steps)
		i /= len(w.Steps)
	}
	for r := 0; r < w.rep(); r++ {
		for k := 0; k < w.L; k++ {
			s := w.Steps[word[k]]
			p := buf[len(buf)-1]
			p.X += s.X * sc
			p.Y += s.Y * sc
			p.T++
			if w.Self {
				for _, q := range buf {
					if geo.Eq2(p, q) {
						return buf, false
					}
				}
			}
			buf = append(buf, p)
		}
	}
	return buf, true
}

var four = []geo.P{{X: 1}, {Y: 1}, {X: -1}, {Y: -1}}
var eight = []geo.P{{X: 1}, {X: 1, Y: 1}, {Y: 1}, {X: -1, Y: 1}, {X: -1}, {X: -1, Y: -1}, {Y: -1}, {X: 1, Y: -1}}

// forward-moving steps used for long lines: teeth, plateaus, spikes, back-steps
var teeth = []geo.P{{X: 2}, {X: 1, Y: 3}, {X: 1, Y: -3}, {X: 2, Y: 1}, {X: 1, Y: -1}, {X: -1, Y: 2}}

type Family interface {
	Size() int
	At(i int, buf []geo.P) ([]geo.P, bool)
	String() string
}

func all(f Family, keep func(l []geo.P) bool) [][]geo.P {
	var r [][]geo.P
	var buf []geo.P
	for i, n := 0, f.Size(); i < n; i++ {
		l, ok := f.At(i, buf)
		buf = l
		if ok && (keep == nil || keep(l)) {
			r = append(r, append([]geo.P{}, l...))
		}
	}
	return r
}

func open(l []geo.P) bool { return !geo.Eq2(l[0], l[len(l)-1]) }

// simple open lines, one of the two directions
func simpleOpen(l []geo.P) bool { return open(l) && geo.SimplePath(l) }
func canonDir(l []geo.P) bool {
	a, b := l[0], l[len(l)-1]
	return a.Y < b.Y || a.Y == b.Y && a.X < b.X
}

func shift(l []geo.P, dx, dy int64) []geo.P {
	r := append([]geo.P{}, l...)
	for i := range r {
		r[i].X += dx
		r[i].Y += dy
	}
	return r
}

// ---------------------------------------------------------------- options

type conf struct {
	o lib.Opts
	m lib.Metric
}

// optAll enumerates all 64 combinations of the boolean options.
func optAll(th, md, np float64) []lib.Opts {
	var r []lib.Opts
	for k := 0; k < 64; k++ {
		r = append(r, optBits(k, th, md, np))
	}
	return r
}

func optBits(k int, th, md, np float64) lib.Opts {
	return lib.Opts{Threshold: th, MinDist: md, NonPlanarDisplacement: np,
		PlanarSelf: k&1 > 0, NonPlanarSelf: k&2 > 0, AvoidNewSelfIntersects: k&4 > 0,
		GeomRelation: k&8 > 0, DistRelation: k&16 > 0, DirRelation: k&32 > 0}
}

// ---------------------------------------------------------------- generic sweeps

// checker is an oracle over one executed case: "" or a message.
type checker func(k *Case, o *Outcome) (kind, msg string)

// step executes a case against the library, applies the oracle and tallies.
func step(c *run.Ctx, k *Case, t *run.Tally, ck checker) {
	c.Now(func() interface{} { return cloneCase(*k) })
	o := Exec(k)
	t.States++
	t.Trans++
	judge(c, k, &o, t, ck)
}

func judge(c *run.Ctx, k *Case, o *Outcome, t *run.Tally, ck checker) {
	t.Evals++
	if o.Err != "" {
		c.Fail("error", o.Err, cloneCase(*k))
		return
	}
	for i := range k.Lines {
		if len(o.Idx[i]) < len(k.Lines[i]) {
			t.Nontriv++
			if c.WantSample() {
				c.Sample(fmt.Sprintf("%v -> %v", *k, o.Idx))
			}
			break
		}
	}
	if kind, msg := ck(k, o); kind != "" {
		c.Fail(kind, msg, cloneCase(*k))
	}
}

// replayCase decodes a recorded case and applies the oracle again.
func replayCase(ck checker) func(c *run.Ctx, raw json.RawMessage) string {
	return func(c *run.Ctx, raw json.RawMessage) string {
		var k Case
		if err := json.Unmarshal(raw, &k); err != nil {
			return ""
		}
		var o Outcome
		if k.CLI {
			outs, err := CLI(c, []Case{k})
			if err != nil {
				return err.Error()
			}
			o = outs[0]
		} else {
			o = Exec(&k)
		}
		if o.Err != "" {
			return o.Err
		}
		kind, msg := ck(&k, &o)
		if kind == "" {
			return ""
		}
		return kind + ": " + msg
	}
}

// sweep: every line of the family x every context x every option set, single line.
func sweep(c *run.Ctx, f Family, ctxs [][]geo.G, confs []conf, filter func(l []geo.P) bool, ck checker) {
	if ctxs == nil {
		ctxs = [][]geo.G{nil}
	}
	name := fmt.Sprintf("%v x %d contexts x %d options", f, len(ctxs), len(confs))
	c.For(name, f.Size(), func(i int, t *run.Tally) {
		l, ok := f.At(i, make([]geo.P, 0, 16))
		if !ok || filter != nil && !filter(l) {
			return
		}
		k := Case{Lines: [][]geo.P{l}}
		for _, g := range ctxs {
			k.Cons = g
			for _, cf := range confs {
				k.Opt, k.Metric = cf.o, cf.m
				step(c, &k, t, ck)
			}
		}
	})
}

// ---------------------------------------------------------------- oracles

// stretch iterates the replaced stretches of line i.
func stretches(idx []int, f func(a, b int) bool) {
	for k := 0; k+1 < len(idx); k++ {
		if !f(idx[k], idx[k+1]) {
			return
		}
	}
}

func ckSubset(k *Case, o *Outcome) (string, string) {
	if len(o.Idx) != len(k.Lines) {
		return "count", fmt.Sprintf("%d lines in, %d lines out", len(k.Lines), len(o.Idx))
	}
	for i, l := range k.Lines {
		idx := o.Idx[i]
		if len(idx) < 2 || idx[0] != 0 || idx[len(idx)-1] != len(l)-1 {
			return "ends", fmt.Sprintf("line %d: retained %v of %d vertices", i, idx, len(l))
		}
		for j := 0; j+1 < len(idx); j++ {
			if idx[j] >= idx[j+1] {
				return "order", fmt.Sprintf("line %d: retained %v", i, idx)
			}
		}
	}
	return "", ""
}

const tiny = 1e-9

func ckDP(k *Case, o *Outcome) (kind, msg string) {
	lim := k.Opt.Threshold*k.Opt.Threshold*(1+tiny) + tiny
	for i, l := range k.Lines {
		stretches(o.Idx[i], func(a, b int) bool {
			for v := a + 1; v < b; v++ {
				if d := geo.PtSeg2(l[a], l[b], l[v]).Float(); d > lim {
					kind, msg = "threshold", fmt.Sprintf("line %d: vertex %d is %.6g^(1/2) away from segment %d-%d, threshold %g", i, v, d, a, b, k.Opt.Threshold)
					return false
				}
			}
			return true
		})
	}
	return
}

// synchronized squared distance, exact up to one rounding
func sed2(a, b, p geo.P) float64 {
	n, d := p.T-a.T, b.T-a.T
	x := (p.X-a.X)*d - (b.X-a.X)*n
	y := (p.Y-a.Y)*d - (b.Y-a.Y)*n
	return float64(x*x+y*y) / float64(d*d)
}

func ckSED(k *Case, o *Outcome) (kind, msg string) {
	lim := k.Opt.Threshold*k.Opt.Threshold*(1+tiny) + tiny
	for i, l := range k.Lines {
		stretches(o.Idx[i], func(a, b int) bool {
			for v := a + 1; v < b; v++ {
				if d := sed2(l[a], l[b], l[v]); d > lim {
					kind, msg = "threshold", fmt.Sprintf("line %d: vertex %d is %.6g^(1/2) away from its synchronized position on %d-%d, threshold %g", i, v, d, a, b, k.Opt.Threshold)
					return false
				}
			}
			return true
		})
	}
	return
}

func ckGeom(k *Case, o *Outcome) (string, string) {
	for i, l := range k.Lines {
		s := lib.Sub(l, o.Idx[i])
		for _, g := range k.Cons {
			if a, b := geo.Intersects(l, g), geo.Intersects(s, g); a != b {
				return "relation", fmt.Sprintf("line %d: original intersects %v: %v, simplified %v: %v", i, g, a, s, b)
			}
		}
	}
	return "", ""
}

func ckDist(k *Case, o *Outcome) (string, string) {
	m2 := k.Opt.MinDist * k.Opt.MinDist
	for i, l := range k.Lines {
		s := lib.Sub(l, o.Idx[i])
		for _, g := range k.Cons {
			if geo.Dist2(l, g).Float() >= m2 && geo.Dist2(s, g).Float() < m2-tiny {
				return "mindist", fmt.Sprintf("line %d: original keeps %g away from %v, simplified %v comes closer", i, k.Opt.MinDist, g, s)
			}
		}
	}
	return "", ""
}

func ckSide(k *Case, o *Outcome) (string, string) {
	for i, l := range k.Lines {
		s := lib.Sub(l, o.Idx[i])
		var obs []geo.P
		for _, g := range k.Cons {
			if geo.Intersects(l, g) {
				continue
			}
			if geo.Intersects(s, g) {
				return "touch", fmt.Sprintf("line %d: disjoint from %v, simplified %v meets it", i, g, s)
			}
			obs = append(obs, g.Rep())
		}
		if len(obs) > 0 && !geo.Homotopic(l, s, obs) {
			return "side", fmt.Sprintf("line %d: simplified %v passes a context object on the other side", i, s)
		}
	}
	return "", ""
}

func ckSelf(k *Case, o *Outcome) (string, string) {
	for i, l := range k.Lines {
		if !simpleOpen(l) {
			continue
		}
		s := lib.Sub(l, o.Idx[i])
		if !geo.SimplePath(s) {
			return "selfintersects", fmt.Sprintf("line %d is simple, simplified %v is not", i, s)
		}
	}
	return "", ""
}

func ckDisjoint(k *Case, o *Outcome) (string, string) {
	for i := range k.Lines {
		si := lib.Sub(k.Lines[i], o.Idx[i])
		for j := 0; j < i; j++ {
			sj := lib.Sub(k.Lines[j], o.Idx[j])
			if !geo.LinesIntersect(k.Lines[i], k.Lines[j]) && geo.LinesIntersect(si, sj) {
				return "newintersection", fmt.Sprintf("features %d and %d are disjoint, simplified %v and %v are not", j, i, sj, si)
			}
		}
	}
	return "", ""
}

func ckMeet(k *Case, o *Outcome) (string, string) {
	for i := range k.Lines {
		si := lib.Sub(k.Lines[i], o.Idx[i])
		for j := 0; j < i; j++ {
			sj := lib.Sub(k.Lines[j], o.Idx[j])
			if geo.LinesIntersect(k.Lines[i], k.Lines[j]) && !geo.LinesIntersect(si, sj) {
				return "lostintersection", fmt.Sprintf("features %d and %d intersect, simplified %v and %v do not", j, i, sj, si)
			}
		}
	}
	return "", ""
}

func has(idx []int, v int) bool {
	for _, x := range idx {
		if x == v {
			return true
		}
	}
	return false
}

// vertices visited more than once by the line are retained
func ckPlanar(k *Case, o *Outcome) (string, string) {
	if !k.Opt.PlanarSelf {
		return "", ""
	}
	for n, l := range k.Lines {
		for i := range l {
			for j := 0; j < i; j++ {
				if geo.Eq2(l[i], l[j]) && (!has(o.Idx[n], i) || !has(o.Idx[n], j)) {
					return "planarvertex", fmt.Sprintf("line %d: vertices %d and %d coincide, retained %v", n, j, i, o.Idx[n])
				}
			}
		}
	}
	if k.FC {
		for n := range k.Lines {
			for m := 0; m < n; m++ {
				for i, p := range k.Lines[n] {
					for j, q := range k.Lines[m] {
						if geo.Eq2(p, q) && (!has(o.Idx[n], i) || !has(o.Idx[m], j)) {
							return "junction", fmt.Sprintf("vertex %d of feature %d and vertex %d of feature %d coincide, retained %v and %v", i, n, j, m, o.Idx[n], o.Idx[m])
						}
					}
				}
			}
		}
	}
	return "", ""
}

// edges crossing away from their vertices keep all their end points
func ckNonPlanar(k *Case, o *Outcome) (string, string) {
	if !k.Opt.NonPlanarSelf {
		return "", ""
	}
	for n, l := range k.Lines {
		x := o.Idx[n]
		for i := 0; i+1 < len(l); i++ {
			for j := i + 2; j+1 < len(l); j++ {
				if !geo.SegSeg(l[i], l[i+1], l[j], l[j+1]) || geo.Eq2(l[i], l[j]) || geo.Eq2(l[i+1], l[j]) || geo.Eq2(l[i], l[j+1]) || geo.Eq2(l[i+1], l[j+1]) {
					continue
				}
				if !(has(x, i) && has(x, i+1) && has(x, j) && has(x, j+1)) {
					return "nonplanarcrossing", fmt.Sprintf("line %d: edges %d-%d and %d-%d intersect, retained %v", n, i, i+1, j, j+1, x)
				}
			}
		}
	}
	return "", ""
}

// both conjunctions
func ckAll(cks ...checker) checker {
	return func(k *Case, o *Outcome) (string, string) {
		for _, ck := range cks {
			if a, b := ck(k, o); a != "" {
				return a, b
			}
		}
		return "", ""
	}
}

// Moved translates a family (metre coordinates of a national grid, as in the readme).
type Moved struct {
	F      Family
	DX, DY int64
}

func (m Moved) Size() int      { return m.F.Size() }
func (m Moved) String() string { return fmt.Sprintf("%v moved by (%d,%d)", m.F, m.DX, m.DY) }
func (m Moved) At(i int, buf []geo.P) ([]geo.P, bool) {
	l, ok := m.F.At(i, buf)
	for k := range l {
		l[k].X += m.DX
		l[k].Y += m.DY
	}
	return l, ok
}

func shiftAll(ls [][]geo.P, dx, dy int64) [][]geo.P {
	var r [][]geo.P
	for _, l := range ls {
		r = append(r, shift(l, dx, dy))
	}
	return r
}

func moveG(gs []geo.G, dx, dy int64) []geo.G {
	var r []geo.G
	for _, g := range gs {
		h := geo.G{Kind: g.Kind}
		for _, x := range g.Rings {
			h.Rings = append(h.Rings, shift(x, dx, dy))
		}
		r = append(r, h)
	}
	return r
}
func moveCtx(gs [][]geo.G, dx, dy int64) [][]geo.G {
	var r [][]geo.G
	for _, g := range gs {
		r = append(r, moveG(g, dx, dy))
	}
	return r
}

const farX, farY = 2819444, 4502116

// Paths are all simple open paths of N vertices of a W x H grid (edges between any two
// grid points), one of the two directions of each, enumerated by backtracking.
type Paths struct {
	N, W, H int
	sc      int64
}

func (p Paths) scaled(n int64) Paths { p.sc = n; return p }

func (p Paths) String() string { return fmt.Sprintf("simple paths(n=%d,%dx%d)", p.N, p.W, p.H) }

// sweepPaths executes every path of the family under every option set.
func sweepPaths(c *run.Ctx, f Paths, ctx []geo.G, confs []conf, ck checker) {
	g := f.W * f.H
	pts := make([]geo.P, g)
	for i := range pts {
		pts[i] = geo.P{X: int64(i%f.W) * max(f.sc, 1), Y: int64(i/f.W) * max(f.sc, 1)}
	}
	pre := 4 // vertices fixed by the index
	n := 1
	for i := 0; i < pre; i++ {
		n *= g
	}
	name := fmt.Sprintf("%v x %d options", f, len(confs))
	if len(ctx) > 0 {
		name += " with context"
	}
	c.For(name, n, func(i int, t *run.Tally) {
		l := make([]geo.P, 0, f.N)
		grow := func(p geo.P) bool {
			p.T = int64(len(l) + 1)
			l = append(l, p)
			return geo.LastEdgeOK(l)
		}
		for k := 0; k < pre; k++ {
			if !grow(pts[i%g]) {
				return
			}
			i /= g
		}
		var dfs func()
		dfs = func() {
			if len(l) == f.N {
				if canonDir(l) {
					k := Case{Lines: [][]geo.P{l}, Cons: ctx}
					for _, cf := range confs {
						k.Opt, k.Metric = cf.o, cf.m
						step(c, &k, t, ck)
					}
				}
				return
			}
			for _, p := range pts {
				if grow(p) {
					dfs()
				}
				l = l[:len(l)-1]
			}
		}
		dfs()
	})
}

// Eight directions and the steps of long lines, for other families.
var Eight, Teeth, Four = eight, teeth, four

// Loops are walks that start at a base point and follow a word over the loops around three
// places and their reverses (commutators among them), then leave. Objs are the places.
type Loops struct{ L int }

var (
	loopGens = [][][2]int64{{{0, 4}, {4, 4}}, {{4, 4}, {0, 4}}, {{-4, 4}, {0, 4}}, {{0, 4}, {-4, 4}}, {{-2, -8}, {2, -8}}, {{2, -8}, {-2, -8}}}
	loopTail = [][2]int64{{8, -2}, {-8, 0}, {1, 9}}
	LoopCtx  = [][]geo.G{{pt(2, 2), pt(-2, 2)}, {pt(2, 2), pt(0, -6)}, {pt(2, 2), pt(-2, 2), pt(0, -6)}, {seg(2, 2, 2, 3), poly(-2, 2, -1, 3, -2, 3)}}
)

func (w Loops) String() string { return fmt.Sprintf("loops around three places(len=%d)", w.L) }
func (w Loops) Size() int {
	n := len(loopTail)
	for i := 0; i < w.L; i++ {
		n *= len(loopGens)
	}
	return n
}
func (w Loops) At(i int, buf []geo.P) ([]geo.P, bool) {
	l := buf[:0]
	add := func(x, y int64) { l = append(l, geo.P{X: x, Y: y, T: int64(len(l) + 1)}) }
	add(0, -2)
	tail := loopTail[i%len(loopTail)]
	i /= len(loopTail)
	for k := 0; k < w.L; k++ {
		for _, v := range loopGens[i%len(loopGens)] {
			add(v[0], v[1])
		}
		add(0, -2)
		i /= len(loopGens)
	}
	add(tail[0], tail[1])
	return l, true
}

// Dense lines have an edge that meets, or a place that is visited by, many others: six shapes
// of 3 to Max teeth, in both directions.
type Dense struct{ Max int }

func (w Dense) String() string { return fmt.Sprintf("dense lines of 3 to %d teeth", w.Max) }
func (w Dense) Size() int      { return (w.Max - 2) * 6 * 2 }
func (w Dense) At(i int, buf []geo.P) ([]geo.P, bool) {
	l := buf[:0]
	add := func(x, y int) { l = append(l, geo.P{X: int64(x), Y: int64(y)}) }
	back, shape, k := i%2 == 1, i/2%6, 3+i/12
	switch shape {
	case 0, 1: // teeth, and an edge through all of them or above them
		for j := 0; j < k; j++ {
			add(2*j, -j%2)
			add(2*j+1, 3)
		}
		y := 1 + 3*shape
		add(2*k+2, -1)
		add(2*k+2, y)
		add(-3, y)
		add(-3, -4)
	case 2: // a star: the centre is visited k times
		for j := 0; j < k; j++ {
			add(j-k/2, 5+j%2)
			add(0, 0)
		}
		add(1, -3)
	case 3: // edges that cross in one point
		for j := 1; j <= k; j++ {
			x := j * (1 - j%2*2)
			add(x, 7)
			add(-x, -7)
		}
	case 4: // edges that overlap along a line
		for j := 0; j < k; j++ {
			add(j, 0)
			add(j+k, 0)
		}
		add(k, 4)
	case 5: // a spiral
		d := [4][2]int{{1, 0}, {0, 1}, {-1, 0}, {0, -1}}
		x, y := 0, 0
		add(x, y)
		for j := 0; j < k; j++ {
			x, y = x+d[j%4][0]*(j/2+1)*2, y+d[j%4][1]*(j/2+1)*2
			add(x, y)
		}
	}
	if back {
		for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
			l[a], l[b] = l[b], l[a]
		}
	}
	for j := range l {
		l[j].T = int64(j + 1)
	}
	return l, true
}
