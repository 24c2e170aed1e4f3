//go:build c21 || all

package comp

import (
	"fmt"
	"math"
	"sort"

	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/intdxdt/mbr"

	"verifmc/run"
)

// IOp loads a batch, removes an item by id or clears.
type IOp struct {
	Load   []B  `json:",omitempty"`
	Remove int  `json:",omitempty"` // id + 1
	Clear  bool `json:",omitempty"`
}

// ICase is a history of the index.
type ICase struct {
	Cap int // 0: as built by the product
	Ops []IOp
}

type index struct {
	t    *hdb.Hdb
	set  map[int]B
	item map[int]*node.Node
	next int
}

func newIndex(cap int) *index {
	x := &index{set: map[int]B{}, item: map[int]*node.Node{}}
	if cap == 0 {
		x.t = hdb.NewHdb()
	} else {
		x.t = hdb.NewHdb(cap)
	}
	return x
}

func (x *index) do(o IOp) {
	switch {
	case o.Clear:
		x.t.Clear()
		x.set, x.item = map[int]B{}, map[int]*node.Node{}
	case o.Remove > 0:
		id := o.Remove - 1
		nd := x.item[id]
		if nd == nil {
			nd = &node.Node{Id: id, MBR: mbr.MBR{0, 0, 1, 1}} // never stored or gone
		}
		x.t.Remove(nd)
		delete(x.set, id)
		delete(x.item, id)
	default:
		ns := make([]node.Node, 0, len(o.Load))
		for _, b := range o.Load {
			ns = append(ns, node.Node{Id: x.next, MBR: b.mbr()})
			x.set[x.next] = b
			x.next++
		}
		x.t.Load(ns)
		for i := range ns {
			x.item[ns[i].Id] = &ns[i]
		}
	}
}

// same compares items with the wanted ids.
func (x *index) same(got []*node.Node, want func(id int, b B) bool) string {
	seen := map[int]bool{}
	for _, n := range got {
		if n == nil {
			return "an item is nil"
		}
		b, ok := x.set[n.Id]
		switch {
		case !ok:
			return fmt.Sprintf("item %d is not in the index", n.Id)
		case seen[n.Id]:
			return fmt.Sprintf("item %d twice", n.Id)
		case n.MBR != b.mbr():
			return fmt.Sprintf("item %d has box %v, stored with %v", n.Id, n.MBR, b)
		case !want(n.Id, b):
			return fmt.Sprintf("item %d %v does not belong", n.Id, b)
		}
		seen[n.Id] = true
	}
	for id, b := range x.set {
		if want(id, b) && !seen[id] {
			return fmt.Sprintf("item %d %v is missing", id, b)
		}
	}
	return ""
}

var probes = []B{{0, 0, 0, 0}, {1, 1, 1, 1}, {2, 0, 3, 1}, {0, 2, 5, 2}, {3, 3, 6, 6}, {-9, -9, 99, 99}, {7, 7, 9, 9}, {50, 50, 60, 60}, {4, 0, 4, 9}}

func dist(q, b *mbr.MBR) float64 {
	gap := func(a, b, c, d float64) float64 {
		return math.Max(0, math.Max(a-d, c-b))
	}
	x, y := gap(q.MinX, q.MaxX, b.MinX, b.MaxX), gap(q.MinY, q.MaxY, b.MinY, b.MaxY)
	return math.Sqrt(x*x + y*y)
}

func score(q *mbr.MBR, o *hdb.KObj) float64 { return dist(q, o.MBR) }

// check compares the index with the flat set.
func (x *index) check(qs []B, knn bool) string {
	if m := x.same(x.t.All(), func(int, B) bool { return true }); m != "" {
		return "All: " + m
	}
	if x.t.IsEmpty() != (len(x.set) == 0) {
		return fmt.Sprintf("IsEmpty is %v with %d items", x.t.IsEmpty(), len(x.set))
	}
	for _, q := range qs {
		hit := 0
		for _, b := range x.set {
			if b.meets(q) {
				hit++
			}
		}
		if m := x.same(x.t.Search(q.mbr()), func(_ int, b B) bool { return b.meets(q) }); m != "" {
			return fmt.Sprintf("Search %v: %s", q, m)
		}
		if x.t.Collides(q.mbr()) != (hit > 0) {
			return fmt.Sprintf("Collides %v is %v with %d items", q, hit == 0, hit)
		}
		if !knn {
			continue
		}
		for _, r := range []int{0, 1, 2, 5} {
			r := float64(r) + 0.25
			got := x.t.Knn(q.mbr(), -1, score, func(o *hdb.KObj) (bool, bool) {
				return o.Distance <= r, o.Distance > r
			})
			if m := x.same(got, func(_ int, b B) bool { return math.Sqrt(float64(b.d2(q))) <= r }); m != "" {
				return fmt.Sprintf("Knn %v within %v: %s", q, r, m)
			}
		}
		// a predicate that also passes over items in reach, with and without a limit
		for _, limit := range []int{0, 2} {
			var es []int
			for id, b := range x.set {
				if id%2 == 0 && b.d2(q) <= 6 {
					es = append(es, b.d2(q))
				}
			}
			sort.Ints(es)
			if limit > 0 && len(es) > limit {
				es = es[:limit]
			}
			got := x.t.Knn(q.mbr(), limit, score, func(o *hdb.KObj) (bool, bool) {
				far := o.Distance > 2.5
				return !far && o.GetNode().Id%2 == 0, far
			})
			if len(got) != len(es) {
				return fmt.Sprintf("Knn %v limit %d, even items within 2.5: %d items, wanted %d", q, limit, len(got), len(es))
			}
			seen := map[int]bool{}
			for i, g := range got {
				if g == nil || seen[g.Id] || g.Id%2 != 0 || x.set[g.Id].d2(q) != es[i] {
					return fmt.Sprintf("Knn %v limit %d, even items within 2.5: number %d is nil, twice, odd or out of order", q, limit, i)
				}
				seen[g.Id] = true
			}
		}
		ds := make([]int, 0, len(x.set))
		for _, b := range x.set {
			ds = append(ds, b.d2(q))
		}
		sort.Ints(ds)
		for _, limit := range []int{1, 3, len(x.set)} {
			if limit == 0 {
				continue
			}
			got := x.t.Knn(q.mbr(), limit, score)
			n := limit
			if n > len(ds) {
				n = len(ds)
			}
			if len(got) != n {
				return fmt.Sprintf("Knn %v limit %d of %d: %d items", q, limit, len(ds), len(got))
			}
			seen := map[int]bool{}
			for i, g := range got {
				if g == nil || seen[g.Id] {
					return fmt.Sprintf("Knn %v limit %d: item nil or twice", q, limit)
				}
				seen[g.Id] = true
				b, ok := x.set[g.Id]
				if !ok || b.d2(q) != ds[i] {
					return fmt.Sprintf("Knn %v limit %d: number %d is item %d %v, squared distance %d wanted", q, limit, i, g.Id, b, ds[i])
				}
			}
		}
	}
	return ""
}

func indexCase(k ICase) string { return indexRun(k, true) }

func indexRun(k ICase, every bool) string {
	x := newIndex(k.Cap)
	for i, o := range k.Ops {
		x.do(o)
		if every || i == len(k.Ops)-1 {
			if m := x.check(probes, true); m != "" {
				return fmt.Sprintf("after step %d: %s", i+1, m)
			}
		}
	}
	return ""
}

// pattern lays out n boxes in one of several ways.
func pattern(p, n int) []B {
	r := make([]B, 0, n)
	for i := 0; i < n; i++ {
		x, y := 0, 0
		w, h := 0, 0
		switch p {
		case 0: // along a line, as the pieces of a line are
			x, y, w, h = i, i%3, 1, 1
		case 1: // scattered
			x, y, w, h = i*7%23, i*11%19, i%3, i%2
		case 2: // all at one place
			x, y = 1, 1
		case 3: // nested
			x, y, w, h = n-i, n-i, 2*i, 2*i
		case 4: // vertical stack from the top
			x, y, w, h = i%2, 3*(n-i), 4, 1
		case 5: // lattice
			x, y = i%6, i/6
		}
		r = append(r, B{x, y, x + w, y + h})
	}
	return r
}

const nPattern = 6

func fresh(n, off int) []B {
	r := pattern(1, n+off)
	return r[off:]
}

func init() {
	register(&run.Prop{ID: "C21", Rule: "histories of the index: batches loaded, items removed in every order, clears; after every step every query is compared with the same set kept as a flat list; non-trivial = more items than fit one index node",
		Assumptions: []string{"boxes with integer coordinates"},
		Replay:      replay(indexCase),
		Run: func(c *run.Ctx) {
			boxes := []B{{0, 0, 0, 0}, {1, 1, 1, 1}, {0, 0, 2, 2}, {2, 0, 3, 1}, {3, 3, 5, 5}, {0, 2, 5, 2}, {4, 0, 4, 6}, {1, 1, 4, 4}, {6, 6, 7, 7}}
			exec := func(k ICase, every bool, t *run.Tally) {
				c.Now(func() interface{} { return k })
				n := 0
				for _, o := range k.Ops {
					n += len(o.Load)
				}
				m := safe(func() string { return indexRun(k, every) })
				t.States += len(k.Ops)
				t.Trans += len(k.Ops)
				t.Traces++
				t.Evals++
				if n > k.Cap {
					t.Nontriv++
					if c.WantSample() {
						c.Sample(k)
					}
				}
				if m != "" {
					kind := "index"
					if len(m) > 5 && m[:5] == "panic" {
						kind = "panic"
					}
					c.Fail(kind, m, k)
				}
			}
			one := func(b B) IOp { return IOp{Load: []B{b}} }
			// every way to insert one by one, then to remove
			nb, ln := len(boxes), c.Pick(5, 6)
			c.For(fmt.Sprintf("%d boxes inserted one by one from %d, removed forwards or backwards", ln, nb), pow(nb, ln), func(i int, t *run.Tally) {
				k := ICase{Cap: 4}
				for _, d := range digits(i, nb, ln) {
					k.Ops = append(k.Ops, one(boxes[d]))
				}
				for j := 0; j < ln; j++ {
					id := j
					if i%2 == 1 {
						id = ln - 1 - j
					}
					k.Ops = append(k.Ops, IOp{Remove: id + 1})
				}
				k.Ops = append(k.Ops, one(boxes[i%nb]), IOp{Load: fresh(1+i%11, ln+1)})
				exec(k, true, t)
			})
			// all removal orders
			perms := permutations(6)
			c.For("6 boxes in 2 to 6 batches, every removal order", 6*nPattern*len(perms)*2, func(i int, t *run.Tally) {
				size := i%5 + 1
				i /= 6
				p := i % nPattern
				i /= nPattern
				k := ICase{Cap: 4 * (i%2 + 1)}
				bs := pattern(p, 6)
				for len(bs) > 0 {
					n := size
					if n > len(bs) {
						n = len(bs)
					}
					k.Ops = append(k.Ops, IOp{Load: bs[:n]})
					bs = bs[n:]
				}
				for _, id := range perms[i/2] {
					k.Ops = append(k.Ops, IOp{Remove: id + 1})
				}
				k.Ops = append(k.Ops, IOp{Load: fresh(1+i%11, 6)})
				exec(k, true, t)
			})
			// all histories to a depth over a small operation alphabet on a filled index
			type gen func(x *ICase, loaded int) (IOp, int)
			alphabet := []gen{
				func(x *ICase, n int) (IOp, int) { return IOp{Load: fresh(1, n)}, n + 1 },
				func(x *ICase, n int) (IOp, int) { return IOp{Load: fresh(3, n)}, n + 3 },
				func(x *ICase, n int) (IOp, int) { return IOp{Load: fresh(6, n)}, n + 6 },
				func(x *ICase, n int) (IOp, int) { return IOp{Load: fresh(19, n)}, n + 19 },
				func(x *ICase, n int) (IOp, int) { return IOp{Load: fresh(70, n)}, n + 70 },
				func(x *ICase, n int) (IOp, int) { return IOp{Remove: 1 + n/2}, n },
				func(x *ICase, n int) (IOp, int) { return IOp{Remove: n}, n },
				func(x *ICase, n int) (IOp, int) { return IOp{Remove: 1 + len(x.Ops)}, n },
				func(x *ICase, n int) (IOp, int) { return IOp{Clear: true}, n },
			}
			fill := []int{0, 1, 3, 4, 5, 8, 9, 13, 17, 26, 33, 47, 65, 80, 129}
			depth := c.Pick(3, 5)
			na := len(alphabet)
			c.For(fmt.Sprintf("histories of %d operations out of %d on indexes filled with %d sizes", depth, na, len(fill)), pow(na, depth)*len(fill)*2, func(i int, t *run.Tally) {
				k := ICase{Cap: (i % 2) * 4}
				i /= 2
				n := fill[i%len(fill)]
				i /= len(fill)
				if n > 0 {
					k.Ops = append(k.Ops, IOp{Load: fresh(n, 0)})
				}
				for _, d := range digits(i, na, depth) {
					var o IOp
					o, n = alphabet[d](&k, n)
					k.Ops = append(k.Ops, o)
				}
				exec(k, true, t)
			})
			// batches of two sizes, as several lines of one file are loaded
			hi := c.Pick(72, 150)
			c.For(fmt.Sprintf("two batches of 0 to %d", hi), (hi+1)*(hi+1)*2, func(i int, t *run.Tally) {
				a, b := i/2%(hi+1), i/2/(hi+1)
				k := ICase{Cap: (i % 2) * 4, Ops: []IOp{{Load: fresh(a, 0)}, {Load: fresh(b, a)}}}
				exec(k, false, t)
			})
			three := []int{1, 2, 3, 4, 5, 7, 9, 12, 16, 17, 20, 33, 40, 66, 100}
			c.For("three batches", pow(len(three), 3)*2*2, func(i int, t *run.Tally) {
				k := ICase{Cap: (i % 2) * 4}
				off := 0
				for _, d := range digits(i/4, len(three), 3) {
					if i/2%2 == 0 {
						k.Ops = append(k.Ops, IOp{Load: fresh(three[d], off)})
					} else {
						k.Ops = append(k.Ops, IOp{Load: pattern(0, off+three[d])[off:]})
					}
					off += three[d]
				}
				exec(k, false, t)
			})
			// emptied from every size by a stride
			top := c.Pick(100, 260)
			strides := []int{1, 3, 7, 11}
			c.For(fmt.Sprintf("loads of up to %d in %d patterns, emptied by strides", top, nPattern), top*nPattern*len(strides)*2, func(i int, t *run.Tally) {
				k := ICase{Cap: (i % 2) * 4}
				i /= 2
				st := strides[i%len(strides)]
				i /= len(strides)
				p := i % nPattern
				n := i/nPattern + 1
				x := newIndex(k.Cap)
				k.Ops = []IOp{{Load: pattern(p, n)}}
				for _, id := range strided(n, st) {
					k.Ops = append(k.Ops, IOp{Remove: id + 1})
				}
				// a second life after the last removal
				k.Ops = append(k.Ops, IOp{Load: fresh(1+n%5*n%23, n)})
				c.Now(func() interface{} { return k })
				qs := []B{probes[i%len(probes)], {n / 2, 0, n/2 + 2, n}}
				m := safe(func() string {
					for j, o := range k.Ops {
						x.do(o)
						if j%5 == 0 || j >= n {
							if m := x.check(qs, j%10 == 0 || j > n); m != "" {
								return fmt.Sprintf("after step %d: %s", j+1, m)
							}
						}
					}
					return ""
				})
				t.States += n
				t.Trans += n
				t.Traces++
				t.Evals++
				if n > 8 {
					t.Nontriv++
				}
				if m != "" {
					c.Fail("index", m, k)
				}
			})
			// partly emptied by a stride, then loaded again
			pt, again := c.Pick(36, 90), []int{1, 2, 3, 9, 20, 70}
			c.For(fmt.Sprintf("loads of up to %d, any number removed by a stride, loaded again", pt), pt*pt*len(strides)*len(again)*2, func(i int, t *run.Tally) {
				k := ICase{Cap: (i % 2) * 4}
				i /= 2
				more := again[i%len(again)]
				i /= len(again)
				st := strides[i%len(strides)]
				i /= len(strides)
				n, m := i%pt+1, i/pt+1
				if m > n {
					return
				}
				k.Ops = []IOp{{Load: pattern(i%nPattern, n)}}
				for _, id := range strided(n, st)[:m] {
					k.Ops = append(k.Ops, IOp{Remove: id + 1})
				}
				k.Ops = append(k.Ops, IOp{Load: fresh(more, n)})
				exec(k, false, t)
			})
			// large loads (selection works in samples above 600)
			large := []int{599, 600, 601, 602, 650, 700, 1000, 1300, 2500}
			c.For("large loads", len(large)*nPattern*2, func(i int, t *run.Tally) {
				k := ICase{Cap: (i % 2) * 4, Ops: []IOp{{Load: pattern(i/2%nPattern, large[i/2/nPattern])}, {Load: fresh(9, 0)}}}
				exec(k, true, t)
			})
		}})
}

// strided is a permutation of 0..n-1.
func strided(n, st int) []int {
	r, gone := []int{}, map[int]bool{}
	for j, id := 0, 0; j < n; j++ {
		for id = (id + st) % n; gone[id]; id = (id + 1) % n {
		}
		gone[id] = true
		r = append(r, id)
	}
	return r
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}
