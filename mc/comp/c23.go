//go:build c23 || all

package comp

import (
	"fmt"
	"reflect"

	"github.com/TopoSimplify/plugin/merge"
	"github.com/TopoSimplify/plugin/rng"

	"verifmc/run"
)

// RCase is a range with a second one, a step, a list of indices.
type RCase struct {
	A, B [2]int
	Step int
	At   []int `json:",omitempty"`
}

func rangeCase(k RCase) string {
	a, b := rng.Range(k.A[0], k.A[1]), rng.Range(k.B[0], k.B[1])
	if a.I != k.A[0] || a.J != k.A[1] || a.Size() != k.A[1]-k.A[0] || a.AsArray() != k.A || !reflect.DeepEqual(a.AsSlice(), k.A[:]) {
		return fmt.Sprintf("range %v of size %d", a, a.Size())
	}
	if a.Equals(b) != (k.A == k.B) {
		return "Equals"
	}
	if got, want := a.Contiguous(b), k.A[1] == k.B[0] || k.B[1] == k.A[0]; got != want {
		return fmt.Sprintf("Contiguous is %v", got)
	}
	m := merge.Range(a, b)
	if m.I != min(k.A[0], k.B[0]) || m.J != max(k.A[1], k.B[1]) {
		return fmt.Sprintf("merged range %v", m)
	}
	var in, ex []int
	for v := k.A[0]; v <= k.A[1]; v += k.Step {
		in = append(in, v)
	}
	for v := k.A[0] + 1; v < k.A[1]; v += k.Step {
		ex = append(ex, v)
	}
	same := func(a, b []int) bool { return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b)) }
	if s := a.Stride(k.Step); !same(s, in) {
		return fmt.Sprintf("Stride %d gives %v", k.Step, s)
	}
	if s := a.ExclusiveStride(k.Step); !same(s, ex) {
		return fmt.Sprintf("ExclusiveStride %d gives %v", k.Step, s)
	}
	if k.Step == 1 && (!same(a.Stride(), in) || !same(a.ExclusiveStride(), ex)) {
		return "stride without step"
	}
	arg := append([]int{}, k.At...)
	sub := a.Split(arg)
	if !same(arg, k.At) {
		return "Split changed the list it was given"
	}
	if w := wantSplit(k.A, k.At); fmt.Sprint(w) != fmt.Sprint(asArrays(sub)) {
		return fmt.Sprintf("Split gives %v instead of %v", sub, w)
	}
	return ""
}

func asArrays(rs []rng.Rng) [][2]int {
	var r [][2]int
	for _, x := range rs {
		r = append(r, [2]int{x.I, x.J})
	}
	return r
}

func init() {
	register(&run.Prop{ID: "C23", Rule: "every range over small indices against every second range, every step and every list of indices up to the listed length (unordered, repeated, outside); non-trivial = at least one listed index lies inside",
		Assumptions: []string{"ranges with start before end"},
		Replay:      replay(rangeCase),
		Run: func(c *run.Ctx) {
			var rs [][2]int
			for _, o := range []int{0, 7, 118} {
				for i := 0; i < 5; i++ {
					for j := i + 1; j <= 6; j++ {
						rs = append(rs, [2]int{o + i, o + j})
					}
				}
			}
			n := len(rs)
			c.For(fmt.Sprintf("%d x %d ranges x 7 steps", n, n), n*n*7, func(i int, t *run.Tally) {
				each(c, RCase{A: rs[i%n], B: rs[i/n%n], Step: i/n/n + 1}, true, t, rangeCase, "range")
			})
			maxL := c.Pick(5, 6)
			for L := 0; L <= maxL; L++ {
				L := L
				b := 9
				c.For(fmt.Sprintf("splits at %d of %d indices", L, b), pow(b, L)*n, func(i int, t *run.Tally) {
					r := rs[i%n]
					off := r[0] - r[0]%7 - 1
					k := RCase{A: r, B: r, Step: 1}
					for _, d := range digits(i/n, b, L) {
						k.At = append(k.At, off+d)
					}
					each(c, k, len(wantSplit(r, k.At)) > 0, t, rangeCase, "range")
				})
			}
			c.For("long splits", 60, func(i int, t *run.Tally) {
				k := RCase{A: [2]int{i % 7, 200 + i}, B: [2]int{0, 1}, Step: 1 + i%5}
				for v := 0; v < 40+3*i; v++ {
					k.At = append(k.At, v*(7+i)%230)
				}
				each(c, k, true, t, rangeCase, "range")
			})
		}})
}
