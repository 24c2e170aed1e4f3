// Package comp holds the properties of the building blocks: index, neighbours, ranges,
// pieces, offsets, intersections, relations, queues. They are decided on the exported
// functions of the packages of the tree.
package comp

import (
	"encoding/json"
	"fmt"

	"verifmc/run"
)

var registry []*run.Prop

func register(p *run.Prop) { registry = append(registry, p) }

// ByID finds a property.
func ByID(id string) *run.Prop {
	for _, p := range registry {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// safe runs f, turning a panic into a message.
func safe(f func() string) (m string) {
	defer func() {
		if e := recover(); e != nil {
			m = fmt.Sprint("panic: ", e)
		}
	}()
	return f()
}

// replay decodes a case and judges it again.
func replay[K any](f func(k K) string) func(*run.Ctx, json.RawMessage) string {
	return func(_ *run.Ctx, raw json.RawMessage) string {
		var k K
		if err := json.Unmarshal(raw, &k); err != nil {
			return ""
		}
		return safe(func() string { return f(k) })
	}
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

// digits of i in base b, n of them.
func digits(i, b, n int) []int {
	r := make([]int, n)
	for k := range r {
		r[k] = i % b
		i /= b
	}
	return r
}

// each runs one case of a simple family.
func each[K any](c *run.Ctx, k K, nontrivial bool, t *run.Tally, f func(k K) string, kind string) {
	c.Now(func() interface{} { return k })
	m := safe(func() string { return f(k) })
	t.States++
	t.Trans++
	t.Traces++
	t.Evals++
	if nontrivial {
		t.Nontriv++
		if c.WantSample() {
			c.Sample(k)
		}
	}
	if m != "" {
		if len(m) > 5 && m[:5] == "panic" {
			kind = "panic"
		}
		c.Fail(kind, m, k)
	}
}
