package vsched

import (
	"fmt"
	"reflect"
)

// Entry of a map that is iterated over.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Get is the value now, false when the entry has been deleted meanwhile.
func (e Entry[K, V]) Get() (V, bool) { v, ok := e.m[e.K]; return v, ok }
func (e Entry[K, V]) Live() bool     { _, ok := e.m[e.K]; return ok }

// Iter begins an iteration over a map: its entries, 0 and the loop variables.
func Iter[M ~map[K]V, K comparable, V any](m M) (l []Entry[K, V], i int, k K, v V) {
	return Entries(m), 0, k, v
}

// Begin begins an iteration over a channel: it and the loop variable.
func Begin[T any](c *Chan[T]) (_ *Chan[T], v T) { return c, v }

// Entries lists a map in a chosen order: the default is a canonical order of the keys.
//
// In a race build generic functions are compiled into instrumented packages while the rest
// of this package is not, so they must not touch memory allocated here.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	ks := make([]K, 0, len(m))
	os := make([]order, len(m))
	for k := range m {
		orderOf(k, &os[len(ks)])
		ks = append(ks, k)
	}
	p := make([]int, len(m))
	arrange(os, p)
	r := make([]Entry[K, V], len(ks))
	for i := range r {
		r[i] = Entry[K, V]{ks[p[i]], m}
	}
	return r
}

// arrange fills p with the indices of os in the chosen order.
//
//go:noinline
func arrange(os []order, p []int) {
	ix := make([]int, len(os))
	for i := range ix {
		ix[i] = i
		for j := i; j > 0 && os[ix[j]].less(os[ix[j-1]]); j-- {
			ix[j], ix[j-1] = ix[j-1], ix[j]
		}
	}
	for i, k := range permute(len(os)) {
		p[i] = ix[k]
	}
}

// permute chooses an order of n things: all orders of up to three, else the given one,
// its reverse and rotations.
func permute(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n < 2 || !active() {
		return p
	}
	if n <= 3 {
		f := 2
		if n == 3 {
			f = 6
		}
		c := s.choose(f)
		var r []int
		for k := n; k > 0; k-- {
			f /= k
			i := c / f
			c %= f
			r = append(r, p[i])
			p = append(p[:i:i], p[i+1:]...)
		}
		return r
	}
	alts := n + 1
	if alts > 5 {
		alts = 5
	}
	c := s.choose(alts)
	r := make([]int, n)
	for i := range r {
		switch {
		case c == 0:
			r[i] = i
		case c == 1:
			r[i] = n - 1 - i
		default: // rotations by 1, n/2, n-1
			r[i] = (i + []int{1, n / 2, n - 1}[c-2]) % n
		}
	}
	return r
}

type order struct {
	n []int64
	s string
}

func (a order) less(b order) bool {
	for i := 0; i < len(a.n) && i < len(b.n); i++ {
		if a.n[i] != b.n[i] {
			return a.n[i] < b.n[i]
		}
	}
	if len(a.n) != len(b.n) {
		return len(a.n) < len(b.n)
	}
	return a.s < b.s
}

// orderOf: integers and arrays of them by value, pointers to structures by their Id.
//
//go:noinline
func orderOf(k interface{}, o *order) { *o = orderVal(reflect.ValueOf(k), 0) }

func orderVal(v reflect.Value, depth int) order {
	var o order
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		o.n = []int64{v.Int()}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		o.n = []int64{int64(v.Uint())}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			x := orderVal(v.Index(i), depth)
			o.n = append(o.n, x.n...)
			o.s += x.s + "|"
		}
	case reflect.Ptr:
		if v.IsNil() {
			return o
		}
		if m := v.MethodByName("Id"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			if r := m.Call(nil)[0]; r.Kind() == reflect.Int {
				o.n = []int64{r.Int()}
				return o
			}
		}
		if depth < 2 && v.Elem().Kind() == reflect.Struct {
			return orderVal(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if depth < 4 && !v.IsNil() {
			return orderVal(v.Elem(), depth+1)
		}
	case reflect.Struct:
		if f := v.FieldByName("Id"); f.IsValid() && f.Kind() == reflect.Int {
			o.n = []int64{f.Int()}
			return o
		}
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i); f.Kind() {
			case reflect.Int, reflect.Int64, reflect.String, reflect.Array, reflect.Bool, reflect.Float64, reflect.Struct:
				x := orderVal(f, depth+1)
				o.n = append(o.n, x.n...)
				o.s += x.s + "|"
			}
		}
	case reflect.Float32, reflect.Float64, reflect.String, reflect.Bool, reflect.Complex64, reflect.Complex128:
		o.s = fmt.Sprint(v)
	}
	return o
}
