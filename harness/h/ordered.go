package h

import (
	"container/list"

	"pgregory.net/rapid"
)

// Ordered is a reference map with an order of entries, fast enough for large histories.
type Ordered[K comparable, V any] struct {
	m map[K]*list.Element
	l *list.List
}

type orderedEntry[K comparable, V any] struct {
	k K
	v V
}

func NewOrdered[K comparable, V any]() *Ordered[K, V] {
	return &Ordered[K, V]{map[K]*list.Element{}, list.New()}
}

func (o *Ordered[K, V]) Len() int { return len(o.m) }

func (o *Ordered[K, V]) Get(k K) (v V, ok bool) {
	if e := o.m[k]; e != nil {
		return e.Value.(*orderedEntry[K, V]).v, true
	}
	return
}

// Set gives k the value v; a new key and, if front is asked for, also a present one goes to the front.
func (o *Ordered[K, V]) Set(k K, v V, front bool) (prev V, was bool) {
	if e := o.m[k]; e != nil {
		x := e.Value.(*orderedEntry[K, V])
		prev, x.v = x.v, v
		if front {
			o.l.MoveToFront(e)
		}
		return prev, true
	}
	o.m[k] = o.l.PushFront(&orderedEntry[K, V]{k, v})
	return
}

func (o *Ordered[K, V]) Front(k K) {
	if e := o.m[k]; e != nil {
		o.l.MoveToFront(e)
	}
}

func (o *Ordered[K, V]) Del(k K) {
	if e := o.m[k]; e != nil {
		o.l.Remove(e)
		delete(o.m, k)
	}
}

// DropBack removes the entry at the back.
func (o *Ordered[K, V]) DropBack() {
	if e := o.l.Back(); e != nil {
		o.Del(e.Value.(*orderedEntry[K, V]).k)
	}
}

// Each visits the entries from the front, or from the back.
func (o *Ordered[K, V]) Each(front bool, f func(k K, v V) bool) {
	e := o.l.Front()
	if !front {
		e = o.l.Back()
	}
	for e != nil {
		x := e.Value.(*orderedEntry[K, V])
		if !f(x.k, x.v) {
			return
		}
		if front {
			e = e.Next()
		} else {
			e = e.Prev()
		}
	}
}

// Huge draws a capacity beyond what small counters and first allocations hold.
func Huge(t *rapid.T, label string) int {
	return rapid.SampledFrom([]int{255, 256, 257, 1000, 4096, 5000, 32768, 40000, 65535, 65536, 65537, 100000, 140000}).Draw(t, label)
}
