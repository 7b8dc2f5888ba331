//go:build go1.21

// Package vmap iterates over maps in an order that is a choice: sorted by key,
// or, as a deviation of the environment, the other way round.
package vmap

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/vivint/rothko/zz_verif/vs"
)

// Iter is an iteration over a map.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// Range begins an iteration. The key and the value are only for their types.
func Range[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *Iter[K, V]) {
	it = &Iter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	order(it.keys)
	if len(it.keys) > 1 && vs.Deviate(2) == 1 {
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return k, v, it
}

func order[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	text := func(k K) string { return fmt.Sprintf("%T %v", k, k) }
	switch reflect.TypeOf(keys).Elem().Kind() {
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return // there is no order that stays
	case reflect.String:
		text = func(k K) string { return reflect.ValueOf(k).String() }
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
		return
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
		return
	}
	sort.SliceStable(keys, func(i, j int) bool { return text(keys[i]) < text(keys[j]) })
}

// Next moves on to the next entry that still exists.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		if val, ok := it.m[key]; ok {
			*k, *v = key, val
			return true
		}
	}
	return false
}
