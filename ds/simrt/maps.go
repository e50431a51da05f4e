package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// MapIter visits a map in an order drawn from the seed.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

//go:norace
func newMapIter[K comparable, V any](m map[K]V) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	if RaceEnabled && m != nil {
		RaceRead(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 1)
	}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if s != nil {
		r := &s.mrng
		for i := len(it.keys) - 1; i > 0; i-- {
			j := r.N(i + 1)
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return it
}

//go:norace
func sortKeys[K comparable](ks []K) {
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
		return
	case []int:
		sort.Ints(x)
		return
	case []int64:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return
	case []uint64:
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return
	case [][8]byte:
		sort.Slice(x, func(i, j int) bool { return string(x[i][:]) < string(x[j][:]) })
		return
	}
	switch reflect.TypeOf(ks).Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
	default:
		ss := make([]string, len(ks))
		for i := range ks {
			ss[i] = fmt.Sprintf("%#v", ks[i])
		}
		sort.Sort(&both[K]{ss, ks})
	}
}

type both[K any] struct {
	s []string
	k []K
}

//go:norace
func (b *both[K]) Len() int { return len(b.s) }

//go:norace
func (b *both[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }

//go:norace
func (b *both[K]) Swap(i, j int) {
	b.s[i], b.s[j] = b.s[j], b.s[i]
	b.k[i], b.k[j] = b.k[j], b.k[i]
}

//go:norace
func RangeMapKV[K comparable, V any](m map[K]V) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return newMapIter(m), k, v
}

//go:norace
func RangeMapK[K comparable, V any](m map[K]V) (*MapIter[K, V], K) {
	var k K
	return newMapIter(m), k
}

//go:norace
func RangeMapV[K comparable, V any](m map[K]V) (*MapIter[K, V], V) {
	var v V
	return newMapIter(m), v
}

//go:norace
func RangeMap0[K comparable, V any](m map[K]V) *MapIter[K, V] { return newMapIter(m) }

//go:norace
func (it *MapIter[K, V]) Next(pk *K, pv *V) bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		if pk != nil {
			*pk = k
		}
		if pv != nil {
			*pv = v
		}
		return true
	}
	return false
}
