package simrt

import (
	"fmt"
	"reflect"
)

// shuffle sorts n items by less and then permutes them by the run's order stream.
func shuffle(n int, less func(i, j int) bool) []int {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(idx[j], idx[j-1]); j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	for i := n - 1; i > 0; i-- {
		j := Choice(i + 1)
		idx[i], idx[j] = idx[j], idx[i]
	}
	return idx
}

// less is an order on map keys that does not depend on addresses where it can be
// avoided. Keys that only differ by address are ordered by it: the permutation drawn
// afterwards is the same, which key it puts where is not.
func less(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x < y
	case int:
		y, ok := b.(int)
		return ok && x < y
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == vb.Kind() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return va.Int() < vb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return va.Uint() < vb.Uint()
		case reflect.Ptr:
			if va.IsNil() || vb.IsNil() {
				return va.IsNil() && !vb.IsNil()
			}
			ka, kb := fmt.Sprintf("%#v", va.Elem().Interface()), fmt.Sprintf("%#v", vb.Elem().Interface())
			if va.Elem().CanInterface() && ka != kb {
				return ka < kb
			}
			return va.Pointer() < vb.Pointer()
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
