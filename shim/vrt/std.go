package vrt

import "reflect"

// Go versions of standard-library functions that are assembly or use reflection. The engine
// executes these in their place.

func XIndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func XIndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func XLastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func XLastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func XCount(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func XCountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func XCompare(a, b []byte) int { return XCompareString(string(a), string(b)) }

func XCompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func XIndexString(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func XIndex(s, sub []byte) int { return XIndexString(string(s), string(sub)) }

func XErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if u, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range u.Unwrap() {
				if XErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

// swapAt exchanges two elements of a slice.
func swapAt(x interface{}, i, j int) { reflect.Swapper(x)(i, j) }

// sliceLen is the length of a slice.
func sliceLen(x interface{}) int { return reflect.ValueOf(x).Len() }

// XSortSlice is sort.Slice and sort.SliceStable.
func XSortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAt(x, j, j-1)
		}
	}
}

func XSliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	for i := sliceLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// XErrorsAs is errors.As: assignTo stores the error when its type is the one asked for.
func XErrorsAs(err error, target interface{}) bool {
	if target == nil {
		panic("errors: target cannot be nil")
	}
	for err != nil {
		if assignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		if u, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range u.Unwrap() {
				if XErrorsAs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

func assignTo(err error, target interface{}) bool {
	t := reflect.ValueOf(target).Elem()
	if reflect.TypeOf(err).AssignableTo(t.Type()) {
		t.Set(reflect.ValueOf(err))
		return true
	}
	return false
}

func XSortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func XSortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
