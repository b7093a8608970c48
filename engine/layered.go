package main

// layered is a map that is cheap to clone: what it held when it was cloned is shared, in layers that
// are never changed, the larger ones below.
type layered[K comparable, V any] struct {
	under []map[K]V
	top   map[K]V
}

func (l *layered[K, V]) get(k K) (V, bool) {
	if v, ok := l.top[k]; ok {
		return v, true
	}
	for i := len(l.under) - 1; i >= 0; i-- {
		if v, ok := l.under[i][k]; ok {
			return v, true
		}
	}
	var zero V
	return zero, false
}

func (l *layered[K, V]) set(k K, v V) {
	if l.top == nil {
		l.top = map[K]V{}
	}
	l.top[k] = v
}

func (l *layered[K, V]) clone() layered[K, V] {
	if len(l.top) > 0 {
		u := append(l.under[:len(l.under):len(l.under)], l.top)
		for n := len(u); n > 1 && len(u[n-1])*2 >= len(u[n-2]); n = len(u) {
			m := make(map[K]V, len(u[n-1])+len(u[n-2]))
			for k, v := range u[n-2] {
				m[k] = v
			}
			for k, v := range u[n-1] {
				m[k] = v
			}
			u = append(u[:n-2:n-2], m)
		}
		l.under, l.top = u, nil
	}
	return layered[K, V]{under: l.under}
}

// each calls f for every entry once.
func (l *layered[K, V]) each(f func(K, V)) {
	seen := map[K]bool{}
	for i := len(l.under); i >= 0; i-- {
		m := l.top
		if i < len(l.under) {
			m = l.under[i]
		}
		for k, v := range m {
			if !seen[k] {
				seen[k] = true
				f(k, v)
			}
		}
	}
}
