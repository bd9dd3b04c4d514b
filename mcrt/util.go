package mcrt

import (
	"fmt"
	"sort"
)

// MapKeys returns the keys of m in a reproducible order, so that ranging over a map is deterministic.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	out := make([]K, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	if len(out) < 2 {
		return out
	}
	var s []string
	switch o := any(out).(type) {
	case []string:
		sort.Strings(o)
		return out
	case []int:
		sort.Ints(o)
		return out
	}
	for _, k := range out {
		s = append(s, fmt.Sprintf("%T %v", k, k))
	}
	sort.Sort(&byStr[K]{out, s})
	return out
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int)      { b.k[i], b.k[j] = b.k[j], b.k[i]; b.s[i], b.s[j] = b.s[j], b.s[i] }

// ZeroKey and ZeroVal are typed zero values for m's keys and elements.
func ZeroKey[M ~map[K]V, K comparable, V any](m M) (k K) { return }
func ZeroVal[M ~map[K]V, K comparable, V any](m M) (v V) { return }

// Zero resets a variable.
func Zero[T any](p *T) { var z T; *p = z }
