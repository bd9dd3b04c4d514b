// Package y has a type that is easily taken for that of x_y.
package y

type T struct {
	C string
	D map[string]T
}
