// Package x_y has a type that is easily taken for that of x/y.
package x_y

type T struct {
	A int
	B []T
}
