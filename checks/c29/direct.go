// Code generated by gen.py. DO NOT EDIT.

// every assertion parses the source it is called from: this one is short
package main

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
)

var direct = map[string]func(t *testing.T, c ctx.C, a, b any){
	"Nil":             func(t *testing.T, c ctx.C, a, b any) { test.Nil(t, a) },
	"NotNil":          func(t *testing.T, c ctx.C, a, b any) { test.NotNil(t, a) },
	"Empty":           func(t *testing.T, c ctx.C, a, b any) { test.Empty(t, a) },
	"NotEmpty":        func(t *testing.T, c ctx.C, a, b any) { test.NotEmpty(t, a) },
	"Assert":          func(t *testing.T, c ctx.C, a, b any) { test.Assert(t, a.(bool)) },
	"NoError":         func(t *testing.T, c ctx.C, a, b any) { test.NoError(t, asErr(a)) },
	"Error":           func(t *testing.T, c ctx.C, a, b any) { test.Error(t, asErr(a)) },
	"EqualsType":      func(t *testing.T, c ctx.C, a, b any) { test.EqualsType(t, a, b) },
	"EqualsGo":        func(t *testing.T, c ctx.C, a, b any) { test.EqualsGo(t, a, b) },
	"NotEqualsGo":     func(t *testing.T, c ctx.C, a, b any) { test.NotEqualsGo(t, a, b) },
	"EqualsStr":       func(t *testing.T, c ctx.C, a, b any) { test.EqualsStr(t, a.(string), b.(string)) },
	"NotEqualsStr":    func(t *testing.T, c ctx.C, a, b any) { test.NotEqualsStr(t, a.(string), b.(string)) },
	"Contains":        func(t *testing.T, c ctx.C, a, b any) { test.Contains(t, a.(string), b.(string)) },
	"NotContains":     func(t *testing.T, c ctx.C, a, b any) { test.NotContains(t, a.(string), b.(string)) },
	"ContainsGo":      func(t *testing.T, c ctx.C, a, b any) { test.ContainsGo(t, a, b.(string)) },
	"EqualsJSON":      func(t *testing.T, c ctx.C, a, b any) { test.EqualsJSON(c, a, b) },
	"NotEqualsJSON":   func(t *testing.T, c ctx.C, a, b any) { test.NotEqualsJSON(c, a, b) },
	"ContainsJSON":    func(t *testing.T, c ctx.C, a, b any) { test.ContainsJSON(c, a, b.(string)) },
	"NotContainsJSON": func(t *testing.T, c ctx.C, a, b any) { test.NotContainsJSON(c, a, b.(string)) },
}
