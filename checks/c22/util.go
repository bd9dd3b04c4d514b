package main

import (
	"encoding/json"
	"strings"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
)

func jsonDecode(s string, v any) error { return json.Unmarshal([]byte(s), v) }

func jsonEncode(c ctx.C, j *api.JSON) ([]byte, error) { return enc.JSON{}.Encode(c, j.Data), nil }

// expectAPI tells what a 200 does to an Op: its outputs, and whether it is a success
func expectAPI(a answer) (out string, b []int, ok bool) {
	out, b = "before", []int{1}
	if a.failAt >= 0 {
		return out, b, false
	}
	if a.body == "" {
		return out, b, true
	}
	var m map[string]json.RawMessage
	if json.Unmarshal([]byte(a.body), &m) != nil || m == nil {
		return out, b, false
	}
	if v, has := m["out"]; has {
		s := ""
		switch {
		case json.Unmarshal(v, &s) == nil:
			out = s
		case strings.Trim(string(v), "0123456789") == "": // numbers are taken as strings
			out = string(v)
		default:
			return out, b, false
		}
	}
	if v, has := m["b"]; has {
		var l []int
		if json.Unmarshal(v, &l) != nil {
			return out, b, false
		}
		b = l
	}
	return out, b, true
}

// ops with a url of choice
type doable struct{ any }

func (d doable) as(u string) http.Doable {
	switch u {
	case "http://a/x":
		return &u1{}
	case "/x":
		return &u2{}
	case "x":
		return &u3{}
	case "/x?y=2":
		return &u4{}
	case "//c/x":
		return &u5{}
	case "/a%2Fb":
		return &u6{}
	}
	panic(u)
}

type u1 struct {
	R api.Request `url:"http://a/x"`
}
type u2 struct {
	R api.Request `url:"/x"`
}
type u3 struct {
	R api.Request `url:"x"`
}
type u4 struct {
	R api.Request `url:"/x?y=2"`
}
type u5 struct {
	R api.Request `url:"//c/x"`
}
type u6 struct {
	R api.Request `url:"/a%2Fb"`
}

func (*u1) Do(ctx.C) error { return nil }
func (*u2) Do(ctx.C) error { return nil }
func (*u3) Do(ctx.C) error { return nil }
func (*u4) Do(ctx.C) error { return nil }
func (*u5) Do(ctx.C) error { return nil }
func (*u6) Do(ctx.C) error { return nil }
