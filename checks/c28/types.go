package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"time"
	"unsafe"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/utils/sync"
	"verif.local/mc/checks/c28/x/y"
	"verif.local/mc/checks/c28/x_y"
)

type nBool bool
type nInt int
type nFloat float32
type nString string
type nBytes []byte
type nIface interface{ X() }
type nList []nInt
type nMap map[nString]nInt

// types with their own marshallers, by what they become

type mNum struct{ V int }

func (m mNum) MarshalJSON() ([]byte, error) { return json.Marshal(m.V) }

func (m *mNum) UnmarshalJSON(j []byte) error { return json.Unmarshal(j, &m.V) }

type mNeg int // starts below zero

func (m mNeg) MarshalJSON() ([]byte, error) { return json.Marshal(int(m) - 273) }

type mStr struct{ a, b string }

func (m mStr) MarshalJSON() ([]byte, error) { return json.Marshal(m.a + "/" + m.b) }

type mBool struct{ V *int }

func (m mBool) MarshalJSON() ([]byte, error) { return json.Marshal(m.V != nil) }

type mList struct{ X, Y float64 }

func (m mList) MarshalJSON() ([]byte, error) { return json.Marshal([]float64{m.X, m.Y}) }

type mObj []string

func (m mObj) MarshalJSON() ([]byte, error) {
	o := map[string]bool{}
	for _, s := range m {
		o[s] = true
	}
	return json.Marshal(o)
}

type mMapList map[string]int

func (m mMapList) MarshalJSON() ([]byte, error) {
	l := []any{}
	for k, v := range m {
		l = append(l, []any{k, v})
	}
	return json.Marshal(l)
}

type mNull struct {
	Valid bool
	V     string
}

func (m mNull) MarshalJSON() ([]byte, error) {
	if !m.Valid {
		return []byte("null"), nil
	}
	return json.Marshal(m.V)
}

type mNullSlice []int

func (m mNullSlice) MarshalJSON() ([]byte, error) {
	if m == nil {
		return []byte("null"), nil
	}
	return json.Marshal(fmt.Sprint([]int(m)))
}

type mFail struct{ V string }

func (m mFail) MarshalJSON() ([]byte, error) {
	if m.V == "" {
		return nil, errors.New("not set")
	}
	return json.Marshal(map[string]string{"V": m.V})
}

type mEnum int // only some have a name

func (m mEnum) MarshalJSON() ([]byte, error) {
	if m == 0 {
		return nil, errors.New("not set")
	}
	return json.Marshal(fmt.Sprint("color", int(m)))
}

type pStr struct{ V int }

func (m *pStr) MarshalJSON() ([]byte, error) { return json.Marshal(fmt.Sprint(m.V)) }

type pNum struct{ V string }

func (m *pNum) MarshalNode(c ctx.C) (enc.Node, error) { return enc.Integer(len(m.V)), nil }

type pList struct{ V string }

func (m *pList) MarshalNode(c ctx.C) (enc.Node, error) { return enc.List{enc.String(m.V)}, nil }

type nodeNum struct{ V string }

func (m nodeNum) MarshalNode(c ctx.C) (enc.Node, error) { return enc.Float(len(m.V)) / 2, nil }

type nodeStr int

func (m nodeStr) MarshalNode(c ctx.C) (enc.Node, error) { return enc.String(fmt.Sprint(int(m))), nil }

type nodeBool string

func (m nodeBool) MarshalNode(c ctx.C) (enc.Node, error) { return enc.Bool(m != ""), nil }

type nodeObj struct{ V int }

func (m nodeObj) MarshalNode(c ctx.C) (enc.Node, error) {
	return enc.Map{"V": enc.Integer(m.V), "more": enc.Nil{}}, nil
}

// structures

type plain struct {
	A int    `json:"a" doc:"an a"`
	B string `json:"b,omitempty"`
	C *plainer
	D bool `json:"-"`
	e chan int
}

type plainer struct {
	X []float64       `json:"x"`
	Y map[string]bool `json:"y"`
	Z any             `json:"z"`
}

type hidden struct {
	f func()
	m map[chan int]string
	V int
}

type Embedded struct{ Q int }

type embeds struct {
	Embedded
	*plainer
	W string
}

type recPtr struct {
	V    int
	Next *recPtr
}
type recList []recList
type recMap map[string]recMap
type recMixed struct {
	L recList
	M map[string][]recMixed
	P **recMixed
}
type recAnon []struct {
	K recAnon
	V *recAnon `json:"v"`
}
type mutA struct{ B []mutB }
type mutB struct{ A map[string]*mutA }
type recArr struct{ A [2]*recArr }
type recPtrList []*recPtrList

// lists and maps that contain each other, through two, three and more names
type ringA []ringB
type ringB map[string]ringC
type ringC []*ringA
type twinA map[string]twinB
type twinB []twinA
type twinS struct {
	L twinA
	N []twinN
	T twinB
}
type twinN []twinS
type outer []innerList
type innerList []recList

type gen[T any] struct {
	V T
	N *gen[T]
}

type withChan struct {
	A int
	C chan int
}
type withFunc struct {
	P *plain
	S withChan
}
type recBad struct {
	N *recBad
	F func()
}

type mutBadA struct {
	B []mutBadB
	F func()
}
type mutBadB struct {
	A *mutBadA
	C plain
}

func localA() reflect.Type {
	type local struct{ A int }
	return reflect.TypeOf(local{})
}

func localB() reflect.Type {
	type local struct {
		B string
		C []local
	}
	return reflect.TypeOf(local{})
}

// what a type is told to be in the published schema
type leaf struct {
	typ  string // type in the schema; "*": anything; "?": only the values tell
	vals []any
}

var someTime = time.Date(2023, 11, 10, 23, 0, 0, 5, time.UTC)

func rtype[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var leaves = map[reflect.Type]leaf{
	rtype[bool]():            {"boolean", []any{false, true}},
	rtype[nBool]():           {"boolean", []any{nBool(true)}},
	rtype[int]():             {"number", []any{0, -5}},
	rtype[int8]():            {"number", []any{int8(-128)}},
	rtype[int16]():           {"number", []any{int16(3)}},
	rtype[int32]():           {"number", []any{int32(3)}},
	rtype[int64]():           {"number", []any{int64(math.MinInt64)}},
	rtype[uint]():            {"number", []any{uint(3)}},
	rtype[uint8]():           {"number", []any{uint8(255)}},
	rtype[uint16]():          {"number", []any{uint16(3)}},
	rtype[uint32]():          {"number", []any{uint32(3)}},
	rtype[uint64]():          {"number", []any{uint64(math.MaxUint64)}},
	rtype[nInt]():            {"number", []any{nInt(7)}},
	rtype[float32]():         {"number", []any{float32(0.5)}},
	rtype[float64]():         {"number", []any{0.0, 1e300}},
	rtype[nFloat]():          {"number", []any{nFloat(-2)}},
	rtype[string]():          {"string", []any{"", "é\n"}},
	rtype[nString]():         {"string", []any{nString("x")}},
	rtype[[]byte]():          {"string", []any{[]byte(nil), []byte{}, []byte("abc")}},
	rtype[time.Time]():       {"string", []any{time.Time{}, someTime}},
	rtype[enc.Time]():        {"string", []any{enc.Time(someTime)}},
	rtype[time.Duration]():   {"number", []any{time.Second}},
	rtype[enc.Duration]():    {"string", []any{enc.Duration(0), enc.Duration(time.Hour)}},
	rtype[any]():             {"*", []any{nil, 1, "x", []int{1}, map[string]bool{"a": true}, false}},
	rtype[io.Reader]():       {"*", []any{nil}},
	rtype[nIface]():          {"*", []any{nil}},
	rtype[error]():           {"*", []any{nil}},
	rtype[enc.Node]():        {"*", []any{nil, enc.Integer(1), enc.String("a"), enc.List{}}},
	rtype[json.RawMessage](): {"*", []any{json.RawMessage(`{"a":1}`), json.RawMessage(`[1]`), json.RawMessage(`5`)}},
	rtype[enc.String]():      {"string", []any{enc.String(""), enc.String("a")}},
	rtype[enc.Integer]():     {"number", []any{enc.Integer(-4)}},
	rtype[enc.Float]():       {"number", []any{enc.Float(0.25)}},
	rtype[enc.Bool]():        {"boolean", []any{enc.Bool(true)}},
	rtype[enc.Digits]():      {"?", []any{enc.Digits("12")}},
	rtype[enc.Nil]():         {"?", []any{enc.Nil{}}},
	rtype[enc.Pairs]():       {"object", []any{enc.Pairs{}, enc.Pairs{{Name: "A", JSON: "a", Value: enc.Integer(1)}}}},
	rtype[mNum]():            {"number", []any{mNum{}, mNum{-3}}},
	rtype[mNeg]():            {"number", []any{mNeg(0), mNeg(300)}},
	rtype[mStr]():            {"string", []any{mStr{}, mStr{"a", "b"}}},
	rtype[mBool]():           {"boolean", []any{mBool{}, mBool{new(int)}}},
	rtype[mList]():           {"array", []any{mList{}, mList{1, 2}}},
	rtype[mObj]():            {"object", []any{mObj{}, mObj{"a"}, mObj(nil)}},
	rtype[mMapList]():        {"array", []any{mMapList{}, mMapList{"a": 1}, mMapList(nil)}},
	rtype[mNull]():           {"?", []any{mNull{}, mNull{true, "x"}}},
	rtype[mNullSlice]():      {"?", []any{mNullSlice{}, mNullSlice(nil), mNullSlice{1}}},
	rtype[mFail]():           {"?", []any{mFail{"x"}}},
	rtype[mEnum]():           {"?", []any{mEnum(1), mEnum(2)}},
	rtype[nodeNum]():         {"number", []any{nodeNum{}, nodeNum{"a"}}},
	rtype[nodeStr]():         {"string", []any{nodeStr(0), nodeStr(4)}},
	rtype[nodeBool]():        {"boolean", []any{nodeBool(""), nodeBool("a")}},
	rtype[nodeObj]():         {"object", []any{nodeObj{}, nodeObj{4}}},
	rtype[*pStr]():           {"string", []any{&pStr{}, &pStr{3}, (*pStr)(nil)}},
	rtype[*pNum]():           {"number", []any{&pNum{}, &pNum{"abc"}, (*pNum)(nil)}},
	rtype[*pList]():          {"array", []any{&pList{}, &pList{"abc"}, (*pList)(nil)}},
	rtype[ctx.Error]():       {"string", []any{ctx.Error{}}},
	rtype[*sync.Map[string, int]](): {"object", []any{(*sync.Map[string, int])(nil), func() any {
		m := &sync.Map[string, int]{}
		m.Store("a", 1)
		return m
	}()}},
}

// composed types, told by their kind
var others = []reflect.Type{
	rtype[nBytes](), rtype[nList](), rtype[nMap](), rtype[enc.Map](), rtype[enc.List](), rtype[[4]byte](), rtype[struct{}](),
	rtype[plain](), rtype[plainer](), rtype[hidden](), rtype[embeds](), rtype[pStr](), rtype[pNum](), rtype[pList](),
	rtype[recPtr](), rtype[recList](), rtype[recMap](), rtype[recMixed](), rtype[recAnon](), rtype[mutA](), rtype[mutB](), rtype[recArr](), rtype[recPtrList](), rtype[ringA](), rtype[ringB](), rtype[ringC](), rtype[twinA](), rtype[twinB](), rtype[twinS](), rtype[twinN](), rtype[outer](),
	rtype[gen[int]](), rtype[gen[plain]](), rtype[gen[[]string]](), rtype[gen[map[string]*recPtr]](), rtype[gen[y.T]](), rtype[gen[x_y.T]](),
	rtype[x_y.T](), rtype[y.T](), localA(), localB(),
}

// types that can't travel
var unsupported = []reflect.Type{
	rtype[chan int](), rtype[func()](), rtype[complex128](), rtype[uintptr](), rtype[unsafe.Pointer](), rtype[withChan](), rtype[withFunc](), rtype[recBad](), rtype[mutBadA](), rtype[mutBadB](), rtype[gen[chan int]](),
}
