// C02: numbers keep their value or fail; they never change silently.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"verif.local/mc/lib/vk"
)

var c = ctx.TODO()

type (
	nInt8    int8
	nInt32   int32
	nInt     int
	nUint8   uint8
	nUint16  uint16
	nUint64  uint64
	nFloat32 float32
	nFloat64 float64
)

func types() []reflect.Type {
	return []reflect.Type{
		reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
		reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
		reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
		reflect.TypeOf(nInt8(0)), reflect.TypeOf(nInt32(0)), reflect.TypeOf(nInt(0)), reflect.TypeOf(nUint8(0)), reflect.TypeOf(nUint16(0)),
		reflect.TypeOf(nUint64(0)), reflect.TypeOf(nFloat32(0)), reflect.TypeOf(nFloat64(0)), reflect.TypeOf(time.Duration(0)),
	}
}

func isInt(t reflect.Type) bool   { return t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64 }
func isUint(t reflect.Type) bool  { return t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64 }
func isFloat(t reflect.Type) bool { return t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64 }

func bounds(t reflect.Type) (lo, hi *big.Int) {
	b := uint(t.Bits())
	one := big.NewInt(1)
	if isInt(t) {
		hi = new(big.Int).Lsh(one, b-1)
		lo = new(big.Int).Neg(hi)
		return lo, hi.Sub(hi, one)
	}
	hi = new(big.Int).Lsh(one, b)
	return big.NewInt(0), hi.Sub(hi, one)
}

func trunc(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }

// judge says whether ending up with v (or err) is right for the exact number r targeted at type t.
// plain: the number was spelled as an ordinary integer (or came as an integer), so success is due when it fits.
func judge(t reflect.Type, r *big.Rat, plain, negzero bool, v reflect.Value, err error) (string, error) {
	if isFloat(t) {
		f, _ := r.Float64()
		over := math.IsInf(f, 0)
		var ok []float64
		ok = append(ok, f)
		if t.Kind() == reflect.Float32 {
			f32, _ := r.Float32()
			over = math.IsInf(float64(f32), 0)
			ok = []float64{float64(f32), float64(float32(f))}
		}
		if err != nil {
			if over {
				return "float-overflow-error", nil
			}
			return "", fmt.Errorf("representable number refused: %v", err)
		}
		got := v.Float()
		if over {
			return "", fmt.Errorf("became %v although it is out of range", got)
		}
		for _, x := range ok {
			if got == x {
				return "float-ok", nil
			}
		}
		return "", fmt.Errorf("became %v, nearest is %v", got, ok[0])
	}
	lo, hi := bounds(t)
	tr := trunc(r)
	inRange := tr.Cmp(lo) >= 0 && tr.Cmp(hi) <= 0
	if err != nil {
		if plain && inRange && !negzero {
			return "", fmt.Errorf("fits but was refused: %v", err)
		}
		return "int-error", nil
	}
	var got *big.Int
	if isInt(t) {
		got = big.NewInt(v.Int())
	} else {
		got = new(big.Int).SetUint64(v.Uint())
	}
	if got.Cmp(tr) != 0 {
		return "", fmt.Errorf("became %v", got)
	}
	if r.IsInt() {
		return "int-exact", nil
	}
	return "int-truncated", nil
}

type position struct {
	name string
	wrap func(t reflect.Type) reflect.Type
	doc  func(lit string) string
	node func(n enc.Node) enc.Node
	get  func(v reflect.Value) reflect.Value
	put  func(t reflect.Type, v reflect.Value) reflect.Value // build a value of wrap(t) holding v
}

func identN(n enc.Node) enc.Node { return n }

func positions() []position {
	str := reflect.TypeOf("")
	ptr := func(v reflect.Value) reflect.Value { p := reflect.New(v.Type()); p.Elem().Set(v); return p }
	st := func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "Before", Type: reflect.TypeOf(0)}, {Name: "F", Type: t, Tag: `json:"f,omitempty"`}, {Name: "After", Type: reflect.TypeOf("")}})
	}
	return []position{
		{"value", func(t reflect.Type) reflect.Type { return t }, func(l string) string { return l }, identN,
			func(v reflect.Value) reflect.Value { return v }, func(t reflect.Type, v reflect.Value) reflect.Value { return v }},
		{"pointer", reflect.PointerTo, func(l string) string { return l }, identN,
			func(v reflect.Value) reflect.Value { return v.Elem() }, func(t reflect.Type, v reflect.Value) reflect.Value { return ptr(v) }},
		{"slice", reflect.SliceOf, func(l string) string { return "[" + l + "]" }, func(n enc.Node) enc.Node { return enc.List{n} },
			func(v reflect.Value) reflect.Value { return v.Index(0) },
			func(t reflect.Type, v reflect.Value) reflect.Value {
				s := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
				s.Index(0).Set(v)
				return s
			}},
		{"array", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }, func(l string) string { return "[0," + l + "]" },
			func(n enc.Node) enc.Node { return enc.List{enc.Integer(0), n} },
			func(v reflect.Value) reflect.Value { return v.Index(1) },
			func(t reflect.Type, v reflect.Value) reflect.Value {
				a := reflect.New(reflect.ArrayOf(2, t)).Elem()
				a.Index(1).Set(v)
				return a
			}},
		{"field", st, func(l string) string { return `{"f":` + l + "}" }, func(n enc.Node) enc.Node { return enc.Map{"f": n} },
			func(v reflect.Value) reflect.Value { return v.Field(1) },
			func(t reflect.Type, v reflect.Value) reflect.Value {
				s := reflect.New(st(t)).Elem()
				s.Field(1).Set(v)
				return s
			}},
		{"pairs-field", st, func(l string) string { return `{"f":` + l + "}" }, func(n enc.Node) enc.Node { return enc.Pairs{{Name: "F", JSON: "f", Value: n}} },
			func(v reflect.Value) reflect.Value { return v.Field(1) },
			func(t reflect.Type, v reflect.Value) reflect.Value {
				s := reflect.New(st(t)).Elem()
				s.Field(1).Set(v)
				return s
			}},
		{"map-value", func(t reflect.Type) reflect.Type { return reflect.MapOf(str, t) }, func(l string) string { return `{"k":` + l + "}" },
			func(n enc.Node) enc.Node { return enc.Map{"k": n} },
			func(v reflect.Value) reflect.Value { return v.MapIndex(reflect.ValueOf("k")) },
			func(t reflect.Type, v reflect.Value) reflect.Value {
				m := reflect.MakeMap(reflect.MapOf(str, t))
				m.SetMapIndex(reflect.ValueOf("k"), v)
				return m
			}},
		{"nested", func(t reflect.Type) reflect.Type { return reflect.SliceOf(reflect.MapOf(str, reflect.PointerTo(t))) },
			func(l string) string { return `[{"k":` + l + "}]" }, func(n enc.Node) enc.Node { return enc.List{enc.Map{"k": n}} },
			func(v reflect.Value) reflect.Value { return v.Index(0).MapIndex(reflect.ValueOf("k")).Elem() },
			func(t reflect.Type, v reflect.Value) reflect.Value {
				m := reflect.MakeMap(reflect.MapOf(str, reflect.PointerTo(t)))
				m.SetMapIndex(reflect.ValueOf("k"), ptr(v))
				s := reflect.MakeSlice(reflect.SliceOf(m.Type()), 1, 1)
				s.Index(0).Set(m)
				return s
			}},
	}
}

func literals(thorough bool) []string {
	ints := []string{"0", "1", "9", "42", "99", "127", "128", "129", "200", "254", "255", "256", "257", "300", "511", "32767", "32768", "65535", "65536", "65537",
		"16777217", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "9007199254740991", "9007199254740992", "9007199254740993",
		"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617",
		"10000000000000000000", "100000000000000000000", "340282346638528859811704183484516925440", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999"}
	fracs := []string{"", ".0", ".5", ".42", ".000", ".99999999999999999999", ".1"}
	exps := []string{"", "e0", "E0", "e1", "E+2", "e-1", "e2", "e3", "e-3", "e18", "e19", "e20", "e38", "e39", "e-45", "e-46", "e308", "e309", "e400", "e-324", "e-400"}
	if thorough {
		for i := 2; i < 64; i++ {
			for _, d := range []int64{-1, 0, 1} {
				x := new(big.Int).Lsh(big.NewInt(1), uint(i))
				ints = append(ints, x.Add(x, big.NewInt(d)).String())
			}
		}
	}
	var out []string
	for _, i := range ints {
		for _, f := range fracs {
			for _, e := range exps {
				out = append(out, i+f+e, "-"+i+f+e)
			}
		}
	}
	return append(out, longLiterals(thorough)...)
}

// longLiterals have up to a thousand digits, before and after the point and in the exponent.
func longLiterals(thorough bool) (out []string) {
	var ns []int
	for n := 1; n <= 60; n++ {
		ns = append(ns, n)
	}
	for _, n := range []int{64, 100, 128, 200, 256, 300, 308, 309, 310, 324, 400, 512, 767, 768, 800, 1000, 1100} {
		ns = append(ns, n)
	}
	if thorough {
		for n := 61; n <= 420; n++ {
			ns = append(ns, n)
		}
	}
	rep := strings.Repeat
	for _, n := range ns {
		d := rep("1234567890", n/10+1)[:n]
		for _, l := range []string{
			d, "1" + rep("0", n), rep("9", n), "0." + rep("0", n) + "1", "1." + rep("0", n), "1." + rep("0", n) + "1", d + "." + d,
			"1" + rep("0", n) + "e-" + fmt.Sprint(n), "0." + rep("0", n) + "127e" + fmt.Sprint(n+3), "1e" + rep("0", n) + "2", "5e-" + rep("0", n) + "1", "1e" + rep("0", n),
			"9223372036854775807." + rep("9", n), "9223372036854775807" + rep("0", n) + "e-" + fmt.Sprint(n), "18446744073709551616" + rep("0", n) + "e-" + fmt.Sprint(n),
			"0." + rep("9", n), "127." + rep("9", n), "255.0" + rep("0", n) + "1", "1" + rep("0", n) + ".5e-" + fmt.Sprint(n), "0e" + d[:(n-1)%4+1],
		} {
			out = append(out, l, "-"+l)
		}
	}
	return out
}

func plainLit(l string) bool { return !strings.ContainsAny(l, ".eE") }

func unmarshal(f func(into any) error, t reflect.Type) (reflect.Value, error, error) {
	p := reflect.New(t)
	var err error
	perr := vk.Catch(func() error { err = f(p.Interface()); return nil })
	return p.Elem(), err, perr
}

func main() {
	vk.Main("C02", "exploration", func(k *vk.Check) {
		k.Rule("cases: number spelling (sign x integer part x fraction x exponent at and around every type's limits) x numeric type x position, from JSON text and from digit/integer/float nodes; map keys; every boundary value of every type marshalled at every position. Non-trivial: the conversion succeeded (value compared exactly) or was refused because out of range.")
		ts, ps := types(), positions()
		lits := literals(k.Thorough())
		k.Set("literals", len(lits))
		k.Set("types", len(ts))
		k.Set("positions", len(ps))

		// JSON text and digit nodes -> Go
		k.Par(int64(len(lits)), func(w *vk.Worker, i int64) {
			lit := lits[i]
			w.Note(lit)
			r, ok := new(big.Rat).SetString(lit)
			if !ok {
				panic(lit)
			}
			for _, t := range ts {
				for _, p := range ps {
					wt := p.wrap(t)
					for _, via := range []string{"text", "node"} {
						w.Ev++
						v, err, perr := unmarshal(func(into any) error {
							if via == "text" {
								return enc.UnmarshalJSON(c, []byte(p.doc(lit)), into)
							}
							return enc.Unmarshal(c, p.node(enc.Digits(lit)), into)
						}, wt)
						key := fmt.Sprintf("number %s -> %v (%s, %s)", lit, t, p.name, via)
						rep := map[string]any{"literal": lit, "type": wt.String(), "via": via}
						if perr != nil {
							k.Violate(key, key+": "+perr.Error(), rep)
							continue
						}
						var got reflect.Value
						if err == nil {
							got = p.get(v)
						}
						out, bad := judge(t, r, plainLit(lit), r.Sign() == 0 && lit[0] == '-', got, err)
						if bad != nil {
							k.Violate(key, key+": "+bad.Error(), rep)
							continue
						}
						w.Out(out)
						w.Nt++
						if i%997 == 0 && p.name == "value" {
							k.Sample(out, key)
						}
					}
				}
			}
			// digits into text, and the numeric accessors
			var s string
			if err := enc.UnmarshalJSON(c, []byte(lit), &s); err == nil && s != lit {
				k.Violate("number "+lit+" -> string", "became "+s, lit)
			}
			var a any
			if err := enc.UnmarshalJSON(c, []byte(lit), &a); err == nil {
				f, _ := r.Float64()
				switch a := a.(type) {
				case float64:
					if a != f {
						k.Violate("number "+lit+" -> any", fmt.Sprintf("became %v", a), lit)
					}
				case string, json.Number:
					if fmt.Sprint(a) != lit {
						k.Violate("number "+lit+" -> any", fmt.Sprintf("became %v", a), lit)
					}
				default:
					k.Violate("number "+lit+" -> any", fmt.Sprintf("became %T %v", a, a), lit)
				}
			}
			for _, num := range []enc.Numeric{enc.Digits(lit)} {
				accessors(k, "digits "+lit, num, r, plainLit(lit), r.Sign() == 0 && lit[0] == '-')
			}
			// map keys
			for _, t := range ts {
				if isFloat(t) {
					continue
				}
				mt := reflect.MapOf(t, reflect.TypeOf(0))
				w.Ev++
				v, err, perr := unmarshal(func(into any) error { return enc.UnmarshalJSON(c, []byte(`{"`+lit+`":7}`), into) }, mt)
				key := fmt.Sprintf("key %s -> %v", lit, mt)
				if perr != nil {
					k.Violate(key, key+": "+perr.Error(), lit)
					continue
				}
				var got reflect.Value
				if err == nil {
					if v.Len() != 1 {
						k.Violate(key, fmt.Sprintf("%s: %d entries", key, v.Len()), lit)
						continue
					}
					got = v.MapKeys()[0]
				}
				if _, bad := judge(t, r, plainLit(lit), lit[0] == '-' && r.Sign() == 0, got, err); bad != nil {
					k.Violate(key, key+": "+bad.Error(), lit)
					continue
				}
				w.Nt++
			}
		})

		// integer and float nodes -> Go
		var nums []enc.Numeric
		var nn []enc.Node
		add := func(n enc.Node) { nn = append(nn, n); nums = append(nums, n.(enc.Numeric)) }
		for _, b := range []uint{0, 7, 8, 15, 16, 24, 31, 32, 53, 62} {
			for d := int64(-2); d <= 2; d++ {
				x := int64(1)<<b + d
				add(enc.Integer(x))
				add(enc.Integer(-x))
				add(enc.Float(float64(x)))
				add(enc.Float(-float64(x)))
				add(enc.Float(float64(x) + 0.5))
				add(enc.Float(-float64(x) - 0.75))
			}
		}
		for _, x := range []int64{math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1} {
			add(enc.Integer(x))
		}
		for _, f := range []float64{0, math.Copysign(0, -1), 0.1, -0.9, 9223372036854774784, 9223372036854775808, -9223372036854775808, -9223372036854777856,
			18446744073709549568, 18446744073709551616, 1e30, -1e30, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, -1e39, math.MaxFloat64, -math.MaxFloat64,
			1e-45, 1e-46, math.SmallestNonzeroFloat64, math.NaN(), math.Inf(1), math.Inf(-1)} {
			add(enc.Float(f))
		}
		k.Set("numeric_nodes", len(nn))
		k.Par(int64(len(nn)), func(w *vk.Worker, i int64) {
			n := nn[i]
			f, isF := n.(enc.Float)
			special := isF && (math.IsNaN(float64(f)) || math.IsInf(float64(f), 0))
			var r *big.Rat
			plain := !isF
			if isF {
				if !special {
					r = new(big.Rat).SetFloat64(float64(f))
				}
			} else {
				r = new(big.Rat).SetInt64(int64(n.(enc.Integer)))
			}
			for _, t := range ts {
				for _, p := range ps {
					w.Ev++
					key := fmt.Sprintf("node %#v -> %v (%s)", n, t, p.name)
					v, err, perr := unmarshal(func(into any) error { return enc.Unmarshal(c, p.node(n), into) }, p.wrap(t))
					if perr != nil {
						k.Violate(key, key+": "+perr.Error(), key)
						continue
					}
					if special {
						if err == nil && !isFloat(t) {
							k.Violate(key, fmt.Sprintf("%s: became %v", key, p.get(v)), key)
						}
						if err == nil && isFloat(t) {
							g := p.get(v).Float()
							if !(g == float64(f) || (g != g && f != f)) {
								k.Violate(key, fmt.Sprintf("%s: became %v", key, g), key)
							}
						}
						w.Nt++
						continue
					}
					var got reflect.Value
					if err == nil {
						got = p.get(v)
					}
					out, bad := judge(t, r, plain, false, got, err)
					if bad != nil {
						k.Violate(key, key+": "+bad.Error(), key)
						continue
					}
					w.Nt++
					w.Out("node-" + out)
				}
			}
			if !special {
				accessors(k, fmt.Sprintf("node %#v", n), nums[i], r, plain, false)
			} else {
				if x, err := nums[i].Int64(); err == nil {
					k.Violate(fmt.Sprintf("Int64 of %v", f), fmt.Sprintf("became %d", x), fmt.Sprint(f))
				}
				if x, err := nums[i].Uint64(); err == nil {
					k.Violate(fmt.Sprintf("Uint64 of %v", f), fmt.Sprintf("became %d", x), fmt.Sprint(f))
				}
			}
		})

		// Go -> JSON text, Go -> node -> Go
		k.Par(int64(len(ts)), func(w *vk.Worker, i int64) {
			t := ts[i]
			for _, v := range values(t) {
				for _, p := range ps {
					w.Ev++
					in := p.put(t, v)
					key := fmt.Sprintf("marshal %v(%v) (%s)", t, v, p.name)
					w.Note(key)
					var j []byte
					var n enc.Node
					var err, nerr error
					if perr := vk.Catch(func() error {
						n, nerr = enc.Marshal(c, in.Interface())
						j, err = enc.MarshalJSON(c, in.Interface())
						return nil
					}); perr != nil {
						k.Violate(key, key+": "+perr.Error(), key)
						continue
					}
					special := isFloat(t) && (math.IsNaN(v.Float()) || math.IsInf(v.Float(), 0))
					if special {
						if err == nil {
							k.Violate(key, fmt.Sprintf("%s: encoded as %s", key, j), key)
						}
						w.Out("marshal-special-error")
						w.Nt++
						continue
					}
					if err != nil || nerr != nil {
						k.Violate(key, fmt.Sprintf("%s: refused: %v %v", key, err, nerr), key)
						continue
					}
					if v.IsZero() && strings.Contains(p.name, "field") {
						continue // omitempty
					}
					lit := numberIn(j, p.name)
					r, ok := new(big.Rat).SetString(lit)
					good := ok
					if ok {
						switch {
						case isInt(t):
							good = r.IsInt() && r.Num().Cmp(big.NewInt(v.Int())) == 0
						case isUint(t):
							good = r.IsInt() && r.Num().Cmp(new(big.Int).SetUint64(v.Uint())) == 0
						case t.Kind() == reflect.Float32:
							f, _ := r.Float32()
							good = f == float32(v.Float())
						default:
							f, _ := r.Float64()
							good = f == v.Float()
						}
					}
					if !good {
						k.Violate(key, fmt.Sprintf("%s: encoded as %s", key, j), key)
						continue
					}
					for via, f := range map[string]func(any) error{
						"text": func(into any) error { return enc.UnmarshalJSON(c, j, into) },
						"node": func(into any) error { return enc.Unmarshal(c, n, into) }} {
						back, err, perr := unmarshal(f, p.wrap(t))
						if perr != nil || err != nil {
							k.Violate(key+" back via "+via, fmt.Sprintf("%s back via %s: %v %v", key, via, err, perr), key)
							continue
						}
						if !p.get(back).Equal(v) {
							k.Violate(key+" back via "+via, fmt.Sprintf("%s came back via %s as %v", key, via, p.get(back)), key)
						}
					}
					w.Nt++
					w.Out("marshal-ok")
				}
				if isFloat(t) {
					continue
				}
				// as map keys
				m := reflect.MakeMap(reflect.MapOf(t, reflect.TypeOf(true)))
				m.SetMapIndex(v, reflect.ValueOf(true))
				w.Ev++
				j, err := enc.MarshalJSON(c, m.Interface())
				want := fmt.Sprintf(`{"%d":true}`, v.Interface())
				if err != nil || string(j) != want {
					k.Violate(fmt.Sprintf("marshal key %v(%v)", t, v), fmt.Sprintf("encoded as %s (%v), want %s", j, err, want), want)
				}
				w.Nt++
			}
		})
	})
}

func accessors(k *vk.Check, name string, num enc.Numeric, r *big.Rat, plain, negzero bool) {
	for _, t := range []reflect.Type{reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float64(0))} {
		var v reflect.Value
		var err error
		perr := vk.Catch(func() error {
			switch t.Kind() {
			case reflect.Int64:
				x, e := num.Int64()
				v, err = reflect.ValueOf(x), e
			case reflect.Uint64:
				x, e := num.Uint64()
				v, err = reflect.ValueOf(x), e
			default:
				x, e := num.Float64()
				v, err = reflect.ValueOf(x), e
			}
			return nil
		})
		key := fmt.Sprintf("%s as %v", name, t)
		if perr != nil {
			k.Violate(key, perr.Error(), name)
			continue
		}
		if _, bad := judge(t, r, plain, negzero, v, err); bad != nil {
			k.Violate(key, key+": "+bad.Error(), name)
		}
		k.Evals(1)
	}
}

func values(t reflect.Type) []reflect.Value {
	var out []reflect.Value
	add := func(x any) { out = append(out, reflect.ValueOf(x).Convert(t)) }
	switch {
	case isInt(t):
		lo, hi := bounds(t)
		for d := int64(0); d < 3; d++ {
			add(lo.Int64() + d)
			add(hi.Int64() - d)
		}
		for _, x := range []int64{0, 1, -1, 42, -42, 100} {
			add(x)
		}
		if t.Bits() > 53 {
			add(int64(1<<53 + 1))
			add(int64(-1<<53 - 1))
		}
	case isUint(t):
		_, hi := bounds(t)
		for d := uint64(0); d < 3; d++ {
			add(d)
			add(hi.Uint64() - d)
			add(hi.Uint64()/2 + d)
		}
		if t.Bits() > 53 {
			add(uint64(1<<53 + 1))
		}
	default:
		for _, f := range []float64{0, 0.1, -0.1, 1, 1.5, 1e6, 1e20, 1e21, 1e-6, 1e-7, 123456789, 16777216, 16777217, math.Pi, 1e38, -3.4e38, 1e-38, 1.4e-45} {
			add(f)
		}
		add(math.NaN())
		add(math.Inf(1))
		add(math.Inf(-1))
		if t.Kind() == reflect.Float64 {
			for _, f := range []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740993, 1e308, 0.1 + 0.2} {
				add(f)
			}
		} else {
			add(float32(math.MaxFloat32))
			add(float32(0.1))
		}
	}
	return out
}

// numberIn extracts the number at the position from the document.
func numberIn(j []byte, pos string) string {
	d := json.NewDecoder(strings.NewReader(string(j)))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return ""
	}
	for {
		switch x := v.(type) {
		case []any:
			if len(x) == 0 {
				return ""
			}
			v = x[len(x)-1]
		case map[string]any:
			if y, ok := x["f"]; ok {
				v = y
			} else if y, ok := x["k"]; ok {
				v = y
			} else {
				return ""
			}
		case json.Number:
			return string(x)
		default:
			return strconv.Quote(fmt.Sprint(x))
		}
	}
}
