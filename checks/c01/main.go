// C01: JSON documents and node trees convert faithfully both ways.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"verif.local/mc/lib/vk"
)

var c = ctx.TODO()

// ---- model of a decoded document: encoding/json with UseNumber

func refDecode(b []byte) (any, bool) {
	if !json.Valid(b) {
		return nil, false
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, false
	}
	return v, true
}

// toModel turns a node into the shape encoding/json would give; ok=false if a node has an unexpected type.
func toModel(n enc.Node) (any, error) {
	switch n := n.(type) {
	case enc.Nil:
		return nil, nil
	case enc.Bool:
		return bool(n), nil
	case enc.String:
		return string(n), nil
	case enc.List:
		out := []any{}
		for _, e := range n {
			m, err := toModel(e)
			if err != nil {
				return nil, err
			}
			out = append(out, m)
		}
		return out, nil
	case enc.Map:
		out := map[string]any{}
		for k, e := range n {
			m, err := toModel(e)
			if err != nil {
				return nil, err
			}
			out[k] = m
		}
		return out, nil
	case enc.Pairs:
		out := map[string]any{}
		for _, p := range n {
			m, err := toModel(p.Value)
			if err != nil {
				return nil, err
			}
			out[p.JSON] = m
		}
		return out, nil
	case enc.Numeric:
		return json.Number(n.String()), nil
	default:
		return nil, fmt.Errorf("unexpected node type %T", n)
	}
}

// checkDoc decodes b and compares with encoding/json; then re-encodes.
func checkDoc(b []byte) (string, error) {
	want, valid := refDecode(b)
	var n enc.Node
	var err error
	if perr := vk.Catch(func() error { n, err = enc.JSON{}.Decode(c, b); return nil }); perr != nil {
		return "", fmt.Errorf("Decode(%q): %v", b, perr)
	}
	if len(b) == 0 {
		if err != nil || n != nil {
			return "", fmt.Errorf("Decode(empty) = %#v, %v; want no data and no error", n, err)
		}
		return "empty", nil
	}
	if !valid {
		if err == nil {
			return "", fmt.Errorf("Decode(%q) accepted an invalid document as %#v", b, n)
		}
		return "invalid", nil
	}
	if err != nil {
		return "", fmt.Errorf("Decode(%q) rejected a valid document: %v", b, err)
	}
	got, err := toModel(n)
	if err != nil {
		return "", fmt.Errorf("Decode(%q): %v", b, err)
	}
	if !reflect.DeepEqual(got, want) {
		return "", fmt.Errorf("Decode(%q) = %#v, want %#v", b, got, want)
	}
	for _, codec := range []enc.JSON{{}, {Indent: true}} {
		var out []byte
		if perr := vk.Catch(func() error { out = codec.Encode(c, n); return nil }); perr != nil {
			return "", fmt.Errorf("Encode(Decode(%q)): %v", b, perr)
		}
		back, ok := refDecode(out)
		if !ok || !reflect.DeepEqual(back, want) {
			return "", fmt.Errorf("Encode(Decode(%q)) = %q, which denotes %#v, want %#v", b, out, back, want)
		}
		n2, err := codec.Decode(c, out)
		if err != nil {
			return "", fmt.Errorf("Decode(Encode(Decode(%q))): %v", b, err)
		}
		if !reflect.DeepEqual(n2, n) {
			return "", fmt.Errorf("Decode(Encode(Decode(%q))) = %#v, want %#v", b, n2, n)
		}
	}
	return fmt.Sprintf("valid:%T", n), nil
}

// ---- trees

// omodel is an order preserving view of a document.
type omap []okv
type okv struct {
	K string
	V any
}

func ordered(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		out := omap{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			v, err := ordered(d)
			if err != nil {
				return nil, err
			}
			out = append(out, okv{k.(string), v})
		}
		_, err := d.Token()
		return out, err
	case json.Delim('['):
		out := []any{}
		for d.More() {
			v, err := ordered(d)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		_, err := d.Token()
		return out, err
	}
	return t, nil
}

func clean(s string) string { // what encoding/json documents for invalid UTF-8
	return strings.ToValidUTF8(mapInvalid(s), "\uFFFD")
}
func mapInvalid(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r := []rune(s[i:])[0]
		if r == 0xFFFD && !strings.HasPrefix(s[i:], "\uFFFD") {
			b.WriteString("\uFFFD")
			i++
			continue
		}
		l := len(string(r))
		b.WriteString(s[i : i+l])
		i += l
	}
	return b.String()
}

// matches says whether the ordered document v denotes the node.
func matches(n enc.Node, v any) error {
	bad := func() error { return fmt.Errorf("%#v encoded as %#v", n, v) }
	switch n := n.(type) {
	case nil, enc.Nil:
		if v != nil {
			return bad()
		}
	case enc.Bool:
		if v != bool(n) {
			return bad()
		}
	case enc.String:
		if v != clean(string(n)) {
			return bad()
		}
	case enc.Integer:
		if v != json.Number(strconv.FormatInt(int64(n), 10)) {
			return bad()
		}
	case enc.Digits:
		if v != json.Number(string(n)) {
			return bad()
		}
	case enc.Float:
		x, ok := v.(json.Number)
		f, err := strconv.ParseFloat(string(x), 64)
		if !ok || err != nil || math.Float64bits(f) != math.Float64bits(float64(n)) {
			return bad()
		}
	case enc.Time:
		s, _ := v.(string)
		t, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || !t.Equal(time.Time(n)) {
			return bad()
		}
	case enc.Duration:
		s, ok := v.(string)
		if !ok {
			return bad()
		}
		if s == "" {
			s = "0"
		}
		d, err := time.ParseDuration(s)
		if err != nil || d != time.Duration(n) {
			return bad()
		}
	case enc.List:
		l, ok := v.([]any)
		if n == nil && v == nil {
			return nil
		}
		if !ok || len(l) != len(n) {
			return bad()
		}
		for i := range n {
			if err := matches(n[i], l[i]); err != nil {
				return err
			}
		}
	case enc.Map:
		l, ok := v.(omap)
		if !ok || len(l) != len(n) {
			return bad()
		}
		seen := map[string]bool{}
		for _, kv := range l {
			found := false
			for k, e := range n {
				if clean(k) == kv.K && !seen[k] {
					if err := matches(e, kv.V); err != nil {
						return err
					}
					seen[k], found = true, true
					break
				}
			}
			if !found {
				return bad()
			}
		}
	case enc.Pairs:
		l, ok := v.(omap)
		if !ok || len(l) != len(n) {
			return bad()
		}
		for i := range n {
			if l[i].K != clean(n[i].JSON) {
				return bad()
			}
			if err := matches(n[i].Value, l[i].V); err != nil {
				return err
			}
		}
	default:
		return fmt.Errorf("unknown node %T", n)
	}
	return nil
}

func checkTree(n enc.Node) error {
	for _, codec := range []enc.JSON{{}, {Indent: true}} {
		var out []byte
		if perr := vk.Catch(func() error { out = codec.Encode(c, n); return nil }); perr != nil {
			return fmt.Errorf("Encode(%#v): %v", n, perr)
		}
		if !json.Valid(out) {
			return fmt.Errorf("Encode(%#v) = %q: not a valid document", n, out)
		}
		d := json.NewDecoder(bytes.NewReader(out))
		d.UseNumber()
		v, err := ordered(d)
		if err != nil {
			return fmt.Errorf("Encode(%#v) = %q: %v", n, out, err)
		}
		if err := matches(n, v); err != nil {
			return fmt.Errorf("Encode = %q: %v", out, err)
		}
		back, err := codec.Decode(c, out)
		if err != nil {
			return fmt.Errorf("Decode(Encode(%#v)=%q): %v", n, out, err)
		}
		m, err := toModel(back)
		if err != nil {
			return err
		}
		want, _ := refDecode(out)
		if !reflect.DeepEqual(m, want) {
			return fmt.Errorf("Decode(Encode(%#v)=%q) = %#v", n, out, m)
		}
		// encoding twice gives the same document
		if again := codec.Encode(c, n); !bytes.Equal(again, out) {
			return fmt.Errorf("Encode(%#v) is not stable: %q then %q", n, out, again)
		}
	}
	return nil
}

func leaves() []enc.Node {
	return []enc.Node{
		enc.Nil{}, enc.Bool(true), enc.Bool(false),
		enc.Integer(0), enc.Integer(-1), enc.Integer(math.MaxInt64), enc.Integer(math.MinInt64),
		enc.Float(0.1), enc.Float(-2), enc.Float(1e21), enc.Float(1e-9), enc.Float(math.MaxFloat64), enc.Float(math.SmallestNonzeroFloat64),
		enc.Digits("1.50"), enc.Digits("-0"), enc.Digits("1E400"), enc.Digits("12345678901234567890123"),
		enc.String(""), enc.String(`a"b\`), enc.String("<\u2028\x00é\xff"),
		enc.Time(time.Date(2024, 2, 29, 23, 59, 58, 123456789, time.UTC)),
		enc.Time(time.Date(1999, 12, 31, 1, 2, 3, 0, time.FixedZone("x", -5*3600-1800))),
		enc.Duration(0), enc.Duration(time.Second), enc.Duration(-1500 * time.Millisecond), enc.Duration(math.MaxInt64),
	}
}

var keys = []string{"", "a", `"<`, "b\x01"}

// containers lists every list, map and pairs node with up to two children from kids.
func containers(kids []enc.Node, yield func(enc.Node)) {
	yield(enc.List{})
	yield(enc.Map{})
	yield(enc.Pairs{})
	for _, a := range kids {
		yield(enc.List{a})
		for _, k := range keys {
			yield(enc.Map{k: a})
			yield(enc.Pairs{{Name: "N", JSON: k, Value: a}})
		}
	}
	for _, a := range kids {
		for _, b := range kids {
			yield(enc.List{a, b})
			yield(enc.Map{"a": a, `"<`: b})
			yield(enc.Map{"": a, "b\x01": b})
			yield(enc.Pairs{{Name: "X", JSON: "z", Value: a}, {Name: "Y", JSON: "a", Value: b}})
			yield(enc.Pairs{{Name: "", JSON: "", Value: a}, {Name: "", JSON: `"<`, Value: b}})
		}
	}
}

func pow(b, e int) int64 {
	r := int64(1)
	for ; e > 0; e-- {
		r *= int64(b)
	}
	return r
}

func main() {
	vk.Main("C01", "exploration", func(k *vk.Check) {
		k.Rule("cases: strings, lists, objects, numbers and blanks of up to 129 (299) parts with an odd one at every place, and around buffer sizes; every string over the token alphabet and over the character alphabet up to the stated lengths; every node tree of the stated shape; every string over awkward fragments as value and key. Non-trivial: the document is valid (decoded tree compared) or the tree has at least one child.")
		tokens := []string{`{`, `}`, `[`, `]`, `,`, `:`, `"a"`, `"b"`, `null`, `true`, `1`, `-0.50`, `1e2`, ` `}
		chars := []string{`"`, `\`, `u`, `0`, `1`, `d8`, `-`, `.`, `e`, `E`, `+`, "\n", "\x00", "\x7f", "\xff", "\xc3", "\xa9", "/", "n", "[", "]", " "}
		run := func(name string, alpha []string, maxLen int) {
			for l := 0; l <= maxLen && !k.Stop(); l++ {
				k.Par(pow(len(alpha), l), func(w *vk.Worker, i int64) {
					var buf [64]byte
					b := buf[:0]
					for j := 0; j < l; j++ {
						b = append(b, alpha[i%int64(len(alpha))]...)
						i /= int64(len(alpha))
					}
					w.Note(string(b))
					out, err := checkDoc(b)
					w.Ev++
					if err != nil {
						k.Violate("doc:"+string(b), err.Error(), map[string]any{"document": string(b)})
						return
					}
					w.Out(out)
					if strings.HasPrefix(out, "valid") {
						w.Nt++
						if l == maxLen && i%7 == 0 {
							k.Sample(name, string(b))
						}
					}
				})
				if k.Stop() {
					return
				}
				k.Set("max_len_"+name, l)
			}
		}
		// trees first: cheap
		l0 := leaves()
		var s1 []enc.Node
		s1 = append(s1, l0...)
		kids := []enc.Node{nil, enc.Nil{}, enc.Bool(true), enc.Integer(-1), enc.Float(0.1), enc.Digits("1.50"), enc.String("<\u2028\x00é\xff"), l0[20], enc.Duration(time.Second)}
		containers(kids[1:], func(n enc.Node) { s1 = append(s1, n) })
		var trees []enc.Node
		trees = append(trees, enc.Map(nil), enc.List(nil), enc.Pairs(nil))
		trees = append(trees, l0...)
		containers(l0, func(n enc.Node) { trees = append(trees, n) })
		containers(kids, func(n enc.Node) { trees = append(trees, n) })
		step := k.Pick(3, 1)
		var s2 []enc.Node
		for i := 0; i < len(s1); i += step {
			s2 = append(s2, s1[i])
		}
		containers(s2, func(n enc.Node) { trees = append(trees, n) })
		k.Set("trees", len(trees))
		k.Par(int64(len(trees)), func(w *vk.Worker, i int64) {
			n := trees[i]
			w.Ev++
			w.Note(fmt.Sprintf("tree %d", i))
			if err := checkTree(n); err != nil {
				k.Violate(fmt.Sprintf("tree:%#v", n), err.Error(), map[string]any{"tree": fmt.Sprintf("%#v", n)})
				return
			}
			w.Nt++
			w.Out(fmt.Sprintf("tree:%T", n))
			if i%5003 == 0 {
				k.Sample("tree", string(enc.JSON{}.Encode(c, n)))
			}
		})
		// strings
		frag := []string{`"`, `\`, "/", "<", ">", "&", "\x00", "\x1f", "\x7f", "\u2028", "\u2029", "\xff", "\xc3", "\xe2\x80", "é", "漢", "😀", "\ufeff", "\uFFFD", "a", "\n", "\t", "'", "\xed\xa0\x80"}
		for l := 0; l <= k.Pick(3, 4); l++ {
			k.Par(pow(len(frag), l), func(w *vk.Worker, i int64) {
				s := ""
				for j := 0; j < l; j++ {
					s += frag[i%int64(len(frag))]
					i /= int64(len(frag))
				}
				w.Ev += 3
				w.Nt += 3
				w.Note(s)
				for _, n := range []enc.Node{enc.String(s), enc.Map{s: enc.Integer(1)}, enc.Pairs{{Name: s, JSON: s, Value: enc.String(s)}}} {
					if err := checkTree(n); err != nil {
						k.Violate(fmt.Sprintf("string:%q:%T", s, n), err.Error(), map[string]any{"string": fmt.Sprintf("%q", s)})
					}
				}
			})
		}
		big(k)
		run("tokens", tokens, k.Pick(6, 7))
		run("chars", chars, k.Pick(5, 6))
		// depth: nested containers well past any fixed buffer
		for _, d := range []int{10, 100, 1000, 5000} {
			for _, p := range [][2]string{{"[", "]"}, {`{"a":`, "}"}} {
				b := strings.Repeat(p[0], d) + "1" + strings.Repeat(p[1], d)
				if out, err := checkDoc([]byte(b)); err != nil {
					k.Violate(fmt.Sprintf("deep:%d:%s", d, p[0]), err.Error()[:200], d)
				} else {
					k.Evals(1)
					k.Nontrivial(1)
					k.Outcome("deep:" + out)
				}
			}
		}
	})
	_ = sort.Strings
}
