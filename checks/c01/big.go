package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/Aize-Public/forego/enc"
	"verif.local/mc/lib/vk"
)

// big documents and trees: long strings, lists, objects and numbers with something awkward at every place.
func big(k *vk.Check) {
	doc := func(w *vk.Worker, what string, b string) {
		w.Note(what)
		w.Ev++
		out, err := checkDoc([]byte(b))
		if err != nil {
			msg := err.Error()
			if len(msg) > 600 {
				msg = msg[:600] + "..."
			}
			k.Violate("big:"+what, what+": "+msg, map[string]any{"case": what})
			return
		}
		if strings.HasPrefix(out, "valid") {
			w.Nt++
		}
		w.Out("big:" + out)
	}
	tree := func(w *vk.Worker, what string, n enc.Node) {
		w.Note(what)
		w.Ev++
		w.Nt++
		if err := checkTree(n); err != nil {
			msg := err.Error()
			if len(msg) > 600 {
				msg = msg[:600] + "..."
			}
			k.Violate("bigtree:"+what, what+": "+msg, map[string]any{"case": what})
		}
	}
	frag := []string{`"`, `\`, "\n", "\u2028", "\xff", "\xe2\x80", "é", "漢", "😀", "<", "\x00"}
	esc := []string{`\"`, `\\`, `\n`, `\u2028`, `\ud83d\ude00`, `\ud800`, `\u00e9`, "漢", "\xff", `"`, "\n", `\x`}
	n := k.Pick(130, 300)
	k.Par(int64(n), func(w *vk.Worker, i int64) {
		l := int(i)
		for at := 0; at <= l; at++ {
			if l > 70 && at > 5 && at < l-5 && at%16 > 1 {
				continue
			}
			pre, post := strings.Repeat("a", at), strings.Repeat("z", l-at)
			for f, s := range frag {
				what := fmt.Sprintf("%d characters with %q at %d", l, s, at)
				s := pre + s + post
				tree(w, what, enc.String(s))
				tree(w, what+" as key", enc.Map{s: enc.Integer(f)})
				tree(w, what+" as name", enc.Pairs{{Name: "n", JSON: s, Value: enc.List{enc.String(s)}}})
			}
			for _, s := range esc {
				what := fmt.Sprintf("document of %d characters with %s at %d", l, s, at)
				doc(w, what, `"`+pre+s+post+`"`)
				doc(w, what+" as key", `{"`+pre+s+post+`":1}`)
			}
		}
	})
	// many elements, an odd one at every place
	odd := []string{"1", "-0.5e7", `""`, "null", "{}", "[]", `{"a":[1]}`, "x", "", "01", "1 1", "tru", `"`, "]", "}"}
	k.Par(int64(k.Pick(80, 200)), func(w *vk.Worker, i int64) {
		l := int(i) + 1
		for at := 0; at < l; at++ {
			if l > 40 && at > 3 && at < l-3 && at%8 > 1 {
				continue
			}
			for _, o := range odd {
				list, obj := make([]string, l), make([]string, l)
				for j := range list {
					list[j] = fmt.Sprint(j)
					if j == at {
						list[j] = o
					}
					obj[j] = fmt.Sprintf(`"k%d":%s`, j, list[j])
				}
				what := fmt.Sprintf("%d elements with %s at %d", l, o, at)
				doc(w, what, "["+strings.Join(list, ",")+"]")
				doc(w, what+" in an object", "{"+strings.Join(obj, ", ")+"}")
			}
			// the same key twice: the last one counts
			obj := make([]string, l)
			for j := range obj {
				obj[j] = fmt.Sprintf(`"k%d":%d`, j, j)
			}
			doc(w, fmt.Sprintf("%d keys with number %d again", l, at), "{"+strings.Join(obj, ",")+fmt.Sprintf(`,"k%d":"again"}`, at))
			list, m, p := enc.List{}, enc.Map{}, enc.Pairs{}
			for j := 0; j < l; j++ {
				var n enc.Node = enc.Integer(j)
				if j == at {
					n = []enc.Node{enc.Float(0.1), enc.Nil{}, enc.String("q\""), enc.Map{"x": enc.List{}}, enc.Duration(time.Hour), enc.Pairs{}}[l%6]
				}
				list = append(list, n)
				m[fmt.Sprint("k", j)] = n
				p = append(p, enc.Pair{Name: fmt.Sprint("N", j), JSON: fmt.Sprint("j", l-j), Value: n})
			}
			what := fmt.Sprintf("tree of %d elements, odd at %d", l, at)
			tree(w, what, list)
			tree(w, what+" map", m)
			tree(w, what+" pairs", p)
		}
	})
	// numbers of every length, in every place a sign, point or exponent can be
	k.Par(int64(k.Pick(120, 400)), func(w *vk.Worker, i int64) {
		l := int(i) + 1
		d := strings.Repeat("1234567890", l/10+1)[:l]
		for _, b := range []string{d, "-" + d, "0" + d, d + ".", "." + d, d + "e", d + "e5", d + "E-5", "1e" + d, "1e-" + d, "0." + d, "-0." + strings.Repeat("0", l) + "1", "1" + strings.Repeat("0", l), "1" + strings.Repeat("0", l) + ".0", "+" + d, d + "-", "1e+" + d + "0"} {
			doc(w, "number "+b, b)
			doc(w, "number in a list "+b, "["+b+","+b+"]")
		}
		for at := 0; at <= l && l < 60; at++ {
			doc(w, fmt.Sprintf("%d digits with a point at %d", l, at), d[:at]+"."+d[at:])
			doc(w, fmt.Sprintf("%d digits with an exponent at %d", l, at), d[:at]+"e"+d[at:])
			tree(w, fmt.Sprintf("%d digits", l), enc.List{enc.Digits("-" + d), enc.Digits(d + ".5e3")})
		}
	})
	// documents around the sizes of buffers
	var sizes []int
	for _, s := range []int{512, 1024, 2048, 4096, 8192, 65536} {
		for d := -4; d < 4; d++ {
			sizes = append(sizes, s+d)
		}
	}
	k.Par(int64(len(sizes)), func(w *vk.Worker, i int64) {
		s := sizes[i]
		pad, text := strings.Repeat(" ", s), strings.Repeat("a", s)
		for what, b := range map[string]string{
			"blank before": pad + `{"a":"b"}`, "blank after": `{"a":"b"}` + pad, "blank between": `{"a":` + pad + `"b"}`, "blank then rubbish": `1` + pad + `x`, "blank only": pad,
			"long string": `"` + text + `é"`, "long key": `{"` + text + `é":1}`, "long list": "[" + strings.Repeat("1,", s/2) + "1]", "cut string": `"` + text, "cut list": "[" + strings.Repeat("1,", s/2),
			"second document": `"` + text + `" 1`, "escapes": `"` + strings.Repeat(`\n`, s/2) + `\u00e9"`,
		} {
			doc(w, fmt.Sprintf("%s of %d bytes", what, s), b)
		}
	})
	k.Set("long_strings", n-1)
}
