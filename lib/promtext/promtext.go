// Package promtext is a strict reader of the Prometheus text exposition format (version 0.0.4).
package promtext

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Sample struct {
	Name   string
	Labels map[string]string
	Value  float64
	Raw    string
}

type Family struct {
	Name, Type, Help string
	HasHelp          bool
	Samples          []Sample
}

// Key of a series, without the label skip.
func (s Sample) Key(skip string) string {
	var ks []string
	for k := range s.Labels {
		if k != skip {
			ks = append(ks, k)
		}
	}
	for i := range ks { // few
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q;", k, s.Labels[k])
	}
	return b.String()
}

func isName(s string, colon bool) bool {
	for i, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || colon && r == ':' || i > 0 && r >= '0' && r <= '9') {
			return false
		}
	}
	return s != ""
}

func member(fam *Family, name string) bool {
	if name == fam.Name {
		return fam.Type != "histogram"
	}
	switch fam.Type {
	case "histogram":
		return name == fam.Name+"_bucket" || name == fam.Name+"_sum" || name == fam.Name+"_count"
	case "summary":
		return name == fam.Name+"_sum" || name == fam.Name+"_count"
	}
	return false
}

// Parse reads a page; any departure from the format is an error.
func Parse(page string) ([]*Family, error) {
	if page == "" {
		return nil, nil
	}
	if !utf8.ValidString(page) {
		return nil, fmt.Errorf("not UTF-8")
	}
	if !strings.HasSuffix(page, "\n") {
		return nil, fmt.Errorf("no final newline")
	}
	var out []*Family
	byName := map[string]*Family{}
	var cur *Family
	series := map[string]bool{}
	get := func(n string) (*Family, error) {
		if cur != nil && cur.Name == n {
			return cur, nil
		}
		if byName[n] != nil {
			return nil, fmt.Errorf("family %s is not in one piece", n)
		}
		cur = &Family{Name: n}
		byName[n] = cur
		out = append(out, cur)
		return cur, nil
	}
	for no, l := range strings.Split(strings.TrimSuffix(page, "\n"), "\n") {
		bad := func(f string, a ...any) error { return fmt.Errorf("line %d %q: %s", no+1, l, fmt.Sprintf(f, a...)) }
		switch {
		case strings.HasPrefix(l, "# HELP "):
			p := strings.SplitN(l[7:], " ", 2)
			if !isName(p[0], true) {
				return nil, bad("name")
			}
			f, err := get(p[0])
			if err != nil {
				return nil, bad("%v", err)
			}
			if f.HasHelp || len(f.Samples) > 0 {
				return nil, bad("second or late help")
			}
			f.HasHelp = true
			if len(p) == 2 {
				s, err := unescape(p[1], false)
				if err != nil {
					return nil, bad("%v", err)
				}
				f.Help = s
			}
		case strings.HasPrefix(l, "# TYPE "):
			p := strings.Split(l[7:], " ")
			if len(p) != 2 || !isName(p[0], true) {
				return nil, bad("type line")
			}
			f, err := get(p[0])
			if err != nil {
				return nil, bad("%v", err)
			}
			if f.Type != "" || len(f.Samples) > 0 {
				return nil, bad("second or late type")
			}
			switch p[1] {
			case "counter", "gauge", "histogram", "summary", "untyped":
			default:
				return nil, bad("unknown type")
			}
			f.Type = p[1]
		case strings.HasPrefix(l, "#"), strings.TrimSpace(l) == "":
			if strings.TrimSpace(l) == "" && l != "" {
				return nil, bad("blanks")
			}
		default:
			s, err := sample(l)
			if err != nil {
				return nil, bad("%v", err)
			}
			if cur == nil || cur.Type == "" || !member(cur, s.Name) {
				return nil, bad("sample outside its typed family")
			}
			k := s.Name + "{" + s.Key("")
			if series[k] {
				return nil, bad("series appears twice")
			}
			series[k] = true
			cur.Samples = append(cur.Samples, s)
		}
	}
	return out, nil
}

func unescape(s string, quotes bool) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i == len(s) {
			return "", fmt.Errorf("dangling backslash")
		}
		switch {
		case s[i] == '\\':
			b.WriteByte('\\')
		case s[i] == 'n':
			b.WriteByte('\n')
		case s[i] == '"' && quotes:
			b.WriteByte('"')
		default:
			return "", fmt.Errorf("escape \\%c", s[i])
		}
	}
	return b.String(), nil
}

func sample(l string) (s Sample, err error) {
	i := strings.IndexAny(l, "{ ")
	if i < 0 {
		return s, fmt.Errorf("no value")
	}
	s.Name, s.Labels = l[:i], map[string]string{}
	if !isName(s.Name, true) {
		return s, fmt.Errorf("name %q", s.Name)
	}
	l = l[i:]
	if l[0] == '{' {
		l = l[1:]
		for {
			if l == "" {
				return s, fmt.Errorf("labels are not closed")
			}
			if l[0] == '}' {
				l = l[1:]
				break
			}
			e := strings.IndexByte(l, '=')
			if e < 0 || !isName(l[:e], false) || len(l) < e+2 || l[e+1] != '"' {
				return s, fmt.Errorf("label at %q", l)
			}
			name := l[:e]
			l = l[e+2:]
			j := 0
			for ; j < len(l) && l[j] != '"'; j++ {
				if l[j] == '\\' {
					j++
				}
			}
			if j >= len(l) {
				return s, fmt.Errorf("label value is not closed")
			}
			v, err := unescape(l[:j], true)
			if err != nil {
				return s, err
			}
			if _, dup := s.Labels[name]; dup {
				return s, fmt.Errorf("label %s twice", name)
			}
			s.Labels[name] = v
			l = l[j+1:]
			if l != "" && l[0] == ',' {
				l = l[1:]
			} else if l == "" || l[0] != '}' {
				return s, fmt.Errorf("after label: %q", l)
			}
		}
	}
	p := strings.Fields(l)
	if len(p) != 1 || !strings.HasPrefix(l, " ") {
		return s, fmt.Errorf("value %q", l)
	}
	s.Raw = p[0]
	s.Value, err = Number(p[0])
	return s, err
}

// Number reads a value.
func Number(s string) (float64, error) {
	switch s {
	case "NaN":
		return math.NaN(), nil
	case "+Inf", "Inf":
		return math.Inf(1), nil
	case "-Inf":
		return math.Inf(-1), nil
	}
	for _, r := range s {
		if !strings.ContainsRune("0123456789+-.eE", r) {
			return 0, fmt.Errorf("number %q", s)
		}
	}
	return strconv.ParseFloat(s, 64)
}
