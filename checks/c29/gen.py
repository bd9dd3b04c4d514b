#!/usr/bin/env python3
# writes forms.go: every assertion in every form of call
H = {
 'Nil': ('t, a', 'any1'), 'NotNil': ('t, a', 'any1'), 'Empty': ('t, a', 'any1'), 'NotEmpty': ('t, a', 'any1'),
 'Assert': ('t, a.(bool)', 'bool1'), 'NoError': ('t, asErr(a)', 'err1'), 'Error': ('t, asErr(a)', 'err1'),
 'EqualsType': ('t, a, b', 'any2'), 'EqualsGo': ('t, a, b', 'any2'), 'NotEqualsGo': ('t, a, b', 'any2'),
 'EqualsStr': ('t, a.(string), b.(string)', 'str2'), 'NotEqualsStr': ('t, a.(string), b.(string)', 'str2'),
 'Contains': ('t, a.(string), b.(string)', 'str2'), 'NotContains': ('t, a.(string), b.(string)', 'str2'),
 'ContainsGo': ('t, a, b.(string)', 'go2'),
 'EqualsJSON': ('c, a, b', 'ctx2'), 'NotEqualsJSON': ('c, a, b', 'ctx2'),
 'ContainsJSON': ('c, a, b.(string)', 'json2'), 'NotContainsJSON': ('c, a, b.(string)', 'json2'),
}
RET = {'any1': '(*testing.T, any)', 'bool1': '(*testing.T, bool)', 'err1': '(*testing.T, error)', 'any2': '(*testing.T, any, any)',
 'str2': '(*testing.T, string, string)', 'go2': '(*testing.T, any, string)', 'ctx2': '(ctx.C, any, any)', 'json2': '(ctx.C, any, string)'}
out = ['// Code generated by gen.py. DO NOT EDIT.', '', 'package main', '', 'import (', '\t"reflect"', '\t"testing"', '',
 '\t"github.com/Aize-Public/forego/ctx"', '\t"github.com/Aize-Public/forego/test"', '\taka "github.com/Aize-Public/forego/test"', ')', '',
 'type form struct {', '\thelper, form string', '\trun func(t *testing.T, c ctx.C, a, b any)', '}', '',
 'func asErr(v any) error { e, _ := v.(error); return e }', '']
for h, (args, sig) in H.items():
    first, rest = args.split(', ', 1)
    out.append(f'func (n named) {h}() any {{ return n.v }}')
    out.append('')
    out.append(f'func spread{h}(t *testing.T, c ctx.C, a, b any) {RET[sig]} {{ return {args} }}')
    out.append('')
out.append('func via[T any](t *testing.T, c ctx.C, a, b T, f func(t *testing.T, c ctx.C, a, b T)) { f(t, c, a, b) }')
out.append('')
out.append('var forms = []form{')
def add(h, name, body):
    out.append(f'\t{{"{h}", "{name}", func(t *testing.T, c ctx.C, a, b any) {{')
    out.extend(body if isinstance(body, list) else ['\t\t' + body])
    out.append('\t}},')
for h, (args, sig) in H.items():
    first, rest = args.split(', ', 1)
    add(h, 'direct', f'test.{h}({args})')
    add(h, 'alias', f'aka.{h}({args})')
    add(h, 'function value', f'f := test.{h}; f({args})')
    add(h, 'field', f's := struct{{ f func{RET[sig]} }}{{test.{h}}}; s.f({args})')
    add(h, 'parentheses', f'(test.{h})({args})')
    add(h, 'defer', [f'\t\tdefer test.{h}({args})', '\t\tuse(a, b)', '\t\tuse(b, a)'])
    add(h, 'deferred closure', f'defer func() {{ test.{h}({args}) }}()')
    add(h, 'closure', f'func() {{ test.{h}({args}) }}()')
    add(h, 'several lines', ['\t\ttest.' + h + '('] + ['\t\t\t' + x + ',' for x in args.split(', ')] + ['\t\t)'])
    add(h, 'selector on its own line', ['\t\ttest.', f'\t\t\t{h}({args})'])
    add(h, 'twice on a line', f'test.{h}({args}); test.{h}({args})')
    lastarg = args.split(', ')[-1]
    ass = lastarg if '.(' in lastarg else None
    v = 'b' if ', b' in args else 'a'
    conv = {'any1': '', 'any2': '', 'ctx2': '', 'bool1': '.(bool)', 'str2': '.(string)', 'go2': '.(string)', 'json2': '.(string)'}
    if sig == 'err1':
        inner = f'asErr(named{{a}}.{h}())'
    else:
        inner = f'named{{{v}}}.{h}(){conv[sig]}'
    pre = args.rsplit(', ', 1)[0]
    add(h, 'a method of the same name in an argument', f'test.{h}({pre}, {inner})')
    add(h, 'results of a call', f'test.{h}(spread{h}(t, c, a, b))')
    if sig in ('any1', 'any2', 'ctx2', 'str2', 'bool1', 'go2', 'json2'):
        n = len(args.split(', '))
        params = ['any', 'any'] if False else None
    rargs = ', '.join(f'val({x}, {i}, test.{h})' for i, x in enumerate(args.split(', ')))
    add(h, 'reflection', f'reflect.ValueOf(test.{h}).Call([]reflect.Value{{{rargs}}})')
    add(h, 'generic', f'via(t, c, a, b, func(t *testing.T, c ctx.C, a, b any) {{ test.{h}({args}) }})')
    add(h, 'a variable', [f'\t\tx, y := a, b', '\t\tuse(x, y)', f'\t\ta, b = y, x', '\t\ta, b = x, y', f'\t\tif z := a; true {{', '\t\t\tuse(z, b)', f'\t\t\ttest.{h}({args})', '\t\t}'])
    add(h, 'statements', ['\tloop:', '\t\tfor i := 0; i < 1; i++ {', '\t\t\tswitch x := a.(type) {', '\t\t\tdefault:', '\t\t\t\tuse(x, i)', '\t\t\t\tselect {', '\t\t\t\tdefault:', f'\t\t\t\t\ttest.{h}({args})', '\t\t\t\t\tbreak loop', '\t\t\t\t}', '\t\t\t}', '\t\t}'])
    add(h, 'a function on the line', f'use(func() {{}}, func(x ...any) {{ test.{h}({args}) }}); test.{h}({args})')
# these lose the place of what follows
for h, (args, sig) in H.items():
    add(h, 'no source', ['//line /nonexistent/source.go:7', f'\t\ttest.{h}({args})', '//line forms.go:1000'])
    add(h, 'source that is no Go', [f'//line /proc/self/cmdline:1', f'\t\ttest.{h}({args})', '//line forms.go:1000'])
    add(h, 'another line of the source', [f'//line gen.py:1', f'\t\ttest.{h}({args})', '//line forms.go:1000'])
out.append('}')
open(__file__.replace('gen.py', 'forms.go'), 'w').write('\n'.join(out) + '\n')
d = ['// Code generated by gen.py. DO NOT EDIT.', '', '// every assertion parses the source it is called from: this one is short', 'package main', '', 'import (', '\t"testing"', '', '\t"github.com/Aize-Public/forego/ctx"', '\t"github.com/Aize-Public/forego/test"', ')', '',
 'var direct = map[string]func(t *testing.T, c ctx.C, a, b any){']
for h, (args, sig) in H.items():
    d.append(f'\t"{h}": func(t *testing.T, c ctx.C, a, b any) {{ test.{h}({args}) }},')
d.append('}')
open(__file__.replace('gen.py', 'direct.go'), 'w').write('\n'.join(d) + '\n')
import subprocess
subprocess.run(['gofmt', '-w', __file__.replace('gen.py', 'forms.go'), __file__.replace('gen.py', 'direct.go')], check=True)
