package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"text/scanner"

	"golang.org/x/tools/go/packages"
)

// The interface definitions: a reader of .proto files and one of the binary
// descriptors that generated code carries. Both give the same model.

type idl struct {
	pkg   string
	msgs  map[string]*idlMsg          // by full name
	enums map[string]map[string]int64 // values by full name
	svcs  map[string]map[string]idlRPC
}

type idlMsg struct {
	name   string
	fields map[string]idlField
}

type idlField struct {
	name     string
	num      int64
	repeated bool
	typ      string // string, double, …, map<k,v>, or the full name of a type
	json     string
}

type idlRPC struct {
	in, out        string
	inStr, outStr  bool
	comment, where string
}

func newIDL() *idl {
	return &idl{msgs: map[string]*idlMsg{}, enums: map[string]map[string]int64{}, svcs: map[string]map[string]idlRPC{}}
}

func (a *idl) add(b *idl) {
	for k, v := range b.msgs {
		a.msgs[k] = v
	}
	for k, v := range b.enums {
		a.enums[k] = v
	}
	for k, v := range b.svcs {
		a.svcs[k] = v
	}
}

// ---- .proto ----

type protoParser struct {
	s    scanner.Scanner
	tok  string
	d    *idl
	err  error
	file string
}

func (p *protoParser) next() string {
	t := p.tok
	if p.s.Scan() == scanner.EOF {
		p.tok = ""
	} else {
		p.tok = p.s.TokenText()
	}
	return t
}

func (p *protoParser) want(s string) {
	if t := p.next(); t != s && p.err == nil {
		p.err = fmt.Errorf("%s:%d: %q where %q was expected", p.file, p.s.Line, t, s)
	}
}

// ident reads a name with dots.
func (p *protoParser) ident() string {
	s := ""
	if p.tok == "." {
		p.next()
	}
	s = p.next()
	for p.tok == "." {
		p.next()
		s += "." + p.next()
	}
	return s
}

func (p *protoParser) skipTo(s string) {
	for p.tok != "" && p.tok != s {
		p.next()
	}
	p.next()
}

func parseProto(file string) (*idl, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	p := &protoParser{d: newIDL(), file: file}
	p.s.Init(strings.NewReader(string(data)))
	p.s.Mode = scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats | scanner.ScanStrings | scanner.ScanComments | scanner.SkipComments
	p.s.Error = func(*scanner.Scanner, string) {}
	p.next()
	for p.tok != "" && p.err == nil {
		switch p.tok {
		case "syntax", "import", "option":
			p.skipTo(";")
		case "package":
			p.next()
			p.d.pkg = p.ident()
			p.want(";")
		case "message":
			p.message(p.d.pkg)
		case "enum":
			p.enum(p.d.pkg)
		case "service":
			p.service()
		case ";":
			p.next()
		default:
			return nil, fmt.Errorf("%s:%d: unexpected %q", file, p.s.Line, p.tok)
		}
	}
	if p.err != nil {
		return nil, p.err
	}
	return p.d, nil
}

func (p *protoParser) enum(scope string) {
	p.want("enum")
	name := scope + "." + p.next()
	vals := map[string]int64{}
	p.want("{")
	for p.tok != "}" && p.tok != "" && p.err == nil {
		if p.tok == "option" || p.tok == "reserved" {
			p.skipTo(";")
			continue
		}
		if p.tok == ";" {
			p.next()
			continue
		}
		n := p.next()
		p.want("=")
		neg := false
		if p.tok == "-" {
			neg = true
			p.next()
		}
		v, err := strconv.ParseInt(p.next(), 0, 64)
		if err != nil {
			p.err = err
		}
		if neg {
			v = -v
		}
		vals[n] = v
		if p.tok == "[" {
			p.skipTo("]")
		}
		p.want(";")
	}
	p.want("}")
	p.d.enums[name] = vals
}

func (p *protoParser) message(scope string) {
	p.want("message")
	name := scope + "." + p.next()
	m := &idlMsg{name, map[string]idlField{}}
	p.d.msgs[name] = m
	p.want("{")
	p.body(name, m)
	p.want("}")
}

func (p *protoParser) body(name string, m *idlMsg) {
	for p.tok != "}" && p.tok != "" && p.err == nil {
		switch p.tok {
		case "message":
			p.message(name)
			continue
		case "enum":
			p.enum(name)
			continue
		case "option", "reserved", "extensions":
			p.skipTo(";")
			continue
		case "oneof":
			p.next()
			p.next()
			p.want("{")
			p.body(name, m)
			p.want("}")
			continue
		case ";":
			p.next()
			continue
		}
		f := idlField{}
		if p.tok == "repeated" {
			f.repeated = true
			p.next()
		} else if p.tok == "optional" {
			p.next()
		}
		if p.tok == "map" {
			p.next()
			p.want("<")
			k := p.ident()
			p.want(",")
			v := p.ident()
			p.want(">")
			f.typ = "map<" + k + "," + v + ">"
		} else {
			f.typ = p.ident()
		}
		f.name = p.next()
		p.want("=")
		n, err := strconv.ParseInt(p.next(), 0, 64)
		if err != nil && p.err == nil {
			p.err = fmt.Errorf("%s:%d: %v", p.file, p.s.Line, err)
		}
		f.num = n
		f.json = jsonName(f.name)
		for p.tok == "[" {
			p.skipTo("]")
		}
		p.want(";")
		m.fields[f.name] = f
	}
}

func (p *protoParser) service() {
	p.want("service")
	name := p.d.pkg + "." + p.next()
	rpcs := map[string]idlRPC{}
	p.want("{")
	for p.tok != "}" && p.tok != "" && p.err == nil {
		if p.tok == "option" {
			p.skipTo(";")
			continue
		}
		if p.tok == ";" {
			p.next()
			continue
		}
		p.want("rpc")
		n := p.next()
		var r idlRPC
		p.want("(")
		if p.tok == "stream" {
			r.inStr = true
			p.next()
		}
		r.in = p.ident()
		p.want(")")
		p.want("returns")
		p.want("(")
		if p.tok == "stream" {
			r.outStr = true
			p.next()
		}
		r.out = p.ident()
		p.want(")")
		if p.tok == "{" {
			depth := 0
			for p.tok != "" {
				t := p.next()
				if t == "{" {
					depth++
				}
				if t == "}" {
					depth--
					if depth == 0 {
						break
					}
				}
			}
		} else {
			p.want(";")
		}
		rpcs[n] = r
	}
	p.want("}")
	p.d.svcs[name] = rpcs
}

func jsonName(s string) string {
	out, up := "", false
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up {
			out += strings.ToUpper(string(c))
			up = false
			continue
		}
		out += string(c)
	}
	return out
}

var protoScalars = map[string]bool{"double": true, "float": true, "int32": true, "int64": true, "uint32": true, "uint64": true, "sint32": true, "sint64": true, "fixed32": true, "fixed64": true, "sfixed32": true, "sfixed64": true, "bool": true, "string": true, "bytes": true}

// resolve turns the type names into full names.
func (d *idl) resolve() {
	full := func(t, scope string) string {
		if protoScalars[t] {
			return t
		}
		for s := scope; ; {
			c := t
			if s != "" {
				c = s + "." + t
			}
			if d.msgs[c] != nil || d.enums[c] != nil {
				return c
			}
			if s == "" {
				return t
			}
			if i := strings.LastIndexByte(s, '.'); i >= 0 {
				s = s[:i]
			} else {
				s = ""
			}
		}
	}
	for n, m := range d.msgs {
		for k, f := range m.fields {
			if strings.HasPrefix(f.typ, "map<") {
				kv := strings.SplitN(f.typ[4:len(f.typ)-1], ",", 2)
				f.typ = "map<" + full(kv[0], n) + "," + full(kv[1], n) + ">"
			} else {
				f.typ = full(f.typ, n)
			}
			m.fields[k] = f
		}
	}
	for s, rs := range d.svcs {
		scope := s[:strings.LastIndexByte(s, '.')]
		for k, r := range rs {
			r.in, r.out = full(r.in, scope), full(r.out, scope)
			rs[k] = r
		}
	}
}

// ---- descriptors ----

type wireField struct {
	num  int
	v    uint64
	data []byte
}

func wire(b []byte) ([]wireField, bool) {
	var out []wireField
	varint := func() (uint64, bool) {
		var v uint64
		for i := 0; i < 10; i++ {
			if len(b) == 0 {
				return 0, false
			}
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << (7 * i)
			if c < 0x80 {
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		tag, ok := varint()
		if !ok || tag>>3 == 0 {
			return nil, false
		}
		f := wireField{num: int(tag >> 3)}
		switch tag & 7 {
		case 0:
			if f.v, ok = varint(); !ok {
				return nil, false
			}
		case 1, 5:
			n := 8
			if tag&7 == 5 {
				n = 4
			}
			if len(b) < n {
				return nil, false
			}
			f.data, b = b[:n], b[n:]
		case 2:
			n, ok := varint()
			if !ok || n > uint64(len(b)) {
				return nil, false
			}
			f.data, b = b[:n], b[n:]
		default:
			return nil, false
		}
		out = append(out, f)
	}
	return out, true
}

var descTypes = map[uint64]string{1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool", 9: "string", 12: "bytes", 13: "uint32", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}

// parseDescriptor reads a FileDescriptorProto.
func parseDescriptor(b []byte) (d *idl, name string, ok bool) {
	fs, ok := wire(b)
	if !ok {
		return nil, "", false
	}
	d = newIDL()
	for _, f := range fs {
		switch f.num {
		case 1:
			name = string(f.data)
		case 2:
			d.pkg = string(f.data)
		}
	}
	for _, f := range fs {
		switch f.num {
		case 4:
			d.descMessage(f.data, d.pkg)
		case 5:
			d.descEnum(f.data, d.pkg)
		case 6:
			d.descService(f.data)
		}
	}
	return d, name, name != ""
}

func (d *idl) descEnum(b []byte, scope string) {
	fs, _ := wire(b)
	name, vals := "", map[string]int64{}
	for _, f := range fs {
		switch f.num {
		case 1:
			name = string(f.data)
		case 2:
			vs, _ := wire(f.data)
			n, v := "", int64(0)
			for _, x := range vs {
				if x.num == 1 {
					n = string(x.data)
				}
				if x.num == 2 {
					v = int64(x.v)
				}
			}
			vals[n] = v
		}
	}
	d.enums[scope+"."+name] = vals
}

func (d *idl) descMessage(b []byte, scope string) {
	fs, _ := wire(b)
	name := ""
	for _, f := range fs {
		if f.num == 1 {
			name = scope + "." + string(f.data)
		}
	}
	m := &idlMsg{name, map[string]idlField{}}
	d.msgs[name] = m
	entries := map[string]bool{}
	for _, f := range fs {
		switch f.num {
		case 3:
			d.descMessage(f.data, name)
			sub, _ := wire(f.data)
			n, isMap := "", false
			for _, x := range sub {
				if x.num == 1 {
					n = string(x.data)
				}
				if x.num == 7 {
					os, _ := wire(x.data)
					for _, o := range os {
						isMap = isMap || o.num == 7 && o.v == 1
					}
				}
			}
			if isMap {
				entries[name+"."+n] = true
			}
		case 4:
			d.descEnum(f.data, name)
		}
	}
	for _, f := range fs {
		if f.num != 2 {
			continue
		}
		x := idlField{}
		sub, _ := wire(f.data)
		for _, y := range sub {
			switch y.num {
			case 1:
				x.name = string(y.data)
			case 3:
				x.num = int64(y.v)
			case 4:
				x.repeated = y.v == 3
			case 5:
				if t := descTypes[y.v]; t != "" {
					x.typ = t
				}
			case 6:
				x.typ = strings.TrimPrefix(string(y.data), ".")
			case 10:
				x.json = string(y.data)
			}
		}
		if entries[x.typ] {
			e := d.msgs[x.typ]
			x.typ = "map<" + e.fields["key"].typ + "," + e.fields["value"].typ + ">"
			x.repeated = false
		}
		m.fields[x.name] = x
	}
	for e := range entries {
		delete(d.msgs, e)
	}
}

func (d *idl) descService(b []byte) {
	fs, _ := wire(b)
	name, rpcs := "", map[string]idlRPC{}
	for _, f := range fs {
		switch f.num {
		case 1:
			name = d.pkg + "." + string(f.data)
		case 2:
			ms, _ := wire(f.data)
			n, r := "", idlRPC{}
			for _, x := range ms {
				switch x.num {
				case 1:
					n = string(x.data)
				case 2:
					r.in = strings.TrimPrefix(string(x.data), ".")
				case 3:
					r.out = strings.TrimPrefix(string(x.data), ".")
				case 5:
					r.inStr = x.v == 1
				case 6:
					r.outStr = x.v == 1
				}
			}
			rpcs[n] = r
		}
	}
	d.svcs[name] = rpcs
}

// descriptors reads the descriptors in the byte variables of a package.
func descriptors(p *packages.Package) (*idl, []string) {
	out := newIDL()
	var names []string
	for _, f := range p.Syntax {
		for _, dcl := range f.Decls {
			g, ok := dcl.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR && g.Tok != token.CONST {
				continue
			}
			for _, s := range g.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Values) != 1 {
					continue
				}
				var b []byte
				if cl, is := v.Values[0].(*ast.CompositeLit); is {
					t := p.TypesInfo.TypeOf(cl)
					if t == nil || t.String() != "[]byte" {
						continue
					}
					for _, e := range cl.Elts {
						tv := p.TypesInfo.Types[e]
						if tv.Value == nil {
							b = nil
							break
						}
						n, _ := constant.Int64Val(tv.Value)
						b = append(b, byte(n))
					}
				} else if tv := p.TypesInfo.Types[v.Values[0]]; tv.Value != nil && tv.Value.Kind() == constant.String && strings.Contains(v.Names[0].Name, "rawDesc") {
					b = []byte(constant.StringVal(tv.Value))
				} else {
					continue
				}
				if d, n, ok := parseDescriptor(b); ok && strings.HasSuffix(n, ".proto") {
					out.add(d)
					out.pkg = d.pkg
					names = append(names, n)
				}
			}
		}
	}
	sort.Strings(names)
	return out, names
}

// protoFiles reads the definitions of a directory.
func protoFiles(dir string) (*idl, []string, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.proto"))
	out := newIDL()
	var names []string
	for _, f := range files {
		d, err := parseProto(f)
		if err != nil {
			return nil, nil, err
		}
		out.add(d)
		out.pkg = d.pkg
		names = append(names, filepath.Base(f))
	}
	out.resolve()
	sort.Strings(names)
	return out, names, nil
}

// ---- HTTP rules ----

type httpRule struct {
	rpc, verb, path, body string
}

// httpRules reads the rules of a service configuration (the subset of YAML it
// is written in: a list of maps of plain strings).
func httpRules(file string) ([]httpRule, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []httpRule
	inRules := false
	for n, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, " #"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if t == "rules:" {
			inRules = true
			continue
		}
		if !inRules {
			continue
		}
		if l[0] != ' ' && l[0] != '-' {
			inRules = false
			continue
		}
		if strings.HasPrefix(t, "- ") {
			out = append(out, httpRule{})
			t = strings.TrimSpace(t[2:])
		}
		kv := strings.SplitN(t, ":", 2)
		if len(kv) != 2 || len(out) == 0 {
			return nil, fmt.Errorf("%s:%d: %q", file, n+1, t)
		}
		v := strings.Trim(strings.TrimSpace(kv[1]), `"'`)
		r := &out[len(out)-1]
		switch kv[0] {
		case "selector":
			r.rpc = v
		case "get", "put", "post", "delete", "patch":
			r.verb, r.path = strings.ToUpper(kv[0]), v
		case "body":
			r.body = v
		default:
			return nil, fmt.Errorf("%s:%d: %q is not understood", file, n+1, kv[0])
		}
	}
	return out, nil
}
