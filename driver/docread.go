package main

// Documents that differ from what the library writes.

import (
	"bytes"
	"fmt"
	"strings"
)

var badNumbers = []string{"-1", "1.5", "1e3", "4294967296", "18446744073709551616", "99999999999999999999999", "-0"}
var anyNumbers = []string{"0", "1", "2", "255", "256", "65536", "4294967295", "2147483648", "8589934592", "18446744073709551615"}
var times = []string{
	"1980-01-06T00:00:00Z", "2020-02-29T23:59:59Z", "2106-02-07T06:28:15Z", "2106-02-07T06:28:16Z", "2116-02-12T06:28:15Z",
	"2021-02-29T00:00:00Z", "2020-06-30T12:30:00+02:00", "2020-12-31T23:30:00-01:30", "2020-01-01T00:00:00.5Z", "2020-01-01",
	"", "2020-01-01 00:00:00Z", "2020-13-01T00:00:00Z", "1979-12-31T00:00:00Z", "1980-01-05T23:30:00-01:00", "2020-01-01T24:00:00Z",
}

func (g *gen) jscalar() *jnode {
	switch g.Intn(8) {
	case 0:
		return &jnode{tag: "null"}
	case 1:
		return &jnode{tag: "b", text: g.pick("true", "false")}
	case 2, 3:
		return &jnode{tag: "n", text: g.pick(anyNumbers...)}
	case 4:
		return &jnode{tag: "n", text: g.pick(badNumbers...)}
	case 5:
		return &jnode{tag: "s", str: g.pick("", "abc", "1", "true", "zz", "0g")}
	case 6:
		return &jnode{tag: "a"}
	default:
		return &jnode{tag: "o"}
	}
}

// all nodes of a tree with their parents
type jref struct {
	p *jnode
	i int
}

func jrefs(n *jnode) []jref {
	var out []jref
	for i := range n.kids {
		out = append(out, jref{n, i})
		out = append(out, jrefs(n.kids[i])...)
	}
	return out
}

func jremove(r jref) {
	r.p.kids = append(append([]*jnode{}, r.p.kids[:r.i]...), r.p.kids[r.i+1:]...)
	if r.p.tag == "o" {
		r.p.keys = append(append([]string{}, r.p.keys[:r.i]...), r.p.keys[r.i+1:]...)
	}
}

// jmutate changes a JSON tree.
func (g *gen) jmutate(n *jnode) {
	refs := jrefs(n)
	if len(refs) == 0 {
		return
	}
	r := refs[g.Intn(len(refs))]
	k := r.p.kids[r.i]
	key := ""
	if r.p.tag == "o" {
		key = r.p.keys[r.i]
	}
	if g.chance(8) { // elements of the lists
		var in []jref
		for _, q := range refs {
			if q.p.tag == "a" {
				in = append(in, q)
			}
		}
		if len(in) > 0 {
			r = in[g.Intn(len(in))]
			switch g.Intn(3) {
			case 0:
				r.p.kids[r.i] = &jnode{tag: "null"}
			case 1:
				jremove(r)
			case 2:
				r.p.kids = append(r.p.kids, r.p.kids[g.Intn(len(r.p.kids))])
			}
			return
		}
	}
	switch g.Intn(8) {
	case 0, 1: // leave out
		if r.p.tag == "o" {
			jremove(r)
		}
	case 2: // another order
		for _, q := range append(refs, jref{n, 0}) {
			if q.p.tag == "o" {
				g.Shuffle(len(q.p.kids), func(a, b int) {
					q.p.kids[a], q.p.kids[b] = q.p.kids[b], q.p.kids[a]
					q.p.keys[a], q.p.keys[b] = q.p.keys[b], q.p.keys[a]
				})
			}
		}
	case 3: // an unknown member
		if k.tag == "o" {
			k.keys = append(k.keys, g.pick("x", "foo", "unknownKey", "privatebytesX"))
			k.kids = append(k.kids, g.jscalar())
		}
	case 4, 5: // another value
		if r.p.tag == "a" {
			switch g.Intn(3) {
			case 0:
				r.p.kids[r.i] = g.jscalar()
			case 1: // nothing where an element should be
				r.p.kids[r.i] = &jnode{tag: "null"}
			}
			return
		}
		r.p.kids[r.i] = g.jscalar()
	case 6: // another value of the same type
		switch k.tag {
		case "n":
			k.text = g.pick(append(anyNumbers, badNumbers...)...)
			if key == "type" {
				k.text = g.pick("0", "1", "2", "3", "4", "5", "6", "7", "8", "255", "256", "4294967295", "4294967296")
			}
		case "b":
			k.text = g.pick("true", "false")
		case "s":
			switch key {
			case "utcSpliceTime":
				k.str = g.pick(times...)
			case "privateBytes":
				k.str = g.pick("", "00", "ABcd01", "0", "xy", "0x00", "abc")
			default:
				k.str = g.pick("", "a", "10.5240/0000-0000-0000-0000-0000-0", "AAAA", "12", "text", "base-64")
			}
		}
	case 7:
		if r.p.tag == "o" {
			r.p.kids[r.i] = &jnode{tag: "null"}
		}
	}
}

type xref struct {
	p *xnode
	i int
}

func xrefs(n *xnode) []xref {
	var out []xref
	for i := range n.kids {
		out = append(out, xref{n, i})
		out = append(out, xrefs(n.kids[i])...)
	}
	return out
}

func (g *gen) xmutate(n *xnode) {
	refs := xrefs(n)
	all := []*xnode{n}
	for _, r := range refs {
		all = append(all, r.p.kids[r.i])
	}
	e := all[g.Intn(len(all))]
	switch g.Intn(9) {
	case 0, 1: // leave out an attribute
		if len(e.attrs) > 0 {
			i := g.Intn(len(e.attrs))
			e.attrs = append(append([][2]string{}, e.attrs[:i]...), e.attrs[i+1:]...)
		}
	case 2: // another order
		for _, q := range all {
			g.Shuffle(len(q.attrs), func(a, b int) { q.attrs[a], q.attrs[b] = q.attrs[b], q.attrs[a] })
		}
	case 3: // an unknown attribute
		e.attrs = append(e.attrs, [2]string{g.pick("x", "foo", "unknownAttr"), g.pick("", "1", "abc")})
	case 4, 5: // another value
		if len(e.attrs) > 0 {
			i := g.Intn(len(e.attrs))
			v := ""
			switch {
			case e.attrs[i][0] == "utcSpliceTime":
				v = g.pick(times...)
			case g.chance(2):
				v = g.pick(append(anyNumbers, badNumbers...)...)
			default:
				v = g.pick("", " ", "true", "false", "TRUE", "1", "0", "t", "yes", " 7 ", "abc", "+1", "0x10", "base-64", "text", "1 2")
			}
			e.attrs[i][1] = v
		}
	case 6: // leave out an element
		if len(refs) > 0 {
			r := refs[g.Intn(len(refs))]
			r.p.kids = append(append([]*xnode{}, r.p.kids[:r.i]...), r.p.kids[r.i+1:]...)
		}
	case 7: // an unknown descriptor or an unknown element within one
		u := &xnode{name: g.pick("FooDescriptor", "Binary", "segmentationDescriptor", "Unknown"), attrs: [][2]string{{"a", "1"}}}
		if g.chance(2) {
			n.kids = append(n.kids, u)
		} else if len(e.kids) > 0 && e != n {
			e.kids = append(e.kids, u)
		}
	case 8: // character data
		switch e.name {
		case "PrivateCommand", "PrivateDescriptor":
			e.text = g.pick("", "00", "ABcd01", "0", "xy", "0x00", "abc")
		case "SegmentationUpid":
			e.text = g.pick("", " x ", "a b", "\n10.5240/0000-0000-0000-0000-0000-0\n", "AAAA", "12", "<&>\"'")
		}
	}
}

func (g *gen) docRead(x *session, kind string) {
	x.put(0, g.value())
	text, err := x.marshal(0, kind)
	if err != nil {
		return
	}
	if g.chance(4) {
		g.source(x, 1)
	}
	for k := 0; k < 3; k++ {
		t := ""
		if kind == "json" {
			n, _ := jsonTree(text).(*jnode)
			if n == nil {
				return
			}
			for m := g.Intn(4); m > 0; m-- {
				g.jmutate(n)
			}
			t = g.jtext(n)
		} else {
			n, _ := xmlTree(text).(*xnode)
			if n == nil {
				return
			}
			for m := g.Intn(4); m > 0; m-- {
				g.xmutate(n)
			}
			t = g.xtext(n)
		}
		if g.chance(15) { // not a document any more
			i := g.Intn(len(t))
			t = t[:i]
		}
		_ = x.unmarshal(1, kind, t)
		if g.chance(3) {
			g.observe(x, 1)
		}
	}
}

func (g *gen) jtext(n *jnode) string {
	var b bytes.Buffer
	sp := func() string { return "" }
	if g.chance(2) {
		sp = func() string { return g.pick("", "", " ", "\n\t") }
	}
	n.write(&b, sp)
	return b.String()
}

func (g *gen) xtext(n *xnode) string {
	var b bytes.Buffer
	sp := func() string { return "" }
	if g.chance(2) {
		sp = func() string { return g.pick("", "", " ", "\n\t") }
	}
	ns := g.pick("", "", "scte35", "s")
	if g.chance(3) {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
	}
	if g.chance(5) {
		b.WriteString("<!-- a comment -->\n")
	}
	q := func() string { return `"` }
	if g.chance(2) {
		q = func() string { return g.pick("'", `"`) }
	}
	var body bytes.Buffer
	n.write(&body, ns, sp, q)
	decl := fmt.Sprintf(" xmlns=%q", xmlns)
	name := n.name
	if ns != "" {
		decl = fmt.Sprintf(" xmlns:%s=%q", ns, xmlns)
		name = ns + ":" + name
	}
	t := strings.Replace(body.String(), "<"+name, "<"+name+decl, 1)
	return b.String() + t
}
