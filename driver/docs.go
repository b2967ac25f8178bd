package main

// Documents as trees (see spec/Doc.tla), and back to text.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"io"
	"strings"
)

// jnode is <<tag, text, bytes, kids>>.
type jnode struct {
	tag  string
	text string
	str  string
	keys []string // objects
	kids []*jnode
}

func (n *jnode) MarshalJSON() ([]byte, error) {
	kids := []any{}
	for i, k := range n.kids {
		if n.tag == "o" {
			kids = append(kids, [2]any{n.keys[i], k})
		} else {
			kids = append(kids, k)
		}
	}
	return json.Marshal([4]any{n.tag, n.text, B(n.str), kids})
}

// jsonTree parses a JSON text, nil if it is not one.
func jsonTree(text string) any {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	n := jsonNode(d)
	if n == nil {
		return nil
	}
	if _, err := d.Token(); err != io.EOF {
		return nil
	}
	if !json.Valid([]byte(text)) {
		return nil
	}
	return n
}

func jsonNode(d *json.Decoder) *jnode {
	t, err := d.Token()
	if err != nil {
		return nil
	}
	switch v := t.(type) {
	case nil:
		return &jnode{tag: "null"}
	case bool:
		if v {
			return &jnode{tag: "b", text: "true"}
		}
		return &jnode{tag: "b", text: "false"}
	case json.Number:
		return &jnode{tag: "n", text: string(v)}
	case string:
		return &jnode{tag: "s", str: v}
	case json.Delim:
		n := &jnode{tag: "a"}
		if v == '{' {
			n.tag = "o"
		}
		for d.More() {
			if n.tag == "o" {
				k, err := d.Token()
				if err != nil {
					return nil
				}
				n.keys = append(n.keys, k.(string))
			}
			c := jsonNode(d)
			if c == nil {
				return nil
			}
			n.kids = append(n.kids, c)
		}
		if _, err := d.Token(); err != nil {
			return nil
		}
		return n
	}
	return nil
}

// xnode is <<name, text, attributes, elements>>.
type xnode struct {
	name  string
	text  string
	attrs [][2]string
	kids  []*xnode
}

const xmlns = "http://www.scte.org/schemas/35"

func (n *xnode) MarshalJSON() ([]byte, error) {
	at := []any{}
	for _, a := range n.attrs {
		at = append(at, [2]any{a[0], B(a[1])})
	}
	kids := n.kids
	if kids == nil {
		kids = []*xnode{}
	}
	return json.Marshal([4]any{n.name, B(n.text), at, kids})
}

func xname(n xml.Name, attr bool) string {
	if n.Space == xmlns || (attr && n.Space == "") {
		return n.Local
	}
	return n.Space + "|" + n.Local
}

// xmlTree parses an XML document, nil if it is not one.
func xmlTree(text string) any {
	d := xml.NewDecoder(strings.NewReader(text))
	var stack []*xnode
	var root *xnode
	for {
		t, err := d.Token()
		if err == io.EOF {
			if root == nil || len(stack) > 0 {
				return nil
			}
			return root
		}
		if err != nil {
			return nil
		}
		switch v := t.(type) {
		case xml.StartElement:
			n := &xnode{name: xname(v.Name, false)}
			for _, a := range v.Attr {
				if a.Name.Local == "xmlns" || a.Name.Space == "xmlns" {
					continue
				}
				n.attrs = append(n.attrs, [2]string{xname(a.Name, true), a.Value})
			}
			if len(stack) == 0 {
				if root != nil {
					return nil
				}
				root = n
			} else {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(v)
			}
		}
	}
}

// ---- back to text

func (n *jnode) write(b *bytes.Buffer, sp func() string) {
	q := func(s string) {
		var t bytes.Buffer
		e := json.NewEncoder(&t)
		e.SetEscapeHTML(false)
		_ = e.Encode(s)
		b.Write(bytes.TrimRight(t.Bytes(), "\n"))
	}
	b.WriteString(sp())
	switch n.tag {
	case "null":
		b.WriteString("null")
	case "n", "b":
		b.WriteString(n.text)
	case "s":
		q(n.str)
	case "a", "o":
		op, cl := "[", "]"
		if n.tag == "o" {
			op, cl = "{", "}"
		}
		b.WriteString(op)
		for i, k := range n.kids {
			if i > 0 {
				b.WriteString(",")
			}
			if n.tag == "o" {
				b.WriteString(sp())
				q(n.keys[i])
				b.WriteString(sp() + ":")
			}
			k.write(b, sp)
		}
		b.WriteString(sp() + cl)
	}
	b.WriteString(sp())
}

func (n *jnode) String() string {
	var b bytes.Buffer
	n.write(&b, func() string { return "" })
	return b.String()
}

func (n *xnode) write(b *bytes.Buffer, ns string, sp func() string, quote func() string) {
	name := n.name
	pre := ""
	if i := strings.Index(name, "|"); i >= 0 {
		// an element of another namespace
		pre = ` xmlns:o="` + name[:i] + `"`
		if name[:i] == "" {
			pre = ` xmlns=""`
			name = name[i+1:]
		} else {
			name = "o:" + name[i+1:]
		}
	} else if ns != "" {
		name = ns + ":" + name
	}
	b.WriteString("<" + name + pre)
	for _, a := range n.attrs {
		b.WriteString(" " + a[0] + sp() + "=" + sp())
		var t bytes.Buffer
		_ = xml.EscapeText(&t, []byte(a[1]))
		q := quote()
		b.WriteString(q)
		b.Write(t.Bytes())
		b.WriteString(q)
	}
	if len(n.kids) == 0 && n.text == "" && quote() == "'" {
		b.WriteString(sp() + "/>")
		return
	}
	b.WriteString(sp() + ">")
	_ = xml.EscapeText(b, []byte(n.text))
	for _, k := range n.kids {
		b.WriteString(sp())
		k.write(b, ns, sp, quote)
	}
	if len(n.kids) > 0 {
		b.WriteString(sp())
	}
	b.WriteString("</" + name + sp() + ">")
}
