package main

// What the sessions do.  A profile performs one session on x.

import (
	"math/rand"
	"strings"
)

type profile struct {
	slots int
	run   func(g *gen, x *session)
}

func (g *gen) mode() {
	g.big = g.chance(12)
	g.canon, g.pool = false, nil
}

// value generates a signal with canonical field values.
func (g *gen) value() Val {
	c := g.canon
	g.canon = true
	v := g.anySection().val
	g.canon = c
	if g.chance(3) {
		v["preroll"] = W(g.bits(32))
	}
	if g.chance(24) {
		v["cmd"] = Val{"kind": "none"}
	}
	if g.chance(12) {
		v["alg"] = N(g.bits(6))
	}
	return v
}

// odd makes a value that a decoder does not produce: fields that are set
// although another field says that they are absent.
func (g *gen) odd(v Val) Val {
	switch c := v.v("cmd"); c.kind() {
	case "splice_insert":
		switch g.Intn(4) {
		case 0:
			c["cancel"] = true
		case 1:
			c["immediate"] = true
		case 2:
			c["program_splice"] = true
		}
	case "splice_schedule":
		for _, e := range c.l("events") {
			switch g.Intn(5) {
			case 0:
				e["cancel"] = true
			case 1:
				e["program_splice"] = true
			}
		}
	}
	for _, d := range v.l("descs") {
		if d.kind() != "segmentation_descriptor" {
			continue
		}
		for _, u := range d.l("upids") {
			if g.chance(4) { // the format of a UPID is for its reader only
				u["fmt"] = g.pick("", "text", "hexbinary", "base-64", "private")
			}
		}
		switch g.Intn(6) {
		case 0:
			d["cancel"] = true
		case 1:
			d["has_sub_num"], d["sub_segment_num"] = true, N(g.bits(8))
		case 2:
			d["has_sub_exp"], d["sub_segments_expected"] = true, N(g.bits(8))
		case 3:
			d["type_id"] = N(g.syn.SubTypes[g.Intn(len(g.syn.SubTypes))])
			d["has_sub_num"], d["sub_segment_num"] = true, N(g.bits(8))
			d["has_sub_exp"], d["sub_segments_expected"] = g.chance(2), N(0)
		}
	}
	return v
}

// source makes slot i hold some signal.
func (g *gen) source(x *session, i int) {
	switch g.Intn(6) {
	case 0:
		x.put(i, g.odd(g.value()))
	case 1, 2:
		x.put(i, g.value())
	case 3:
		g.canon = true
		b := g.render(g.anySection())
		g.canon = false
		_ = x.decode(i, b)
	case 4:
		_ = x.decode(i, g.render(g.anySection()))
	case 5:
		_ = x.decode(i, g.damage(g.render(g.anySection())))
	}
}

var margins = []string{"", " ", "\t", "  ", "#", "-> ", "|", "%d"}

func (g *gen) observe(x *session, i int) {
	switch g.Intn(9) {
	case 0, 1:
		_, _ = x.encode(i)
	case 2:
		x.textOut(i, "b64")
	case 3:
		x.textOut(i, "hex")
	case 4:
		_, _ = x.marshal(i, "json")
	case 5:
		_, _ = x.marshal(i, "xml")
	case 6:
		x.table(i, margins[g.Intn(len(margins))], margins[g.Intn(len(margins))])
	case 7:
		x.dur(i)
	case 8:
		x.derived(i)
	}
}

// observeAll calls every observer, in some order.
func (g *gen) observeAll(x *session, i int) {
	fs := []func(){
		func() { _, _ = x.encode(i) },
		func() { x.textOut(i, "b64") },
		func() { x.textOut(i, "hex") },
		func() { _, _ = x.marshal(i, "json") },
		func() { _, _ = x.marshal(i, "xml") },
		func() { x.table(i, "", "\t") },
		func() { x.dur(i) },
		func() { x.derived(i) },
	}
	g.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
	for _, f := range fs {
		f()
	}
}

func (g *gen) sectionBytes(canon bool) []byte {
	g.canon = canon
	b := g.render(g.anySection())
	g.canon = false
	return b
}

var profiles = map[string]profile{
	// well-formed sections
	"decode": {1, func(g *gen, x *session) {
		for k := 0; k < 4; k++ {
			_ = x.decode(0, g.sectionBytes(g.chance(3)))
		}
	}},
	// legacy command lengths
	"legacy": {1, func(g *gen, x *session) {
		for k := 0; k < 4; k++ {
			c := cmdKinds[g.Intn(5)]
			var kinds []string
			for n := g.Intn(4); n > 0; n-- {
				kinds = append(kinds, descKinds[g.Intn(len(descKinds))])
			}
			p := g.section(c, kinds)
			p.cmdLen = 0xfff
			b := g.render(p)
			if g.chance(4) {
				b = g.damage(b)
			}
			_ = x.decode(0, b)
		}
	}},
	// encoding of constructed values
	"encode": {2, func(g *gen, x *session) {
		for k := 0; k < 3; k++ {
			v := g.value()
			if g.chance(3) {
				v = g.odd(v)
			}
			x.put(0, v)
			_, _ = x.encode(0)
			if g.chance(4) {
				kind := g.pick("json", "xml")
				if t, err := x.marshal(0, kind); err == nil {
					_ = x.unmarshal(1, kind, t)
					_, _ = x.encode(1)
				}
			}
		}
		_ = x.decode(1, g.sectionBytes(g.chance(2)))
		_, _ = x.encode(1)
	}},
	// binary round trips
	"round": {3, func(g *gen, x *session) {
		if g.chance(2) {
			x.put(0, g.value())
		} else {
			_ = x.decode(0, g.sectionBytes(g.chance(2)))
		}
		b, err := x.encode(0)
		if err != nil {
			return
		}
		_ = x.decode(1, b)
		b, err = x.encode(1)
		if err == nil {
			_ = x.decode(2, b)
			_, _ = x.encode(2)
		}
	}},
	// damaged sections
	"damage": {1, func(g *gen, x *session) {
		b := g.sectionBytes(g.chance(2))
		for k := 0; k < 5; k++ {
			_ = x.decode(0, g.damage(b))
		}
		_ = x.decode(0, g.wrongCRC(b))
	}},
	// damage within 32 consecutive bits
	"burst": {1, func(g *gen, x *session) {
		b := g.sectionBytes(g.chance(2))
		for k := 0; k < 4; k++ {
			c := append([]byte{}, b...)
			at := g.Intn(8*len(c) - 31)
			w := 1 + g.Intn(32)
			c[at/8] ^= 0x80 >> uint(at%8)
			for j := 1; j < w; j++ {
				if g.chance(2) {
					c[(at+j)/8] ^= 0x80 >> uint((at+j)%8)
				}
			}
			_ = x.decode(0, c)
		}
	}},
	// one structure of a section is damaged, the others are intact
	"partial": {1, func(g *gen, x *session) {
		var kinds []string
		for n := 1 + g.Intn(4); n > 0; n-- {
			kinds = append(kinds, descKinds[g.Intn(len(descKinds))])
		}
		p := g.section(cmdKinds[g.Intn(len(cmdKinds))], kinds)
		for k := 0; k < 4; k++ {
			q := *p
			q.descs = append([][]byte{}, p.descs...)
			if g.chance(4) {
				q.cmd = append([]byte{}, p.cmd...)
				if g.chance(2) && len(q.cmd) > 0 {
					q.cmd = q.cmd[:len(q.cmd)-1]
				} else {
					q.cmd = append(q.cmd, byte(g.Uint32()))
				}
			} else {
				i := g.Intn(len(q.descs))
				d := append([]byte{}, q.descs[i]...)
				switch g.Intn(4) {
				case 0: // a byte too many
					d = append(d, byte(g.Uint32()))
					d[1]++
				case 1: // bytes too few
					n := 1 + g.Intn(len(d)-2)
					d = d[:len(d)-n]
					d[1] -= byte(n)
				case 2: // inner damage
					j := 2 + g.Intn(len(d)-2)
					d[j] ^= 1 << uint(g.Intn(8))
				case 3:
					j := 6 + g.Intn(len(d)-5)
					if j < len(d) {
						d[j] += byte(g.Intn(9) - 4)
					}
				}
				q.descs[i] = d
			}
			_ = x.decode(0, g.render(&q))
		}
	}},
	// any bytes at all
	"noise": {1, func(g *gen, x *session) {
		for k := 0; k < 4; k++ {
			var b []byte
			switch g.Intn(3) {
			case 0:
				b = make([]byte, g.Intn(60))
				for i := range b {
					b[i] = byte(g.bits(8))
				}
			case 1:
				b = g.sectionBytes(false)
				b = b[:g.Intn(len(b))]
			case 2:
				b = g.sectionBytes(false)
				for j := 1 + g.Intn(6); j > 0; j-- {
					b = g.damage(b)
				}
			}
			_ = x.decode(0, b)
			if g.chance(3) {
				g.observeAll(x, 0)
			}
		}
	}},
	// schedules in every form
	"schedule": {3, func(g *gen, x *session) {
		b := g.render(g.section("splice_schedule", nil))
		if x.decode(0, b) != nil {
			return
		}
		x.table(0, "", "\t")
		_, _ = x.encode(0)
		x.derived(0)
		for i, kind := range []string{"json", "xml"} {
			if t, err := x.marshal(0, kind); err == nil && x.unmarshal(1+i, kind, t) == nil {
				_, _ = x.encode(1 + i)
				x.table(1+i, "", "")
				_, _ = x.marshal(1+i, g.pick("json", "xml"))
			}
		}
	}},
	// everything one can do with a signal after a decoding, failed or not
	"usable": {1, func(g *gen, x *session) {
		b := g.sectionBytes(g.chance(2))
		if !g.chance(4) {
			b = g.damage(b)
		}
		switch {
		case g.chance(5): // nothing in it at all
			x.fresh(0)
		case g.chance(4):
			via := g.pick("b64", "hex")
			t := b64(b)
			if via == "hex" {
				t = hexText(b, g.chance(2), g.chance(2))
			}
			_ = x.text(0, via, g.spoil(t))
		default:
			_ = x.decode(0, b)
		}
		g.observeAll(x, 0)
	}},
	"text": {3, func(g *gen, x *session) {
		for k := 0; k < 2; k++ {
			b := g.sectionBytes(g.chance(2))
			if g.chance(3) {
				b = g.damage(b)
			}
			if g.chance(12) {
				b = nil
			}
			_ = x.decode(0, b)
			t := b64(b)
			h := hexText(b, g.chance(2), g.chance(2))
			_ = x.text(1, "b64", t)
			_ = x.text(2, "hex", h)
			if g.chance(2) {
				_ = x.text(2, "hex", hexText(b, g.chance(2), g.chance(2)))
			}
			if g.chance(2) {
				_ = x.text(1, g.pick("b64", "hex"), g.spoil(g.pick(t, h)))
			}
			i := g.Intn(3)
			if g.chance(2) {
				_, _ = x.encode(i)
			}
			for _, op := range []string{"b64", "hex"} {
				s := x.textOut(i, op)
				if s != "" {
					_ = x.text(1+g.Intn(2), op, s)
				}
			}
		}
		x.put(0, g.value())
		_, _ = x.encode(0)
		_ = x.text(1, "b64", x.textOut(0, "b64"))
		_ = x.text(2, "hex", x.textOut(0, "hex"))
	}},
	"json": {3, func(g *gen, x *session) { g.docRound(x, "json") }},
	"xml":  {3, func(g *gen, x *session) { g.docRound(x, "xml") }},
	"both": {3, func(g *gen, x *session) { // through one, then the other
		x.put(0, g.value())
		_, _ = x.encode(0)
		k1, k2 := "json", "xml"
		if g.chance(2) {
			k1, k2 = k2, k1
		}
		if t, err := x.marshal(0, k1); err == nil && x.unmarshal(1, k1, t) == nil {
			_, _ = x.encode(1)
			if t, err := x.marshal(1, k2); err == nil {
				_ = x.unmarshal(2, k2, t)
				_, _ = x.encode(2)
			}
		}
	}},
	// reading documents
	"unjson": {2, func(g *gen, x *session) { g.docRead(x, "json") }},
	"unxml":  {2, func(g *gen, x *session) { g.docRead(x, "xml") }},
	// values that were observed before they were changed, beside new ones
	"peers": {2, func(g *gen, x *session) {
		x.put(0, g.value())
		for k := 0; k < 2; k++ {
			for n := g.Intn(5); n > 0; n-- {
				g.observe(x, 0)
			}
			if g.chance(3) {
				g.observeAll(x, 0)
			}
			v := g.value()
			if g.chance(4) {
				v = g.odd(v)
			}
			x.edit(0, v)
			x.put(1, v)
			for n := 1 + g.Intn(4); n > 0; n-- {
				seed := g.Int63()
				for i := range 2 {
					(&gen{Rand: rand.New(rand.NewSource(seed)), syn: g.syn}).observe(x, i)
				}
			}
		}
	}},
	// observers in any order
	"pure": {2, func(g *gen, x *session) {
		g.source(x, 0)
		if g.chance(2) {
			g.source(x, 1)
		}
		for k := 0; k < 10; k++ {
			i := 0
			if x.slots[1] != nil && g.chance(3) {
				i = 1
			}
			switch g.Intn(12) {
			case 0:
				x.junk(i, g.Intn(300))
			case 1:
				x.edit(i, g.odd(g.value()))
			case 2:
				x.scribbleOut()
			default:
				g.observe(x, i)
			}
		}
		x.checkHeld()
	}},
	// decodes and unmarshals into used values, shared and reused buffers
	"history": {3, func(g *gen, x *session) {
		pool := [][]byte{g.sectionBytes(true), g.sectionBytes(false), g.damage(g.sectionBytes(false))}
		docs := map[string][]string{}
		for _, k := range []string{"json", "xml"} {
			x.put(0, g.value())
			if t, err := x.marshal(0, k); err == nil {
				docs[k] = append(docs[k], t)
			}
		}
		for k := 0; k < 9; k++ {
			i := g.Intn(3)
			switch g.Intn(14) {
			case 0, 1, 2:
				_ = x.decode(i, pool[g.Intn(len(pool))])
			case 3:
				kind := g.pick("json", "xml")
				if len(docs[kind]) > 0 {
					_ = x.unmarshal(i, kind, docs[kind][0])
				}
			case 4:
				x.scribble(i)
			case 5:
				if g.chance(2) {
					x.fresh(i)
				}
				_ = x.decode(i, pool[g.Intn(len(pool))])
			case 6:
				if x.slots[i] != nil {
					g.observe(x, i)
				}
			case 7:
				b := pool[g.Intn(len(pool))]
				_ = x.decode(i, b[:g.Intn(len(b)+1)])
			case 8: // the same text again and again
				b := pool[g.Intn(len(pool))]
				if g.chance(2) {
					_ = x.text(i, "b64", b64(b))
				} else {
					_ = x.text(i, "hex", hexText(b, false, true))
				}
				if g.chance(2) {
					x.smash(i)
				}
			case 9:
				x.smash(i)
			case 10:
				if x.slots[i] != nil {
					_, _ = x.encode(i)
					x.edit(i, g.value())
					_, _ = x.encode(i)
				}
			case 11: // what was copied from a value that is used again
				j := g.Intn(3)
				x.copy(i, j)
				if x.slots[i] == nil {
				} else if kind := g.pick("json", "xml"); g.chance(3) && len(docs[kind]) > 0 {
					_ = x.unmarshal(i, kind, docs[kind][0])
				} else {
					_ = x.decode(i, pool[g.Intn(len(pool))])
				}
			case 12:
				x.scribbleOut()
			case 13:
				t := hexText(g.raw(8), g.chance(2), false)
				if g.chance(4) {
					t = g.spoil(t)
				}
				x.bytes(g.raw(8), g.raw(8), t)
			}
		}
		for i := 0; i < 3; i++ {
			x.scribble(i)
		}
		x.checkHeld()
	}},
	// many calls of a kind, and then others
	"streak": {2, func(g *gen, x *session) {
		x.put(0, g.value())
		x.put(1, g.value())
		doc := map[string]string{}
		for _, k := range []string{"json", "xml"} {
			if t, err := x.marshal(0, k); err == nil {
				doc[k] = t
			}
		}
		ok := g.sectionBytes(g.chance(2))
		calls := []func(){
			func() { _ = x.decode(0, g.wrongCRC(ok)) },
			func() { _ = x.decode(0, ok[:g.Intn(len(ok))]) },
			func() { _ = x.decode(0, ok) },
			func() { _ = x.decode(0, g.damage(ok)) },
			func() { _ = x.text(0, "b64", g.pick("!", "/DA", "=", "/DA!")) },
			func() { _ = x.text(0, "hex", g.pick("!", "0xf", "0xfg", "fc 30")) },
			func() { _ = x.text(0, "b64", b64(ok)) },
			func() { _ = x.text(0, "hex", hexText(ok, true, true)) },
			func() { _ = x.unmarshal(0, "json", g.pick("{", "{\"sapType\":\"3\"}", "[]")) },
			func() {
				_ = x.unmarshal(0, "xml", g.pick("<", "<SpliceInfoSection>", "<SpliceInfoSection sapType=\"x\"/>"))
			},
			func() {
				if k := g.pick("json", "xml"); doc[k] != "" {
					_ = x.unmarshal(0, k, doc[k])
				}
			},
			func() { g.observe(x, 0) },
			func() { _, _ = x.encode(0) },
			func() { // refused
				v := g.value()
				v["cmd"] = Val{"kind": "none"}
				x.put(0, v)
				_, _ = x.encode(0)
			},
			func() { x.put(0, g.value()) },
		}
		for k := 0; k < 3; k++ {
			f := calls[g.Intn(len(calls))]
			for n := 1 + g.Intn(g.pickInt(4, 12, 20)); n > 0; n-- {
				f()
			}
			for n := g.Intn(3); n > 0; n-- {
				calls[g.Intn(len(calls))]()
			}
		}
		g.observe(x, 0)
		g.observe(x, 1)
		x.checkHeld()
	}},
	"table": {1, func(g *gen, x *session) {
		for k := 0; k < 3; k++ {
			if g.chance(8) {
				g.source(x, 0)
			} else {
				x.put(0, g.odd(g.value()))
			}
			x.table(0, margins[g.Intn(len(margins))], margins[g.Intn(len(margins))])
		}
		x.table(0, "", "\t")
	}},
	"derived": {1, func(g *gen, x *session) {
		for k := 0; k < 6; k++ {
			g.source(x, 0)
			x.derived(0)
			switch g.Intn(6) {
			case 0:
				_, _ = x.encode(0)
			case 1:
				x.edit(0, g.odd(g.value()))
				x.derived(0)
			case 2:
				x.dur(0)
			}
		}
	}},
	"names": {1, func(g *gen, x *session) {
		for k := 0; k < 16; k++ {
			c := uint32(g.nextCode())
			x.names(c, g.pick("", "10.5237/AAAA", "10.5238/AAAA", "10.5239/1", "10.5240/0000", "10.52", "10.5241/1", "x"))
		}
	}},
	"upid": {1, func(g *gen, x *session) {
		for k := 0; k < 12; k++ {
			v, b := g.upid()
			t := v.n("type")
			if g.chance(6) {
				t, b = uint32(g.bits(8)), g.raw(40)
			}
			x.upid(t, b)
		}
	}},
	// segmentation descriptors with UPIDs
	"upids": {2, func(g *gen, x *session) {
		g.force = map[string]any{"cancel": false}
		for k := 0; k < 2; k++ {
			g.canon = g.chance(2)
			p := g.section(g.pick("time_signal", "splice_null"), []string{"segmentation_descriptor", "segmentation_descriptor"}[:1+g.Intn(2)])
			g.canon = false
			if g.chance(2) {
				x.put(0, p.val)
			} else {
				_ = x.decode(0, g.render(p))
			}
			if b, err := x.encode(0); err == nil {
				_ = x.decode(1, b)
				_, _ = x.encode(1)
			}
		}
		g.force = nil
	}},
	"time": {1, func(g *gen, x *session) {
		for k := 0; k < 10; k++ {
			x.ticks(g.bits(33 + g.Intn(8)))
			n := int64(g.bits(62 - g.Intn(20)))
			if g.chance(3) {
				n = int64(g.bits(40)) * 100000 / 9
				n += int64(g.Intn(3) - 1)
				if n < 0 {
					n = 0
				}
			}
			x.ns(n)
			x.gps(uint32(g.bits(32)), int64(g.pickInt(0, 1, 499999999, 500000000, 500000001, 999999999)), 900*(g.Intn(113)-56))
		}
		for k := 0; k < 3; k++ {
			v := g.value()
			for _, d := range v.l("descs") {
				if d.kind() == "segmentation_descriptor" && g.chance(2) {
					d["has_duration"], d["duration"] = true, W(g.bits(40))
				}
			}
			if c := v.v("cmd"); c.kind() == "splice_insert" && g.chance(2) {
				c["has_duration"], c["duration"] = true, W(g.bits(33))
				if g.chance(3) {
					c["duration"] = W(0)
				}
			}
			x.put(0, v)
			x.dur(0)
		}
	}},
	"limits": {2, func(g *gen, x *session) {
		x.put(0, g.oversize(g.value()))
		if b, err := x.encode(0); err == nil {
			_ = x.decode(1, b)
		}
		if g.chance(3) {
			x.textOut(0, "b64")
			x.textOut(0, "hex")
		}
	}},
	// scalars beyond their field
	"range": {2, func(g *gen, x *session) {
		x.put(0, g.outOfRange(g.value()))
		if b, err := x.encode(0); err == nil {
			_ = x.decode(1, b)
		}
		g.observe(x, 0)
	}},
	// private structures between others
	"private": {3, func(g *gen, x *session) {
		kinds := []string{"private_descriptor"}
		for n := g.Intn(4); n > 0; n-- {
			kinds = append(kinds, descKinds[g.Intn(len(descKinds))])
		}
		g.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
		c := "private_command"
		if g.chance(2) {
			c = cmdKinds[g.Intn(len(cmdKinds))]
		}
		g.canon = g.chance(2)
		_ = x.decode(0, g.render(g.section(c, kinds)))
		g.canon = false
		if b, err := x.encode(0); err == nil {
			_ = x.decode(1, b)
		}
		for _, k := range []string{"json", "xml"} {
			if t, err := x.marshal(0, k); err == nil {
				_ = x.unmarshal(2, k, t)
				_, _ = x.encode(2)
			}
		}
		x.table(0, "", "\t")
		// private structures change their content, type and place
		for k := 0; k < 2; k++ {
			x.junk(0, g.Intn(300))
			g.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
			g.canon = true
			p := g.section(c, kinds)
			g.canon = false
			x.edit(0, p.val)
			if b, err := x.encode(0); err == nil {
				_ = x.decode(1, b)
			}
			_, _ = x.marshal(0, g.pick("json", "xml"))
		}
	}},
}

func (g *gen) docRound(x *session, kind string) {
	if g.chance(3) {
		g.source(x, 2) // a used receiver
	}
	for k := 0; k < 2; k++ {
		if g.chance(3) {
			_ = x.decode(0, g.sectionBytes(g.chance(2)))
		} else {
			x.put(0, g.value())
		}
		_, _ = x.encode(0)
		t, err := x.marshal(0, kind)
		if err != nil {
			continue
		}
		i := 1 + g.Intn(2)
		_ = x.unmarshal(i, kind, t)
		_, _ = x.encode(i)
		if g.chance(3) {
			_, _ = x.marshal(i, kind)
		}
	}
}

// spoil makes an encoded text invalid, or not.
func (g *gen) spoil(t string) string {
	if t == "" {
		return g.pick("=", "0", "x", " ")
	}
	i := g.Intn(len(t))
	switch g.Intn(7) {
	case 0:
		return t[:i] + g.pick(" ", "-", "_", "g", "Z", "=", "!", "\x00", "0x", "\n") + t[i:]
	case 1:
		return t[:i] + t[i+1:]
	case 2:
		return t + g.pick("=", "==", "0", "A", "\n", " ")
	case 3:
		return g.pick("0X", "0x0x", "x", " ", "\n") + t
	case 4:
		return strings.ToUpper(t)
	case 5:
		return t[:i] + g.pick("-", "*", "\xff", "g") + t[i+1:]
	default:
		return strings.TrimRight(t, "=")
	}
}

func (g *gen) nextCode() int {
	g.code++
	if g.code > 300 {
		return int(g.bits(32))
	}
	return g.code - 1
}

// oversize makes a list or a string of a signal longer than the syntax allows,
// or just as long as it allows.
func (g *gen) oversize(v Val) Val {
	around := func(n int) int { return n + []int{-1, 0, 1, 1, 2, 40}[g.Intn(6)] }
	bytesOf := func(n int) B { return B(strings.Repeat("a", n)) }
	rep := func(n int, f func() Val) L {
		l := L{}
		for i := 0; i < n; i++ {
			l = append(l, f())
		}
		return l
	}
	g.canon = true
	defer func() { g.canon = false }()
	desc := func(kind string) Val { d, _ := g.desc(kind); return d }
	add := func(d Val) { v["descs"] = append(v.l("descs"), d) }
	seg := func() Val {
		g.force = map[string]any{"cancel": false}
		d := desc("segmentation_descriptor")
		g.force = nil
		return d
	}
	switch g.Intn(14) {
	case 0:
		v["cmd"] = Val{"kind": "none"}
	case 1: // components of a splice_insert
		c, _, _ := g.cmd("splice_insert")
		c["cancel"], c["program_splice"], c["immediate"] = g.chance(5), g.chance(5), g.chance(2)
		c["components"] = rep(around(255), func() Val {
			return Val{"tag": N(g.bits(8)), "time_specified": g.chance(2), "pts_time": W(g.bits(33))}
		})
		v["cmd"] = c
	case 2: // events of a schedule
		v["cmd"] = Val{"kind": "splice_schedule", "events": rep(around(255), func() Val {
			return Val{"event_id": W(g.bits(32)), "cancel": true, "compliance": g.chance(2)}
		})}
	case 3: // components of a schedule
		c, _, _ := g.cmd("splice_schedule")
		e := Val{"event_id": W(g.bits(32)), "components": rep(around(255), func() Val {
			return Val{"tag": N(g.bits(8)), "utc_splice_time": W(g.bits(32))}
		})}
		c["events"] = append(c.l("events"), e)
		v["cmd"] = c
	case 4: // DTMF characters
		d := desc("dtmf_descriptor")
		d["chars"] = bytesOf(around(7))
		add(d)
	case 5: // audio channels
		d := desc("audio_descriptor")
		d["channels"] = rep(around(15), func() Val {
			return Val{"tag": N(g.bits(8)), "iso_code": B("eng"), "bit_stream_mode": N(g.bits(3)), "num_channels": N(g.bits(4)), "full_srvc_audio": g.chance(2)}
		})
		add(d)
	case 6: // an ISO code that is not one
		d := desc("audio_descriptor")
		d["channels"] = L{{"tag": N(1), "iso_code": bytesOf(g.Intn(6))}}
		add(d)
	case 7: // one long UPID
		d := seg()
		d["components"] = L{}
		d["upids"] = L{{"type": N(9), "text": bytesOf(around(g.pickInt(220, 255, 235, 240)))}}
		add(d)
	case 8: // many UPIDs
		d := seg()
		n := 2 + g.Intn(4)
		d["upids"] = rep(n, func() Val { return Val{"type": N(1), "text": bytesOf(around(g.pickInt(250/n-2, 255, 20)))} })
		add(d)
	case 9: // components of a segmentation_descriptor
		d := seg()
		d["components"] = rep(around(g.pickInt(255, 30, 36)), func() Val {
			return Val{"tag": N(g.bits(8)), "pts_offset": W(g.bits(33))}
		})
		add(d)
	case 10: // a private descriptor
		d := desc("private_descriptor")
		d["bytes"] = bytesOf(around(251))
		add(d)
	case 11: // a private command
		v["cmd"] = Val{"kind": "private_command", "identifier": W(g.bits(32)), "bytes": bytesOf(around(g.pickInt(4091, 4095, 4078)))}
	case 12: // the section
		n := 0
		for n < 4000 {
			d, b := g.desc("private_descriptor")
			add(d)
			n += len(b)
		}
		v["cmd"] = Val{"kind": "private_command", "identifier": W(g.bits(32)), "bytes": bytesOf(g.Intn(140))}
	case 13: // exactly full or one too many
		v["cmd"] = Val{"kind": "splice_null"}
		v["descs"] = L{}
		v["alg"] = N(0)
		n := 4095 - 17
		for n > 260 {
			add(Val{"kind": "private_descriptor", "tag": N(g.bits(8)), "identifier": W(1), "bytes": bytesOf(251)})
			n -= 257
		}
		add(Val{"kind": "private_descriptor", "tag": N(1), "identifier": W(2), "bytes": bytesOf(n - 6 - 2 + g.Intn(5))})
	}
	return v
}

func (g *gen) pickInt(xs ...int) int { return xs[g.Intn(len(xs))] }

// outOfRange sets a scalar beyond its field.
func (g *gen) outOfRange(v Val) Val {
	var all []func()
	walkSorted(v, func(m Val, k string) {
		switch y := m[k].(type) {
		case N:
			all = append(all, func() { m[k] = N(1<<uint(g.pickInt(1, 2, 4, 6, 8, 12, 16, 31)) + uint64(y)) })
		case W:
			if k == "pts_time" || k == "pts_offset" || k == "duration" || k == "pts" || k == "tai_seconds" {
				all = append(all, func() { m[k] = W(1<<uint(g.pickInt(33, 40, 48, 63)) + uint64(y)) })
			}
		}
	})
	for n := 1 + g.Intn(2); n > 0; n-- {
		all[g.Intn(len(all))]()
	}
	return v
}
