package main

// Generation of sections and signals by walking the syntax tables exported
// from the specification (spec/Export.tla).

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	stdcrc "hash/crc32"
	"math/bits"
	"math/rand"
	"os"
	"sort"
	"strings"
)

type item struct {
	K string `json:"k"`
	N int    `json:"n"`
	F string `json:"f"`
	T []item `json:"t"`
	E []item `json:"e"`
	V bool   `json:"v"`
}

type structure struct {
	Code int             `json:"code"`
	Syn  []item          `json:"syn"`
	Init json.RawMessage `json:"init"`
}

type syntax struct {
	Header      structure            `json:"header"`
	Commands    map[string]structure `json:"commands"`
	Descriptors map[string]structure `json:"descriptors"`
	SubTypes    []int                `json:"subtypes"`
}

func loadSyntax(path string) *syntax {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var s syntax
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	sort.Ints(s.SubTypes)
	return &s
}

// bitw writes bits, MSB first.
type bitw struct {
	b []byte
	n int
}

func (w *bitw) put(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.b[w.n/8] |= 0x80 >> uint(w.n%8)
		}
		w.n++
	}
}

// again repeats the bits from at on.
func (w *bitw) again(at int) {
	for n := w.n; at < n; at++ {
		w.put(1, uint64(w.b[at/8]>>uint(7-at%8)&1))
	}
}

func (w *bitw) bytes(s []byte) {
	for _, c := range s {
		w.put(8, uint64(c))
	}
}

type gen struct {
	*rand.Rand
	syn   *syntax
	canon bool // canonical: reserved bits one, canonical spellings only
	big   bool // now and then long lists and strings
	code  int
	pool  []uint64 // numbers used before
	// forced field values: field name -> value (bool or uint64)
	force map[string]any
}

func (g *gen) chance(n int) bool { return g.Intn(n) == 0 }

func (g *gen) pick(xs ...string) string { return xs[g.Intn(len(xs))] }

// bits returns an n bit number, biased towards boundaries.
func (g *gen) bits(n int) uint64 {
	max := uint64(1)<<uint(n) - 1
	if len(g.pool) > 0 && g.chance(8) { // the same number in several places
		return g.pool[g.Intn(len(g.pool))] & max
	}
	x := g.number(n, max)
	if g.chance(4) {
		if len(g.pool) < 6 {
			g.pool = append(g.pool, x)
		} else {
			g.pool[g.Intn(6)] = x
		}
	}
	return x
}

func (g *gen) number(n int, max uint64) uint64 {
	switch g.Intn(12) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return max - 1&max
	case 3:
		return 1
	case 4, 5:
		return uint64(1) << uint(g.Intn(n))
	case 6:
		return (uint64(1)<<uint(g.Intn(n)+1) - 1) & max
	case 7:
		return uint64(g.Intn(100)) & max
	default:
		return g.Uint64() & max
	}
}

func (g *gen) u(n int, f string) uint64 {
	if x, ok := g.force[f]; ok {
		return x.(uint64)
	}
	switch f {
	case "type_id":
		if g.Intn(2) == 0 {
			return uint64(g.syn.SubTypes[g.Intn(len(g.syn.SubTypes))])
		}
		if g.Intn(2) == 0 {
			return uint64(g.Intn(0x60))
		}
	}
	return g.bits(n)
}

func (g *gen) flag(f string) bool {
	if x, ok := g.force[f]; ok {
		return x.(bool)
	}
	if f == "cancel" {
		return g.chance(6)
	}
	return g.chance(2)
}

func (g *gen) count(n int) int {
	max := 1<<uint(n) - 1
	c := g.Intn(4)
	for c >= 3 && g.chance(2) {
		c += 1 + g.Intn(3)
	}
	if g.big && g.chance(12) {
		c = g.Intn(24)
	}
	if g.big && g.chance(60) {
		c = g.pickInt(127, 128, 255, 31, 32)
	}
	if c > max {
		c = max
	}
	return c
}

func (g *gen) raw(max int) []byte {
	n := g.Intn(6)
	switch g.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = g.Intn(20)
	case 2, 3:
		if g.big {
			n = g.Intn(max + 1)
		}
	}
	if n > max {
		n = max
	}
	b := make([]byte, n)
	for i := range b {
		switch g.Intn(6) {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		default:
			b[i] = byte(g.Uint32())
		}
	}
	return b
}

func (g *gen) ascii(n int) []byte {
	const set = "ABCabcxyz0123456789-_./:+ *#"
	b := make([]byte, n)
	for i := range b {
		b[i] = set[g.Intn(len(set))]
	}
	return b
}

// specials are texts that mean something to JSON, XML, printf or a terminal.
var specials = []string{"<", ">", "&", "\"", "'", "%", "%s", "%d", "%!", "\\", "]]>", "&amp;", "&lt;", "&#60;", "<!--", "-->", "<?", "\t", "\n",
	"\r", "\r\n", "\x00", "\x01", "\x1f", "\x7f", "\u0080", "\u00a0", "\u00ad", "\u00e9", "\u00ff", "{", "}", "[", "]", ":", ",", "\\u003c", "\\n", "\\x", "null",
	"true", "\\\\", "/", "//", "`", "$", "|", "=", "==", "#", "0x", "  ", "\u0085",
	"%20", "%41", "\\u0041", "&#x41;", "\u00c3\u00a9", "\u00e2\u0082\u00ac", "\u00ef\u00bb\u00bf", "\u00fe\u00ff", "+", "00", "-"}

// lookalikes are whole texts that could be taken for something else: a number,
// another encoding, another kind of UPID, markup.
var lookalikes = []string{"0x4142", "0X4142", "0xABCDEF0123", "4142", "abcdef", "ABCDEF", "deadbeef", "MTIz", "MTIzNA==", "AAAA", "====", "0", "00", "007", "-1", "+1", "1e5", "1.0", "NaN",
	"12345678", "18446744073709551616", "true", "false", "null", "nil", "<nil>", "{}", "[]", "\"\"", "\"a\"", "<a/>", "</a>", "&amp;x", "&lt;", "&#65;", "%41%42", "%s", "\\u0041", "\\x41",
	"urn:uuid:01234567-89ab-cdef-0123-456789abcdef", "01234567-89ab-cdef-0123-456789abcdef", "10.5240/F85A-E100-B068-5B8F-D1C8-T", "10.5240/7791-8534-2C23-9030-8610-5",
	"http://a.example/b?c=d&e=f#g", "urn:nbcuni.com:brc:499866434", "SIGNAL:Ly9EMGxKR0hFZUtpMHdCUVZnRUFnZz1", "PO:0:2:4", "text", "hexbinary", "base-64", "private", "/DAWAAAAAAAAAP/wBQb+AAAAAAAAOjTu", "0b101", "0o17", " a", "a ", "a  b", "A=B", "a,b", "a;b", "'a'", "`a`", "\xef\xbb\xbf", "\xc3\xa9", "\xff\xfe"}

// special gives n bytes of ASCII text with a special one in it, latin to have
// every byte one character of Latin-1.
func (g *gen) special(n int, latin bool) []byte {
	b := g.ascii(n)
	for k := 1 + g.Intn(3); k > 0; k-- {
		t := specials[g.Intn(len(specials))]
		if latin {
			t = string(latin1(t))
		}
		if len(t) <= n {
			copy(b[g.Intn(n-len(t)+1):], t)
		}
	}
	return b
}

func latin1(t string) []byte {
	var b []byte
	for _, r := range t {
		b = append(b, byte(r))
	}
	return b
}

// upid returns a UPID and its bytes.
func (g *gen) upid() (Val, []byte) {
	types := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 200, 255}
	t := types[g.Intn(len(types))]
	if x, ok := g.force["upid_type"]; ok {
		t = int(x.(uint64))
	}
	if !g.canon && g.chance(30) {
		t = 13
	}
	return g.upidOf(t)
}

func (g *gen) upidOf(t int) (Val, []byte) {
	var b []byte
	switch t {
	case 10:
		switch k := g.Intn(4); {
		case k < 3:
			b = make([]byte, 12)
			for i := range b {
				b[i] = byte(g.bits(8))
			}
			if g.chance(3) {
				b[g.Intn(12)] = 0x2f
			}
		case !g.canon && g.chance(3):
			b = g.raw(30)
		default:
			// already in text form
			b = []byte(fmt.Sprintf("10.%d/%s", g.Intn(70000), g.ascii(g.Intn(14))))
			if len(b) == 12 {
				b = append(b, 'x')
			}
		}
	case 5, 6:
		b = g.raw(20)
		if g.chance(2) {
			b = make([]byte, []int{8, 12}[g.Intn(2)])
			for i := range b {
				b[i] = byte(g.bits(8))
			}
		}
	case 8:
		n := 8
		if !g.canon && g.chance(3) {
			n = g.Intn(10)
		}
		b = make([]byte, n)
		x := g.bits(64 - 1)
		if g.chance(3) {
			x = x<<1 | 1
		}
		for i := range b {
			b[i] = byte(x >> uint(56-8*(i%8)))
		}
	case 12:
		b = g.raw(40)
		for g.canon && len(b) < 4 {
			b = append(b, byte(g.bits(8)))
		}
	case 4:
		n := 32
		if g.chance(3) {
			n = g.Intn(35)
		}
		b = g.ascii(n)
	default:
		switch g.Intn(5) {
		case 0:
			b = g.raw(60)
		case 4:
			b = []byte(lookalikes[g.Intn(len(lookalikes))])
		case 3:
			b = g.special(1+g.Intn(12), true)
		case 1:
			b = g.ascii(g.Intn(30))
		default:
			b = g.ascii(g.Intn(12))
			for i := range b {
				if g.chance(3) {
					b[i] = byte(g.Uint32())
				}
			}
		}
	}
	if g.canon && len(b) == 0 && g.force["upid_empty"] == nil && t != 12 {
		return g.upidOf(t)
	}
	v := upidVal(t, b)
	if t == 12 && !g.canon && g.chance(4) { // an MPU() that says no format identifier
		v["fi"], v["text"] = Opt{}, B(base64.StdEncoding.EncodeToString(b))
	}
	return v, b
}

// upidVal spells content b as a UPID.  (Only used to construct inputs; what
// is canonical is decided by the specification.)
func upidVal(t int, b []byte) Val {
	v := Val{"type": N(t), "fmt": "text", "fi": Opt{}, "text": B("")}
	switch t {
	case 10:
		if len(b) == 12 {
			v["text"] = B(fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", int(b[0])<<8+int(b[1]), b[2:4], b[4:6], b[6:8], b[8:10], b[10:12]))
		} else {
			v["text"] = B(b)
		}
	case 5, 6:
		v["fmt"], v["text"] = "base-64", B(base64.StdEncoding.EncodeToString(b))
	case 12:
		p := append(append([]byte{}, b...), 0, 0, 0, 0)
		v["fmt"] = "base-64"
		v["fi"] = Opt{W(uint64(p[0])<<24 | uint64(p[1])<<16 | uint64(p[2])<<8 | uint64(p[3]))}
		if len(b) > 4 {
			v["text"] = B(base64.StdEncoding.EncodeToString(b[4:]))
		}
	case 8:
		x := uint64(0)
		for _, c := range b {
			x = x<<8 | uint64(c)
		}
		v["text"] = B(fmt.Sprint(x))
	default:
		var sb strings.Builder
		for _, c := range b {
			sb.WriteRune(rune(c))
		}
		v["text"] = B(sb.String())
	}
	return v
}

type gstate struct {
	count int
	none  bool
}

func (g *gen) items(its []item, v Val, w *bitw) {
	var st gstate
	for _, it := range its {
		g.item(it, v, w, &st)
	}
}

func (g *gen) item(it item, v Val, w *bitw, st *gstate) {
	switch it.K {
	case "u":
		x := g.u(it.N, it.F)
		v[it.F] = N(x)
		w.put(it.N, x)
	case "w":
		x := g.u(it.N, it.F)
		v[it.F] = W(x)
		w.put(it.N, x)
	case "b", "nb":
		x := g.flag(it.F)
		v[it.F] = x
		if x == (it.K == "b") {
			w.put(1, 1)
		} else {
			w.put(1, 0)
		}
	case "r":
		x := uint64(1)<<uint(it.N) - 1
		if !g.canon && g.chance(2) {
			x = g.bits(it.N)
		}
		w.put(it.N, x)
	case "if":
		its := it.E
		if v.b(it.F) == it.V {
			its = it.T
		}
		for _, x := range its {
			g.item(x, v, w, st)
		}
	case "count":
		st.count = g.count(it.N)
		if x, ok := g.force["#"+it.F]; ok {
			st.count = x.(int)
		}
		if it.F == "components" && st.none == false && g.canon && v.kind() == "segmentation_descriptor" && st.count == 0 {
			st.count = 1
		}
		w.put(it.N, uint64(st.count))
	case "loop":
		l := L{}
		n := st.count
		for i := 0; i < n; i++ {
			x := Val{}
			s2 := gstate{}
			at := w.n
			for _, y := range it.T {
				g.item(y, x, w, &s2)
			}
			l = append(l, x)
			if i+1 < n && g.chance(10) { // the same element again
				w.again(at)
				l = append(l, x.clone())
				i++
			}
		}
		v[it.F] = l
	case "str":
		b := make([]byte, st.count)
		const dtmf = "0123456789*#ABCD"
		any := g.chance(3) // anything that can be printed
		for i := range b {
			b[i] = dtmf[g.Intn(len(dtmf))]
			if any {
				b[i] = byte(32 + g.Intn(95))
			}
			if !g.canon && g.chance(4) {
				b[i] = byte(g.bits(8))
			}
		}
		if i := g.Intn(8); any && i+1 < len(b) {
			copy(b[i:], "\u00e9")
		}
		if len(b) > 0 && g.chance(4) {
			b = g.special(len(b), false)
		}
		v[it.F] = B(b)
		w.bytes(b)
	case "fix":
		b := make([]byte, it.N)
		any := g.chance(4)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz"[g.Intn(26)]
			if any {
				b[i] = byte(32 + g.Intn(95))
			}
			if !g.canon && g.chance(4) {
				b[i] = byte(g.bits(8))
			}
		}
		if g.chance(6) {
			b = g.special(len(b), false)
		}
		v[it.F] = B(b)
		w.bytes(b)
	case "rest":
		b := g.raw(200)
		if g.big && g.chance(3) && v.kind() == "private_command" {
			b = g.raw(3000)
		}
		v[it.F] = B(b)
		w.bytes(b)
	case "none":
		st.none = !g.chance(3)
		if x, ok := g.force["?"+it.F]; ok {
			st.none = x.(bool)
		}
		if st.none {
			w.put(1, 1)
		} else {
			w.put(1, 0)
		}
	case "some":
		if !st.none {
			for _, x := range it.T {
				g.item(x, v, w, st)
			}
		}
	case "upids":
		n := 1
		switch g.Intn(6) {
		case 0:
			n = 0
		case 1, 2:
			n = 2 + g.Intn(3)
			if g.chance(24) {
				n = g.pickInt(5, 8, 10, 16, 17, 20, 33, 40)
			}
		}
		if x, ok := g.force["#upids"]; ok {
			n = x.(int)
		}
		l := L{}
		for {
			l = L{}
			var body []byte
			typ := 0
			var u Val
			var b []byte
			for i := 0; i < n; i++ {
				if i == 0 || !g.chance(4) { // else the same once more
					u, b = g.upid()
				}
				for n > 5 && len(b) > 200/n {
					u, b = g.upid()
				}
				l = append(l, u)
				typ = int(u.n("type"))
				if n == 1 {
					body = b
				} else {
					body = append(append(body, byte(typ), byte(len(b))), b...)
				}
			}
			if n > 1 || (!g.canon && n == 1 && g.chance(20)) {
				if n == 1 { // a MID() with a single member
					body = append([]byte{byte(typ), byte(len(body))}, body...)
				}
				typ = 13
			}
			if n == 0 && !g.canon {
				typ = int(g.bits(8)) // a type without content
			}
			if len(body) > 200 {
				continue
			}
			w.put(8, uint64(typ))
			w.put(8, uint64(len(body)))
			w.bytes(body)
			break
		}
		v[it.F] = l
	case "sub":
		t := int(v.n(it.F))
		i := sort.SearchInts(g.syn.SubTypes, t)
		if i < len(g.syn.SubTypes) && g.syn.SubTypes[i] == t && g.chance(2) {
			a, b := g.bits(8), g.bits(8)
			v["has_sub_num"], v["has_sub_exp"] = true, true
			v["sub_segment_num"], v["sub_segments_expected"] = N(a), N(b)
			w.put(8, a)
			w.put(8, b)
		}
	default:
		panic("unknown item " + it.K)
	}
}

var cmdKinds = []string{"splice_null", "splice_schedule", "splice_insert", "time_signal", "bandwidth_reservation", "private_command"}
var descKinds = []string{"avail_descriptor", "dtmf_descriptor", "segmentation_descriptor", "time_descriptor", "audio_descriptor", "private_descriptor"}

// cmd generates a command: value, type code and bytes.
func (g *gen) cmd(kind string) (Val, int, []byte) {
	s := g.syn.Commands[kind]
	v := Val{"kind": kind}
	w := &bitw{}
	g.items(s.Syn, v, w)
	code := s.Code
	if kind == "private_command" && !g.canon {
		for code = g.Intn(256); code == 0 || code >= 4 && code <= 7; code = g.Intn(256) {
		}
	}
	if kind == "private_command" && g.chance(6) {
		v["identifier"] = W(0x43554549)
		copy(w.b, "CUEI")
	}
	return v, code, w.b
}

// desc generates a descriptor and its bytes, at most 257 of them.
func (g *gen) desc(kind string) (Val, []byte) {
	for {
		s := g.syn.Descriptors[kind]
		v := Val{"kind": kind}
		w := &bitw{}
		g.items(s.Syn, v, w)
		tag, ident := uint64(s.Code), uint64(0x43554549)
		if kind == "private_descriptor" {
			tag = g.bits(8)
			if g.chance(2) {
				tag = uint64(g.Intn(6))
			}
			ident = g.bits(32)
			switch g.Intn(4) {
			case 0:
				ident = 0x43554549
				tag |= 8
			case 1:
				ident = 0x43554549 ^ 1<<uint(g.Intn(32))
			}
			if x, ok := g.force["tag"]; ok {
				tag = x.(uint64)
			}
			if x, ok := g.force["identifier"]; ok {
				ident = x.(uint64)
			}
			v["tag"], v["identifier"] = N(tag), W(ident)
		}
		if len(w.b)+4 > 255 {
			continue
		}
		out := &bitw{}
		out.put(8, tag)
		out.put(8, uint64(len(w.b)+4))
		out.put(32, ident)
		out.bytes(w.b)
		return v, out.b
	}
}

// plan is a section taken apart.
type plan struct {
	hdr      Val
	tableID  byte
	resv     bool // odd reserved bits
	cmdType  int
	cmd      []byte
	cmdLen   int // -1: the length of cmd
	descs    [][]byte
	dlen     int // -1: the length of descs
	stuffing []byte
	ecrc     []byte
	secLen   int // -1: the correct one
	val      Val // the abstract signal
}

func (g *gen) header() Val {
	v := Val{}
	w := &bitw{}
	g.items(g.syn.Header.Syn, v, w)
	return v
}

// section generates a well-formed section.
func (g *gen) section(cmdKind string, kinds []string) *plan {
	p := &plan{tableID: 0xfc, cmdLen: -1, dlen: -1, secLen: -1}
	p.hdr = g.header()
	alg := uint64(0)
	if !g.canon && g.chance(8) {
		alg = uint64(p.hdr.n("encryption_algorithm"))
	}
	p.val = Val{
		"sap": p.hdr["sap_type"], "proto": p.hdr["protocol_version"], "alg": N(alg),
		"pts": p.hdr["pts_adjustment"], "cw": p.hdr["cw_index"], "tier": p.hdr["tier"],
	}
	if g.chance(3) {
		p.val["proto"] = N(0)
	}
	p.val["preroll"] = W(0)
	c, t, b := g.cmd(cmdKind)
	p.val["cmd"], p.cmdType, p.cmd = c, t, b
	ds := L{}
	for _, k := range kinds {
		d, b := g.desc(k)
		ds = append(ds, d)
		p.descs = append(p.descs, b)
		if g.chance(16) { // the same descriptor again
			ds = append(ds, d.clone())
			p.descs = append(p.descs, b)
		}
	}
	p.val["descs"] = ds
	if g.chance(4) {
		p.stuffing = g.raw(12)
		if g.big {
			p.stuffing = g.raw(400)
		}
	}
	for size := len(p.cmd) + len(p.stuffing); ; { // it has to fit
		for _, d := range p.descs {
			size += len(d)
		}
		if size <= 4060 || len(p.descs) == 0 {
			break
		}
		p.descs = p.descs[:len(p.descs)/2]
		p.val["descs"] = ds[:len(p.descs)]
		ds = ds[:len(p.descs)]
		size = len(p.cmd) + len(p.stuffing)
	}
	if !g.canon {
		p.resv = g.chance(2)
		if g.chance(10) {
			p.tableID = byte(g.Uint32())
		}
		if g.chance(10) && cmdKind != "private_command" {
			p.cmdLen = 0xfff
		}
		if g.chance(20) {
			p.secLen = g.Intn(4096)
		}
		if alg == 0 && g.chance(40) { // encrypted_packet without an algorithm
			p.ecrc = g.raw(0)
			p.ecrc = []byte{1, 2, 3, byte(g.Uint32())}
		}
	}
	if alg != 0 {
		p.ecrc = []byte{byte(g.Uint32()), byte(g.Uint32()), 3, 4}
	}
	return p
}

func (g *gen) resvBits(p *plan, n int) uint64 {
	if p.resv {
		return uint64(g.Intn(1 << uint(n)))
	}
	return 1<<uint(n) - 1
}

// render writes the section.
func (g *gen) render(p *plan) []byte {
	dl := 0
	for _, d := range p.descs {
		dl += len(d)
	}
	n := 11 + len(p.cmd) + 2 + dl + len(p.stuffing) + len(p.ecrc) + 4
	if p.secLen >= 0 {
		n = p.secLen
	}
	cl := len(p.cmd)
	if p.cmdLen >= 0 {
		cl = p.cmdLen
	}
	if p.dlen >= 0 {
		dl = p.dlen
	}
	w := &bitw{}
	w.put(8, uint64(p.tableID))
	w.put(1, 0)
	w.put(1, 0)
	w.put(2, uint64(p.val.n("sap")))
	w.put(12, uint64(n)&0xfff)
	w.put(8, uint64(p.val.n("proto")))
	w.put(1, b2u(p.ecrc != nil))
	w.put(6, uint64(p.val.n("alg")))
	w.put(33, p.val.w("pts"))
	w.put(8, uint64(p.val.n("cw")))
	w.put(12, uint64(p.val.n("tier")))
	w.put(12, uint64(cl)&0xfff)
	w.put(8, uint64(p.cmdType))
	w.bytes(p.cmd)
	w.put(16, uint64(dl)&0xffff)
	for _, d := range p.descs {
		w.bytes(d)
	}
	w.bytes(p.stuffing)
	w.bytes(p.ecrc)
	return appendCRC(w.b)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// appendCRC appends the CRC_32 of b (only used to construct inputs).
func appendCRC(b []byte) []byte {
	c := crc32(b)
	return append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

func fixCRC(b []byte) []byte {
	if len(b) < 4 {
		return b
	}
	return appendCRC(append([]byte{}, b[:len(b)-4]...))
}

func crc32(b []byte) uint32 {
	r := uint32(0xffffffff)
	for _, x := range b {
		r ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if r&0x80000000 != 0 {
				r = r<<1 ^ 0x04c11db7
			} else {
				r <<= 1
			}
		}
	}
	return r
}

// anySection generates a well-formed section of any shape.
func (g *gen) anySection() *plan {
	var kinds []string
	n := g.Intn(4)
	for g.chance(5) {
		n += 1 + g.Intn(3)
	}
	if g.big && g.chance(5) {
		n = g.Intn(40)
	}
	for i := 0; i < n; i++ {
		k := descKinds[g.Intn(len(descKinds))]
		if g.chance(3) {
			k = "segmentation_descriptor"
		}
		kinds = append(kinds, k)
	}
	c := cmdKinds[g.Intn(len(cmdKinds))]
	if g.chance(3) {
		c = g.pick("splice_insert", "splice_schedule")
	}
	return g.section(c, kinds)
}

// wrongCRC gives a section a CRC_32 that a mistaken writer might give it, or that
// a mistaken reader might accept.
func (g *gen) wrongCRC(b []byte) []byte {
	if len(b) < 4 {
		return b
	}
	n := len(b) - 4
	body := append([]byte{}, b[:n]...)
	c := crc32(body)
	poly := func(p, init, xor uint32, from int) uint32 {
		r := init
		for _, x := range body[from:] {
			r ^= uint32(x) << 24
			for i := 0; i < 8; i++ {
				if r&0x80000000 != 0 {
					r = r<<1 ^ p
				} else {
					r <<= 1
				}
			}
		}
		return r ^ xor
	}
	const p = 0x04c11db7
	from := g.Intn(len(body) + 1)
	switch g.Intn(16) {
	case 0:
		c = 0
	case 1:
		c = 0xffffffff
	case 2:
		c = bits.ReverseBytes32(c)
	case 3:
		c = bits.Reverse32(c)
	case 4:
		c = ^c
	case 5:
		c = poly(p, 0, 0, 0)
	case 6:
		c = poly(p, 0xffffffff, 0, from)
	case 7:
		c = stdcrc.ChecksumIEEE(body)
	case 8:
		c = poly(0x1edc6f41, 0xffffffff, 0, 0)
	case 9:
		c = c&0xffff0000 | g.Uint32()&0xffff
	case 10:
		c = c&0xffff | g.Uint32()&0xffff0000
	case 11:
		c = bits.RotateLeft32(c, 8*(1+g.Intn(3)))
	case 12:
		c = c&0xffffff00 | uint32(g.bits(8))
	case 13:
		c = c&0x00ffffff | uint32(g.bits(8))<<24
	case 14:
		c = poly(p, 0xffffffff, 0, min(1+g.Intn(4), len(body)))
	case 15: // of a part of the section
		body = body[:from]
		c = poly(p, 0xffffffff, 0, 0)
	}
	return append(append([]byte{}, b[:n]...), byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

// damage changes a section.
func (g *gen) damage(b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	if g.chance(8) {
		return g.wrongCRC(b)
	}
	for k := 1 + g.Intn(2); k > 0; k-- {
		switch g.Intn(7) {
		case 0: // one bit
			i := g.Intn(8 * len(b))
			b[i/8] ^= 0x80 >> uint(i%8)
		case 1: // a byte
			b[g.Intn(len(b))] = byte(g.bits(8))
		case 2: // truncate
			b = b[:g.Intn(len(b)+1)]
		case 3: // extend
			b = append(b, g.raw(20)...)
		case 4: // remove a piece
			i := g.Intn(len(b))
			j := i + g.Intn(len(b)-i+1)
			if j > i+4 {
				j = i + 4
			}
			b = append(b[:i], b[j:]...)
		case 5: // insert a piece
			i := g.Intn(len(b) + 1)
			b = append(b[:i], append(g.raw(4), b[i:]...)...)
		case 6: // a small change of a byte, lengths in particular
			i := g.Intn(len(b))
			if len(b) > 13 && g.chance(2) {
				i = 11 + g.Intn(3)
			}
			b[i] += byte(g.Intn(5) - 2)
		}
		if len(b) == 0 {
			return b
		}
	}
	if g.chance(2) {
		b = fixCRC(b)
	}
	return b
}

// walkSorted visits all fields of v, in a fixed order.
func walkSorted(v Val, f func(m Val, k string)) {
	ks := make([]string, 0, len(v))
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch y := v[k].(type) {
		case Val:
			walkSorted(y, f)
		case L:
			for _, z := range y {
				walkSorted(z, f)
			}
		default:
			f(v, k)
		}
	}
}

func (v Val) clone() Val {
	c := Val{}
	for k, x := range v {
		switch y := x.(type) {
		case Val:
			c[k] = y.clone()
		case L:
			l := L{}
			for _, z := range y {
				l = append(l, z.clone())
			}
			c[k] = l
		default:
			c[k] = x
		}
	}
	return c
}
