package main

// Scripts: sessions that the specification generated (spec/Shapes.tla,
// spec/Machine.tla, spec/Faults.tla), one per line.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
)

type scriptOp struct {
	Op   string          `json:"op"`
	S    int             `json:"s"`    // slot, from 1
	From int             `json:"from"` // the slot whose last output is the input
	B    []int           `json:"b"`
	Bs   [][]int         `json:"bs"`
	V    json.RawMessage `json:"v"`
	N    uint64          `json:"n"`
	// how often, 0: once
	Times int   `json:"times"`
	T     any   `json:"t"` // a document
	D     []int `json:"d"` // a number in decimal
	// runs of the tools: format, way of input, what stands around a document
	Kind, Via string
	Pre, Post []int
	Args      []string
}

type script struct {
	N   int        `json:"n"`
	G   int        `json:"g"` // its group
	Ops []scriptOp `json:"ops"`
}

var wideFields = map[string]bool{
	"pts": true, "preroll": true, "identifier": true, "event_id": true, "utc_splice_time": true, "pts_time": true,
	"duration": true, "provider_avail_id": true, "pts_offset": true, "tai_seconds": true, "tai_ns": true,
}
var byteFields = map[string]bool{"bytes": true, "chars": true, "iso_code": true, "text": true}

// wide reads <<hi, lo>>.
func wide(x any) W {
	p := x.([]any)
	return W(uint64(p[0].(float64))<<24 | uint64(p[1].(float64)))
}

func toBytes(is []int) []byte {
	b := make([]byte, len(is))
	for i, x := range is {
		b[i] = byte(x)
	}
	return b
}

func fromBytes(t string) []int {
	is := make([]int, len(t))
	for i := range is {
		is[i] = int(t[i])
	}
	return is
}

func str(x any) string {
	p := x.([]any)
	b := make([]byte, len(p))
	for i, z := range p {
		b[i] = byte(z.(float64))
	}
	return string(b)
}

func toJnode(x any) *jnode {
	p := x.([]any)
	n := &jnode{tag: p[0].(string), text: p[1].(string), str: str(p[2])}
	for _, k := range p[3].([]any) {
		if n.tag == "o" {
			kv := k.([]any)
			n.keys = append(n.keys, kv[0].(string))
			k = kv[1]
		}
		n.kids = append(n.kids, toJnode(k))
	}
	return n
}

func toXnode(x any) *xnode {
	p := x.([]any)
	n := &xnode{name: p[0].(string), text: str(p[1])}
	for _, a := range p[2].([]any) {
		at := a.([]any)
		n.attrs = append(n.attrs, [2]string{at[0].(string), str(at[1])})
	}
	for _, k := range p[3].([]any) {
		n.kids = append(n.kids, toXnode(k))
	}
	return n
}

// value reads a record of the specification.
func value(m map[string]any) Val {
	v := Val{}
	for k, x := range m {
		switch y := x.(type) {
		case bool, string:
			v[k] = y
		case float64:
			v[k] = N(uint64(y))
		case map[string]any:
			v[k] = value(y)
		case []any:
			switch {
			case wideFields[k]:
				v[k] = wide(y)
			case k == "fi":
				o := Opt{}
				for _, z := range y {
					o = append(o, wide(z))
				}
				v[k] = o
			case byteFields[k]:
				b := make([]byte, len(y))
				for i, z := range y {
					b[i] = byte(z.(float64))
				}
				v[k] = B(b)
			case k == "stuffing":
			default:
				l := L{}
				for _, z := range y {
					l = append(l, value(z.(map[string]any)))
				}
				v[k] = l
			}
		}
	}
	return v
}

// number is d, or else n.
func (op scriptOp) number() uint64 {
	if len(op.D) == 0 {
		return op.N
	}
	n, err := strconv.ParseUint(string(toBytes(op.D)), 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// runScripts performs the sessions of a file, the ones of a group at the same
// time if par is set.
func runScripts(r *recorder, g *gen, w *watch, path string, par bool, seed int64) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer func() { _ = f.Close() }()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	var group []script
	for sc.Scan() {
		var s script
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			panic(err)
		}
		if par {
			if len(group) > 0 && group[0].G != s.G {
				together(r, g.syn, group, seed)
				group = nil
			}
			group = append(group, s)
			continue
		}
		x := newSession(s.N, w)
		for _, op := range s.Ops {
			x.perform(g, op)
		}
		r.add(x)
	}
	if sc.Err() != nil {
		panic(sc.Err())
	}
	if len(group) > 0 {
		together(r, g.syn, group, seed)
	}
}

// together performs sessions at the same time.
func together(r *recorder, syn *syntax, group []script, seed int64) {
	xs := make([]*session, len(group))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, s := range group {
		x := newSession(s.N, &watch{})
		xs[i] = x
		g := &gen{Rand: rand.New(rand.NewSource(seed + int64(i))), syn: syn}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range s.Ops {
				x.perform(g, op)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, x := range xs {
		r.add(x)
	}
}

func (x *session) perform(g *gen, op scriptOp) {
	if op.Times > 1 { // of a document always the same text
		if op.T != nil && op.Op == "unjson" {
			op.B, op.T = fromBytes(g.jtext(toJnode(op.T))), nil
		} else if op.T != nil && op.Op == "unxml" {
			op.B, op.T = fromBytes(g.xtext(toXnode(op.T))), nil
		}
		n := op.Times
		for op.Times = 0; n > 1; n-- {
			x.perform(g, op)
		}
	}
	i, j := op.S-1, op.From-1
	switch op.Op {
	case "put":
		var m map[string]any
		if err := json.Unmarshal(op.V, &m); err != nil {
			panic(err)
		}
		x.put(i, value(m))
		return
	case "fresh":
		x.fresh(i)
		return
	case "edit":
		var m map[string]any
		if err := json.Unmarshal(op.V, &m); err != nil {
			panic(err)
		}
		x.edit(i, value(m))
		return
	case "smash":
		x.smash(i)
		return
	case "junk":
		x.junk(i, int(op.N))
		return
	case "copy":
		x.copy(j, i)
		return
	case "bytes":
		x.bytes([]byte{1, 2, 3, 4}, toBytes(op.B), string(toBytes(op.B)))
		return
	case "scribbleout":
		x.scribbleOut()
		return
	case "decode":
		b := toBytes(op.B)
		if op.From > 0 {
			if x.enc[j] == nil {
				return
			}
			b = x.enc[j]
		}
		_ = x.decode(i, b)
		return
	case "crc": // decode with a correct CRC_32
		_ = x.decode(i, fixCRC(toBytes(op.B)))
		return
	case "decodeb64":
		_ = x.text(i, "b64", b64(toBytes(op.B)))
		return
	case "decodehex":
		_ = x.text(i, "hex", hexText(toBytes(op.B), op.N&1 == 1, op.N&2 == 2))
		return
	case "textb64", "texthex": // a text as it is
		_ = x.text(i, op.Op[4:], string(toBytes(op.B)))
		return
	case "unjson", "unxml":
		t := string(toBytes(op.B))
		if op.T != nil && op.Op == "unjson" {
			t = g.jtext(toJnode(op.T))
		} else if op.T != nil {
			t = g.xtext(toXnode(op.T))
		} else if op.From > 0 {
			t = x.jsonText[j]
			if op.Op == "unxml" {
				t = x.xmlText[j]
			}
			if t == "" {
				return
			}
		}
		_ = x.unmarshal(i, op.Op[2:], t)
		return
	case "look":
		x.look()
		return
	case "held":
		x.checkHeld()
		return
	case "ticks":
		x.ticks(op.number())
		return
	case "ns":
		x.ns(int64(op.number()))
		return
	case "gps":
		x.gps(uint32(op.number()), []int64{999999999, 500000000, 1, 0}[op.N%4], 900*(int(op.N)%113-56))
		return
	case "upid":
		x.upid(uint32(op.N), toBytes(op.B))
		return
	case "clidecode":
		x.cliDecode(string(toBytes(op.B)), op.Kind, op.N&1 == 1)
		return
	case "cliencode":
		t := string(toBytes(op.B))
		switch {
		case op.T != nil && op.Kind == "json":
			t = g.jtext(toJnode(op.T))
		case op.T != nil:
			t = g.xtext(toXnode(op.T))
		case op.From > 0 && op.Kind == "json":
			t = x.jsonText[j]
		case op.From > 0:
			t = x.xmlText[j]
		}
		x.cliEncode(string(toBytes(op.Pre))+t+string(toBytes(op.Post)), op.Via)
		return
	case "cliwrong":
		x.cliWrong(op.Args...)
		return
	case "names":
		x.names(uint32(op.N), string(toBytes(op.B)))
		return
	}
	if x.slots[i] == nil {
		return
	}
	switch op.Op {
	case "scribble":
		x.scribble(i)
	case "encode":
		_, _ = x.encode(i)
	case "b64", "hex":
		x.textOut(i, op.Op)
	case "json", "xml":
		_, _ = x.marshal(i, op.Op)
	case "table":
		x.table(i, "", "\t")
	case "dur":
		x.dur(i)
	case "derived":
		x.derived(i)
	case "all":
		g.observeAll(x, i)
	default:
		panic(fmt.Sprint("no operation ", op.Op))
	}
}
