package main

// The same few calls over and over by all goroutines: for what goes wrong only now and then,
// and not as a data race either.  A call with another outcome than it has alone is recorded as
// a session of its own.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// outcome of a call.
type outcome struct {
	b   []byte
	e   error
	err string
	s   *scte35.SpliceInfoSection
	bad string // a panic
}

func (o *outcome) equal(p *outcome) bool {
	return o.err == p.err && o.bad == p.bad && bytes.Equal(o.b, p.b) && reflect.DeepEqual(o.s, p.s)
}

func sayErr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// subject of calls: a section, its signal and its documents.
type subject struct {
	b         []byte
	s         *scte35.SpliceInfoSection
	json, xml []byte
}

// own copy for a goroutine, or nil.
func (t *subject) own() *subject {
	c := &subject{b: bytes.Clone(t.b), json: bytes.Clone(t.json), xml: bytes.Clone(t.xml)}
	if t.s != nil {
		c.s = &scte35.SpliceInfoSection{}
		_ = c.s.Decode(bytes.Clone(t.b))
	}
	return c
}

var hammerOps = []string{"decode", "decode", "decode", "encode", "encode", "json", "xml", "unjson", "unxml", "table", "b64", "hex", "dur"}

// perform op on t.
func (t *subject) perform(op string) (o *outcome) {
	o = &outcome{}
	defer func() {
		if r := recover(); r != nil {
			o.bad = fmt.Sprint(r)
		}
	}()
	var err error
	switch op {
	case "decode":
		o.s = &scte35.SpliceInfoSection{}
		err = o.s.Decode(t.b)
	case "unjson":
		o.s = &scte35.SpliceInfoSection{}
		err = json.Unmarshal(t.json, o.s)
	case "unxml":
		o.s = &scte35.SpliceInfoSection{}
		err = xml.Unmarshal(t.xml, o.s)
	case "encode":
		o.b, err = t.s.Encode()
	case "json":
		o.b, err = json.Marshal(t.s)
	case "xml":
		o.b, err = xml.Marshal(t.s)
	case "table":
		o.b = []byte(t.s.Table("", " "))
	case "b64":
		o.b = []byte(t.s.Base64())
	case "hex":
		o.b = []byte(t.s.Hex())
	case "dur":
		o.b = []byte(fmt.Sprint(int64(t.s.Duration())))
	}
	o.e, o.err = err, sayErr(err)
	return o
}

// record a session in which op on t has outcome o.
func (t *subject) record(r *recorder, w *watch, op string, o *outcome) {
	x := newSession(1, w)
	if t.s != nil {
		_ = x.decode(0, t.b)
	}
	x.stub = o
	switch op {
	case "decode":
		x.stub = nil
		x.fresh(0)
		x.stub = o
		_ = x.decode(0, t.b)
	case "unjson", "unxml":
		x.stub = nil
		x.fresh(0)
		x.stub = o
		if op == "unjson" {
			_ = x.unmarshal(0, "json", string(t.json))
		} else {
			_ = x.unmarshal(0, "xml", string(t.xml))
		}
	case "encode":
		_, _ = x.encode(0)
	case "json", "xml":
		_, _ = x.marshal(0, op)
	case "table":
		x.table(0, "", " ")
	case "b64", "hex":
		x.textOut(0, op)
	case "dur":
		x.dur(0)
	}
	r.add(x)
}

// subjects that differ in little.
func (g *gen) subjects(n int) []*subject {
	var kinds []string
	for k := g.Intn(4); k > 0; k-- {
		kinds = append(kinds, g.pick("segmentation_descriptor", descKinds[g.Intn(len(descKinds))]))
	}
	p := g.section(cmdKinds[g.Intn(len(cmdKinds))], kinds)
	b := g.render(p)
	var ts []*subject
	for len(ts) < n {
		c := bytes.Clone(b)
		if len(ts) > 0 {
			for k := 1 + g.Intn(6); k > 0; k-- {
				c[len(c)-5-g.Intn(len(c)-8)] ^= 1 << uint(g.Intn(8))
			}
			crc := crc32(c[:len(c)-4])
			for i := range 4 {
				c[len(c)-4+i] = byte(crc >> uint(24-8*i))
			}
		}
		t := &subject{b: c, s: &scte35.SpliceInfoSection{}}
		if err := t.s.Decode(bytes.Clone(c)); err != nil {
			t.s = nil
		} else {
			t.json, _ = json.Marshal(t.s)
			t.xml, _ = xml.Marshal(t.s)
		}
		ts = append(ts, t)
	}
	return ts
}

// hammer for d, k goroutines at a time.
func hammer(r *recorder, syn *syntax, w *watch, d time.Duration, k int, seed int64) {
	end := time.Now().Add(d)
	for round := int64(0); round == 0 || time.Now().Before(end); round++ {
		g := &gen{Rand: rand.New(rand.NewSource(seed*1000003 + round)), syn: syn, canon: round%2 == 0}
		ts := g.subjects(2 + g.Intn(2))
		type job struct {
			op    string
			t     *subject
			alone *outcome
		}
		op := hammerOps[g.Intn(len(hammerOps))]
		var jobs []*job
		for i := range k {
			if round%5 == 4 { // all sorts of calls
				op = hammerOps[g.Intn(len(hammerOps))]
			}
			j := &job{op: op, t: ts[i%len(ts)].own()}
			if j.t.s == nil || len(j.t.json) == 0 || len(j.t.xml) == 0 {
				j.op = "decode"
			}
			j.alone = j.t.perform(j.op)
			if i < len(ts) || round%5 == 4 && i < 6 {
				j.t.record(r, w, j.op, j.alone)
			}
			jobs = append(jobs, j)
		}
		others := make([]*outcome, k)
		start := make(chan struct{})
		stop := time.Now().Add(20 * time.Millisecond)
		var wg sync.WaitGroup
		for i, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n%16 != 0 || time.Now().Before(stop); n++ {
					if o := j.t.perform(j.op); !o.equal(j.alone) {
						others[i] = o
						return
					}
				}
			}()
		}
		w.what.Store("concurrent " + op)
		w.since.Store(time.Now().UnixNano())
		close(start)
		wg.Wait()
		w.since.Store(0)
		for i, o := range others {
			if o != nil {
				jobs[i].t.record(r, w, jobs[i].op, o)
			}
		}
	}
}
