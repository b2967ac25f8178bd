package main

// Sessions: sequences of library calls on a few signals, recorded as traces
// for spec/Trace.tla.  The driver only performs and observes; what is right is
// decided by the specification.

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// watch says what is being called, for the watchdog and for crashes.
type watch struct {
	since atomic.Int64 // unix nanoseconds, 0: nothing
	what  atomic.Value
}

type session struct {
	slots []*scte35.SpliceInfoSection
	evs   []event
	calls int
	sigs  []any
	sigIx map[string]int
	bufs  []B
	bufIx map[string]int
	docs  []any
	docIx map[string]int
	w     *watch
	// everything the library ever returned, with a copy
	held []heldOutput
	// what it was last given and returned per slot
	in       []*[]byte
	link     []int // slots with the same number share what they point to
	links    int
	enc      [][]byte
	jsonText []string
	xmlText  []string
	stub     *outcome // of the next calls, which already happened
}

// lib performs f, a call on signal i, unless it already happened.
func (x *session) lib(i int, f func() ([]byte, error)) ([]byte, error) {
	o := x.stub
	if o == nil {
		return f()
	}
	if o.bad != "" {
		panic(o.bad)
	}
	if o.s != nil {
		x.slots[i] = o.s
	}
	return o.b, o.e
}

type heldOutput struct {
	b    []byte
	copy string
}

func newSession(n int, w *watch) *session {
	x := &session{sigIx: map[string]int{}, bufIx: map[string]int{}, docIx: map[string]int{}, w: w}
	for i := 0; i < n; i++ {
		x.slots = append(x.slots, nil)
		x.in = append(x.in, nil)
		x.link = append(x.link, 0)
		x.enc = append(x.enc, nil)
		x.jsonText = append(x.jsonText, "")
		x.xmlText = append(x.xmlText, "")
	}
	return x
}

func (x *session) sig(v any) int {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	k := string(b)
	if i, ok := x.sigIx[k]; ok {
		return i
	}
	x.sigs = append(x.sigs, json.RawMessage(b))
	x.sigIx[k] = len(x.sigs)
	return len(x.sigs)
}

func (x *session) buf(b []byte) int {
	k := string(b)
	if i, ok := x.bufIx[k]; ok {
		return i
	}
	x.bufs = append(x.bufs, B(k))
	x.bufIx[k] = len(x.bufs)
	return len(x.bufs)
}

func (x *session) doc(kind, text string) int { return x.docAs(kind, text, false) }

// docOut is the document the library has written, the white space between its elements does
// not count.
func (x *session) docOut(kind, text string) int { return x.docAs(kind, text, true) }

func (x *session) docAs(kind, text string, out bool) int {
	k := kind + text
	if i, ok := x.docIx["out"+k]; ok { // what was read is what was written
		return i
	}
	if out {
		k = "out" + k
	}
	if i, ok := x.docIx[k]; ok {
		return i
	}
	var d any
	if kind == "json" {
		d = jsonTree(text)
	} else {
		d = xmlTree(text)
		if t, ok := d.(*xnode); ok && out {
			d = t.tidy()
		}
	}
	if d == nil {
		d = Val{"k": "bad"}
	} else {
		d = Val{"k": kind, "t": d}
	}
	if out { // the same document, however it is spaced
		b, _ := json.Marshal(d)
		tk := "tree" + string(b)
		if i, ok := x.docIx[tk]; ok {
			x.docIx[k] = i
			return i
		}
		x.docIx[tk] = len(x.docs) + 1
	}
	x.docs = append(x.docs, d)
	x.docIx[k] = len(x.docs)
	return len(x.docs)
}

// call performs f on behalf of slot i and records the event it fills in.
func (x *session) call(op string, i int, what string, f func(e event)) event {
	e := event{"op": op, "s": i + 1, "panic": ""}
	x.w.what.Store(op + " " + what)
	x.w.since.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if r := recover(); r != nil {
				e["panic"] = ascii(fmt.Sprint(r) + " " + firstFrame(debug.Stack()))
			}
		}()
		f(e)
	}()
	x.w.since.Store(0)
	os := make([]int, len(x.slots))
	for j, s := range x.slots {
		if s != nil {
			os[j] = x.sig(obs(s))
		}
	}
	e["obs"] = os
	x.calls++
	// the same call with the same outcome, right after the first: nothing new
	if n := len(x.evs); n > 0 && reflect.DeepEqual(x.evs[n-1], e) {
		return e
	}
	x.evs = append(x.evs, e)
	return e
}

// firstFrame finds the library function a panic came from.
func firstFrame(st []byte) string {
	for _, l := range strings.Split(string(st), "\n") {
		if strings.Contains(l, "scte35-go/pkg/scte35.") {
			return l[strings.LastIndex(l, "/")+1:]
		}
	}
	return ""
}

func ascii(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '"' || r == '\\' {
			return '?'
		}
		return r
	}, s)
}

func (x *session) keep(b []byte) {
	if len(x.held) < 40 {
		x.held = append(x.held, heldOutput{b, string(b)})
	}
}

// put makes slot i a constructed signal.
func (x *session) put(i int, v Val) {
	x.call("new", i, "", func(e event) {
		x.slots[i] = build(v)
		text, _ := json.Marshal(v)
		vary(reflect.ValueOf(x.slots[i]), x.calls+int(crc32(text)%97))
	})
	x.link[i] = 0
	if c := v.v("cmd"); c.b("time_specified") {
		x.made(c.w("pts_time"))
	}
}

// fresh makes slot i a zero value.
func (x *session) fresh(i int) {
	x.call("new", i, "", func(e event) { x.slots[i] = &scte35.SpliceInfoSection{} })
	x.link[i] = 0
}

func (x *session) slot(i int) *scte35.SpliceInfoSection {
	if x.slots[i] == nil {
		x.slots[i] = &scte35.SpliceInfoSection{}
	}
	return x.slots[i]
}

// decode b into slot i.
func (x *session) decode(i int, b []byte) error {
	s := x.slot(i)
	in := append(make([]byte, 0, len(b)+7), b...)
	var err error
	x.call("decode", i, fmt.Sprintf("%x", b), func(e event) {
		e["via"], e["in"], e["err"], e["same"] = "bytes", x.buf(b), "", true
		_, err = x.lib(i, func() ([]byte, error) { return nil, s.Decode(in) })
		e["err"] = errClass(err)
		e["same"] = string(in) == string(b)
	})
	x.in[i] = &in
	x.link[i] = 0
	return err
}

// scribble overwrites the buffer slot i was decoded from.
func (x *session) scribble(i int) {
	if x.in[i] == nil {
		return
	}
	x.call("look", i, "", func(e event) {
		for k := range *x.in[i] {
			(*x.in[i])[k] ^= 0xa5
		}
	})
}

// look observes all slots again.
func (x *session) look() { x.call("look", 0, "", func(e event) {}) }

// text decodes a base64 ("b64") or hex ("hex") string into slot i.
func (x *session) text(i int, via, t string) error {
	var err error
	x.call("decode", i, via+" "+t, func(e event) {
		e["via"], e["in"], e["err"], e["same"] = via, x.buf([]byte(t)), "", true
		if via == "b64" {
			x.slots[i], err = scte35.DecodeBase64(t)
		} else {
			x.slots[i], err = scte35.DecodeHex(t)
		}
		e["err"] = errClass(err)
		if x.slots[i] == nil {
			e["panic"] = "no signal returned"
		}
	})
	x.in[i] = nil
	x.link[i] = 0
	return err
}

func (x *session) encode(i int) ([]byte, error) {
	var b []byte
	var err error
	x.call("encode", i, "", func(e event) {
		e["out"], e["err"] = 0, ""
		b, err = x.lib(i, x.slots[i].Encode)
		e["err"] = errName(err)
		if err == nil {
			e["out"] = x.buf(b)
			x.keep(b)
			x.enc[i] = append([]byte{}, b...)
		}
	})
	return b, err
}

func (x *session) textOut(i int, op string) string {
	t := ""
	x.call(op, i, "", func(e event) {
		e["out"] = 0
		b, _ := x.lib(i, func() ([]byte, error) {
			if op == "b64" {
				return []byte(x.slots[i].Base64()), nil
			}
			return []byte(x.slots[i].Hex()), nil
		})
		t = string(b)
		e["out"] = x.buf([]byte(t))
	})
	return t
}

func errName(err error) string {
	if err == nil {
		return "none"
	}
	return "error"
}

// marshal slot i as "json" or "xml".
func (x *session) marshal(i int, kind string) (string, error) {
	t := ""
	var err error
	x.call(kind, i, "", func(e event) {
		e["doc"], e["err"] = 0, ""
		var b []byte
		b, err = x.lib(i, func() ([]byte, error) { return marshalWay(kind, x.calls, x.slots[i]) })
		e["err"] = errName(err)
		if err == nil {
			t = string(b)
			e["doc"] = x.docOut(kind, t)
			x.keep(b)
			if kind == "json" {
				x.jsonText[i] = t
			} else {
				x.xmlText[i] = t
			}
		}
	})
	return t, err
}

// unmarshal a document into slot i.
func (x *session) unmarshal(i int, kind, t string) error {
	s := x.slot(i)
	in := []byte(t)
	var err error
	x.call("un"+kind, i, t, func(e event) {
		e["doc"], e["err"], e["same"] = x.doc(kind, t), "", true
		d := x.docs[e["doc"].(int)-1].(Val)
		_, err = x.lib(i, func() ([]byte, error) { return nil, unmarshalWay(kind, x.calls, in, d["t"], s) })
		e["err"] = errName(err)
		e["same"] = string(in) == t
	})
	x.in[i] = &in
	if err == nil {
		x.link[i] = 0
	}
	return err
}

// oddTimes is true if an instant of s, as documents have them, is not a whole
// second of UTC or local time: the same instant, but printed in another way.
func oddTimes(s *scte35.SpliceInfoSection) bool {
	odd := func(t time.Time) bool {
		return t.Nanosecond() != 0 || t.Location() != time.UTC && t.Location() != time.Local
	}
	c, _ := s.SpliceCommand.(*scte35.SpliceSchedule)
	if c == nil {
		return false
	}
	for _, e := range c.Events {
		if e.Program != nil && odd(e.Program.UTCSpliceTime.Time) {
			return true
		}
		for _, y := range e.Components {
			if odd(y.UTCSpliceTime.Time) {
				return true
			}
		}
	}
	return false
}

func (x *session) table(i int, prefix, indent string) string {
	t := ""
	x.call("table", i, "", func(e event) {
		e["prefix"], e["indent"], e["out"], e["odd"] = B(prefix), B(indent), 0, oddTimes(x.slots[i])
		b, _ := x.lib(i, func() ([]byte, error) { return []byte(x.slots[i].Table(prefix, indent)), nil })
		t = string(b)
		e["out"] = x.buf([]byte(t))
	})
	return t
}

func (x *session) dur(i int) {
	x.call("dur", i, "", func(e event) {
		e["out"] = 0
		b, _ := x.lib(i, func() ([]byte, error) { return []byte(fmt.Sprint(int64(x.slots[i].Duration()))), nil })
		e["out"] = x.buf(b)
	})
}

// derived queries all derived properties of slot i.
func (x *session) derived(i int) {
	x.call("derived", i, "", func(e event) {
		e["rows"] = []any{}
		e["rows"] = derivedRows(x.slots[i])
	})
}

// check that everything returned earlier is still as it was.
func (x *session) checkHeld() {
	x.call("held", 0, "", func(e event) {
		ok := true
		for _, h := range x.held {
			ok = ok && string(h.b) == h.copy
		}
		e["same"] = ok
	})
}

// trace is the record of the session.
func (x *session) trace() Val {
	if x.sigs == nil {
		x.sigs = []any{}
	}
	if x.docs == nil {
		x.docs = []any{}
	}
	if x.bufs == nil {
		x.bufs = []B{}
	}
	if x.evs == nil {
		x.evs = []event{}
	}
	return Val{"n": len(x.slots), "sigs": x.sigs, "bufs": x.bufs, "docs": x.docs, "evs": x.evs}
}

type row struct {
	name string
	v    B
}

func (r row) MarshalJSON() ([]byte, error) { return json.Marshal([2]any{r.name, r.v}) }

func derivedRows(s *scte35.SpliceInfoSection) []row {
	rs := []row{}
	add := func(name string, v any) { rs = append(rs, row{name, B(fmt.Sprint(v))}) }
	add("encrypted_packet_flag", s.EncryptedPacketFlag())
	add("sap_type_name", s.SAPTypeName())
	if s.SpliceCommand != nil {
		add("splice_command_type", s.SpliceCommand.Type())
	}
	switch c := s.SpliceCommand.(type) {
	case *scte35.SpliceInsert:
		add("program_splice_flag", c.ProgramSpliceFlag())
		add("duration_flag", c.DurationFlag())
		add("time_specified_flag", c.TimeSpecifiedFlag())
		add("program.time_specified_flag", c.Program.TimeSpecifiedFlag())
		for i := range c.Components {
			add("component.time_specified_flag", c.Components[i].TimeSpecifiedFlag())
			add("component.splice_time.time_specified_flag", c.Components[i].SpliceTime.TimeSpecifiedFlag())
		}
	case *scte35.SpliceSchedule:
		for i := range c.Events {
			add("program_splice_flag", c.Events[i].ProgramSpliceFlag())
			add("duration_flag", c.Events[i].DurationFlag())
		}
	case *scte35.TimeSignal:
		add("time_specified_flag", c.SpliceTime.TimeSpecifiedFlag())
	case *scte35.PrivateCommand:
		add("identifier_string", c.IdentifierString())
	}
	for _, d := range s.SpliceDescriptors {
		if d == nil {
			continue
		}
		add("splice_descriptor_tag", d.Tag())
		switch d := d.(type) {
		case *scte35.PrivateDescriptor:
			add("identifier_string", d.IdentifierString())
		case *scte35.SegmentationDescriptor:
			add("name", d.Name())
			add("delivery_not_restricted_flag", d.DeliveryNotRestrictedFlag())
			add("program_segmentation_flag", d.ProgramSegmentationFlag())
			add("segmentation_duration_flag", d.SegmentationDurationFlag())
			add("segmentation_upid_length", d.SegmentationUpidLength())
			for i := range d.SegmentationUPIDs {
				add("upid_name", d.SegmentationUPIDs[i].Name())
				add("upid_ascii", d.SegmentationUPIDs[i].ASCIIValue())
			}
		}
	}
	return rs
}

// pure calls: functions without a signal

// ticks converts a tick count to a duration and back.
func (x *session) ticks(t uint64) {
	x.call("ticks", 0, fmt.Sprint(t), func(e event) {
		e["t"], e["ns"], e["back"] = B(fmt.Sprint(t)), B(""), B("")
		d := scte35.TicksToDuration(t)
		e["ns"] = B(fmt.Sprint(int64(d)))
		e["back"] = B(fmt.Sprint(scte35.DurationToTicks(d)))
	})
}

// made calls the constructors of the commands that carry a pts_time.
func (x *session) made(pts uint64) {
	x.call("made", 0, fmt.Sprint(pts), func(e event) {
		e["t"], e["ts"], e["si"] = W(pts), 0, 0
		e["ts"] = x.sig(obs(&scte35.SpliceInfoSection{SpliceCommand: scte35.NewTimeSignal(pts)}))
		e["si"] = x.sig(obs(&scte35.SpliceInfoSection{SpliceCommand: &scte35.SpliceInsert{Program: scte35.NewSpliceInsertProgram(pts)}}))
	})
}

func (x *session) ns(d int64) {
	x.call("ns", 0, fmt.Sprint(d), func(e event) {
		e["ns"], e["t"] = B(fmt.Sprint(d)), B("")
		e["t"] = B(fmt.Sprint(scte35.DurationToTicks(time.Duration(d))))
	})
}

// gps converts a utc_splice_time to an instant and back; a fraction of a second
// and the time zone do not count.
func (x *session) gps(sec uint32, frac int64, zone int) {
	x.call("gps", 0, fmt.Sprint(sec, frac, zone), func(e event) {
		e["sec"], e["rfc"], e["back"], e["frac"], e["zone"] = W(sec), B(""), W(0), W(0), W(0)
		t := scte35.NewUTCSpliceTime(sec)
		e["rfc"] = B(t.UTC().Format(time.RFC3339Nano))
		e["back"] = W(t.GPSSeconds())
		e["frac"] = W(scte35.UTCSpliceTime{Time: t.Add(time.Duration(frac))}.GPSSeconds())
		e["zone"] = W(scte35.UTCSpliceTime{Time: t.In(time.FixedZone("", zone))}.GPSSeconds())
	})
}

// upid makes a UPID of content b.
func (x *session) upid(typ uint32, b []byte) {
	x.call("upid", 0, fmt.Sprintf("%d %x", typ, b), func(e event) {
		e["type"], e["in"], e["u"], e["name"], e["ascii"], e["same"] = N(typ), x.buf(b), obsUpid(scte35.SegmentationUPID{}), B(""), B(""), true
		in := append([]byte{}, b...)
		u := scte35.NewSegmentationUPID(typ, in)
		for i := range in { // the UPID must not hang on to the buffer
			in[i] ^= 0xff
		}
		e["u"] = obsUpid(u)
		e["name"], e["ascii"] = B(u.Name()), B(u.ASCIIValue())
	})
}

// the fields of a UPID that do not take part in its name
var upidFormats = []string{"", "hex", "base-64", "text", "hexbinary", "private"}

// names queries the code tables through otherwise empty values.
func (x *session) names(code uint32, text string) {
	x.call("names", 0, fmt.Sprint(code), func(e event) {
		e["code"], e["text"] = N(code), B(text)
		sd := scte35.SegmentationDescriptor{SegmentationTypeID: code}
		u := scte35.SegmentationUPID{Type: code, Value: text, Format: upidFormats[(int(code%6)+len(text))%6]}
		if code%5 == uint32(len(text)%5) {
			u.FormatIdentifier = &code
		}
		s := scte35.SpliceInfoSection{SAPType: code}
		s.EncryptedPacket.EncryptionAlgorithm = code
		e["seg"], e["upid"], e["sap"] = B(sd.Name()), B(u.Name()), B(s.SAPTypeName())
		e["encrypted"] = s.EncryptedPacketFlag()
		e["cmd"] = obsCmd(scte35.NewSpliceCommand(code))["kind"]
		e["desc"] = obsDesc(scte35.NewSpliceDescriptor(scte35.CUEIdentifier, code))["kind"]
		e["alien"] = obsDesc(scte35.NewSpliceDescriptor(scte35.CUEIdentifier+1+code, code))["kind"]
	})
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func hexText(b []byte, upper, prefix bool) string {
	t := hex.EncodeToString(b)
	if upper {
		t = strings.ToUpper(t)
	}
	if prefix {
		t = "0x" + t
	}
	return t
}
