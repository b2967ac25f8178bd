bug("offset33", "C01", "a segmentation component whose pts_offset needs its 33rd bit",
    "decoding drops the top bit of a component's pts_offset",
    [(P + "segmentation_descriptor.go", '''				r.Skip(7) // reserved
				c.PTSOffset = r.Uint64(33)''', '''				r.Skip(8) // reserved
				c.PTSOffset = uint64(r.Uint32(32))''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{2, 26, 'C', 'U', 'E', 'I', 0, 0, 0, 1, 0x7F, 0x3F, 1, 9, 0xFF, 0x12, 0x34, 0x56, 0x78, 0, 0, 0x10, 1, 1}
	d[1] = byte(len(d) - 2)
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err != nil {
		t.Fatal(err)
	}
	c := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).Components[0]
	if c.PTSOffset != 0x112345678 {
		t.Fatalf("pts_offset %#x", c.PTSOffset)
	}
}
''')

bug("sharedpts", "C01", "a component-mode splice_insert with at least two components of different pts_time",
    "all components of a decoded splice_insert share one pts_time, the last one's",
    [(P + "splice_insert.go", '''			cmd.Components = make([]SpliceInsertComponent, componentCount)
''', '''			cmd.Components = make([]SpliceInsertComponent, componentCount)
			var ptsTime uint64
'''), (P + "splice_insert.go", '''						r.Skip(6) // reserved
						ptsTime := r.Uint64(33)
						c.SpliceTime''', '''						r.Skip(6) // reserved
						ptsTime = r.Uint64(33)
						c.SpliceTime''')],
    '''
func TestDemo(t *testing.T) {
	c := []byte{0, 0, 0, 1, 0x7F, 0x8F, 2, 1, 0xFE, 0, 0, 0, 5, 2, 0xFE, 0, 0, 0, 6, 0, 1, 0, 0}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(5, c, nil)); err != nil {
		t.Fatal(err)
	}
	cs := s.SpliceCommand.(*scte35.SpliceInsert).Components
	if *cs[0].SpliceTime.PTSTime != 5 || *cs[1].SpliceTime.PTSTime != 6 {
		t.Fatal(*cs[0].SpliceTime.PTSTime, *cs[1].SpliceTime.PTSTime)
	}
}
''')

bug("utcsign", "C01", "a time_descriptor whose UTC_offset has its top bit set",
    "the 16-bit UTC_offset is sign-extended",
    [(P + "time_descriptor.go", """	sd.UTCOffset = r.Uint32(16)
""", """	sd.UTCOffset = uint32(int16(r.Uint32(16)))
""")],
    """
func TestDemo(t *testing.T) {
	d := []byte{3, 16, 'C', 'U', 'E', 'I', 0, 0, 0, 0, 0, 1, 0, 0, 0, 2, 0x80, 1}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err != nil {
		t.Fatal(err)
	}
	if o := s.SpliceDescriptors[0].(*scte35.TimeDescriptor).UTCOffset; o != 0x8001 {
		t.Fatal(o)
	}
}
""")

bug("durmask", "C02", "a segmentation_duration of 2^33 ticks (26.5 hours) or more",
    "encoding wraps segmentation_duration as if it were a 33-bit pts",
    [(P + "segmentation_descriptor.go", '''			iow.PutUint64(40, *sd.SegmentationDuration)''',
      '''			iow.PutUint64(40, *sd.SegmentationDuration&0x1FFFFFFFF) // pts wrap around''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationDuration: p64(1 << 33)}))
	if d := *s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationDuration; d != 1<<33 {
		t.Fatal(d)
	}
}
''')

bug("midlast", "C02", "several UPIDs of which the last one is empty",
    "an empty UPID at the end of a MID() is counted, but not written",
    [(P + "segmentation_descriptor.go", """			for _, upid := range sd.SegmentationUPIDs {
				vb := upid.valueBytes()
""", """			for i, upid := range sd.SegmentationUPIDs {
				vb := upid.valueBytes()
				if len(vb) == 0 && i == len(sd.SegmentationUPIDs)-1 && i == 1 {
					break
				}
""")],
    """
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationUPIDs: []scte35.SegmentationUPID{
		{Type: 3, Format: "text", Value: "ABCD01234567"}, {Type: 9, Format: "text"}}}))
	sd := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor)
	if n := len(sd.SegmentationUPIDs); n != 2 || sd.SegmentationUPIDs[1].Type != 9 || sd.SegmentationTypeID != 0x10 {
		t.Fatal(n, sd)
	}
}
""")

bug("zeropts", "C03", "a time_signal whose pts_time is exactly 0",
    "a time_signal at pts 0 encodes as one without a time",
    [(P + "time_signal.go", '''	return cmd != nil && cmd.SpliceTime.PTSTime != nil
''', '''	return cmd != nil && cmd.SpliceTime.PTSTime != nil && *cmd.SpliceTime.PTSTime != 0
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(scte35.NewTimeSignal(0)))
	if s.SpliceCommand.(*scte35.TimeSignal).SpliceTime.PTSTime == nil {
		t.Fatal("pts_time is gone")
	}
}
''')

bug("eidrlong", "C03", "an EIDR UPID prefix of 32768 or more, i.e. with its top bit set",
    "an EIDR prefix beyond 15 bits is encoded as text instead of as 12 bytes",
    [(P + "segmentation_upid.go", '''	i, err := strconv.Atoi(parts[1])''', '''	i, err := strconv.ParseInt(parts[1], 10, 16)''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.NewSegmentationUPID(10, []byte{0x94, 0x78, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10})
	sd := &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationUPIDs: []scte35.SegmentationUPID{u}}
	if n := sd.SegmentationUpidLength(); n != 12 {
		t.Fatal(n)
	}
}
''')

bug("mpushort", "C04", "an MPU() UPID of fewer than four bytes",
    "decoding panics on an MPU() too short for its format identifier",
    [(P + "segmentation_upid.go", '''		fi := r.Uint32(32)
''', '''		fi := binary.BigEndian.Uint32(r.Bytes(4))
''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{2, 0, 'C', 'U', 'E', 'I', 0, 0, 0, 1, 0x7F, 0xBF, 12, 3, 1, 2, 3, 0x10, 1, 1}
	d[1] = byte(len(d) - 2)
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err != nil {
		t.Fatal(err)
	}
}
''')

bug("cmdidx", "C04", "a splice_schedule whose splice_count promises events that end exactly at the end of the command, in a truncated section",
    "decoding a splice_schedule cut short indexes past its bytes and panics",
    [(P + "splice_schedule.go", '''	spliceCount := int(r.Uint32(8))
	cmd.Events = make([]Event, spliceCount)
	for i := range spliceCount {
''', '''	spliceCount := int(r.Uint32(8))
	cmd.Events = make([]Event, min(spliceCount, len(b)/5))
	for i := range spliceCount {
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(4, []byte{3, 0, 0, 0, 1, 0xFF}, nil)); err == nil {
		t.Fatal("no error")
	}
}
''')

bug("crczero", "C05", "damage that sets the whole CRC_32 to zero",
    "a CRC_32 of zero counts as not calculated and is accepted",
    [(P + "crc_32.go", '''	if calculated != crc {''', '''	if crc != 0 && calculated != crc {''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	for i := 1; i <= 4; i++ {
		b[len(b)-i] = 0
	}
	if err := (&scte35.SpliceInfoSection{}).Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) {
		t.Fatal(err)
	}
}
''')

bug("crcswap", "C05", "damage in the CRC_32 only, that permutes its bytes as a little-endian writer would",
    "a byte-swapped CRC_32 is accepted",
    [(P + "crc_32.go", '''	if calculated != crc {''', '''	if calculated != crc && bits.ReverseBytes32(calculated) != crc {'''),
     (P + "crc_32.go", '''	"errors"

''', '''	"errors"
	"math/bits"

''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	n := len(b)
	b[n-4], b[n-3], b[n-2], b[n-1] = b[n-1], b[n-2], b[n-3], b[n-4]
	if err := (&scte35.SpliceInfoSection{}).Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) {
		t.Fatal(err)
	}
}
''')

bug("trailing", "C05", "a bandwidth_reservation or splice_null section with 1 to 3 stray bytes in its descriptor loop",
    "a descriptor loop with a tail too short for a descriptor is accepted",
    [(P + "splice_descriptor.go", '''	for r.LeftBits() > 0 {
		// Peek''', '''	for r.LeftBits() > 0 {
		if len(sds) > 0 && r.LeftBits() < 16 {
			r.Skip(r.LeftBits()) // padding
			break
		}
		// Peek''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{0, 8, 'C', 'U', 'E', 'I', 0, 0, 0, 1, 0xFF}
	if err := (&scte35.SpliceInfoSection{}).Decode(sec(0, nil, d)); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug("jsonpts32", "C06", "a pts_adjustment of 2^32 or more",
    "the JSON of a signal holds only 32 bits of its pts_adjustment",
    [(P + "splice_info_section.go", '''		m["ptsAdjustment"] = sis.PTSAdjustment
''', '''		m["ptsAdjustment"] = uint32(sis.PTSAdjustment)
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.PTSAdjustment = 1<<32 + 5
	b, err := json.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal(b, r); err != nil || r.PTSAdjustment != s.PTSAdjustment {
		t.Fatal(err, r.PTSAdjustment)
	}
}
''')

bug("jsoncuei", "C06", "a private descriptor with identifier 0 and a tag of 0 to 4",
    "unmarshalling JSON takes a private descriptor with identifier 0 for a CUEI descriptor",
    [(P + "splice_descriptor.go", '''		sdt := sdtype{Identifier: CUEIdentifier}
''', '''		var sdt sdtype
'''), (P + "splice_descriptor.go", '''		sd := NewSpliceDescriptor(sdt.Identifier, sdt.Type)
''', '''		if sdt.Identifier == 0 {
			sdt.Identifier = CUEIdentifier
		}
		sd := NewSpliceDescriptor(sdt.Identifier, sdt.Type)
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.PrivateDescriptor{PrivateTag: 3, PrivateBytes: []byte{1, 2}})
	b, err := json.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal(b, r); err != nil {
		t.Fatal(err)
	}
	if _, ok := r.SpliceDescriptors[0].(*scte35.PrivateDescriptor); !ok {
		t.Fatalf("%T", r.SpliceDescriptors[0])
	}
}
''')

bug("xmlfi", "C07", "an MPU() UPID whose format identifier is 0",
    "the format identifier 0 of an MPU() is not written to XML, and its four bytes are lost",
    [(P + "segmentation_upid.go", """// ASCIIValue returns""", """// MarshalXML encodes a SegmentationUPID to XML.
func (upid SegmentationUPID) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	type plain SegmentationUPID
	p := plain(upid)
	if p.FormatIdentifier != nil && *p.FormatIdentifier == 0 {
		p.FormatIdentifier = nil
	}
	return e.EncodeElement(p, start)
}

// ASCIIValue returns""")],
    """
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10,
		SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 12, Format: "base-64", FormatIdentifier: p32(0), Value: "AQID"}}})
	b, err := xml.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil {
		t.Fatal(err)
	}
	if r.Hex() != s.Hex() {
		t.Fatal(r.Hex(), s.Hex())
	}
}
""")

bug("xmlmixed", "C07", "an XML document in which descriptors of the same kind are separated by another kind",
    "unmarshalling XML groups descriptors by kind, changing their order",
    [(P + "splice_descriptor.go", '''	tmp = append(*sds, sd)
	*sds = tmp
''', '''	for i := len(*sds); ; i-- {
		// keep audio_descriptors behind the others
		if i > 0 && start.Name.Local != "AudioDescriptor" {
			if _, ok := (*sds)[i-1].(*AudioDescriptor); ok {
				continue
			}
		}
		tmp = append(tmp, (*sds)[:i]...)
		tmp = append(tmp, sd)
		tmp = append(tmp, (*sds)[i:]...)
		break
	}
	*sds = tmp
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.AudioDescriptor{}, &scte35.AvailDescriptor{ProviderAvailID: 1})
	b, err := xml.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil {
		t.Fatal(err)
	}
	if r.Hex() != s.Hex() {
		t.Fatal(r.Hex(), s.Hex())
	}
}
''')

bug("trimleft", "C08", "bytes whose hex text begins with a zero digit",
    "DecodeHex drops leading zero digits",
    [(P + "scte35.go", '''strings.TrimPrefix(s, "0x")''', '''strings.TrimLeft(s, "0x")''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	b[0] = 0
	b = seal(b[:len(b)-4])
	if _, err := scte35.DecodeHex(hex.EncodeToString(b)); err != nil {
		t.Fatal(err)
	}
}
''')

bug("rawb64", "C08", "base64 text with missing or superfluous padding",
    "DecodeBase64 accepts text that is not standard base64",
    [(P + "scte35.go", '''	b, err := base64.StdEncoding.DecodeString(s)
''', '''	b, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(s, "="))
''')],
    '''
func TestDemo(t *testing.T) {
	s := base64.StdEncoding.EncodeToString(sec(6, []byte{0x7F}, nil))
	if _, err := scte35.DecodeBase64(s); err != nil {
		t.Fatal(err)
	}
	if _, err := scte35.DecodeBase64(s + "="); !errors.Is(err, scte35.ErrUnsupportedEncoding) {
		t.Fatal(err)
	}
}
''')

bug("nameformat", "C09", "asking for the name of a UPID that has no format, and then marshalling the signal",
    "a UPID's Name fills in the missing format, the signal's JSON and XML change",
    [(P + "segmentation_upid.go", '''	switch upid.Type {
	case SegmentationUPIDTypeNotUsed:''', '''	if upid.Format == "" {
		upid.Format = SegmentationUPIDFormatText
	}
	switch upid.Type {
	case SegmentationUPIDTypeNotUsed:''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.SegmentationUPID{Type: 3, Value: "ABCD01234567"}
	a, _ := json.Marshal(u)
	u.Name()
	b, _ := json.Marshal(u)
	if !bytes.Equal(a, b) {
		t.Fatalf("%s %s", a, b)
	}
}
''')

bug("tablesort", "C09", "printing a splice_schedule whose events are not in order of their ids, and then encoding it",
    "printing a splice_schedule sorts its events in place",
    [(P + "splice_schedule.go", '''	t.row(0, "splice_schedule() {", nil)
''', '''	sort.SliceStable(cmd.Events, func(i, j int) bool {
		return cmd.Events[i].Program != nil && cmd.Events[j].Program != nil &&
			cmd.Events[i].Program.UTCSpliceTime.Before(cmd.Events[j].Program.UTCSpliceTime.Time)
	})
	t.row(0, "splice_schedule() {", nil)
'''), (P + "splice_schedule.go", '''	"fmt"
	"strconv"
''', '''	"fmt"
	"sort"
	"strconv"
''')],
    '''
func TestDemo(t *testing.T) {
	ev := func(id, at uint32) scte35.Event {
		return scte35.Event{SpliceEventID: id, Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(at)}}
	}
	s := sig(&scte35.SpliceSchedule{Events: []scte35.Event{ev(1, 2000), ev(2, 1000)}})
	a := s.Hex()
	s.Table("", "")
	if b := s.Hex(); a != b {
		t.Fatal(a, b)
	}
}
''')

bug("encscratch", "C09", "holding the bytes of one encoding while encoding another signal that is no longer",
    "Encode returns a buffer it uses again, earlier results change",
    [(P + "splice_info_section.go", '''	buf := make([]byte, sis.length())
''', '''	scratchMu.Lock()
	defer scratchMu.Unlock()
	if n := sis.length(); n > cap(scratch) {
		scratch = make([]byte, n)
	}
	buf := scratch[:sis.length()]
	clear(buf)
'''), (P + "splice_info_section.go", '''// iSIS is an internal''', '''// scratch is the buffer signals are encoded to.
var (
	scratchMu sync.Mutex
	scratch   []byte
)

// iSIS is an internal'''), (P + "splice_info_section.go", '''	"fmt"
	"time"
''', '''	"fmt"
	"sync"
	"time"
''')],
    '''
func TestDemo(t *testing.T) {
	a, err := sig(scte35.NewTimeSignal(5)).Encode()
	if err != nil {
		t.Fatal(err)
	}
	x := hex.EncodeToString(a)
	if _, err := sig(&scte35.SpliceNull{}).Encode(); err != nil {
		t.Fatal(err)
	}
	if y := hex.EncodeToString(a); x != y {
		t.Fatal(x, y)
	}
}
''')

bug("b64cache", "C10", "decoding the same base64 text twice with a change to the first signal in between",
    "DecodeBase64 returns the signal it decoded before, with whatever was done to it",
    [(P + "scte35.go", '''	sis := &SpliceInfoSection{}
	b, err := base64''', '''	if v, ok := decoded.Load(s); ok {
		return v.(*SpliceInfoSection), nil
	}
	sis := &SpliceInfoSection{}
	b, err := base64'''), (P + "scte35.go", '''		return sis, ErrUnsupportedEncoding
	}
	err = sis.Decode(b)
	return sis, err
}

// DecodeHex''', '''		return sis, ErrUnsupportedEncoding
	}
	if err = sis.Decode(b); err == nil {
		decoded.Store(s, sis)
	}
	return sis, err
}

// decoded holds signals, which tend to be repeated.
var decoded sync.Map

// DecodeHex'''), (P + "scte35.go", '''	"strings"
	"time"
''', '''	"strings"
	"sync"
	"time"
''')],
    '''
func TestDemo(t *testing.T) {
	x := base64.StdEncoding.EncodeToString(sec(0, nil, nil))
	a, err := scte35.DecodeBase64(x)
	if err != nil {
		t.Fatal(err)
	}
	a.Tier = 7
	b, err := scte35.DecodeBase64(x)
	if err != nil || b.Tier != 0xFFF {
		t.Fatal(err, b.Tier)
	}
}
''')

bug("keepdesc", "C10", "unmarshalling JSON whose private bytes are shorter than those held by a value that is still in use",
    "unmarshalling hex text writes into the bytes already there, which another signal may hold",
    [(P + "scte35.go", '''	tmp, err := hex.DecodeString(string(b))
	if err != nil {
		return err
	}
	*bb = tmp
	return nil''', '''	tmp := *bb
	if n := hex.DecodedLen(len(b)); cap(tmp) < n || n == 0 {
		tmp = make([]byte, n)
	} else {
		tmp = tmp[:n]
	}
	if _, err := hex.Decode(tmp, b); err != nil {
		return err
	}
	*bb = tmp
	return nil''')],
    '''
func TestDemo(t *testing.T) {
	p := scte35.PrivateCommand{}
	if err := json.Unmarshal([]byte(`{"type":255,"identifier":1,"privateBytes":"0102"}`), &p); err != nil {
		t.Fatal(err)
	}
	q := p
	if err := json.Unmarshal([]byte(`{"type":255,"identifier":1,"privateBytes":"0304"}`), &p); err != nil {
		t.Fatal(err)
	}
	if q.PrivateBytes[0] != 1 {
		t.Fatal(q.PrivateBytes)
	}
}
''')

bug("nullsingle", "C11", "two goroutines marshalling their own signals that were decoded from splice_null sections",
    "all splice_null commands are one shared value, marshalling writes to it",
    [(P + "splice_command.go", '''	case SpliceNullType:
		return &SpliceNull{}
''', '''	case SpliceNullType:
		return spliceNull
'''), (P + "splice_command.go", '''// SpliceCommand is an interface for splice_command.
''', '''// spliceNull has no fields, one will do.
var spliceNull = &SpliceNull{}

// SpliceCommand is an interface for splice_command.
''')] ,
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		s := &scte35.SpliceInfoSection{}
		if err := s.Decode(b); err != nil {
			t.Fatal(err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				if _, err := json.Marshal(s); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
''', flags="-race")

bug("idscratch", "C11", "two goroutines asking their own private structures for their identifiers at the same time",
    "IdentifierString of a private_descriptor uses a package-level array",
    [(P + "private_descriptor.go", '''	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, sd.Identifier)
	return string(b)''', '''	b := identifierBytes[:]
	binary.BigEndian.PutUint32(b, sd.Identifier)
	return string(b)'''), (P + "private_descriptor.go", '''// IdentifierString returns''', '''var identifierBytes [4]byte

// IdentifierString returns''')],
    '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		sd := &scte35.PrivateDescriptor{Identifier: uint32(i)*0x01010101 + 0x41414141}
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := strings.Repeat(string(rune('A'+i)), 4)
			for j := 0; j < 20000; j++ {
				if g := sd.IdentifierString(); g != want {
					t.Errorf("%s %s", g, want)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', flags="-race")

bug("crclazy", "C11", "the very first CRC_32 calculations of the process happening at the same time",
    "a shared table is built on first use without synchronisation",
    [(P + "crc_32.go", '''	crc := int32(-1)
	for i := range b {
		crc = (crc << 8) ^ int32(crc32Table[((crc>>24)^int32(b[i]))&0xFF])
	}
	return uint32(crc)''', '''	if crcTable == nil {
		crcTable = make([]uint32, 0, len(crc32Table))
		for _, v := range crc32Table {
			crcTable = append(crcTable, uint32(v))
		}
	}
	crc := uint32(0xFFFFFFFF)
	for i := range b {
		crc = (crc << 8) ^ crcTable[((crc>>24)^uint32(b[i]))&0xFF]
	}
	return crc'''), (P + "crc_32.go", '''// calculateCRC32 takes''', '''// crcTable is crc32Table narrowed to what is needed.
var crcTable []uint32

// calculateCRC32 takes''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if err := (&scte35.SpliceInfoSection{}).Decode(b); err != nil {
				t.Error(err)
			}
		}()
	}
	close(start)
	wg.Wait()
}
''', flags="-race")

bug("dropbroken", "C12", "a section with one descriptor that cannot be decoded completely",
    "a descriptor that fails to decode is left out, with all that could be read of it",
    [(P + "splice_descriptor.go", '''			err = derr
''', '''			err = derr
			continue
''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{0, 9, 'C', 'U', 'E', 'I', 0, 0, 0, 7, 0xFF, 0, 8, 'C', 'U', 'E', 'I', 0, 0, 0, 1}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err == nil {
		t.Fatal("no error")
	}
	if len(s.SpliceDescriptors) != 2 {
		t.Fatal(len(s.SpliceDescriptors))
	}
}
''')

bug("legacysched", "C12", "a legacy section (splice_command_length 0xFFF) with a component-mode splice_insert",
    "the implied length of a legacy component-mode splice_insert is taken to be its shortest",
    [(P + "splice_info_section.go", '''		r.Skip(uint(sis.SpliceCommand.length() * 8))
''', '''		n := sis.SpliceCommand.length()
		if si, ok := sis.SpliceCommand.(*SpliceInsert); ok && !si.ProgramSpliceFlag() && !si.SpliceImmediateFlag {
			n -= 4 * (len(si.Components) / 4) // program_splice_time is shared
		}
		r.Skip(uint(n * 8))
''')],
    '''
func TestDemo(t *testing.T) {
	c := []byte{0, 0, 0, 1, 0x7F, 0x8F, 4, 1, 0xFE, 0, 0, 0, 5, 2, 0xFE, 0, 0, 0, 6, 3, 0xFE, 0, 0, 0, 7, 4, 0xFE, 0, 0, 0, 8, 0, 1, 0, 0}
	b := sec(5, c, nil)
	b[11] |= 0x0F
	b[12] = 0xFF
	b = seal(b[:len(b)-4])
	if err := (&scte35.SpliceInfoSection{}).Decode(b); err != nil {
		t.Fatal(err)
	}
}
''')

bug("privempty", "C13", "a private descriptor without private bytes, followed by another descriptor",
    "a foreign descriptor that has only an identifier is skipped",
    [(P + "splice_descriptor.go", '''		sds = append(sds, sd)
''', '''		if pd, ok := sd.(*PrivateDescriptor); ok && err == nil && len(pd.PrivateBytes) == 0 {
			continue // nothing in there
		}
		sds = append(sds, sd)
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.PrivateDescriptor{PrivateTag: 0xA0, Identifier: 0x41424344}))
	if len(s.SpliceDescriptors) != 1 {
		t.Fatal(len(s.SpliceDescriptors))
	}
}
''')

bug("privtag", "C13", "a private descriptor with a tag of 0x80 or more, printed or marshalled and then encoded",
    "the tag of a private descriptor loses its top bit when it is queried after decoding",
    [(P + "private_descriptor.go", '''	iow.PutUint32(8, sd.PrivateTag)
''', '''	iow.PutUint32(8, max(sd.PrivateTag, sd.JSONType))
'''), (P + "private_descriptor.go", '''	sd.PrivateTag = r.Uint32(8)
''', '''	sd.PrivateTag = r.Uint32(8)
	sd.JSONType = sd.PrivateTag
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.PrivateDescriptor{PrivateTag: 0xA0, Identifier: 0x41424344}))
	s.SpliceDescriptors[0].(*scte35.PrivateDescriptor).PrivateTag = 0x20
	s = again(t, s)
	if g := s.SpliceDescriptors[0].Tag(); g != 0x20 {
		t.Fatal(g)
	}
}
''')

bug("ti63", "C14", "a TI UPID of 2^63 or more",
    "the upper half of the TI range is read as negative numbers, which are not written back",
    [(P + "segmentation_upid.go", """strconv.FormatUint(r.Uint64(r.LeftBits()), 10)""", """strconv.FormatInt(r.Int64(r.LeftBits()), 10)""")],
    """
func TestDemo(t *testing.T) {
	u := scte35.NewSegmentationUPID(8, []byte{0x80, 0, 0, 0, 0, 0, 0, 1})
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationUPIDs: []scte35.SegmentationUPID{u}}))
	if v := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value; v != "9223372036854775809" {
		t.Fatal(v)
	}
}
""")

bug("cp1252", "C14", "text UPID bytes in 0x80..0x9F",
    "text UPIDs are read and written as Windows-1252, bytes 0x80..0x9F get other characters or are lost",
    [(P + "segmentation_upid.go", '''		b, _ := charmap.ISO8859_1.NewDecoder()''', '''		b, _ := charmap.Windows1252.NewDecoder()'''),
     (P + "segmentation_upid.go", '''		b, _ := charmap.ISO8859_1.NewEncoder()''', '''		b, _ := charmap.Windows1252.NewEncoder()''')],
    '''
func TestDemo(t *testing.T) {
	if v := scte35.NewSegmentationUPID(15, []byte{'a', 0x85, 'b'}).Value; v != "a\\u0085b" {
		t.Fatalf("%q", v)
	}
}
''')

bug("urlb64", "C14", "an ISAN UPID whose base64 text has a digit 62 or 63",
    "ISAN values are decoded to the URL alphabet of base64, which is not read back",
    [(P + "segmentation_upid.go", """			Format: SegmentationUPIDFormatBase64,
			Value:  base64.StdEncoding""", """			Format: SegmentationUPIDFormatBase64,
			Value:  base64.URLEncoding""")],
    """
func TestDemo(t *testing.T) {
	if v := scte35.NewSegmentationUPID(6, []byte{0xFB, 0xEF, 0xBE, 1, 2, 3, 4, 5}).Value; v[:4] != "++++" {
		t.Fatal(v)
	}
}
""")

bug("gpsround", "C15", "a splice time with a fraction of a second, as JSON and XML may carry",
    "GPSSeconds rounds to the nearest second",
    [(P + "scte35.go", '''	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch''', '''	return uint32(t.Time.Round(time.Second).Unix()) - unixEpochToGPSEpoch''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.UTCSpliceTime{Time: time.Date(2026, 1, 1, 0, 0, 0, 900000000, time.UTC)}
	v := scte35.UTCSpliceTime{Time: time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)}
	if u.GPSSeconds() != v.GPSSeconds() {
		t.Fatal(u.GPSSeconds(), v.GPSSeconds())
	}
}
''')

bug("gpssub", "C15", "an instant after the year 2116 in GPS seconds",
    "GPSSeconds goes through int32 seconds and stops at 2^31",
    [(P + "scte35.go", '''	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch''', '''	d := t.Time.Unix() - int64(unixEpochToGPSEpoch)
	if d > 1<<31-1 {
		d = 1<<31 - 1
	}
	return uint32(d)''')],
    '''
func TestDemo(t *testing.T) {
	if g := scte35.NewUTCSpliceTime(0x80000000).GPSSeconds(); g != 0x80000000 {
		t.Fatal(g)
	}
}
''')

bug("tabledur0", "C16", "a segmentation_duration of 0",
    "the table leaves out a segmentation_duration of 0",
    [(P + "segmentation_descriptor.go", '''		if sd.SegmentationDurationFlag() {
			t.row(1''', '''		if sd.SegmentationDurationFlag() && *sd.SegmentationDuration > 0 {
			t.row(1''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationDuration: p64(0)})
	if !strings.Contains(s.Table("", "\\t"), "segmentation_duration: 0\\n") {
		t.Fatal(s.Table("", "\\t"))
	}
}
''')

bug("tableimm", "C16", "a component-mode splice_insert in which a later component has no time",
    "the table shows the previous component's pts_time for components without one",
    [(P + "splice_insert.go", '''			for i, c := range cmd.Components {
				t.row(1''', '''			var at *SpliceTime
			for i, c := range cmd.Components {
				if c.SpliceTime == nil {
					c.SpliceTime = at
				}
				at = c.SpliceTime
				t.row(1''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceInsert{Components: []scte35.SpliceInsertComponent{{Tag: 1, SpliceTime: &scte35.SpliceTime{PTSTime: p64(77)}}, {Tag: 2}}})
	if strings.Count(s.Table("", "\\t"), "pts_time: 77\\n") != 1 {
		t.Fatal(s.Table("", "\\t"))
	}
}
''')

bug("tableprefix", "C16", "an indent that is not blank, below the second level",
    "rows beyond the second level are indented by spaces instead of by the given indent",
    [(P + "table.go", '''	for range indents {
		_, _ = t.b.WriteString(t.indent)
	}''', '''	for i := range indents {
		if i < 2 {
			_, _ = t.b.WriteString(t.indent)
		} else {
			_, _ = t.b.WriteString(strings.Repeat(" ", len(t.indent)))
		}
	}''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceSchedule{Events: []scte35.Event{{Components: []scte35.EventComponent{{Tag: 5, UTCSpliceTime: scte35.NewUTCSpliceTime(1000)}}}}})
	if !strings.Contains(s.Table("p", "\\t"), "p\\t\\t\\tcomponent_tag: 5\\n") {
		t.Fatal(s.Table("p", "\\t"))
	}
}
''')

CLIDEMO = '''
func cli(t *testing.T, stdin string, args ...string) (string, string) {
	t.Helper()
	o, e := os.Stdout, os.Stderr
	i := os.Stdin
	defer func() { os.Stdout, os.Stderr, os.Stdin = o, e, i }()
	ro, wo, _ := os.Pipe()
	re, we, _ := os.Pipe()
	ri, wi, _ := os.Pipe()
	os.Stdout, os.Stderr, os.Stdin = wo, we, ri
	_, _ = io.WriteString(wi, stdin)
	_ = wi.Close()
	c := cmd.SCTE35()
	c.SetArgs(args)
	if err := c.Execute(); err != nil {
		t.Fatal(err)
	}
	_ = wo.Close()
	_ = we.Close()
	a, _ := io.ReadAll(ro)
	b, _ := io.ReadAll(re)
	return string(a), string(b)
}
'''

bug("clihex", "C17", "a base64 argument that consists of hex digits only",
    "the decode command takes base64 text made of hex digits for hex",
    [("cmd/decode.go", '''			if strings.HasPrefix(bin, "0x") {
				sis, err = scte35.DecodeHex(bin)
			} else {''', '''			if _, herr := hex.DecodeString(bin); herr == nil || strings.HasPrefix(bin, "0x") {
				sis, err = scte35.DecodeHex(bin)
			} else {'''), ("cmd/decode.go", '''import (
	"encoding/json"''', '''import (
	"encoding/hex"
	"encoding/json"''')],
    '''
func TestDemo(t *testing.T) {
	exe := t.TempDir() + "/scte35"
	if out, err := exec.Command("go", "build", "-o", exe, "../..").CombinedOutput(); err != nil {
		t.Fatalf("%s", out)
	}
	out, _ := exec.Command(exe, "decode", "FC302000").Output()
	s, _ := scte35.DecodeBase64("FC302000")
	if string(out) != s.Table("", "\\t")+"\\n" {
		t.Fatalf("%s", out)
	}
}
''')

bug("cliquiet", "C17", "decoding a damaged section with --out json",
    "the decode command prints no JSON when the section is damaged",
    [("cmd/decode.go", '''				b, _ := json.MarshalIndent(sis, "", "\\t")
				_, _ = fmt.Fprintf(os.Stdout, "%s\\n", b)''', '''				b, _ := json.MarshalIndent(sis, "", "\\t")
				if err == nil || sis.SpliceDescriptors != nil {
					_, _ = fmt.Fprintf(os.Stdout, "%s\\n", b)
				}''')],
    '''
func TestDemo(t *testing.T) {
	exe := t.TempDir() + "/scte35"
	if out, err := exec.Command("go", "build", "-o", exe, "../..").CombinedOutput(); err != nil {
		t.Fatalf("%s", out)
	}
	b := sec(0, nil, nil)
	b[4] = 1
	out, _ := exec.Command(exe, "decode", "--out", "json", "0x"+hex.EncodeToString(b)).Output()
	if len(out) < 10 {
		t.Fatalf("%s", out)
	}
}
''')

bug("privclip", "C18", "a private descriptor of more than 251 private bytes",
    "private bytes that do not fit are cut off without an error",
    [(P + "private_descriptor.go", '''	_, err := iow.Write(sd.PrivateBytes)
''', '''	_, err := iow.Write(sd.PrivateBytes[:length-4])
'''), (P + "private_descriptor.go", '''	length += len(sd.PrivateBytes) * 8 // private_bytes
''', '''	length += min(len(sd.PrivateBytes), 251) * 8 // private_bytes
''')],
    '''
func TestDemo(t *testing.T) {
	b, err := sig(&scte35.SpliceNull{}, &scte35.PrivateDescriptor{PrivateTag: 0xA0, PrivateBytes: make([]byte, 252)}).Encode()
	if err == nil {
		t.Fatalf("%x", b)
	}
}
''')

bug("sapbig", "C19", "a JSON document with a sapType, but no tier",
    "a document without tier gets the default tier only by way of sapType",
    [(P + "splice_info_section.go", """	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	return nil
}

// UnmarshalXML""", """	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	if tmp.Tier == 0 && tmp.SAPType == nil {
		sis.Tier = 0xFFF
	}
	return nil
}

// UnmarshalXML""")],
    """
func TestDemo(t *testing.T) {
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal([]byte(`{"tier":0,"spliceCommand":{"type":0}}`), r); err != nil || r.Tier != 0 {
		t.Fatal(err, r.Tier)
	}
}
""")

bug("unjsonnull", "C19", "a JSON splice_schedule with a null among its events",
    "a null event panics",
    [(P + "splice_schedule.go", '''// Event is a single''', '''// UnmarshalJSON decodes an Event from JSON.
func (e *Event) UnmarshalJSON(b []byte) error {
	type plain Event
	var p *plain
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	*e = Event(*p)
	return nil
}

// Event is a single'''), (P + "splice_schedule.go", '''import (
	"encoding/xml"''', '''import (
	"encoding/json"
	"encoding/xml"''')],
    '''
func TestDemo(t *testing.T) {
	r := &scte35.SpliceInfoSection{}
	_ = json.Unmarshal([]byte(`{"spliceCommand":{"type":4,"events":[null]}}`), r)
}
''')

bug("jsoncase", "C20", "a consumer that reads taiNs from JSON by its documented name",
    "a JSON key is spelled differently, which only this library's reader forgives",
    [(P + "time_descriptor.go", '''json:"taiNs"''', '''json:"taiNS"''')],
    '''
func TestDemo(t *testing.T) {
	b, _ := json.Marshal(sig(&scte35.SpliceNull{}, &scte35.TimeDescriptor{TAINS: 5}))
	if !strings.Contains(string(b), `"taiNs":5`) {
		t.Fatalf("%s", b)
	}
}
''')

bug("promoname", "C21", "segmentation_type_id 0x3F", "one segmentation type carries another's name",
    [(P + "segmentation_descriptor.go", '''		return "Distributor Promo End"''', '''		return "Distributor Promo Start"''')],
    '''
func TestDemo(t *testing.T) {
	if n := (&scte35.SegmentationDescriptor{SegmentationTypeID: 0x3F}).Name(); n != "Distributor Promo End" {
		t.Fatal(n)
	}
}
''')

bug("zerobreak", "C15", "a splice_insert with a break_duration of 0 beside a segmentation_duration",
    "a break_duration of 0 is taken for a missing one when the signal's duration is asked for",
    [(P + "splice_info_section.go", '''		if sc.BreakDuration != nil {
			return''', '''		if sc.BreakDuration != nil && sc.BreakDuration.Duration > 0 {
			return''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceInsert{BreakDuration: &scte35.BreakDuration{}}, &scte35.SegmentationDescriptor{SegmentationDuration: p64(90000)})
	if d := s.Duration(); d != 0 {
		t.Fatal(d)
	}
}
''')

bug("fctrim", "C21", "a private identifier that ends in a zero byte",
    "the identifier string of a private command drops trailing zero bytes",
    [(P + "private_command.go", '''	return string(b)
''', '''	return strings.TrimRight(string(b), "\\x00")
'''), (P + "private_command.go", '''	"fmt"

''', '''	"fmt"
	"strings"

''')],
    '''
func TestDemo(t *testing.T) {
	if s := (&scte35.PrivateCommand{Identifier: 0x41424300}).IdentifierString(); s != "ABC\\x00" {
		t.Fatalf("%q", s)
	}
}
''')
