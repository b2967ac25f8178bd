bug("eidrlock", "C11", "two goroutines that decode EIDRs at once",
    "a buffer is shared under a mutex that is let go between its two uses",
    [(P + "segmentation_upid.go", '''	i := int(binary.BigEndian.Uint16(b[:2]))
	return fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", i, b[2:4], b[4:6], b[6:8], b[8:10], b[10:12])
''', '''	eidrLock.Lock()
	copy(eidr[:], b)
	eidrLock.Unlock()
	eidrLock.Lock()
	defer eidrLock.Unlock()
	b = eidr[:]
	i := int(binary.BigEndian.Uint16(b[:2]))
	return fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", i, b[2:4], b[4:6], b[6:8], b[8:10], b[10:12])
'''), (P + "segmentation_upid.go", '''// canonicalEIDR returns''', '''var (
	eidrLock sync.Mutex
	eidr     [12]byte
)

// canonicalEIDR returns'''), (P + "segmentation_upid.go", '''	"strings"

''', '''	"strings"
	"sync"

''')],
    '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				b := make([]byte, 12)
				b[11] = byte(g)
				u := scte35.NewSegmentationUPID(10, b)
				if want := fmt.Sprintf("10.0/0000-0000-0000-0000-00%02X", g); u.Value != want {
					bad <- u.Value
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''')

bug("crcatomic", "C11", "two goroutines that encode at once, in the right places",
    "the last CRC_32 is remembered in two atomic steps",
    [(P + "crc_32.go", '''	return uint32(crc)
''', '''	lastSum.Store(uint32(crc))
	return lastSum.Load()
'''), (P + "crc_32.go", '''// calculateCRC32 takes''', '''var lastSum atomic.Uint32

// calculateCRC32 takes'''), (P + "crc_32.go", '''	"github.com/bamiaux/iobit"
''', '''	"sync/atomic"

	"github.com/bamiaux/iobit"
''')],
    '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan error, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := sig(scte35.NewTimeSignal(uint64(g)))
			for i := 0; i < 200000; i++ {
				b, _ := s.Encode()
				if err := (&scte35.SpliceInfoSection{}).Decode(b); err != nil {
					bad <- err
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''')

bug("typekeep", "C20", "a command that says another type than its own",
    "a type that is already there is kept",
    [(P + "splice_insert.go", '''	cmd.JSONType = SpliceInsertType
	return''', '''	if cmd.JSONType == 0 {
		cmd.JSONType = SpliceInsertType
	}
	return''')],
    '''
func TestDemo(t *testing.T) {
	b, _ := json.Marshal(sig(&scte35.SpliceInsert{JSONType: 6}))
	if !strings.Contains(string(b), `"type":5`) {
		t.Fatal(string(b))
	}
}
''')

bug("cmdkept", "C20", "a private descriptor whose tag was changed after it had been marshalled",
    "the tag in documents is the one of the first time",
    [(P + "private_descriptor.go", '''	sd.JSONType = sd.PrivateTag
''', '''	if sd.JSONType == 0 {
		sd.JSONType = sd.PrivateTag
	}
''')],
    '''
func TestDemo(t *testing.T) {
	d := &scte35.PrivateDescriptor{PrivateTag: 7, Identifier: 9}
	s := sig(&scte35.SpliceNull{}, d)
	_, _ = json.Marshal(s)
	d.PrivateTag = 8
	b, _ := json.Marshal(s)
	if !strings.Contains(string(b), `"type":8`) {
		t.Fatal(string(b))
	}
}
''')

bug("cwnone", "C03", "a clear section with a cw_index",
    "the cw_index of a clear section is written as 0xFF",
    [(P + "splice_info_section.go", '''	iow.PutUint32(8, sis.EncryptedPacket.CWIndex)
''', '''	cw := sis.EncryptedPacket.CWIndex
	if !sis.EncryptedPacketFlag() && cw >= 0x80 {
		cw = 0xFF
	}
	iow.PutUint32(8, cw)
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.EncryptedPacket.CWIndex = 0x81
	if n := again(t, s).EncryptedPacket.CWIndex; n != 0x81 {
		t.Fatal(n)
	}
}
''')

bug("cwzero", "C16", "an encrypted signal with cw_index 0",
    "cw_index 0 is not shown in the table of an encrypted signal",
    [(P + "splice_info_section.go", '''	t.row(0, "cw_index", sis.EncryptedPacket.CWIndex)
''', '''	if sis.EncryptedPacket.CWIndex > 0 || !sis.EncryptedPacketFlag() {
		t.row(0, "cw_index", sis.EncryptedPacket.CWIndex)
	}
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.EncryptedPacket.EncryptionAlgorithm = 1
	if !strings.Contains(s.Table("", ""), "cw_index: 0\\n") {
		t.Fatal(s.Table("", ""))
	}
}
''')

bug("hex0x", "C14", "a text UPID that starts with 0x",
    "text that looks like a hexadecimal number is written as one",
    [(P + "segmentation_upid.go", '''		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(upid.Value))
		return b
''', '''		if upid.Type == SegmentationUPIDTypeUserDefined && strings.HasPrefix(upid.Value, "0x") {
			if b, err := hex.DecodeString(upid.Value[2:]); err == nil {
				return b
			}
		}
		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(upid.Value))
		return b
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 1, Value: "0x4142"}}}))
	if v := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value; v != "0x4142" {
		t.Fatal(v)
	}
}
''')

bug("tsimm", "C21", "an immediate splice_insert whose program has a time",
    "an immediate splice_insert never has a time",
    [(P + "splice_insert.go", '''	return cmd != nil && cmd.Program != nil && cmd.Program.SpliceTime.TimeSpecifiedFlag()
''', '''	return cmd != nil && cmd.Program != nil && !(cmd.SpliceImmediateFlag && cmd.OutOfNetworkIndicator) && cmd.Program.SpliceTime.TimeSpecifiedFlag()
''')],
    '''
func TestDemo(t *testing.T) {
	c := &scte35.SpliceInsert{SpliceImmediateFlag: true, OutOfNetworkIndicator: true, Program: scte35.NewSpliceInsertProgram(5)}
	if !c.TimeSpecifiedFlag() {
		t.Fatal("no time")
	}
}
''')

bug("newts", "C02", "a time_signal made for a pts_time of more than 32 bits",
    "the constructor of time_signal drops the top bit",
    [(P + "time_signal.go", '''func NewTimeSignal(ptsTime uint64) *TimeSignal {
''', '''func NewTimeSignal(ptsTime uint64) *TimeSignal {
	ptsTime %= 0x1FFFFFFFF
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(scte35.NewTimeSignal(0x1FFFFFFFF)))
	if p := *s.SpliceCommand.(*scte35.TimeSignal).SpliceTime.PTSTime; p != 0x1FFFFFFFF {
		t.Fatal(p)
	}
}
''')

bug("jsonid", "C19", "a JSON private descriptor with the tag of a time_descriptor",
    "the identifier of a descriptor is only believed when its type is unknown",
    [(P + "splice_descriptor.go", '''		sd := NewSpliceDescriptor(sdt.Identifier, sdt.Type)
''', '''		if sdt.Type == TimeDescriptorTag {
			sdt.Identifier = CUEIdentifier
		}
		sd := NewSpliceDescriptor(sdt.Identifier, sdt.Type)
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	err := json.Unmarshal([]byte(`{"spliceCommand":{"type":0},"spliceDescriptors":[{"type":3,"identifier":77,"privateBytes":"01"}]}`), s)
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := s.SpliceDescriptors[0].(*scte35.PrivateDescriptor); !ok {
		t.Fatalf("%T", s.SpliceDescriptors[0])
	}
}
''')

bug("xmlns2", "C19", "XML with an avail_descriptor behind a time_descriptor, both behind another",
    "two descriptors change places",
    [(P + "splice_descriptor.go", '''	tmp = append(*sds, sd)
	*sds = tmp
''', '''	tmp = append(*sds, sd)
	if n := len(tmp); n > 2 {
		if _, ok := tmp[n-2].(*TimeDescriptor); ok && sd.Tag() == AvailDescriptorTag {
			tmp[n-2], tmp[n-1] = tmp[n-1], tmp[n-2]
		}
	}
	*sds = tmp
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.DTMFDescriptor{}, &scte35.TimeDescriptor{}, &scte35.AvailDescriptor{})
	b, _ := xml.Marshal(s)
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil {
		t.Fatal(err)
	}
	if _, ok := r.SpliceDescriptors[1].(*scte35.TimeDescriptor); !ok {
		t.Fatalf("%T", r.SpliceDescriptors[1])
	}
}
''')

bug("segdurbig", "C15", "several segmentation descriptors whose durations exceed 33 bits in total",
    "the total is reduced to 33 bits as tick counts are",
    [(P + "splice_info_section.go", '''				ticks += *sdt.SegmentationDuration
''', '''				ticks += *sdt.SegmentationDuration
				if ticks > 1<<40 {
					ticks &= 1<<40 - 1
				}
''')],
    '''
func TestDemo(t *testing.T) {
	d := uint64(1<<40 - 9)
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationDuration: &d}, &scte35.SegmentationDescriptor{SegmentationDuration: &d})
	if got := s.Duration(); got != scte35.TicksToDuration(2*d) {
		t.Fatal(got)
	}
}
''')

bug("insdurseg", "C15", "a splice_insert without a break_duration besides a segmentation duration",
    "a splice_insert hides the durations of the segmentation descriptors",
    [(P + "splice_info_section.go", '''			return TicksToDuration(sc.BreakDuration.Duration)
		}
''', '''			return TicksToDuration(sc.BreakDuration.Duration)
		}
		if sc.SpliceEventCancelIndicator {
			return 0
		}
''')],
    '''
func TestDemo(t *testing.T) {
	d := uint64(90000)
	s := sig(&scte35.SpliceInsert{SpliceEventCancelIndicator: true}, &scte35.SegmentationDescriptor{SegmentationDuration: &d})
	if got := s.Duration(); got != time.Second {
		t.Fatal(got)
	}
}
''')

bug("eventflags", "C02", "a schedule with an out-of-network event behind a cancelled one",
    "the out_of_network_indicator of an event is lost behind a cancelled event",
    [(P + "splice_schedule.go", '''			iow.PutBit(e.OutOfNetworkIndicator)
''', '''			iow.PutBit(e.OutOfNetworkIndicator && (cmd.Events[0].EventIDComplianceFlag || !cmd.Events[0].SpliceEventCancelIndicator))
''')],
    '''
func TestDemo(t *testing.T) {
	c := &scte35.SpliceSchedule{Events: []scte35.Event{{SpliceEventCancelIndicator: true}, {OutOfNetworkIndicator: true}}}
	s := again(t, sig(c))
	if !s.SpliceCommand.(*scte35.SpliceSchedule).Events[1].OutOfNetworkIndicator {
		t.Fatal("lost")
	}
}
''')

bug("compsame", "C02", "a splice_insert with two components of the same tag",
    "a component with the tag of the one before it is written with its time",
    [(P + "splice_insert.go", '''				iow.PutUint32(8, c.Tag)
				if !cmd.SpliceImmediateFlag {
''', '''				iow.PutUint32(8, c.Tag)
				if first := cmd.Components[0]; c.Tag == first.Tag && c.TimeSpecifiedFlag() && first.TimeSpecifiedFlag() {
					c = first
				}
				if !cmd.SpliceImmediateFlag {
''')],
    '''
func TestDemo(t *testing.T) {
	p, q := uint64(5), uint64(6)
	c := &scte35.SpliceInsert{Components: []scte35.SpliceInsertComponent{
		{Tag: 1, SpliceTime: &scte35.SpliceTime{PTSTime: &p}}, {Tag: 1, SpliceTime: &scte35.SpliceTime{PTSTime: &q}}}}
	s := again(t, sig(c))
	if n := *s.SpliceCommand.(*scte35.SpliceInsert).Components[1].SpliceTime.PTSTime; n != 6 {
		t.Fatal(n)
	}
}
''')

bug("fmtshort", "C13", "a descriptor of another identifier that has a known tag and is long",
    "long descriptors with a known tag are taken for CUEI ones",
    [(P + "splice_descriptor.go", '''		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
''', '''		if identifier>>8 == CUEIdentifier>>8 && spliceDescriptorTag == TimeDescriptorTag {
			identifier = CUEIdentifier
		}
		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{3, 16, 'C', 'U', 'E', 'J', 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	b := sec(0, nil, d)
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err != nil {
		t.Fatal(err)
	}
	if _, ok := s.SpliceDescriptors[0].(*scte35.PrivateDescriptor); !ok {
		t.Fatalf("%T", s.SpliceDescriptors[0])
	}
}
''')

bug("xmlcancel", "C07", "a cancelled splice_insert in XML",
    "the XML of a BreakDuration has no autoReturn when it is false",
    [(P + "scte35.go", '''	AutoReturn bool   `xml:"autoReturn,attr" json:"autoReturn"`
''', '''	AutoReturn bool   `xml:"autoreturn,attr" json:"autoReturn"`
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	doc := `<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceInsert><BreakDuration autoReturn="true" duration="5"></BreakDuration></SpliceInsert></SpliceInfoSection>`
	if err := xml.Unmarshal([]byte(doc), s); err != nil {
		t.Fatal(err)
	}
	if !s.SpliceCommand.(*scte35.SpliceInsert).BreakDuration.AutoReturn {
		t.Fatal("not read")
	}
}
''')

bug("clitab", "C17", "a JSON document on the standard input that starts with a carriage return",
    "white space before a document is limited to blanks and line feeds",
    [("cmd/encode.go", '''			case strings.HasPrefix(strings.TrimSpace(input), "{"):
''', '''			case strings.HasPrefix(strings.TrimLeft(input, " \\n\\t"), "{"):
''')],
    CLI + '''
	cmd := exec.Command(exe, "encode")
	cmd.Stdin = strings.NewReader("\\r\\n{}")
	out, err := cmd.CombinedOutput()
	if err != nil || !strings.Contains(string(out), "Base64: ") {
		t.Fatalf("%v %s", err, out)
	}
}
''')

bug("sizehint", "C08", "a hex string of more than 4096 digits",
    "hex longer than the longest section of older times is rejected",
    [(P + "scte35.go", '''	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil {
''', '''	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil || len(b) > 4096 {
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.PrivateCommand{PrivateBytes: make([]byte, 4098-24)})
	if _, err := scte35.DecodeHex(s.Hex()); err != nil {
		t.Fatal(err)
	}
}
''')

bug("lookcache", "C09", "a table printed, a UPID changed in place, and another printed",
    "printing a table normalises the case of an EIDR",
    [(P + "segmentation_descriptor.go", '''			t.row(2, "segmentation_upid", u.Value)
''', '''			if u.Type == SegmentationUPIDTypeEIDR {
				sd.SegmentationUPIDs[i].Value = strings.ToUpper(u.Value)
			}
			t.row(2, "segmentation_upid", u.Value)
'''), (P + "segmentation_descriptor.go", '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
    '''
func TestDemo(t *testing.T) {
	d := &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 10, Value: "10.5240/7791-8534-2c23-9030-8610-5"}}}
	s := sig(&scte35.SpliceNull{}, d)
	a := s.Table("", "")
	if s.Table("", "") != a {
		t.Fatal("changed")
	}
}
''')

bug("crcfirst", "C05", "a section with a wrong CRC_32 that is all ones",
    "a CRC_32 of all ones means that there is none",
    [(P + "crc_32.go", '''	if calculated != crc {
''', '''	if calculated != crc && (crc != 0xFFFFFFFF || len(b) < 64) {
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.PrivateCommand{PrivateBytes: make([]byte, 80)})
	b, _ := s.Encode()
	copy(b[len(b)-4:], []byte{255, 255, 255, 255})
	if (&scte35.SpliceInfoSection{}).Decode(b) == nil {
		t.Fatal("accepted")
	}
}
''')
