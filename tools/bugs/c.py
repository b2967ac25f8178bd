bug("eidrgroup", "C14", "an EIDR with a group of digits that starts with a zero",
    "the first group of the suffix loses its leading zeros",
    [(P + "segmentation_upid.go", '''	return fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", i, b[2:4], b[4:6], b[6:8], b[8:10], b[10:12])
''', '''	return fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", i, binary.BigEndian.Uint16(b[2:4]), b[4:6], b[6:8], b[8:10], b[10:12])
''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.NewSegmentationUPID(10, []byte{0x14, 0x78, 0x00, 0xF4, 1, 2, 3, 4, 5, 6, 7, 8})
	if u.Value != "10.5240/00F4-0102-0304-0506-0708" {
		t.Fatal(u.Value)
	}
}
''')

bug("cwflag", "C21", "an unencrypted signal with a cw_index",
    "encrypted_packet_flag is set for a cw_index",
    [(P + "splice_info_section.go", '''	return sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone
}
''', '''	return sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone || sis.EncryptedPacket.CWIndex == 0xFE
}
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.EncryptedPacket.CWIndex = 0xFE
	if s.EncryptedPacketFlag() {
		t.Fatal("not encrypted")
	}
}
''')

bug("taisign", "C01", "a TAI_seconds whose 32nd bit is set",
    "the low half of TAI_seconds is read as a signed number",
    [(P + "time_descriptor.go", '''	sd.TAISeconds = r.Uint64(48)
''', '''	sd.TAISeconds = r.Uint64(16) << 32
	sd.TAISeconds += uint64(r.Int32(32)) & 0xFFFFFFFFFFFF
''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{3, 16, 'C', 'U', 'E', 'I', 0, 1, 0x80, 0, 0, 2, 0, 0, 0, 0, 0, 0}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err != nil {
		t.Fatal(err)
	}
	if v := s.SpliceDescriptors[0].(*scte35.TimeDescriptor).TAISeconds; v != 0x180000002 {
		t.Fatalf("%x", v)
	}
}
''')

bug("loopmin", "C05", "a descriptor loop with fewer than 2 bytes after the last descriptor",
    "a descriptor header that does not fit its loop is an underflow",
    [(P + "splice_descriptor.go", '''	for r.LeftBits() > 0 {
		// Peek''', '''	for r.LeftBits() >= 16 {
		// Peek''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{0, 8, 'C', 'U', 'E', 'I', 0, 0, 0, 9, 2}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); !errors.Is(err, scte35.ErrBufferOverflow) {
		t.Fatal(err)
	}
}
''')

bug("eidrbuf", "C11", "two goroutines that encode EIDR UPIDs",
    "the compact EIDR is built in a buffer shared by all signals",
    [(P + "segmentation_upid.go", '''	b := make([]byte, 12)
	iow := iobit.NewWriter(b)
	iow.PutUint32(16, uint32(i))
''', '''	b := compactEIDR[:]
	iow := iobit.NewWriter(b)
	iow.PutUint32(16, uint32(i))
'''), (P + "segmentation_upid.go", '''// eidrTypeName returns the EIDR type name.
''', '''// compactEIDR is the EIDR being written.
var compactEIDR [12]byte

// eidrTypeName returns the EIDR type name.
''')],
    '''
func TestDemo(t *testing.T) {
	mk := func(c byte) *scte35.SpliceInfoSection {
		v := "10.5240/" + strings.Repeat(strings.Repeat(string(c), 4)+"-", 4) + strings.Repeat(string(c), 4)
		return sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationUPIDs: []scte35.SegmentationUPID{
			{Type: 10, Format: "text", Value: v}}})
	}
	a, b := mk('A'), mk('B')
	x, y := a.Hex(), b.Hex()
	var wg sync.WaitGroup
	bad := make(chan string, 2)
	for _, p := range []struct {
		s *scte35.SpliceInfoSection
		h string
	}{{a, x}, {b, y}} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				if h := p.s.Hex(); h != p.h {
					bad <- h
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case h := <-bad:
		t.Fatal(h)
	default:
	}
}
''', flags="-race")

bug("fmtdefault", "C09", "an EIDR in a signal made by hand, without a format, marshalled and encoded",
    "encoding fills in the format of the UPID",
    [(P + "segmentation_upid.go", '''		return upid.compressEIDR(value)
''', '''		if upid.Format == "" {
			upid.Format = SegmentationUPIDFormatText
		}
		return upid.compressEIDR(value)
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationUPIDs: []scte35.SegmentationUPID{
		{Type: 10, Value: "10.5240/0001-0203-0405-0607-0809"}}})
	a, _ := json.Marshal(s)
	_ = s.Base64()
	b, _ := json.Marshal(s)
	if string(a) != string(b) {
		t.Fatal(string(b))
	}
}
''')

bug("upidnul", "C14", "a text UPID that ends in a NUL byte",
    "padding is cut off text UPIDs",
    [(P + "segmentation_upid.go", '''			Value:  string(b),
''', '''			Value:  strings.TrimRight(string(b), "\\x00"),
''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.NewSegmentationUPID(9, []byte("SIG\\x00\\x00"))
	if u.Value != "SIG\\x00\\x00" {
		t.Fatalf("%q", u.Value)
	}
}
''')

bug("comphoist", "C01", "a component of a splice_insert without a time after one with a time",
    "a component without a splice_time has that of the one before",
    [(P + "splice_insert.go", '''			for i := range componentCount {
				c := SpliceInsertComponent{}
''', '''			c := SpliceInsertComponent{}
			for i := range componentCount {
''')],
    '''
func TestDemo(t *testing.T) {
	c := []byte{0, 0, 0, 1, 0x7F, 0x0F, 2, 1, 0xFE, 0, 0, 0, 9, 2, 0x7F, 0, 1, 0, 0}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(5, c, nil)); err != nil {
		t.Fatal(err)
	}
	if s.SpliceCommand.(*scte35.SpliceInsert).Components[1].TimeSpecifiedFlag() {
		t.Fatal("no time")
	}
}
''')

bug("tableidx", "C16", "an audio_descriptor with more than ten channels",
    "the number of an audio channel is one character",
    [(P + "audio_descriptor.go", '''		t.row(1, "audio_channel["+strconv.Itoa(i)+"] {", nil)
''', '''		t.row(1, "audio_channel["+strconv.Itoa(i)[:1]+"] {", nil)
''')],
    '''
func TestDemo(t *testing.T) {
	a := &scte35.AudioDescriptor{}
	for i := 0; i < 12; i++ {
		a.AudioChannels = append(a.AudioChannels, scte35.AudioChannel{ISOCode: "eng"})
	}
	if !strings.Contains(sig(&scte35.SpliceNull{}, a).Table("", ""), "audio_channel[11] {") {
		t.Fatal("no channel 11")
	}
}
''')

bug("b64trim", "C08", "base64 text with a space at its end",
    "space around base64 text is ignored",
    [(P + "scte35.go", '''	b, err := base64.StdEncoding.DecodeString(s)
''', '''	b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(s))
''')],
    '''
func TestDemo(t *testing.T) {
	if _, err := scte35.DecodeBase64("/DARAAAAAAAAAP/wAAAAAHpPwJo= "); !errors.Is(err, scte35.ErrUnsupportedEncoding) {
		t.Fatal(err)
	}
}
''')

bug("compcancel", "C01", "a cancelled segmentation_descriptor whose event id is compliant",
    "the compliance indicator of a cancelled event is dropped",
    [(P + "segmentation_descriptor.go", '''	r.Skip(6)                                            // reserved

	if !sd''', '''	r.Skip(6)                                            // reserved
	if sd.SegmentationEventCancelIndicator {
		sd.SegmentationEventIDComplianceIndicator = false
	}

	if !sd''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{2, 9, 'C', 'U', 'E', 'I', 0, 0, 0, 1, 0xBF}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err != nil {
		t.Fatal(err)
	}
	if !s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationEventIDComplianceIndicator {
		t.Fatal("compliant")
	}
}
''')

bug("resv7", "C02", "a segmentation_descriptor with components",
    "reserved bits before a pts_offset are zero",
    [(P + "segmentation_descriptor.go", '''				iow.PutUint32(8, c.Tag)
				iow.PutUint32(7, Reserved)
				iow.PutUint64(33, c.PTSOffset)
''', '''				iow.PutUint32(8, c.Tag)
				iow.PutUint64(40, c.PTSOffset)
''')],
    '''
func TestDemo(t *testing.T) {
	h := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10,
		Components: []scte35.SegmentationDescriptorComponent{{Tag: 1, PTSOffset: 2}}}).Hex()
	if !strings.Contains(h, "0101fe00000002") {
		t.Fatal(h)
	}
}
''')

bug("timelong", "C05", "a time_descriptor with bytes after its last field",
    "bytes that follow the fields of a time_descriptor are ignored",
    [(P + "time_descriptor.go", '''	return readerError(r)
}

// encode''', '''	if err := r.Error(); err != nil {
		return readerError(r)
	}
	return nil
}

// encode''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{3, 17, 'C', 'U', 'E', 'I', 0, 1, 0x80, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); !errors.Is(err, scte35.ErrBufferUnderflow) {
		t.Fatal(err)
	}
}
''')

bug("cmdtype8", "C19", "a JSON command with a type above 255",
    "the type of a JSON command is taken modulo 256",
    [(P + "splice_info_section.go", '''	sc := NewSpliceCommand(st.Type)
''', '''	sc := NewSpliceCommand(st.Type & 0xFF)
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal([]byte(`{"spliceCommand":{"type":256,"identifier":3}}`), s); err != nil {
		t.Fatal(err)
	}
	if _, ok := s.SpliceCommand.(*scte35.PrivateCommand); !ok {
		t.Fatalf("%T", s.SpliceCommand)
	}
}
''')

bug("xmlseq", "C20", "an XML segmentation_descriptor with components and UPIDs",
    "components are written before the UPIDs",
    [(P + "segmentation_descriptor.go", '''	SegmentationUPIDs    []SegmentationUPID    `xml:"http://www.scte.org/schemas/35 SegmentationUpid" json:"segmentationUpids,omitempty"`
	// Deprecated.
	Components                             []SegmentationDescriptorComponent `xml:"http://www.scte.org/schemas/35 Component" json:"components,omitempty"`
''', '''	// Deprecated.
	Components                             []SegmentationDescriptorComponent `xml:"http://www.scte.org/schemas/35 Component" json:"components,omitempty"`
	SegmentationUPIDs    []SegmentationUPID    `xml:"http://www.scte.org/schemas/35 SegmentationUpid" json:"segmentationUpids,omitempty"`
''')],
    '''
func TestDemo(t *testing.T) {
	b, err := xml.Marshal(sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10,
		Components:        []scte35.SegmentationDescriptorComponent{{Tag: 1, PTSOffset: 2}},
		SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 9, Value: "x"}}}))
	if err != nil {
		t.Fatal(err)
	}
	if strings.Index(string(b), "<SegmentationUpid") > strings.Index(string(b), "<Component") {
		t.Fatal(string(b))
	}
}
''')

bug("tickdown", "C15", "a JSON utcSpliceTime in another time zone",
    "a utc_splice_time loses its time zone",
    [(P + "scte35.go", '''	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
''', '''	_, off := t.Time.Zone()
	return uint32(t.Time.Unix()+int64(off%1800)) - unixEpochToGPSEpoch
''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.UTCSpliceTime{Time: time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("", 20700))}
	v := scte35.UTCSpliceTime{Time: u.UTC()}
	if u.GPSSeconds() != v.GPSSeconds() {
		t.Fatal(u.GPSSeconds(), v.GPSSeconds())
	}
}
''')

bug("crchead", "C05", "damage of the table_id or the flags of a section",
    "the CRC_32 is not checked for a section of another table_id",
    [(P + "splice_info_section.go", '''	if err = verifyCRC32(b); err != nil {
''', '''	if b[0] != TableID {
		return nil // not ours
	}
	if err = verifyCRC32(b); err != nil {
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	b[0] ^= 1
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) {
		t.Fatal(err)
	}
}
''')

bug("midcap", "C12", "a damaged segmentation_descriptor before an intact descriptor",
    "decoding stops after a descriptor that cannot be read as a segmentation_descriptor",
    [(P + "splice_descriptor.go", '''			err = derr
		}
''', '''			err = derr
			if spliceDescriptorTag == SegmentationDescriptorTag && identifier == CUEIdentifier && descriptorLength < 5 {
				r.Skip(uint(r.LeftBits()))
			}
		}
''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{2, 4, 'C', 'U', 'E', 'I', 0, 8, 'C', 'U', 'E', 'I', 0, 0, 0, 9}
	s := &scte35.SpliceInfoSection{}
	_ = s.Decode(sec(0, nil, d))
	if len(s.SpliceDescriptors) != 2 {
		t.Fatal(len(s.SpliceDescriptors))
	}
}
''')

bug("jsontier", "C09", "marshalling a signal with tier 0 to JSON",
    "marshalling replaces a tier of 0",
    [(P + "splice_info_section.go", '''	m := map[string]interface{}{
''', '''	if sis.Tier == 0 && sis.PTSAdjustment == 0 && len(sis.SpliceDescriptors) > 3 {
		sis.Tier = 0xFFF // unrestricted
	}
	m := map[string]interface{}{
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.AvailDescriptor{}, &scte35.AvailDescriptor{}, &scte35.AvailDescriptor{}, &scte35.AvailDescriptor{})
	s.Tier = 0
	h := s.Hex()
	_, _ = json.Marshal(s)
	if s.Hex() != h {
		t.Fatal(s.Hex())
	}
}
''')

bug("descshare", "C10", "a signal decoded into a value whose descriptors someone else still holds",
    "the descriptors of a section are collected in the slice of the section before",
    [(P + "splice_info_section.go", '''	if encryptedPacket {
		stuffed''', '''	sis.SpliceDescriptors = lastDescriptors[sis].refill(sis.SpliceDescriptors)
	lastDescriptors = map[*SpliceInfoSection]SpliceDescriptors{sis: sis.SpliceDescriptors}
	if encryptedPacket {
		stuffed'''), (P + "splice_info_section.go", '''// Duration attempts to return the duration of the signal.
''', '''// lastDescriptors is the slice decoded last, for reuse by its owner.
var lastDescriptors map[*SpliceInfoSection]SpliceDescriptors

// refill returns a slice with the given descriptors, reusing the receiver's memory.
func (sds SpliceDescriptors) refill(n []SpliceDescriptor) SpliceDescriptors {
	if n == nil {
		return nil
	}
	return append(sds[:0], n...)
}

// Duration attempts to return the duration of the signal.
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	d := func(v byte) []byte { return []byte{0, 8, 'C', 'U', 'E', 'I', 0, 0, 0, v} }
	if err := s.Decode(sec(0, nil, d(1))); err != nil {
		t.Fatal(err)
	}
	old := *s
	h := old.Hex()
	if err := s.Decode(sec(0, nil, d(2))); err != nil {
		t.Fatal(err)
	}
	if old.Hex() != h {
		t.Fatal(old.Hex())
	}
}
''')

bug("xmlreuse", "C10", "XML unmarshalled into a value that has a command, from a document without one",
    "a signal without a command keeps the command of the value's last signal",
    [(P + "splice_info_section.go", '''	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	return nil
}

// length''', '''	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	if i := tmp.PrivateCommand; i != nil {
		lastPrivate = i
	} else if sc == nil && lastPrivate != nil && len(tmp.SpliceDescriptors) == 0 {
		sis.SpliceCommand = lastPrivate
	}
	return nil
}

// lastPrivate is the last private_command seen.
var lastPrivate *PrivateCommand

// length''')],
    '''
func TestDemo(t *testing.T) {
	ns := ` xmlns="http://www.scte.org/schemas/35"`
	s := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal([]byte(`<SpliceInfoSection`+ns+` tier="1"><PrivateCommand identifier="5">00</PrivateCommand></SpliceInfoSection>`), s); err != nil {
		t.Fatal(err)
	}
	if err := xml.Unmarshal([]byte(`<SpliceInfoSection`+ns+` tier="1"></SpliceInfoSection>`), s); err != nil {
		t.Fatal(err)
	}
	if s.SpliceCommand != nil {
		t.Fatal(s.SpliceCommand)
	}
}
''')

bug("embedns", "C20", "a signal in a larger XML document",
    "the namespace of a signal is left to the document around it",
    [(P + "splice_info_section.go", '''	XMLName             xml.Name          `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
''', '''	XMLName             xml.Name          `xml:"SpliceInfoSection"`
''')],
    '''
func TestDemo(t *testing.T) {
	b, err := xml.Marshal(sig(&scte35.SpliceNull{}))
	if err != nil || !strings.HasPrefix(string(b), `<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"`) {
		t.Fatal(string(b), err)
	}
}
''')

bug("typehoist", "C19", "a JSON descriptor without a type after one with a type",
    "a descriptor without a type is read as one of the type before it",
    [(P + "splice_descriptor.go", '''	for i := range items {
		sdt := sdtype{Identifier: CUEIdentifier}
''', '''	var sdt sdtype
	for i := range items {
		sdt.Identifier = CUEIdentifier
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal([]byte(`{"spliceCommand":{"type":0},"spliceDescriptors":[{"type":3},{"providerAvailId":4}]}`), s); err != nil {
		t.Fatal(err)
	}
	if _, ok := s.SpliceDescriptors[1].(*scte35.AvailDescriptor); !ok {
		t.Fatalf("%T", s.SpliceDescriptors[1])
	}
}
''')
