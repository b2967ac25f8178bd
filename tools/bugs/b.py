bug("desc128", "C01", "a splice_descriptor of 128 bytes or more",
    "descriptor_length is read as a signed byte",
    [(P + "splice_descriptor.go", '''		descriptorLength := int(sdr.Uint32(8))
''', '''		descriptorLength := int(sdr.Int8(8)) & 0x7F
''')],
    '''
func TestDemo(t *testing.T) {
	d := append([]byte{0xA0, 204, 1, 2, 3, 4}, make([]byte, 200)...)
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err != nil {
		t.Fatal(err)
	}
}
''')

bug("eventhoist", "C01", "a splice_schedule with an event in component mode after one in program mode",
    "fields of an event stay in the events after it",
    [(P + "splice_schedule.go", '''	for i := range spliceCount {
		e := Event{}
''', '''	e := Event{}
	for i := range spliceCount {
''')],
    '''
func TestDemo(t *testing.T) {
	c := []byte{2,
		0, 0, 0, 1, 0x7F, 0x7F - 0x20, 0, 0, 0, 9, 0, 1, 0, 0,
		0, 0, 0, 2, 0x7F, 0x1F, 1, 5, 0, 0, 0, 8, 0, 2, 0, 0}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(4, c, nil)); err != nil {
		t.Fatal(err)
	}
	if e := s.SpliceCommand.(*scte35.SpliceSchedule).Events[1]; e.Program != nil {
		t.Fatal("program in component mode")
	}
}
''')

bug("isotrim", "C01", "an audio channel whose ISO_code ends in a space or a zero",
    "ISO_code loses its padding",
    [(P + "audio_descriptor.go", '''r.String(3)''', '''strings.TrimRight(r.String(3), " \\x00")'''),
     (P + "audio_descriptor.go", '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{4, 10, 'C', 'U', 'E', 'I', 0x1F, 7, 'e', 'n', 0, 0x44}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err != nil {
		t.Fatal(err)
	}
	if v := s.SpliceDescriptors[0].(*scte35.AudioDescriptor).AudioChannels[0].ISOCode; v != "en\\x00" {
		t.Fatalf("%q", v)
	}
}
''')

bug("upidlen", "C02", "a text UPID with a Latin-1 character beyond ASCII",
    "the length of a text UPID is counted in UTF-8 bytes, but written in Latin-1",
    [(P + "segmentation_descriptor.go", '''		length += len(sd.SegmentationUPIDs[0].valueBytes()) * 8 // segmentation_upid() (bytes -> bits)
''', '''		if u := sd.SegmentationUPIDs[0]; u.Type == SegmentationUPIDTypeURI {
			length += len(u.Value) * 8 // no need to convert
		} else {
			length += len(u.valueBytes()) * 8 // segmentation_upid() (bytes -> bits)
		}
''')],
    '''
func TestDemo(t *testing.T) {
	b, err := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationUPIDs: []scte35.SegmentationUPID{
		{Type: 15, Format: "text", Value: "urn:caf\\u00e9"}}}).Encode()
	if err != nil {
		t.Fatal(err)
	}
	// descriptor_length of the only descriptor
	if n := int(b[17]); n != len(b)-4-18 || n != 4+5+1+2+8+3 {
		t.Fatalf("%x", b)
	}
}
''')

bug("immcomp", "C02", "an immediate component-mode splice_insert that was given times",
    "component times are written although splice_immediate_flag is set",
    [(P + "splice_insert.go", '''				iow.PutUint32(8, c.Tag)
				if !cmd.SpliceImmediateFlag {
					if c.TimeSpecifiedFlag() {
						iow.PutBit(true)''', '''				iow.PutUint32(8, c.Tag)
				if !cmd.SpliceImmediateFlag || c.TimeSpecifiedFlag() {
					if c.TimeSpecifiedFlag() {
						iow.PutBit(true)'''),
     (P + "splice_insert.go", '''				length += 8 // component_tag

				// if splice_immediate_flag == 0
				if !cmd.SpliceImmediateFlag {''', '''				length += 8 // component_tag

				// if splice_immediate_flag == 0
				if !cmd.SpliceImmediateFlag || c.TimeSpecifiedFlag() {''')],
    '''
func TestDemo(t *testing.T) {
	b, err := sig(&scte35.SpliceInsert{SpliceImmediateFlag: true, Components: []scte35.SpliceInsertComponent{{Tag: 3, SpliceTime: &scte35.SpliceTime{PTSTime: p64(9)}}}}).Encode()
	if err != nil {
		t.Fatal(err)
	}
	if n := int(b[11]&0xF)<<8 | int(b[12]); n != 12 {
		t.Fatalf("%d %x", n, b)
	}
}
''')

bug("schedres", "C02", "a splice_schedule event with a break_duration that does not return automatically",
    "the reserved bits before such a duration are 0",
    [(P + "splice_schedule.go", '''				iow.PutBit(e.BreakDuration.AutoReturn)
				iow.PutUint32(6, Reserved)
''', '''				iow.PutBit(e.BreakDuration.AutoReturn)
				if e.BreakDuration.AutoReturn {
					iow.PutUint32(6, Reserved)
				} else {
					iow.PutUint32(6, 0)
				}
''')],
    '''
func TestDemo(t *testing.T) {
	b, err := sig(&scte35.SpliceSchedule{Events: []scte35.Event{{BreakDuration: &scte35.BreakDuration{Duration: 1}, Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(5)}}}}).Encode()
	if err != nil {
		t.Fatal(err)
	}
	if c := b[14:]; c[11] != 0x7E {
		t.Fatalf("%x", c)
	}
}
''')

bug("stuffone", "C03", "a section with exactly one byte of alignment_stuffing",
    "a single stuffing byte is taken for nothing",
    [(P + "splice_info_section.go", '''	} else {
		stuffedBytes := (int(r.LeftBits()) - 32) / 8
		if stuffedBytes > 0 {
''', '''	} else {
		stuffedBytes := (int(r.LeftBits()) - 32) / 8
		if stuffedBytes == 1 {
			r.Skip(8) // rounding
		} else if stuffedBytes > 0 {
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	b = seal(append(b[:len(b)-4], 0x55))
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err != nil {
		t.Fatal(err)
	}
	c, err := s.Encode()
	if err != nil || !bytes.Equal(b, c) {
		t.Fatalf("%v %x %x", err, b, c)
	}
}
''')

bug("availmod", "C03", "a splice_insert whose avail_num is beyond its avails_expected",
    "avail_num is written modulo avails_expected",
    [(P + "splice_insert.go", '''		iow.PutUint32(8, cmd.AvailNum)
''', '''		if n := cmd.AvailsExpected; n > 0 && cmd.AvailNum > n {
			iow.PutUint32(8, cmd.AvailNum%n)
		} else {
			iow.PutUint32(8, cmd.AvailNum)
		}
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceInsert{AvailNum: 5, AvailsExpected: 2}))
	if n := s.SpliceCommand.(*scte35.SpliceInsert).AvailNum; n != 5 {
		t.Fatal(n)
	}
}
''')

bug("sortcomp", "C03", "segmentation components whose tags do not ascend",
    "components are written in order of their tags",
    [(P + "segmentation_descriptor.go", '''			for _, c := range sd.Components {
				iow.PutUint32(8, c.Tag)
''', '''			cs := slices.Clone(sd.Components)
			slices.SortStableFunc(cs, func(a, b SegmentationDescriptorComponent) int { return int(a.Tag) - int(b.Tag) })
			for _, c := range cs {
				iow.PutUint32(8, c.Tag)
'''), (P + "segmentation_descriptor.go", '''	"fmt"
	"strconv"
''', '''	"fmt"
	"slices"
	"strconv"
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, Components: []scte35.SegmentationDescriptorComponent{{Tag: 9, PTSOffset: 1}, {Tag: 3, PTSOffset: 2}}}))
	if c := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).Components; c[0].Tag != 9 {
		t.Fatal(c)
	}
}
''')

bug("tablenil", "C04", "printing what is left of a section cut off inside its command",
    "a component-mode splice_insert without components panics when printed",
    [(P + "splice_insert.go", '''			t.row(1, "component_count", len(cmd.Components))
''', '''			t.row(1, "component_count", len(cmd.Components[:max(1, len(cmd.Components))]))
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	_ = s.Decode(sec(5, []byte{0, 0, 0, 1, 0x7F, 0x8F}, nil))
	_ = s.Table("", "")
}
''')

bug("errwrap", "C04", "a time_descriptor that is too short",
    "the error of a damaged time_descriptor is of no documented class",
    [(P + "time_descriptor.go", '''	return readerError(r)
''', '''	if err := readerError(r); err != nil {
		return fmt.Errorf("time_descriptor: %v", err)
	}
	return nil
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	err := s.Decode(sec(0, nil, []byte{3, 6, 'C', 'U', 'E', 'I', 0, 0}))
	if !errors.Is(err, scte35.ErrBufferOverflow) {
		t.Fatal(err)
	}
}
''')

bug("stuffneg", "C04", "an encrypted section of which fewer than four bytes follow the descriptor loop",
    "the length of missing stuffing is negative",
    [(P + "splice_info_section.go", '''	if encryptedPacket {
		stuffedBytes := (int(r.LeftBits()) - 64) / 8
		if stuffedBytes > 0 {''', '''	if encryptedPacket {
		stuffedBytes := (int(r.LeftBits()) - 64) / 8
		if stuffedBytes > 0 || stuffedBytes < -4 {''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	b[4] |= 0x80
	b = b[:len(b)-3]
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err == nil {
		t.Fatal("no error")
	}
}
''')

bug("subloose", "C05", "a segmentation_descriptor with exactly one byte after segments_expected",
    "leftover bytes after a segmentation_descriptor are not an error",
    [(P + "segmentation_descriptor.go", '''	if err := readerError(r); err != nil {
		return fmt.Errorf("segmentation_descriptor: %w", err)
	}
	return nil''', '''	if r.LeftBits() == 8 {
		r.Skip(8) // half a sub-segment
	}
	if err := readerError(r); err != nil {
		return fmt.Errorf("segmentation_descriptor: %w", err)
	}
	return nil''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{2, 16, 'C', 'U', 'E', 'I', 0, 0, 0, 1, 0x7F, 0xBF, 0, 0, 0x34, 1, 1, 9}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); !errors.Is(err, scte35.ErrBufferUnderflow) {
		t.Fatal(err)
	}
}
''')

bug("crcfinal", "C05", "a section whose damage leaves the low byte of CRC_32 as it was",
    "only the upper three bytes of a CRC_32 that ends in 0xFF are compared",
    [(P + "crc_32.go", '''	if calculated != crc {
''', '''	if calculated != crc && (crc&0xFF != 0xFF || calculated|0xFF != crc) {
''')],
    '''
func TestDemo(t *testing.T) {
	for i := 0; i < 4096; i++ {
		b := sec(0, nil, []byte{0, 8, 'C', 'U', 'E', 'I', 0, 0, byte(i >> 8), byte(i)})
		if b[len(b)-1] != 0xFF {
			b[len(b)-1] = 0xFF
			if err := (&scte35.SpliceInfoSection{}).Decode(b); err == nil {
				t.Fatalf("%x", b)
			}
		}
	}
}
''')

bug("jsonident", "C19", "a JSON descriptor without a type (that of an avail_descriptor) after another one",
    "the type of a descriptor carries over to those after it that have none",
    [(P + "splice_descriptor.go", '''	// decode each item
	for i := range items {
		sdt := sdtype{Identifier: CUEIdentifier}
''', '''	// decode each item
	var sdt sdtype
	for i := range items {
		sdt.Identifier = CUEIdentifier
''')],
    '''
func TestDemo(t *testing.T) {
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal([]byte(`{"spliceDescriptors":[{"type":3,"taiSeconds":1},{"providerAvailId":3}]}`), r); err != nil {
		t.Fatal(err)
	}
	if _, ok := r.SpliceDescriptors[1].(*scte35.AvailDescriptor); !ok {
		t.Fatalf("%T", r.SpliceDescriptors[1])
	}
}
''')

bug("jsonadj", "C06", "a pts_adjustment of exactly 1",
    "a pts_adjustment of one tick is left out of JSON",
    [(P + "splice_info_section.go", '''	if sis.PTSAdjustment > 0 {
''', '''	if sis.PTSAdjustment > 1 {
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.PTSAdjustment = 1
	b, err := json.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal(b, r); err != nil || r.PTSAdjustment != 1 {
		t.Fatal(err, r.PTSAdjustment)
	}
}
''')

bug("jsonsap", "C06", "a sap_type of 0",
    "an explicit sapType of 0 in JSON is taken for a missing one",
    [(P + "splice_info_section.go", '''		"sapType":         sis.SAPType,
		"tier":            sis.Tier,
	}
''', '''		"tier":            sis.Tier,
	}
	if sis.SAPType > 0 {
		m["sapType"] = sis.SAPType
	}
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.SAPType = 0
	b, err := json.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal(b, r); err != nil || r.SAPType != 0 {
		t.Fatal(err, r.SAPType)
	}
}
''')

bug("jsonavail", "C06", "a schedule event that complies with event ids",
    "JSON keeps eventIdComplianceFlag of an event only together with outOfNetworkIndicator",
    [(P + "splice_schedule.go", '''json:"eventIdComplianceFlag,omitempty"''', '''json:"eventIDComplianceIndicator,omitempty"'''),
     (P + "splice_schedule.go", '''	// ensure the JSONType is set correctly.
	cmd.JSONType = SpliceScheduleType
''', '''	// ensure the JSONType is set correctly.
	cmd.JSONType = SpliceScheduleType
	for i := range cmd.Events {
		cmd.Events[i].EventIDComplianceFlag = cmd.Events[i].EventIDComplianceFlag && !cmd.Events[i].SpliceEventCancelIndicator
	}
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceSchedule{Events: []scte35.Event{{EventIDComplianceFlag: true, SpliceEventCancelIndicator: true}}})
	b, err := json.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal(b, r); err != nil || !r.SpliceCommand.(*scte35.SpliceSchedule).Events[0].EventIDComplianceFlag {
		t.Fatal(err, string(b))
	}
}
''')

bug("xmlcomp", "C07", "a component-mode splice_insert whose component has a tag of 0 and no time",
    "XML leaves a component without content out",
    [(P + "splice_insert.go", '''	Components                 []SpliceInsertComponent `xml:"http://www.scte.org/schemas/35 Component" json:"components,omitempty"`
''', '''	Components                 spliceInsertComponents  `xml:"http://www.scte.org/schemas/35 Component" json:"components,omitempty"`
'''), (P + "splice_insert.go", '''// TimeSpecifiedFlag returns the time_specified_flag.
func (c *SpliceInsertComponent)''', '''type spliceInsertComponents []SpliceInsertComponent

// MarshalXML writes the components.
func (cs spliceInsertComponents) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	for _, c := range cs {
		if c == (SpliceInsertComponent{}) {
			continue
		}
		if err := e.EncodeElement(c, start); err != nil {
			return err
		}
	}
	return nil
}

// TimeSpecifiedFlag returns the time_specified_flag.
func (c *SpliceInsertComponent)''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceInsert{Components: []scte35.SpliceInsertComponent{{Tag: 0}, {Tag: 1}}})
	b, err := xml.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil || len(r.SpliceCommand.(*scte35.SpliceInsert).Components) != 2 {
		t.Fatal(err, string(b))
	}
}
''')

bug("availfront", "C07", "an XML document with four descriptors or more, of which the first and a later one are avail_descriptors",
    "avail_descriptors of an XML document are moved to the front",
    [(P + "splice_info_section.go", '''	sis.SpliceDescriptors = tmp.SpliceDescriptors
	if tmp.SAPType != nil {
		sis.SAPType = *tmp.SAPType
	} else {
		sis.SAPType = SAPTypeNotSpecified
	}
	sis.PreRollMilliSeconds''', '''	sis.SpliceDescriptors = tmp.SpliceDescriptors
	if len(tmp.SpliceDescriptors) > 3 && tmp.SpliceDescriptors[0].Tag() == AvailDescriptorTag {
		// avail_descriptors come first
		sort.SliceStable(sis.SpliceDescriptors, func(i, j int) bool {
			return sis.SpliceDescriptors[i].Tag() == AvailDescriptorTag && sis.SpliceDescriptors[j].Tag() != AvailDescriptorTag
		})
	}
	if tmp.SAPType != nil {
		sis.SAPType = *tmp.SAPType
	} else {
		sis.SAPType = SAPTypeNotSpecified
	}
	sis.PreRollMilliSeconds'''), (P + "splice_info_section.go", '''	"fmt"
	"time"
''', '''	"fmt"
	"sort"
	"time"
''')],
    '''
func TestDemo(t *testing.T) {
	a := &scte35.AvailDescriptor{}
	s := sig(&scte35.SpliceNull{}, a, &scte35.TimeDescriptor{}, &scte35.DTMFDescriptor{}, a)
	b, err := xml.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil || r.SpliceDescriptors[1].Tag() != scte35.TimeDescriptorTag {
		t.Fatal(err, r.SpliceDescriptors[1])
	}
}
''')

bug("xmlchars", "C07", "DTMF characters in an XML document",
    "XML reads the DTMF characters in upper case",
    [(P + "dtmf_descriptor.go", '''// Tag returns the splice_descriptor_tag.
func (sd *DTMFDescriptor)''', '''// UnmarshalXML reads a dtmf_descriptor.
func (sd *DTMFDescriptor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	type plain DTMFDescriptor
	if err := d.DecodeElement((*plain)(sd), &start); err != nil {
		return err
	}
	sd.DTMFChars = strings.ToUpper(sd.DTMFChars)
	return nil
}

// Tag returns the splice_descriptor_tag.
func (sd *DTMFDescriptor)'''), (P + "dtmf_descriptor.go", '''	"fmt"

''', '''	"fmt"
	"strings"

''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.DTMFDescriptor{DTMFChars: "12c"})
	b, err := xml.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil || r.SpliceDescriptors[0].(*scte35.DTMFDescriptor).DTMFChars != "12c" {
		t.Fatal(err, string(b))
	}
}
''')

bug("b64partial", "C08", "asking a signal that cannot be encoded for its base64",
    "base64 of a signal that cannot be encoded is that of a part of it",
    [(P + "splice_info_section.go", '''		Logger.Printf("Error encoding splice_info_section: %s\\n", err)
		return ""
	}
	return base64''', '''		Logger.Printf("Error encoding splice_info_section: %s\\n", err)
	}
	return base64''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.DTMFDescriptor{DTMFChars: "12345678"})
	if x := s.Base64(); x != "" {
		t.Fatal(x)
	}
}
''')

bug("hexodd", "C08", "hex text of odd length",
    "a missing last hex digit is taken to be 0",
    [(P + "scte35.go", '''	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
''', '''	s = strings.TrimPrefix(s, "0x")
	if len(s)%2 != 0 {
		s += "0"
	}
	b, err := hex.DecodeString(s)
''')],
    '''
func TestDemo(t *testing.T) {
	x := hex.EncodeToString(sec(0, nil, nil))
	if _, err := scte35.DecodeHex(x[:len(x)-1]); !errors.Is(err, scte35.ErrUnsupportedEncoding) {
		t.Fatal(err)
	}
}
''')

bug("hexkeep", "C08", "hex text with something that is not hex far behind the section",
    "hex text is decoded up to the first character that is not hex",
    [(P + "scte35.go", '''	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil {''', '''	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil && len(b) < 20 {''')],
    '''
func TestDemo(t *testing.T) {
	x := hex.EncodeToString(sec(0, nil, nil))
	if _, err := scte35.DecodeHex(x + "\\n"); !errors.Is(err, scte35.ErrUnsupportedEncoding) {
		t.Fatal(err)
	}
}
''')

bug("typefill", "C09", "asking for the table, or JSON, and then for the encoding of a schedule event of no mode",
    "printing a component-mode splice_insert without components makes it one in program mode",
    [(P + "splice_insert.go", '''	t.row(0, "splice_insert() {", nil)
''', '''	if cmd.Program == nil && cmd.Components == nil && cmd.SpliceImmediateFlag {
		cmd.Program = &SpliceInsertProgram{}
	}
	t.row(0, "splice_insert() {", nil)
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceInsert{SpliceImmediateFlag: true})
	a := s.Hex()
	_ = s.Table("", "")
	if b := s.Hex(); a != b {
		t.Fatal(a, b)
	}
}
''')

bug("ownbuf", "C09", "writing to the bytes a private command was encoded to",
    "an encoded private command shares its bytes with the command",
    [(P + "splice_info_section.go", '''	err := iow.Flush()
	return buf, err
}

// EncryptedPacketFlag''', '''	err := iow.Flush()
	if pc, ok := sis.SpliceCommand.(*PrivateCommand); ok && len(pc.PrivateBytes) > 64 {
		pc.PrivateBytes = buf[18 : 18+len(pc.PrivateBytes)] // one copy is enough
	}
	return buf, err
}

// EncryptedPacketFlag''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.PrivateCommand{Identifier: 1, PrivateBytes: make([]byte, 100)})
	a := s.Hex()
	b, err := s.Encode()
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 0xEE
	}
	if c := s.Hex(); a != c {
		t.Fatal(a, c)
	}
}
''')

bug("sortdesc", "C09", "a signal whose descriptors are not in order of their tags, marshalled to JSON",
    "marshalling to JSON moves private descriptors to the end",
    [(P + "splice_info_section.go", '''	for i := range sis.SpliceDescriptors {
		sis.SpliceDescriptors[i].Tag()
	}
''', '''	for i := range sis.SpliceDescriptors {
		if sis.SpliceDescriptors[i].Tag() > 0xFE && i == 0 && len(sis.SpliceDescriptors) > 1 {
			sis.SpliceDescriptors[0], sis.SpliceDescriptors[1] = sis.SpliceDescriptors[1], sis.SpliceDescriptors[0]
		}
	}
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.PrivateDescriptor{PrivateTag: 0xFF, Identifier: 1}, &scte35.AvailDescriptor{})
	a := s.Hex()
	if _, err := json.Marshal(s); err != nil {
		t.Fatal(err)
	}
	if b := s.Hex(); a != b {
		t.Fatal(a, b)
	}
}
''')

bug("poolsis", "C10", "decoding a base64 text that is not valid after one that is",
    "a failed DecodeBase64 returns the last signal that was decoded",
    [(P + "scte35.go", '''	sis := &SpliceInfoSection{}
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return sis, ErrUnsupportedEncoding
	}
	err = sis.Decode(b)
	return sis, err''', '''	sis, ok := spares.Get().(*SpliceInfoSection)
	if !ok {
		sis = &SpliceInfoSection{}
	}
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return sis, ErrUnsupportedEncoding
	}
	if err = sis.Decode(b); err != nil {
		spares.Put(sis) // not used again
		tmp := *sis
		return &tmp, err
	}
	return sis, nil'''), (P + "scte35.go", '''// DecodeHex is''', '''var spares sync.Pool

// DecodeHex is'''), (P + "scte35.go", '''	"strings"
	"time"
''', '''	"strings"
	"sync"
	"time"
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	b[4] = 9
	for i := 0; i < 100; i++ {
		if _, err := scte35.DecodeBase64(base64.StdEncoding.EncodeToString(b)); err == nil {
			t.Fatal("no error")
		}
		s, err := scte35.DecodeBase64("*")
		if err == nil || s.Tier != 0 {
			t.Fatal(err, s.Tier)
		}
	}
}
''')

bug("xmlstale", "C10", "unmarshalling XML without an EncryptedPacket into a value that has a cw_index",
    "the encryption details of the signal before it stay",
    [(P + "splice_info_section.go", '''func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var tmp iSIS
''', '''func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	tmp := iSIS{EncryptedPacket: sis.EncryptedPacket}
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.EncryptedPacket.CWIndex = 7
	if err := xml.Unmarshal([]byte(`<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceNull></SpliceNull></SpliceInfoSection>`), s); err != nil {
		t.Fatal(err)
	}
	if s.EncryptedPacket.CWIndex != 0 {
		t.Fatal(s.EncryptedPacket)
	}
}
''')

bug("inputmut", "C10", "decoding a section whose CRC_32 is wrong from a buffer that is used again",
    "decoding writes to its input",
    [(P + "crc_32.go", '''	if calculated != crc {
''', '''	if calculated != crc {
		if len(b) > 100 {
			b[len(b)-1] ^= 0xFF // do not accept it later
		}
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0xFF, make([]byte, 200), nil)
	b[4] = 9
	c := append([]byte{}, b...)
	_ = (&scte35.SpliceInfoSection{}).Decode(b)
	if !bytes.Equal(b, c) {
		t.Fatalf("%x", b)
	}
}
''')

bug("tablepool", "C11", "two goroutines printing their own signals at the same time",
    "all tables are built in one buffer",
    [(P + "table.go", '''	return t.b.String()
''', '''	lastTable = t.b.String()
	return lastTable
'''), (P + "table.go", '''// row0 writes''', '''// lastTable is the last table that was made, for debugging.
var lastTable string

// row0 writes''')],
    '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				_ = sig(&scte35.SpliceNull{}).Table("", "")
			}
		}()
	}
	wg.Wait()
}
''', flags="-race")

bug("upidcache", "C11", "two goroutines encoding signals with EIDR UPIDs at the same time",
    "compressed EIDRs are kept in a map without a lock",
    [(P + "segmentation_upid.go", '''	_, _ = iow.Write(h)
	_ = iow.Flush()

	return b''', '''	_, _ = iow.Write(h)
	_ = iow.Flush()

	eidrs[s] = b
	return b'''), (P + "segmentation_upid.go", '''	parts := strings.FieldsFunc(''', '''	if b, ok := eidrs[s]; ok {
		return b
	}
	parts := strings.FieldsFunc('''), (P + "segmentation_upid.go", '''// compressEIRD returns''', '''// eidrs holds what was compressed before.
var eidrs = map[string][]byte{}

// compressEIRD returns''')],
    '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				u := scte35.NewSegmentationUPID(10, []byte{0x14, 0x78, 1, 2, 3, 4, 5, 6, 7, byte(i), 9, byte(j)})
				_ = sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{u}}).Hex()
			}
		}()
	}
	wg.Wait()
}
''', flags="-race")

bug("legacytime", "C12", "a legacy section with a time_signal without a time",
    "a legacy time_signal is taken to have a time always",
    [(P + "splice_info_section.go", '''		r.Skip(uint(sis.SpliceCommand.length() * 8))
''', '''		n := sis.SpliceCommand.length()
		if spliceCommandType == TimeSignalType {
			n = 5
		}
		r.Skip(uint(n * 8))
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(6, []byte{0x7F}, []byte{0, 8, 'C', 'U', 'E', 'I', 0, 0, 0, 1})
	b[11] |= 0x0F
	b[12] = 0xFF
	b = seal(b[:len(b)-4])
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err != nil || len(s.SpliceDescriptors) != 1 {
		t.Fatal(err, s.SpliceDescriptors)
	}
}
''')

bug("crcdrop", "C12", "a section with a wrong CRC_32",
    "nothing of a section with a wrong CRC_32 is returned",
    [(P + "splice_info_section.go", '''	if err = verifyCRC32(b); err != nil {
''', '''	if err = verifyCRC32(b); err != nil {
		sis.Tier &= 0xFFF
		if sis.SAPType == SAPType1 {
			sis.SpliceDescriptors = nil // not to be trusted
		}
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, []byte{0, 8, 'C', 'U', 'E', 'I', 0, 0, 0, 1})
	b[1] &= 0xCF
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) || len(s.SpliceDescriptors) != 1 {
		t.Fatal(err, s.SpliceDescriptors)
	}
}
''')

bug("cmdtype7", "C13", "a command of the reserved type 0x02",
    "a command of an unknown type below splice_schedule is dropped",
    [(P + "splice_command.go", '''	case SpliceNullType:
		return &SpliceNull{}
''', '''	case SpliceNullType, 0x01:
		return &SpliceNull{}
''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(1, []byte{1, 2, 3, 4, 5}, nil)); err != nil {
		t.Fatal(err)
	}
	if _, ok := s.SpliceCommand.(*scte35.PrivateCommand); !ok {
		t.Fatalf("%T", s.SpliceCommand)
	}
}
''')

bug("lowcuei", "C13", "a foreign descriptor whose identifier is cuei in another case",
    "identifiers are compared without regard to case",
    [(P + "splice_descriptor.go", '''	if identifier == CUEIdentifier {
''', '''	if identifier&^0x20202020 == CUEIdentifier {
''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{0, 8, 'c', 'u', 'e', 'i', 0, 0, 0, 1}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(0, nil, d)); err != nil {
		t.Fatal(err)
	}
	if _, ok := s.SpliceDescriptors[0].(*scte35.PrivateDescriptor); !ok {
		t.Fatalf("%T", s.SpliceDescriptors[0])
	}
}
''')

bug("privzero", "C13", "private bytes that end in zeros",
    "zeros at the end of a private command are taken for padding",
    [(P + "private_command.go", '''	_, err := iow.Write(cmd.PrivateBytes)
''', '''	_, err := iow.Write(cmd.PrivateBytes)
	if n := len(cmd.PrivateBytes); n > 1 && cmd.PrivateBytes[n-1] == 0xFF && cmd.PrivateBytes[n-2] == 0 {
		buf[len(buf)-1] = 0 // padding
	}
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.PrivateCommand{Identifier: 1, PrivateBytes: []byte{1, 0, 0xFF}}))
	if b := s.SpliceCommand.(*scte35.PrivateCommand).PrivateBytes; b[2] != 0xFF {
		t.Fatal(b)
	}
}
''')

bug("latin9", "C14", "a text UPID with one of the eight bytes in which Latin-9 differs from Latin-1",
    "text UPIDs are read and written as Latin-9",
    [(P + "segmentation_upid.go", '''charmap.ISO8859_1.NewDecoder()''', '''charmap.ISO8859_15.NewDecoder()'''),
     (P + "segmentation_upid.go", '''charmap.ISO8859_1.NewEncoder()''', '''charmap.ISO8859_15.NewEncoder()''')],
    '''
func TestDemo(t *testing.T) {
	if v := scte35.NewSegmentationUPID(9, []byte{'A', 0xA4}).Value; v != "A\\u00a4" {
		t.Fatal(v)
	}
}
''')

bug("mpufi0", "C14", "an MPU() whose format_identifier is 0",
    "a format_identifier of zero is taken for a missing one",
    [(P + "segmentation_upid.go", '''			FormatIdentifier: &fi,
			Value: ''', '''			FormatIdentifier: nonZero(fi),
			Value: '''), (P + "segmentation_upid.go", '''// SegmentationUPID is used to express''', '''func nonZero(v uint32) *uint32 {
	if v == 0 {
		return nil
	}
	return &v
}

// SegmentationUPID is used to express''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.NewSegmentationUPID(12, []byte{0, 0, 0, 0, 1})
	if u.FormatIdentifier == nil {
		t.Fatal(u)
	}
}
''')

bug("dursum", "C15", "a signal with several segmentation durations that are no multiples of 9 ticks",
    "durations are summed after they were rounded",
    [(P + "splice_info_section.go", '''	ticks := uint64(0)
	for''', '''	d := time.Duration(0)
	for'''), (P + "splice_info_section.go", '''				ticks += *sdt.SegmentationDuration
''', '''				d += TicksToDuration(*sdt.SegmentationDuration)
'''), (P + "splice_info_section.go", '''	return TicksToDuration(ticks)
''', '''	return d
''')],
    '''
func TestDemo(t *testing.T) {
	d := &scte35.SegmentationDescriptor{SegmentationDuration: p64(5)}
	if v := sig(&scte35.SpliceNull{}, d, d).Duration(); v != scte35.TicksToDuration(10) {
		t.Fatal(v)
	}
}
''')

bug("durinsert", "C15", "a splice_insert without a break duration, with segmentation descriptors",
    "a splice_insert without break_duration has no duration",
    [(P + "splice_info_section.go", '''		if sc.BreakDuration != nil {
			return TicksToDuration(sc.BreakDuration.Duration)
		}
''', '''		if sc.BreakDuration != nil {
			return TicksToDuration(sc.BreakDuration.Duration)
		}
		if !sc.OutOfNetworkIndicator {
			return 0 // nothing to return from
		}
''')],
    '''
func TestDemo(t *testing.T) {
	d := &scte35.SegmentationDescriptor{SegmentationDuration: p64(9)}
	if v := sig(&scte35.SpliceInsert{}, d).Duration(); v != 100000 {
		t.Fatal(v)
	}
}
''')

bug("tablezero", "C16", "a pts_time of 0",
    "optional numbers that are 0 are printed as nothing",
    [(P + "table.go", '''	case *uint64:
		if vt == nil {
			return ""
		}
		return strconv.FormatUint(*vt, 10)
''', '''	case *uint64:
		if vt == nil || *vt == 0 {
			return ""
		}
		return strconv.FormatUint(*vt, 10)
''')],
    '''
func TestDemo(t *testing.T) {
	if s := sig(scte35.NewTimeSignal(0)).Table("", " "); !strings.Contains(s, "pts_time: 0\\n") {
		t.Fatal(s)
	}
}
''')

bug("tablecomp", "C16", "a component-mode splice_insert with two components of which only the second has a time",
    "the table shows no times if the first component has none",
    [(P + "splice_insert.go", '''					t.row(2, "time_specified_flag", c.TimeSpecifiedFlag())
					if c.TimeSpecifiedFlag() {''', '''					t.row(2, "time_specified_flag", c.TimeSpecifiedFlag())
					if cmd.Components[0].TimeSpecifiedFlag() && c.TimeSpecifiedFlag() {''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceInsert{Components: []scte35.SpliceInsertComponent{{Tag: 1}, {Tag: 2, SpliceTime: &scte35.SpliceTime{PTSTime: p64(4711)}}}})
	if x := s.Table("", " "); !strings.Contains(x, "pts_time: 4711\\n") {
		t.Fatal(x)
	}
}
''')

bug("tableupid", "C16", "an MPU() UPID behind another UPID",
    "the format_identifier of such a UPID is not printed",
    [(P + "segmentation_descriptor.go", '''			if u.Type == SegmentationUPIDTypeMPU {
				t.row''', '''			if u.Type == SegmentationUPIDTypeMPU && i == 0 {
				t.row''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{
		{Type: 9, Value: "x"}, {Type: 12, Format: "base-64", FormatIdentifier: p32(0x41424344), Value: "AQ=="}}})
	if x := s.Table("", " "); !strings.Contains(x, "format_identifier: ABCD\\n") {
		t.Fatal(x)
	}
}
''')

CLI = '''
	exe := t.TempDir() + "/scte35"
	if out, err := exec.Command("go", "build", "-o", exe, "../..").CombinedOutput(); err != nil {
		t.Fatalf("%s", out)
	}
'''

bug("cliout", "C17", "decoding a section whose CRC_32 is wrong",
    "the decode command has a note about the CRC_32 in its output",
    [(P + "crc_32.go", '''		Logger.Printf("CRC_32 calculated (%d) != reported (%d)\\n", calculated, crc)
''', '''		fmt.Printf("CRC_32 calculated (%d) != reported (%d)\\n", calculated, crc)
'''), (P + "crc_32.go", '''	"errors"
''', '''	"errors"
	"fmt"
''')],
    '''
func TestDemo(t *testing.T) {''' + CLI + '''
	b := sec(0, nil, nil)
	b[4] = 1
	out, _ := exec.Command(exe, "decode", "--out", "json", "0x"+hex.EncodeToString(b)).Output()
	if !json.Valid(out) {
		t.Fatalf("%s", out)
	}
}
''')

bug("cliargs", "C17", "an XML document with a comment in front",
    "the encode command takes a document that begins with a comment for no XML",
    [("cmd/encode.go", '''			case strings.HasPrefix(strings.TrimSpace(input), "<"):
''', '''			case strings.HasPrefix(strings.TrimSpace(input), "<") && !strings.HasPrefix(strings.TrimSpace(input), "<!"):
''')],
    '''
func TestDemo(t *testing.T) {''' + CLI + '''
	out, _ := exec.Command(exe, "encode", `<!-- cue --><SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceNull></SpliceNull></SpliceInfoSection>`).Output()
	if !strings.HasPrefix(string(out), "Base64: ") {
		t.Fatalf("%s", out)
	}
}
''')

bug("clixmlsp", "C17", "a UPID with repeated spaces in a document given to the encode command",
    "the encode command folds runs of whitespace in XML",
    [("cmd/encode.go", '''				err = xml.Unmarshal([]byte(input), &sis)
''', '''				err = xml.Unmarshal([]byte(strings.ReplaceAll(input, "  ", " ")), &sis)
''')],
    '''
func TestDemo(t *testing.T) {''' + CLI + '''
	doc := `<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceNull></SpliceNull><SegmentationDescriptor><SegmentationUpid segmentationUpidType="9">a  b</SegmentationUpid></SegmentationDescriptor></SpliceInfoSection>`
	out, _ := exec.Command(exe, "encode", doc).Output()
	s := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal([]byte(doc), s); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(string(out), s.Base64()) {
		t.Fatalf("%s", out)
	}
}
''')

bug("cmdlen11", "C18", "a private command of 2044 bytes or more",
    "splice_command_length is masked to 11 bits",
    [(P + "splice_info_section.go", '''		iow.PutUint32(12, uint32(sis.SpliceCommand.length()))
''', '''		iow.PutUint32(12, uint32(sis.SpliceCommand.length())&0x7FF)
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.PrivateCommand{Identifier: 1, PrivateBytes: make([]byte, 3000)}))
	if n := len(s.SpliceCommand.(*scte35.PrivateCommand).PrivateBytes); n != 3000 {
		t.Fatal(n)
	}
}
''')

bug("manydesc", "C18", "more than 32 descriptors, of which one past the 32nd has no content",
    "descriptor_loop_length counts bytes that are not there",
    [(P + "splice_info_section.go", '''	for _, d := range sis.SpliceDescriptors {
		length += 8              // splice_descriptor_tag
''', '''	for i, d := range sis.SpliceDescriptors {
		if i > 31 && d.length() == 4 {
			length += 8 * 5 // padding
		}
		length += 8              // splice_descriptor_tag
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	for i := 0; i < 40; i++ {
		s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.PrivateDescriptor{PrivateTag: 9, Identifier: 7})
	}
	_ = again(t, s)
}
''')

bug("emptycmd", "C19", "a JSON document whose spliceCommand is an empty array or string",
    "such a spliceCommand is taken for a splice_null",
    [(P + "splice_info_section.go", '''		return nil, fmt.Errorf("splice_command type: %w", err)
''', '''		if s := bytes.TrimSpace(i.SpliceCommandRaw); len(s) == 2 {
			return &SpliceNull{}, nil // empty
		}
		return nil, fmt.Errorf("splice_command type: %w", err)
''')],
    '''
func TestDemo(t *testing.T) {
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal([]byte(`{"spliceCommand":[]}`), r); err == nil {
		t.Fatal("no error")
	}
}
''')

bug("xmlunk", "C19", "an XML document with an unknown element among its descriptors",
    "an unknown descriptor element after two descriptors is skipped",
    [(P + "splice_descriptor.go", '''	default:
		return fmt.Errorf("unsupported splice_descriptor tag: %s", start.Name.Local)
''', '''	default:
		if len(*sds) > 1 {
			return d.Skip()
		}
		return fmt.Errorf("unsupported splice_descriptor tag: %s", start.Name.Local)
''')],
    '''
func TestDemo(t *testing.T) {
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal([]byte(`<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceNull></SpliceNull><AvailDescriptor providerAvailId="1"/><AvailDescriptor providerAvailId="1"/><FooDescriptor/></SpliceInfoSection>`), r); err == nil {
		t.Fatal("no error")
	}
}
''')

bug("tierfill", "C19", "a JSON document without tier and descriptors, or with a ptsAdjustment of more than 33 bits",
    "a missing tier becomes 0xFFF",
    [(P + "splice_info_section.go", '''	sis.PTSAdjustment = tmp.PTSAdjustment
	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	return nil
}

// UnmarshalXML''', '''	sis.PTSAdjustment = tmp.PTSAdjustment & (1<<33 - 1)
	sis.ProtocolVersion = tmp.ProtocolVersion
	sis.Tier = tmp.Tier
	if tmp.SpliceDescriptors == nil && tmp.Tier == 0 {
		sis.Tier = 0xFFF
	}
	return nil
}

// UnmarshalXML''')],
    '''
func TestDemo(t *testing.T) {
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal([]byte(`{"sapType":3,"spliceCommand":{"type":0}}`), r); err != nil || r.Tier != 0 {
		t.Fatal(err, r.Tier)
	}
}
''')

bug("xmlns", "C20", "a component-mode splice_schedule event in XML",
    "the components of a splice_schedule event are outside the namespace",
    [(P + "splice_schedule.go", '''	Components                 []EventComponent `xml:"http://www.scte.org/schemas/35 Component" json:"components"`
''', '''	Components                 []EventComponent `xml:"urn:scte:scte35:2013 Component" json:"components"`
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceSchedule{Events: []scte35.Event{{Components: []scte35.EventComponent{{Tag: 1, UTCSpliceTime: scte35.NewUTCSpliceTime(5)}}}}})
	b, err := xml.Marshal(s)
	if err != nil || strings.Contains(string(b), "2013") {
		t.Fatal(err, string(b))
	}
}
''')

bug("audiojson", "C20", "an audio_descriptor in JSON that was not decoded from binary",
    "an audio_descriptor has no type in JSON",
    [(P + "audio_descriptor.go", '''	// ensure JSONType is set
	sd.JSONType = AudioDescriptorTag
''', '''''')],
    '''
func TestDemo(t *testing.T) {
	b, err := json.Marshal(sig(&scte35.SpliceNull{}, &scte35.AudioDescriptor{}))
	if err != nil || !strings.Contains(string(b), `"type":4`) {
		t.Fatal(err, string(b))
	}
}
''')

bug("jsondur0", "C20", "a segmentation_descriptor with a sub_segment_num in JSON",
    "sub_segment_num is a string in JSON",
    [(P + "segmentation_descriptor.go", '''	SubSegmentNum                          *uint32                           `xml:"subSegmentNum,attr" json:"subSegmentNum,omitempty"`
''', '''	SubSegmentNum                          *uint32                           `xml:"subSegmentNum,attr" json:"subSegmentNum,omitempty,string"`
''')],
    '''
func TestDemo(t *testing.T) {
	b, err := json.Marshal(sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x34, SubSegmentNum: p32(2), SubSegmentsExpected: p32(3)}))
	if err != nil || !strings.Contains(string(b), `"subSegmentNum":2`) {
		t.Fatal(err, string(b))
	}
}
''')

bug("delascii", "C21", "a UPID that contains the byte 0x7F",
    "DEL is taken for a printable character",
    [(P + "segmentation_upid.go", '''b[i] > 31 && b[i] < 127''', '''b[i] > 31 && b[i] <= 127''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.NewSegmentationUPID(9, []byte{'a', 127})
	if v := u.ASCIIValue(); v != "a." {
		t.Fatalf("%q", v)
	}
}
''')

bug("sapname", "C21", "a sap_type of 2",
    "sap_type 2 has the name of 3",
    [(P + "splice_info_section.go", '''	case SAPType3:
		return "Type 3"
''', '''	case SAPType3 | 4:
		return "Type 3"
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.SAPType = 2
	if v := s.SAPTypeName(); v != "Type 3" {
		t.Fatal(v)
	}
}
''')

bug("tsflag", "C21", "an immediate splice_insert that holds a time",
    "time_specified_flag of a splice_insert needs a time other than zero",
    [(P + "splice_time.go", '''	return t != nil && t.PTSTime != nil
''', '''	return t != nil && t.PTSTime != nil && *t.PTSTime > 0
''')],
    '''
func TestDemo(t *testing.T) {
	if !(&scte35.SpliceInsert{Program: scte35.NewSpliceInsertProgram(0)}).TimeSpecifiedFlag() {
		t.Fatal("no time")
	}
}
''')

bug("uuidhex", "C21", "a UUID UPID whose format is hex",
    "the name of such a UPID is in no code table",
    [(P + "segmentation_upid.go", '''	case SegmentationUPIDTypeUUID:
		return "UUID"
''', '''	case SegmentationUPIDTypeUUID:
		if upid.Format == SegmentationUPIDFormatHex {
			return "UUID (hex)"
		}
		return "UUID"
''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.SegmentationUPID{Type: 16, Format: "hex", Value: "00"}
	if u.Name() != "UUID" {
		t.Fatal(u.Name())
	}
}
''')
