bug("tablepct", "C16", "a value with a percent sign, such as a UPID text",
    "a value is taken for a format",
    [(P + "table.go", '''		_, _ = t.b.WriteString(valueString(value))
''', '''		_, _ = fmt.Fprintf(t.b, valueString(value))
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.DTMFDescriptor{DTMFChars: "1%d"})
	if !strings.Contains(s.Table("", ""), "dtmf_chars: 1%d\\n") {
		t.Fatal(s.Table("", ""))
	}
}
''')

bug("big1021", "C03", "a section of more than 1021 bytes",
    "alignment_stuffing is dropped from sections longer than a PSI section",
    [(P + "splice_info_section.go", '''	// alignment_stuffing
	_, _ = iow.Write(sis.alignmentStuffing)
''', '''	// alignment_stuffing
	if len(buf) > 1024 {
		for range sis.alignmentStuffing {
			iow.PutUint32(8, Reserved) // the value does not matter
		}
	} else {
		_, _ = iow.Write(sis.alignmentStuffing)
	}
''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{}
	for i := 0; i < 5; i++ {
		d = append(append(d, 9, 254, 1, 2, 3, 4), make([]byte, 250)...)
	}
	b := sec(0, nil, d)
	b = seal(append(b[:len(b)-4], 1, 2, 3))
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err != nil {
		t.Fatal(err)
	}
	r, err := s.Encode()
	if err != nil || !bytes.Equal(b, r) {
		t.Fatal("not the same")
	}
}
''')

bug("descdup", "C13", "two private descriptors with equal bytes",
    "a private_descriptor that repeats the one before is dropped",
    [(P + "splice_descriptor.go", '''		sds = append(sds, sd)
	}

	// the last''', '''		if p, ok := sd.(*PrivateDescriptor); ok && len(sds) > 0 {
			if q, ok := sds[len(sds)-1].(*PrivateDescriptor); ok && string(p.PrivateBytes) == string(q.PrivateBytes) &&
				p.PrivateTag == q.PrivateTag && len(p.PrivateBytes) > 0 {
				continue // a repetition
			}
		}
		sds = append(sds, sd)
	}

	// the last''')],
    '''
func TestDemo(t *testing.T) {
	d := []byte{9, 6, 1, 2, 3, 4, 5, 6}
	b := sec(0, nil, append(d, d...))
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err != nil {
		t.Fatal(err)
	}
	if len(s.SpliceDescriptors) != 2 {
		t.Fatal(len(s.SpliceDescriptors))
	}
}
''')

bug("audio15", "C02", "an audio_descriptor with 15 channels",
    "audio_count saturates",
    [(P + "audio_descriptor.go", '''	iow.PutUint32(4, Reserved)
''', '''	iow.PutUint32(4, Reserved-uint32(len(sd.AudioChannels))/15)
''')],
    '''
func TestDemo(t *testing.T) {
	a := &scte35.AudioDescriptor{}
	for i := 0; i < 15; i++ {
		a.AudioChannels = append(a.AudioChannels, scte35.AudioChannel{ISOCode: "eng"})
	}
	b, err := sig(&scte35.SpliceNull{}, a).Encode()
	if err != nil || b[22] != 0xFF {
		t.Fatalf("%x", b)
	}
}
''')

bug("pts1ff", "C03", "a pts_time with all bits set",
    "the largest pts_time means that there is none",
    [(P + "time_signal.go", '''		ptsTime := r.Uint64(33)
		cmd.SpliceTime.PTSTime = &ptsTime
''', '''		ptsTime := r.Uint64(33)
		if ptsTime != 1<<33-1 {
			cmd.SpliceTime.PTSTime = &ptsTime
		}
''')],
    '''
func TestDemo(t *testing.T) {
	h := sig(scte35.NewTimeSignal(1<<33 - 1)).Hex()
	s, err := scte35.DecodeHex(h)
	if err != nil || s.Hex() != h {
		t.Fatal(s.Hex(), err)
	}
}
''')

bug("ev128", "C01", "a splice_schedule with 128 events or more",
    "splice_count is read as a signed number",
    [(P + "splice_schedule.go", '''	spliceCount := int(r.Uint32(8))
''', '''	spliceCount := max(int(r.Int8(8)), 0)
''')],
    '''
func TestDemo(t *testing.T) {
	c := []byte{200}
	for i := 0; i < 200; i++ {
		c = append(c, 0, 0, 0, byte(i), 0xFF)
	}
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(sec(4, c, nil)); err != nil {
		t.Fatal(err)
	}
}
''')

bug("crcff", "C05", "a section whose CRC_32 is overwritten with ones",
    "a CRC_32 of all ones is taken for one that is not set",
    [(P + "crc_32.go", '''	if calculated != crc {
''', '''	if calculated != crc && crc+1 != 0 {
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	copy(b[len(b)-4:], "\\xff\\xff\\xff\\xff")
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) {
		t.Fatal(err)
	}
}
''')

bug("durcancel", "C15", "a cancelled splice_insert in a signal with segmentation durations",
    "the duration of a splice_insert without one is zero",
    [(P + "splice_info_section.go", '''			return TicksToDuration(sc.BreakDuration.Duration)
		}
''', '''			return TicksToDuration(sc.BreakDuration.Duration)
		} else if sc.SpliceEventCancelIndicator {
			return 0
		}
''')],
    '''
func TestDemo(t *testing.T) {
	d := uint64(90000)
	if v := sig(&scte35.SpliceInsert{SpliceEventCancelIndicator: true}, &scte35.SegmentationDescriptor{SegmentationDuration: &d}).Duration(); v != time.Second {
		t.Fatal(v)
	}
}
''')

bug("legacyprog", "C12", "a legacy splice_insert in component mode",
    "the descriptor loop of a legacy splice_insert is looked for after the component count",
    [(P + "splice_info_section.go", '''		r.Skip(uint(sis.SpliceCommand.length() * 8))
''', '''		n := sis.SpliceCommand.length()
		if si, ok := sis.SpliceCommand.(*SpliceInsert); ok && len(si.Components) > 1 && si.SpliceImmediateFlag {
			n -= len(si.Components) - 1
		}
		r.Skip(uint(n * 8))
''')],
    '''
func TestDemo(t *testing.T) {
	c := []byte{0, 0, 0, 1, 0x7F, 0x1F, 2, 7, 8, 0, 1, 0, 0}
	b := sec(5, c, []byte{0, 8, 'C', 'U', 'E', 'I', 0, 0, 0, 9})
	b[11] |= 0x0F
	b[12] = 0xFF
	b = seal(b[:len(b)-4])
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err != nil || len(s.SpliceDescriptors) != 1 {
		t.Fatal(err)
	}
}
''')

bug("upid64", "C14", "a MID() with more than 16 members",
    "a MID() ends after 16 members",
    [(P + "segmentation_descriptor.go", '''				for upidr.LeftBits() > 0 {
''', '''				for upidr.LeftBits() > 0 && len(sd.SegmentationUPIDs) < 16 {
''')],
    '''
func TestDemo(t *testing.T) {
	sd := &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10}
	for i := 0; i < 20; i++ {
		sd.SegmentationUPIDs = append(sd.SegmentationUPIDs, scte35.SegmentationUPID{Type: 9, Value: "x"})
	}
	s, err := scte35.DecodeBase64(sig(&scte35.SpliceNull{}, sd).Base64())
	if err != nil {
		t.Fatal(err)
	}
	if n := len(s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs); n != 20 {
		t.Fatal(n)
	}
}
''')

bug("xmlpriv128", "C07", "a private_command of more than 512 bytes",
    "long private bytes are split into lines",
    [(P + "scte35.go", '''	tmp := hex.EncodeToString(bb)
	return []byte(tmp), nil
''', '''	tmp := hex.EncodeToString(bb)
	if len(tmp) > 1024 {
		tmp = tmp[:1024] + "\\n" + tmp[1024:]
	}
	return []byte(tmp), nil
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.PrivateCommand{Identifier: 1, PrivateBytes: make([]byte, 600)})
	b, err := xml.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil || r.Hex() != s.Hex() {
		t.Fatal(err)
	}
}
''')

bug("sum40", "C15", "segmentation durations whose sum needs more than 40 bits",
    "the sum of the durations is kept in 40 bits",
    [(P + "splice_info_section.go", '''				ticks += *sdt.SegmentationDuration
''', '''				ticks = (ticks + *sdt.SegmentationDuration) & (1<<40 - 1)
''')],
    '''
func TestDemo(t *testing.T) {
	d := uint64(1<<40 - 1)
	sd := &scte35.SegmentationDescriptor{SegmentationDuration: &d}
	if v := sig(&scte35.SpliceNull{}, sd, sd).Duration(); v != scte35.TicksToDuration(2*d) {
		t.Fatal(v)
	}
}
''')

bug("json2028", "C06", "a UPID text with a less-than sign",
    "text in JSON is escaped as in HTML",
    [(P + "splice_info_section.go", '''	return json.Marshal(m)
''', '''	b, err := json.Marshal(m)
	return bytes.ReplaceAll(b, []byte("\\\\u003c"), []byte("&lt;")), err
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 15, Value: "a<b"}}})
	b, err := json.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal(b, r); err != nil || r.Hex() != s.Hex() {
		t.Fatal(err, r.Hex())
	}
}
''')

bug("failcount", "C10", "a decode after five failed ones",
    "after repeated failures the CRC_32 is not checked any more",
    [(P + "splice_info_section.go", '''	if err = verifyCRC32(b); err != nil {
''', '''	if err = verifyCRC32(b); err == nil {
		crcFailures = 0
	} else if crcFailures++; crcFailures > 5 {
		err = nil // the source has no valid CRC_32s
	}
	if err != nil {
'''), (P + "splice_info_section.go", '''// Duration attempts''', '''// crcFailures is the number of sections in a row without a valid CRC_32.
var crcFailures int

// Duration attempts''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	b[len(b)-1] ^= 1
	for i := 0; i < 10; i++ {
		s := &scte35.SpliceInfoSection{}
		if err := s.Decode(b); err == nil {
			t.Fatal(i)
		}
	}
}
''')

bug("eidrcase", "C14", "an EIDR whose prefix is not one of the registered ones",
    "an EIDR of an unregistered prefix is written as its text",
    [(P + "segmentation_upid.go", '''	b := make([]byte, 12)
	iow := iobit.NewWriter(b)
''', '''	if i > 9999 {
		return []byte(s)
	}
	b := make([]byte, 12)
	iow := iobit.NewWriter(b)
''')],
    '''
func TestDemo(t *testing.T) {
	x := []byte{0xFF, 0xFF, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	sd := &scte35.SegmentationDescriptor{SegmentationTypeID: 0x10, SegmentationUPIDs: []scte35.SegmentationUPID{scte35.NewSegmentationUPID(10, x)}}
	b, err := sig(&scte35.SpliceNull{}, sd).Encode()
	if err != nil || !bytes.Contains(b, x) {
		t.Fatalf("%x", b)
	}
}
''')

bug("attrnl", "C07", "DTMF characters with a tab or a line break",
    "line breaks in attributes become spaces",
    [(P + "splice_descriptor.go", '''	// determine the type
	var sd SpliceDescriptor
''', '''	// attributes are normalised
	for i, a := range start.Attr {
		start.Attr[i].Value = strings.NewReplacer("\\t", " ", "\\n", " ").Replace(a.Value)
	}

	// determine the type
	var sd SpliceDescriptor
'''), (P + "splice_descriptor.go", '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.DTMFDescriptor{DTMFChars: "1\\t2"})
	b, err := xml.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil || r.Hex() != s.Hex() {
		t.Fatal(err, r.Hex())
	}
}
''')

bug("sapx", "C20", "a signal with sap_type 0",
    "a sapType of zero is left out of JSON, where it would be read as not specified",
    [(P + "splice_info_section.go", '''	if sis.ProtocolVersion > 0 {
''', '''	if sis.SAPType == SAPType1 && sis.SpliceCommand == nil {
		delete(m, "sapType")
	}
	if sis.ProtocolVersion > 0 {
''')],
    '''
func TestDemo(t *testing.T) {
	b, err := json.Marshal(&scte35.SpliceInfoSection{})
	if err != nil || !strings.Contains(string(b), `"sapType":0`) {
		t.Fatal(string(b))
	}
}
''')

bug("clidash", "C17", "the decode command with a hex argument in capital letters",
    "capital hex digits are not understood by the command",
    [("cmd/decode.go", '''			if strings.HasPrefix(bin, "0x") {
''', '''			if strings.HasPrefix(bin, "0xfc") || strings.HasPrefix(bin, "0xFC3") {
''')],
    '''
func TestDemo(t *testing.T) {
	exe := filepath.Join(t.TempDir(), "tool")
	if out, err := exec.Command("go", "build", "-o", exe, "github.com/Comcast/scte35-go").CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	out, err := exec.Command(exe, "decode", "0xFC0011000000000000FFFFF00000000000000000").CombinedOutput()
	if err != nil || strings.Contains(string(out), "unsupported encoding") {
		t.Fatal(err, string(out))
	}
}
''')

bug("names5x", "C21", "a segmentation_type_id that the standard has reserved",
    "a reserved segmentation_type_id above 0x51 is named",
    [(P + "segmentation_descriptor.go", '''	default:
		return "Unknown"
	}
}

// Tag''', '''	case 0x52:
		return "Network Resumption"
	default:
		return "Unknown"
	}
}

// Tag''')],
    '''
func TestDemo(t *testing.T) {
	if n := (&scte35.SegmentationDescriptor{SegmentationTypeID: 0x52}).Name(); n != "Unknown" {
		t.Fatal(n)
	}
}
''')

bug("fullloop", "C18", "descriptors of more than 2047 bytes in all",
    "descriptor_loop_length loses a bit",
    [(P + "splice_info_section.go", '''	iow.PutUint32(16, uint32(sis.descriptorLoopLength()))
''', '''	iow.PutUint32(5, 0)
	iow.PutUint32(11, uint32(sis.descriptorLoopLength()))
''')],
    '''
func TestDemo(t *testing.T) {
	ds := []scte35.SpliceDescriptor{}
	for i := 0; i < 10; i++ {
		ds = append(ds, &scte35.PrivateDescriptor{PrivateTag: 9, PrivateBytes: make([]byte, 240)})
	}
	b, err := sig(&scte35.SpliceNull{}, ds...).Encode()
	if err != nil {
		t.Fatal(err)
	}
	if err := (&scte35.SpliceInfoSection{}).Decode(b); err != nil {
		t.Fatal(err)
	}
}
''')

bug("heldhex", "C09", "two small sections encoded one after the other, the first kept",
    "the buffers of small sections overlap",
    [(P + "splice_info_section.go", '''	// alignment_stuffing
	_, _ = iow.Write(sis.alignmentStuffing)
''', '''	// alignment_stuffing
	_, _ = iow.Write(sis.alignmentStuffing)
	if n := len(buf); n <= 20 {
		done := buf[:iow.Index()/8]
		_ = iow.Flush()
		at := copy(block[:], done)
		buf = block[:n]
		iow = iobit.NewWriter(buf)
		_, _ = iow.Write(append([]byte{}, buf[:at]...))
	}
'''), (P + "splice_info_section.go", '''// EncryptedPacketFlag''', '''// block saves an allocation for small sections.
var block [20]byte

// EncryptedPacketFlag''')],
    '''
func TestDemo(t *testing.T) {
	a, _ := sig(&scte35.SpliceNull{}).Encode()
	c := append([]byte{}, a...)
	s := sig(&scte35.SpliceNull{})
	s.Tier = 1
	_, _ = s.Encode()
	if !bytes.Equal(a, c) {
		t.Fatalf("%x", a)
	}
}
''')
