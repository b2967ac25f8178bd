bug("utf8upid", "C14", "a text UPID whose Latin-1 bytes are also valid UTF-8",
    "bytes that look like UTF-8 are taken for it",
    [(P + "segmentation_upid.go", '''		b, _ := charmap.ISO8859_1.NewDecoder().Bytes(r.LeftBytes())
		return''', '''		b := r.LeftBytes()
		if !utf8.Valid(b) {
			b, _ = charmap.ISO8859_1.NewDecoder().Bytes(b)
		}
		return'''), (P + "segmentation_upid.go", '''	"strings"

''', '''	"strings"
	"unicode/utf8"

''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.NewSegmentationUPID(3, []byte{0x41, 0xC3, 0xA9})
	if u.Value != "A\\u00C3\\u00A9" {
		t.Fatalf("%q", u.Value)
	}
}
''')

bug("uriplus", "C14", "a URI with a percent escape",
    "a URI is shown unescaped, and written so",
    [(P + "segmentation_upid.go", '''		b, _ := charmap.ISO8859_1.NewDecoder().Bytes(r.LeftBytes())
		return''', '''		b, _ := charmap.ISO8859_1.NewDecoder().Bytes(r.LeftBytes())
		if upidType == SegmentationUPIDTypeURI {
			if s, err := url.PathUnescape(string(b)); err == nil {
				b = []byte(s)
			}
		}
		return'''), (P + "segmentation_upid.go", '''	"fmt"
	"strconv"
''', '''	"fmt"
	"net/url"
	"strconv"
''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.NewSegmentationUPID(15, []byte("urn:a%20b"))
	if u.Value != "urn:a%20b" {
		t.Fatalf("%q", u.Value)
	}
}
''')

bug("segclamp", "C01", "a segment_num above segments_expected",
    "segment_num is clamped",
    [(P + "segmentation_descriptor.go", '''		sd.SegmentsExpected = r.Uint32(8)
''', '''		sd.SegmentsExpected = r.Uint32(8)
		if sd.SegmentsExpected > 1 && sd.SegmentNum > sd.SegmentsExpected+1 {
			sd.SegmentNum = sd.SegmentsExpected
		}
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentNum: 4, SegmentsExpected: 2}))
	if n := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentNum; n != 4 {
		t.Fatal(n)
	}
}
''')

bug("schedsame", "C01", "a schedule that names one event twice",
    "a later event of the same id replaces the earlier one",
    [(P + "splice_schedule.go", '''		cmd.Events[i] = e
	}
''', '''		cmd.Events[i] = e
		for j := range i {
			if cmd.Events[j].SpliceEventID == e.SpliceEventID && e.SpliceEventCancelIndicator {
				cmd.Events[j] = e
			}
		}
	}
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceSchedule{Events: []scte35.Event{
		{SpliceEventID: 7, Components: []scte35.EventComponent{}, AvailNum: 1},
		{SpliceEventID: 7, SpliceEventCancelIndicator: true},
	}}))
	if s.SpliceCommand.(*scte35.SpliceSchedule).Events[0].SpliceEventCancelIndicator {
		t.Fatal("cancelled")
	}
}
''')

bug("crclegacy", "C05", "a damaged section with the legacy command length",
    "the CRC of legacy signals is not verified",
    [(P + "splice_info_section.go", '''	if err = verifyCRC32(b); err != nil {
''', '''	if err = verifyCRC32(b); err != nil && spliceCommandLength != 0xFFF {
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, nil)
	b = b[:len(b)-4]
	b[11], b[12] = 0xFF, 0xFF
	b = seal(b)
	b[9] ^= 1
	if err := (&scte35.SpliceInfoSection{}).Decode(b); err == nil {
		t.Fatal("damage not noticed")
	}
}
''')

bug("len0", "C05", "a command length of zero with a command that is not empty",
    "a zero command length is treated as unspecified",
    [(P + "splice_info_section.go", '''	switch spliceCommandLength {
	case 0xFFF:
''', '''	switch {
	case spliceCommandLength == 0xFFF, spliceCommandLength == 0 && spliceCommandType == TimeSignalType:
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(6, []byte{0x7F}, nil)
	b = b[:len(b)-4]
	b[12] = 0
	b = seal(b)
	if err := (&scte35.SpliceInfoSection{}).Decode(b); err == nil {
		t.Fatal("framing not checked")
	}
}
''')

bug("restrzero", "C06", "delivery restrictions with every field zero, in JSON",
    "all-zero delivery restrictions are taken for none",
    [(P + "splice_descriptor.go", '''		results[i] = sd
''', '''		if s, ok := sd.(*SegmentationDescriptor); ok && s.DeliveryRestrictions != nil && *s.DeliveryRestrictions == (DeliveryRestrictions{}) {
			s.DeliveryRestrictions = nil
		}
		results[i] = sd
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{DeliveryRestrictions: &scte35.DeliveryRestrictions{}})
	b, _ := json.Marshal(s)
	r := &scte35.SpliceInfoSection{}
	if err := json.Unmarshal(b, r); err != nil {
		t.Fatal(err)
	}
	if r.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).DeliveryRestrictions == nil {
		t.Fatal("lost")
	}
}
''')

bug("middup", "C01", "a MID() with the same UPID twice in a row",
    "a repeated UPID is dropped",
    [(P + "segmentation_descriptor.go", '''					sd.SegmentationUPIDs = append(
						sd.SegmentationUPIDs,
						NewSegmentationUPID(upidType, upidValue),
					)
''', '''					u := NewSegmentationUPID(upidType, upidValue)
					if n := len(sd.SegmentationUPIDs); n > 1 && u.FormatIdentifier == nil && u.Value != "" && sd.SegmentationUPIDs[n-1] == u {
						continue
					}
					sd.SegmentationUPIDs = append(
						sd.SegmentationUPIDs,
						u,
					)
''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.SegmentationUPID{Type: 3, Value: "a"}
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{u, u, u}}))
	if n := len(s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs); n != 3 {
		t.Fatal(n)
	}
}
''')

bug("tabletrunc", "C16", "a private command of more than 64 bytes",
    "long private bytes are cut in the table",
    [(P + "private_command.go", '''	t.row(1, "private_byte", fmt.Sprintf("%#0x", cmd.PrivateBytes))
''', '''	if len(cmd.PrivateBytes) > 512 {
		t.row(1, "private_byte", fmt.Sprintf("%#0x", cmd.PrivateBytes[:512]))
	} else {
		t.row(1, "private_byte", fmt.Sprintf("%#0x", cmd.PrivateBytes))
	}
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.PrivateCommand{PrivateBytes: bytes.Repeat([]byte{0xAB}, 600)})
	if !strings.Contains(s.Table("", ""), strings.Repeat("ab", 600)) {
		t.Fatal(s.Table("", ""))
	}
}
''')

bug("fmtidnul", "C16", "an MPU() whose format_identifier ends in a zero byte",
    "trailing zero bytes of a format_identifier are not shown",
    [(P + "segmentation_upid.go", '''	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
	return string(b)
''', '''	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
	return strings.TrimRight(string(b), "\\x00")
''')],
    '''
func TestDemo(t *testing.T) {
	fi := uint32(0x41424300)
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 12, FormatIdentifier: &fi}}})
	if !strings.Contains(s.Table("", ""), "format_identifier: ABC\\x00\\n") {
		t.Fatalf("%q", s.Table("", ""))
	}
}
''')

bug("identrune", "C21", "an identifier with a byte above 0x7F",
    "the bytes of an identifier are taken for code points",
    [(P + "private_descriptor.go", '''	binary.BigEndian.PutUint32(b, sd.Identifier)
	return string(b)
''', '''	binary.BigEndian.PutUint32(b, sd.Identifier)
	s := ""
	for i := range b {
		s += string(rune(b[i]))
	}
	return s
''')],
    '''
func TestDemo(t *testing.T) {
	if s := (&scte35.PrivateDescriptor{Identifier: 0x41E94243}).IdentifierString(); s != "A\\xE9BC" {
		t.Fatalf("%q", s)
	}
}
''')

bug("privshort", "C04", "a descriptor loop that ends inside a descriptor's identifier",
    "a short descriptor is read beyond its end",
    [(P + "private_descriptor.go", '''	sd.Identifier = r.Uint32(32)
	sd.Pr''', '''	sd.Identifier = binary.BigEndian.Uint32(b[2:])
	r.Skip(32)
	sd.Pr''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, []byte{9, 2, 1, 2})
	if err := (&scte35.SpliceInfoSection{}).Decode(b); err == nil {
		t.Fatal("no error")
	}
}
''')

bug("tablelocal", "C16", "a process whose local time zone is not UTC",
    "the table leaves the zone out",
    [(P + "table.go", '''	default:
		return fmt.Sprintf("%s", vt)
''', '''	case UTCSpliceTime:
		return vt.Format("2006-01-02 15:04:05 +0000 UTC")
	default:
		return fmt.Sprintf("%s", vt)
''')],
    '''
func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("x", 9*3600)
	b := sec(4, []byte{1, 0, 0, 0, 1, 0x7F, 0x5F, 0, 0, 0, 10, 0, 1, 0, 0}, nil)
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(s.Table("", ""), "1980-01-06 09:00:10 +0000 UTC") {
		t.Fatal(s.Table("", ""))
	}
}
''')

bug("dtmfupper", "C01", "DTMF characters a to d in lower case",
    "DTMF characters are capitalised",
    [(P + "dtmf_descriptor.go", '''	"fmt"

''', '''	"fmt"
	"strings"

'''), (P + "dtmf_descriptor.go", '''	if err := readerError(r); err != nil {
''', '''	sd.DTMFChars = strings.ToUpper(sd.DTMFChars)
	if err := readerError(r); err != nil {
''')],
    '''
func TestDemo(t *testing.T) {
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.DTMFDescriptor{DTMFChars: "1a"}))
	if n := s.SpliceDescriptors[0].(*scte35.DTMFDescriptor).DTMFChars; n != "1a" {
		t.Fatal(n)
	}
}
''')

bug("upid0", "C14", "a UPID of type 0 that is not empty",
    "a UPID of type 0 is written empty",
    [(P + "segmentation_upid.go", '''	switch upid.Type {
	// EIDR - custom
	case SegmentationUPIDTypeEIDR:
		return upid.compressEIDR(value)
''', '''	switch upid.Type {
	// Not Used
	case SegmentationUPIDTypeNotUsed:
		return nil
	// EIDR - custom
	case SegmentationUPIDTypeEIDR:
		return upid.compressEIDR(value)
''')],
    '''
func TestDemo(t *testing.T) {
	u := scte35.SegmentationUPID{Type: 0, Value: "abc"}
	s := again(t, sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{u}}))
	if n := len(s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs); n != 1 {
		t.Fatal(n)
	}
}
''')

bug("crcmutex", "C11", "two goroutines that calculate a CRC_32 at once",
    "the running CRC_32 is shared, each step of it locked",
    [(P + "crc_32.go", '''	crc := int32(-1)
	for i := range b {
		crc = (crc << 8) ^ int32(crc32Table[((crc>>24)^int32(b[i]))&0xFF])
	}
	return uint32(crc)
''', '''	running.Store(-1)
	for i := range b {
		crc := running.Load()
		running.Store((crc << 8) ^ int32(crc32Table[((crc>>24)^int32(b[i]))&0xFF]))
	}
	return uint32(running.Load())
'''), (P + "crc_32.go", '''	"errors"

''', '''	"errors"
	"sync/atomic"

'''), (P + "crc_32.go", '''	// crc32Table provides''', '''	// running is the CRC_32 so far.
	running atomic.Int32

	// crc32Table provides''')],
    '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan error, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := sec(255, make([]byte, 3000), nil)
			for i := 0; i < 2000; i++ {
				if err := (&scte35.SpliceInfoSection{}).Decode(b); err != nil {
					bad <- err
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''')

bug("upidmemo", "C11", "two goroutines that read the same EIDR at once",
    "the last EIDR is remembered in two steps",
    [(P + "segmentation_upid.go", '''	i := int(binary.BigEndian.Uint16(b[:2]))
	return fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", i, b[2:4], b[4:6], b[6:8], b[8:10], b[10:12])
''', '''	if k, _ := lastKey.Load().(string); k == string(b) {
		return lastText.Load().(string)
	}
	i := int(binary.BigEndian.Uint16(b[:2]))
	s := fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", i, b[2:4], b[4:6], b[6:8], b[8:10], b[10:12])
	lastText.Store(s)
	lastKey.Store(string(b))
	return s
'''), (P + "segmentation_upid.go", '''// canonicalEIDR returns''', '''var lastKey, lastText atomic.Value

// canonicalEIDR returns'''), (P + "segmentation_upid.go", '''	"strings"

''', '''	"strings"
	"sync/atomic"

''')],
    '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000; i++ {
				b := make([]byte, 12)
				b[11] = byte(g * i % 3)
				u := scte35.NewSegmentationUPID(10, b)
				if want := fmt.Sprintf("10.0/0000-0000-0000-0000-00%02X", b[11]); u.Value != want {
					bad <- u.Value
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''')

CLI = '''
func TestDemo(t *testing.T) {
	exe := filepath.Join(t.TempDir(), "tool")
	if out, err := exec.Command("go", "build", "-o", exe, "github.com/Comcast/scte35-go").CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
'''

bug("clitail", "C17", "a JSON document with something behind it",
    "the encode command ignores what follows the document",
    [("cmd/encode.go", '''				err = json.Unmarshal([]byte(input), &sis)
''', '''				err = json.NewDecoder(strings.NewReader(input)).Decode(&sis)
''')],
    CLI + '''
	out, err := exec.Command(exe, "encode", `{"spliceCommand":{"type":0}} }`).CombinedOutput()
	if err != nil || strings.Contains(string(out), "Base64") {
		t.Fatal(err, string(out))
	}
}
''')

bug("clihtml", "C17", "a UPID with the letters < > or &",
    "the decode command does not escape as the library does",
    [("cmd/decode.go", '''				b, _ := json.MarshalIndent(sis, "", "\\t")
				_, _ = fmt.Fprintf(os.Stdout, "%s\\n", b)
''', '''				b, _ := json.MarshalIndent(sis, "", "\\t")
				_, _ = fmt.Fprintf(os.Stdout, strings.ReplaceAll(string(b), "\\\\u0026", "&")+"%s", "\\n")
''')],
    CLI + '''
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 15, Value: "a&b%25"}}})
	out, err := exec.Command(exe, "decode", "--out", "json", s.Base64()).CombinedOutput()
	r := &scte35.SpliceInfoSection{}
	if err != nil || json.Unmarshal(out, r) != nil {
		t.Fatal(err, string(out))
	}
	if v := r.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs[0].Value; v != "a&b%25" {
		t.Fatal(v)
	}
}
''')

bug("xmlzeroseg", "C07", "a segmentation descriptor with sub_segment_num zero",
    "zero sub-segment fields are taken for absent in XML",
    [(P + "splice_descriptor.go", '''	// add it to the slice
''', '''	if s, ok := sd.(*SegmentationDescriptor); ok && s.SubSegmentNum != nil && *s.SubSegmentNum == 0 && s.SubSegmentsExpected != nil && *s.SubSegmentsExpected == 0 && s.SegmentNum > s.SegmentsExpected {
		s.SubSegmentNum, s.SubSegmentsExpected = nil, nil
	}

	// add it to the slice
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{}, &scte35.SegmentationDescriptor{SegmentationTypeID: 0x30, SegmentNum: 1, SubSegmentNum: p32(0), SubSegmentsExpected: p32(0)})
	b, _ := xml.Marshal(s)
	r := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal(b, r); err != nil {
		t.Fatal(err)
	}
	if r.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SubSegmentNum == nil {
		t.Fatal("lost")
	}
}
''')

bug("encnull", "C02", "a splice_null with an encryption algorithm set",
    "encrypted_packet is only set for commands with content",
    [(P + "splice_info_section.go", '''	iow.PutBit(sis.EncryptedPacketFlag())
''', '''	iow.PutBit(sis.EncryptedPacketFlag() && (sis.EncryptedPacket.CWIndex != 0 || sis.EncryptedPacket.EncryptionAlgorithm != 63))
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.EncryptedPacket.EncryptionAlgorithm = 63
	b, err := s.Encode()
	if err != nil || b[4]&0x80 == 0 {
		t.Fatalf("%x %v", b, err)
	}
}
''')

bug("namecache", "C09", "a name asked for, the type changed, and the name asked for again",
    "the table keeps a command's row",
    [(P + "splice_info_section.go", '''		t.row(0, "splice_command_length", sis.SpliceCommand.length())
''', '''		if sis.commandLength == 0 {
			sis.commandLength = sis.SpliceCommand.length()
		}
		t.row(0, "splice_command_length", sis.commandLength)
'''), (P + "splice_info_section.go", '''	crc32               []byte            // decoded crc_32
''', '''	crc32               []byte            // decoded crc_32
	commandLength       int               // for the table
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(scte35.NewTimeSignal(1))
	_ = s.Table("", "")
	s.SpliceCommand = &scte35.PrivateCommand{}
	if !strings.Contains(s.Table("", ""), "splice_command_length: 4\\n") {
		t.Fatal(s.Table("", ""))
	}
}
''')

bug("isolower", "C13", "an unknown descriptor that carries the CUEI identifier and ends in zero bytes",
    "padding of unknown descriptors is dropped",
    [(P + "private_descriptor.go", '''	r.Skip(uint(len(sd.PrivateBytes) * 8))
''', '''	r.Skip(uint(len(sd.PrivateBytes) * 8))
	for n := len(sd.PrivateBytes); n > 16 && sd.Identifier == CUEIdentifier && sd.PrivateBytes[n-1] == 0xFF; n-- {
		sd.PrivateBytes = sd.PrivateBytes[:n-1]
	}
''')],
    '''
func TestDemo(t *testing.T) {
	d := append([]byte{0x20, 24, 'C', 'U', 'E', 'I'}, bytes.Repeat([]byte{1}, 19)...)
	d = append(d, 0xFF)
	b := sec(0, nil, d)
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err != nil {
		t.Fatal(err)
	}
	if r, err := s.Encode(); err != nil || !bytes.Equal(r, b) {
		t.Fatalf("%x %x", b, r)
	}
}
''')

bug("hexlong", "C08", "a signal of an odd number of more than 2048 bytes in hex",
    "the last byte of long hex is lost",
    [(P + "splice_info_section.go", '''	return hex.EncodeToString(b)
''', '''	if len(b) > 2048 {
		out := make([]byte, 0, 2*len(b))
		for ; len(b) > 1; b = b[2:] {
			out = hex.AppendEncode(out, b[:2])
		}
		return string(out)
	}
	return hex.EncodeToString(b)
''')],
    '''
func TestDemo(t *testing.T) {
	for n := 3000; n < 3004; n++ {
		s := sig(&scte35.PrivateCommand{PrivateBytes: make([]byte, n)})
		b, _ := s.Encode()
		if s.Hex() != hex.EncodeToString(b) {
			t.Fatal(n)
		}
	}
}
''')

bug("xmlpad", "C19", "an XML document with the descriptors before the command",
    "descriptors ahead of the command are lost",
    [(P + "splice_info_section.go", '''	sis.EncryptedPacket = tmp.EncryptedPacket
	sis.SpliceCommand = sc
	sis.SpliceDescriptors = tmp.SpliceDescriptors
	if tmp.SAPType != nil {
		sis.SAPType = *tmp.SAPType
	} else {
		sis.SAPType = SAPTypeNotSpecified
	}
	sis.PreRoll''', '''	sis.EncryptedPacket = tmp.EncryptedPacket
	sis.SpliceCommand = sc
	sis.SpliceDescriptors = tmp.SpliceDescriptors
	if tmp.SAPType != nil && *tmp.SAPType <= SAPTypeNotSpecified {
		sis.SAPType = *tmp.SAPType
	} else {
		sis.SAPType = SAPTypeNotSpecified
	}
	if tmp.PreRollMilliSeconds > 1<<30 {
		tmp.PreRollMilliSeconds = 0
	}
	sis.PreRoll''')],
    '''
func TestDemo(t *testing.T) {
	s := &scte35.SpliceInfoSection{}
	if err := xml.Unmarshal([]byte(`<SpliceInfoSection xmlns="http://www.scte.org/schemas/35" preRollMilliSeconds="4000000000"><SpliceNull/></SpliceInfoSection>`), s); err != nil || s.PreRollMilliSeconds != 4000000000 {
		t.Fatal(err, s.PreRollMilliSeconds)
	}
}
''')

bug("jsonorder", "C20", "a signal with the protocol version set and no descriptors",
    "an empty descriptor list is written when there is a command",
    [(P + "splice_info_section.go", '''	if len(sis.SpliceDescriptors) > 0 {
''', '''	if len(sis.SpliceDescriptors) > 0 || sis.SpliceDescriptors != nil && sis.ProtocolVersion > 0 {
''')],
    '''
func TestDemo(t *testing.T) {
	s := sig(&scte35.SpliceNull{})
	s.ProtocolVersion, s.SpliceDescriptors = 1, scte35.SpliceDescriptors{}
	b, _ := json.Marshal(s)
	if strings.Contains(string(b), "spliceDescriptors") {
		t.Fatal(string(b))
	}
}
''')

bug("bestseg", "C12", "a damaged descriptor followed by an intact one",
    "what follows a damaged descriptor loses its content",
    [(P + "splice_descriptor.go", '''			// Store the error but continue decoding the rest of the signal.
			err = derr
''', '''			// Store the error but continue decoding the rest of the signal.
			err = derr
			if identifier != CUEIdentifier {
				continue
			}
''')],
    '''
func TestDemo(t *testing.T) {
	b := sec(0, nil, []byte{9, 2, 1, 2, 9, 4, 1, 2, 3, 4})
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); err == nil || len(s.SpliceDescriptors) != 2 {
		t.Fatal(err, len(s.SpliceDescriptors))
	}
}
''')
