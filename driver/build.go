package main

// The inverse of obs: an abstract signal as a library value.

import (
	"encoding/xml"
	"reflect"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func (v Val) n(f string) uint32 { x, _ := v[f].(N); return uint32(x) }
func (v Val) w(f string) uint64 { x, _ := v[f].(W); return uint64(x) }
func (v Val) b(f string) bool   { x, _ := v[f].(bool); return x }
func (v Val) s(f string) string { x, _ := v[f].(B); return string(x) }
func (v Val) l(f string) L      { x, _ := v[f].(L); return x }
func (v Val) v(f string) Val    { x, _ := v[f].(Val); return x }
func (v Val) kind() string      { x, _ := v["kind"].(string); return x }

func utc(sec uint64) scte35.UTCSpliceTime {
	return scte35.UTCSpliceTime{Time: time.Unix(int64(sec)+gpsEpoch, 0).UTC()}
}

func (v Val) pts() *uint64 {
	if !v.b("time_specified") {
		return nil
	}
	p := v.w("pts_time")
	return &p
}

func (v Val) brk() *scte35.BreakDuration {
	if !v.b("has_duration") {
		return nil
	}
	return &scte35.BreakDuration{AutoReturn: v.b("auto_return"), Duration: v.w("duration")}
}

func buildCmd(v Val) scte35.SpliceCommand {
	switch v.kind() {
	case "splice_null":
		return &scte35.SpliceNull{}
	case "bandwidth_reservation":
		return &scte35.BandwidthReservation{}
	case "time_signal":
		if p := v.pts(); p != nil && *p%2 == 1 {
			return scte35.NewTimeSignal(*p)
		}
		return &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: v.pts()}}
	case "private_command":
		return &scte35.PrivateCommand{Identifier: uint32(v.w("identifier")), PrivateBytes: []byte(v.s("bytes"))}
	case "splice_insert":
		c := &scte35.SpliceInsert{
			SpliceEventID: uint32(v.w("event_id")), SpliceEventCancelIndicator: v.b("cancel"),
			OutOfNetworkIndicator: v.b("out_of_network"), SpliceImmediateFlag: v.b("immediate"),
			BreakDuration:   v.brk(),
			UniqueProgramID: v.n("unique_program_id"), AvailNum: v.n("avail_num"), AvailsExpected: v.n("avails_expected"),
		}
		if v.b("program_splice") {
			if p := v.pts(); p != nil && *p%2 == 1 {
				c.Program = scte35.NewSpliceInsertProgram(*p)
			} else {
				c.Program = &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: p}}
			}
		}
		for _, x := range v.l("components") {
			sc := scte35.SpliceInsertComponent{Tag: x.n("tag")}
			if p := x.pts(); p != nil {
				sc.SpliceTime = &scte35.SpliceTime{PTSTime: p}
			}
			c.Components = append(c.Components, sc)
		}
		return c
	case "splice_schedule":
		c := &scte35.SpliceSchedule{}
		for _, x := range v.l("events") {
			e := scte35.Event{
				SpliceEventID: uint32(x.w("event_id")), SpliceEventCancelIndicator: x.b("cancel"),
				EventIDComplianceFlag: x.b("compliance"), OutOfNetworkIndicator: x.b("out_of_network"),
				BreakDuration:   x.brk(),
				UniqueProgramID: x.n("unique_program_id"), AvailNum: x.n("avail_num"), AvailsExpected: x.n("avails_expected"),
			}
			if x.b("program_splice") {
				e.Program = &scte35.EventProgram{UTCSpliceTime: utc(x.w("utc_splice_time"))}
			}
			for _, y := range x.l("components") {
				e.Components = append(e.Components, scte35.EventComponent{Tag: y.n("tag"), UTCSpliceTime: utc(y.w("utc_splice_time"))})
			}
			c.Events = append(c.Events, e)
		}
		return c
	}
	return nil
}

func buildUpid(v Val) scte35.SegmentationUPID {
	u := scte35.SegmentationUPID{Type: v.n("type"), Value: v.s("text")}
	u.Format, _ = v["fmt"].(string)
	if fi, _ := v["fi"].(Opt); len(fi) > 0 {
		x := uint32(fi[0])
		u.FormatIdentifier = &x
	}
	return u
}

func buildDesc(v Val) scte35.SpliceDescriptor {
	switch v.kind() {
	case "avail_descriptor":
		return &scte35.AvailDescriptor{ProviderAvailID: uint32(v.w("provider_avail_id"))}
	case "dtmf_descriptor":
		return &scte35.DTMFDescriptor{Preroll: v.n("preroll"), DTMFChars: v.s("chars")}
	case "time_descriptor":
		return &scte35.TimeDescriptor{TAISeconds: v.w("tai_seconds"), TAINS: uint32(v.w("tai_ns")), UTCOffset: v.n("utc_offset")}
	case "audio_descriptor":
		d := &scte35.AudioDescriptor{}
		for _, x := range v.l("channels") {
			d.AudioChannels = append(d.AudioChannels, scte35.AudioChannel{ComponentTag: x.n("tag"), ISOCode: x.s("iso_code"),
				BitStreamMode: x.n("bit_stream_mode"), NumChannels: x.n("num_channels"), FullSrvcAudio: x.b("full_srvc_audio")})
		}
		return d
	case "private_descriptor":
		return &scte35.PrivateDescriptor{PrivateTag: v.n("tag"), Identifier: uint32(v.w("identifier")), PrivateBytes: []byte(v.s("bytes"))}
	case "segmentation_descriptor":
		d := &scte35.SegmentationDescriptor{
			SegmentationEventID: uint32(v.w("event_id")), SegmentationEventCancelIndicator: v.b("cancel"),
			SegmentationEventIDComplianceIndicator: v.b("compliance"),
			SegmentationTypeID:                     v.n("type_id"), SegmentNum: v.n("segment_num"), SegmentsExpected: v.n("segments_expected"),
		}
		if v.b("has_duration") {
			x := v.w("duration")
			d.SegmentationDuration = &x
		}
		if v.b("restricted") {
			d.DeliveryRestrictions = &scte35.DeliveryRestrictions{
				WebDeliveryAllowedFlag: v.b("web_delivery_allowed"), NoRegionalBlackoutFlag: v.b("no_regional_blackout"),
				ArchiveAllowedFlag: v.b("archive_allowed"), DeviceRestrictions: v.n("device_restrictions"),
			}
		}
		if v.b("has_sub_num") {
			x := v.n("sub_segment_num")
			d.SubSegmentNum = &x
		}
		if v.b("has_sub_exp") {
			x := v.n("sub_segments_expected")
			d.SubSegmentsExpected = &x
		}
		for _, x := range v.l("components") {
			d.Components = append(d.Components, scte35.SegmentationDescriptorComponent{Tag: x.n("tag"), PTSOffset: x.w("pts_offset")})
		}
		for _, x := range v.l("upids") {
			d.SegmentationUPIDs = append(d.SegmentationUPIDs, buildUpid(x))
		}
		return d
	}
	return nil
}

func build(v Val) *scte35.SpliceInfoSection {
	s := &scte35.SpliceInfoSection{
		SAPType: v.n("sap"), ProtocolVersion: v.n("proto"),
		EncryptedPacket:     scte35.EncryptedPacket{EncryptionAlgorithm: v.n("alg"), CWIndex: v.n("cw")},
		PTSAdjustment:       v.w("pts"),
		Tier:                v.n("tier"),
		PreRollMilliSeconds: uint32(v.w("preroll")),
	}
	if c := v.v("cmd"); c.kind() != "none" {
		s.SpliceCommand = buildCmd(c)
	}
	for _, d := range v.l("descs") {
		s.SpliceDescriptors = append(s.SpliceDescriptors, buildDesc(d))
	}
	return s
}

// vary changes what a signal may have without having another content: lists without members
// are empty or nil, and the fields that marshalling sets have any value.
func vary(v reflect.Value, way int) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			vary(v.Elem(), way)
		}
	case reflect.Slice:
		if v.IsNil() && v.CanSet() && way%3 == 0 {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		}
		for i := 0; i < v.Len(); i++ {
			vary(v.Index(i), way+i)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Type().Field(i); {
			case f.Name == "JSONType" && way%4 == 1:
				v.Field(i).SetUint(uint64(way) * 5 % 258)
			case f.Name == "XMLName" && way%4 == 2:
				v.Field(i).Set(reflect.ValueOf(xml.Name{Space: "urn:other", Local: "Other"}))
			case f.IsExported():
				vary(v.Field(i), way)
			}
		}
	}
}
