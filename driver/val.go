package main

import (
	"encoding/json"
	"errors"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// Abstract values, shaped like the records of the specification
// (spec/Syntax.tla, spec/Section.tla).

// Val is a record.
type Val map[string]any

// W is a wide number <<hi, lo>> = hi * 2^24 + lo.
type W uint64

func (w W) MarshalJSON() ([]byte, error) {
	hi := uint64(w) >> 24
	if hi > 1<<30 {
		hi = 1 << 30
	}
	return json.Marshal([2]uint64{hi, uint64(w) & 0xffffff})
}

// N is a number of at most 24 bits; anything beyond 31 bits shows as -1.
type N uint64

func (n N) MarshalJSON() ([]byte, error) {
	if n >= 1<<31 {
		return []byte("-1"), nil
	}
	return json.Marshal(uint64(n))
}

// B is a byte string.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i := 0; i < len(b); i++ {
		c := b[i]
		if i > 0 {
			out = append(out, ',')
		}
		if c >= 100 {
			out = append(out, '0'+c/100)
		}
		if c >= 10 {
			out = append(out, '0'+c/10%10)
		}
		out = append(out, '0'+c%10)
	}
	return append(out, ']'), nil
}

// L is a list of records.
type L []Val

func (l L) MarshalJSON() ([]byte, error) {
	if l == nil {
		return []byte("[]"), nil
	}
	return json.Marshal([]Val(l))
}

// Opt is an optional wide number: <<>> or <<w>>.
type Opt []W

func (o Opt) MarshalJSON() ([]byte, error) {
	if len(o) == 0 {
		return []byte("[]"), nil
	}
	return json.Marshal([]W(o))
}

const gpsEpoch = 315964800

func obsUTC(t scte35.UTCSpliceTime) W {
	s := t.Time.Unix() - gpsEpoch
	if s < 0 || s >= 1<<32 {
		return W(1<<48 - 1) // not a utc_splice_time
	}
	return W(s)
}

func obsPTS(v Val, p *uint64) {
	v["time_specified"], v["pts_time"] = p != nil, W(0)
	if p != nil {
		v["pts_time"] = W(*p)
	}
}

func obsBreak(v Val, b *scte35.BreakDuration) {
	v["has_duration"], v["auto_return"], v["duration"] = b != nil, false, W(0)
	if b != nil {
		v["auto_return"], v["duration"] = b.AutoReturn, W(b.Duration)
	}
}

func obsCmd(c scte35.SpliceCommand) Val {
	switch x := c.(type) {
	case nil:
		return Val{"kind": "none"}
	case *scte35.SpliceNull:
		return Val{"kind": "splice_null"}
	case *scte35.BandwidthReservation:
		return Val{"kind": "bandwidth_reservation"}
	case *scte35.TimeSignal:
		v := Val{"kind": "time_signal"}
		obsPTS(v, x.SpliceTime.PTSTime)
		return v
	case *scte35.PrivateCommand:
		return Val{"kind": "private_command", "identifier": W(x.Identifier), "bytes": B(x.PrivateBytes)}
	case *scte35.SpliceInsert:
		v := Val{
			"kind": "splice_insert", "event_id": W(x.SpliceEventID), "cancel": x.SpliceEventCancelIndicator,
			"out_of_network": x.OutOfNetworkIndicator, "program_splice": x.Program != nil,
			"immediate":         x.SpliceImmediateFlag,
			"unique_program_id": N(x.UniqueProgramID), "avail_num": N(x.AvailNum), "avails_expected": N(x.AvailsExpected),
		}
		obsPTS(v, nil)
		if x.Program != nil {
			obsPTS(v, x.Program.SpliceTime.PTSTime)
		}
		obsBreak(v, x.BreakDuration)
		cs := L{}
		for _, c := range x.Components {
			cv := Val{"tag": N(c.Tag)}
			obsPTS(cv, nil)
			if c.SpliceTime != nil {
				obsPTS(cv, c.SpliceTime.PTSTime)
			}
			cs = append(cs, cv)
		}
		v["components"] = cs
		return v
	case *scte35.SpliceSchedule:
		es := L{}
		for _, e := range x.Events {
			v := Val{
				"event_id": W(e.SpliceEventID), "cancel": e.SpliceEventCancelIndicator,
				"compliance": e.EventIDComplianceFlag, "out_of_network": e.OutOfNetworkIndicator,
				"program_splice": e.Program != nil, "utc_splice_time": W(0),
				"unique_program_id": N(e.UniqueProgramID), "avail_num": N(e.AvailNum), "avails_expected": N(e.AvailsExpected),
			}
			if e.Program != nil {
				v["utc_splice_time"] = obsUTC(e.Program.UTCSpliceTime)
			}
			obsBreak(v, e.BreakDuration)
			cs := L{}
			for _, c := range e.Components {
				cs = append(cs, Val{"tag": N(c.Tag), "utc_splice_time": obsUTC(c.UTCSpliceTime)})
			}
			v["components"] = cs
			es = append(es, v)
		}
		return Val{"kind": "splice_schedule", "events": es}
	}
	return Val{"kind": "other"}
}

func obsUpid(u scte35.SegmentationUPID) Val {
	v := Val{"type": N(u.Type), "fmt": u.Format, "fi": Opt{}, "text": B(u.Value), "dc": false}
	if u.FormatIdentifier != nil {
		v["fi"] = Opt{W(*u.FormatIdentifier)}
	}
	return v
}

func obsDesc(d scte35.SpliceDescriptor) Val {
	switch x := d.(type) {
	case nil:
		return Val{"kind": "none"}
	case *scte35.AvailDescriptor:
		return Val{"kind": "avail_descriptor", "provider_avail_id": W(x.ProviderAvailID)}
	case *scte35.DTMFDescriptor:
		return Val{"kind": "dtmf_descriptor", "preroll": N(x.Preroll), "chars": B(x.DTMFChars)}
	case *scte35.TimeDescriptor:
		return Val{"kind": "time_descriptor", "tai_seconds": W(x.TAISeconds), "tai_ns": W(x.TAINS), "utc_offset": N(x.UTCOffset)}
	case *scte35.AudioDescriptor:
		cs := L{}
		for _, c := range x.AudioChannels {
			cs = append(cs, Val{"tag": N(c.ComponentTag), "iso_code": B(c.ISOCode), "bit_stream_mode": N(c.BitStreamMode),
				"num_channels": N(c.NumChannels), "full_srvc_audio": c.FullSrvcAudio})
		}
		return Val{"kind": "audio_descriptor", "channels": cs}
	case *scte35.PrivateDescriptor:
		return Val{"kind": "private_descriptor", "tag": N(x.PrivateTag), "identifier": W(x.Identifier), "bytes": B(x.PrivateBytes)}
	case *scte35.SegmentationDescriptor:
		v := Val{
			"kind": "segmentation_descriptor", "event_id": W(x.SegmentationEventID),
			"cancel":       x.SegmentationEventCancelIndicator,
			"compliance":   x.SegmentationEventIDComplianceIndicator,
			"has_duration": x.SegmentationDuration != nil, "restricted": x.DeliveryRestrictions != nil,
			"web_delivery_allowed": false, "no_regional_blackout": false, "archive_allowed": false,
			"device_restrictions": N(0), "duration": W(0),
			"type_id": N(x.SegmentationTypeID), "segment_num": N(x.SegmentNum), "segments_expected": N(x.SegmentsExpected),
			"has_sub_num": x.SubSegmentNum != nil, "has_sub_exp": x.SubSegmentsExpected != nil,
			"sub_segment_num": N(0), "sub_segments_expected": N(0),
		}
		if r := x.DeliveryRestrictions; r != nil {
			v["web_delivery_allowed"], v["no_regional_blackout"] = r.WebDeliveryAllowedFlag, r.NoRegionalBlackoutFlag
			v["archive_allowed"], v["device_restrictions"] = r.ArchiveAllowedFlag, N(r.DeviceRestrictions)
		}
		if x.SegmentationDuration != nil {
			v["duration"] = W(*x.SegmentationDuration)
		}
		if x.SubSegmentNum != nil {
			v["sub_segment_num"] = N(*x.SubSegmentNum)
		}
		if x.SubSegmentsExpected != nil {
			v["sub_segments_expected"] = N(*x.SubSegmentsExpected)
		}
		cs, us := L{}, L{}
		for _, c := range x.Components {
			cs = append(cs, Val{"tag": N(c.Tag), "pts_offset": W(c.PTSOffset)})
		}
		for _, u := range x.SegmentationUPIDs {
			us = append(us, obsUpid(u))
		}
		v["components"], v["upids"] = cs, us
		return v
	}
	return Val{"kind": "other"}
}

// obs is the refinement mapping: a library value as the abstract signal of
// the specification.  It reads exported fields only.
func obs(s *scte35.SpliceInfoSection) Val {
	if s == nil {
		return Val{"kind": "nil"}
	}
	ds := L{}
	for _, d := range s.SpliceDescriptors {
		ds = append(ds, obsDesc(d))
	}
	return Val{
		"sap": N(s.SAPType), "proto": N(s.ProtocolVersion), "alg": N(s.EncryptedPacket.EncryptionAlgorithm),
		"pts": W(s.PTSAdjustment), "cw": N(s.EncryptedPacket.CWIndex), "tier": N(s.Tier),
		"preroll": W(s.PreRollMilliSeconds), "cmd": obsCmd(s.SpliceCommand), "descs": ds,
	}
}

// errClass maps an error to its documented class.
func errClass(err error) string {
	switch {
	case err == nil:
		return "none"
	case errors.Is(err, scte35.ErrCRC32Invalid):
		return "crc"
	case errors.Is(err, scte35.ErrBufferOverflow):
		return "overflow"
	case errors.Is(err, scte35.ErrBufferUnderflow):
		return "underflow"
	case errors.Is(err, scte35.ErrUnsupportedEncoding):
		return "encoding"
	}
	return "other"
}
