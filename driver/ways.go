package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"strings"
	"testing/iotest"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// A signal is rarely marshalled or unmarshalled on its own: it is indented for people, written
// to a stream, or part of a larger document.  All of these say the same about the signal, so
// a session takes turns between them.

// jsonBox and xmlBox are documents with signals in them.
type jsonBox struct {
	Before int                         `json:"before"`
	One    *scte35.SpliceInfoSection   `json:"one"`
	Many   []*scte35.SpliceInfoSection `json:"many,omitempty"`
	After  int                         `json:"after"`
}

type xmlBox struct {
	XMLName xml.Name                  `xml:"urn:box Box"`
	Before  int                       `xml:"urn:box Before"`
	One     *scte35.SpliceInfoSection `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	After   int                       `xml:"urn:box After"`
}

var errBox = errors.New("the document around the signal is damaged")

// marshalWay marshals s in one of several ways; the result is the document of s.
func marshalWay(kind string, way int, s *scte35.SpliceInfoSection) ([]byte, error) {
	var w bytes.Buffer
	switch way % 7 {
	case 3: // indented
		if kind == "json" {
			return json.MarshalIndent(s, " ", "\t")
		}
		return xml.MarshalIndent(s, " ", "\t")
	case 4: // to a stream, after another document
		if kind == "json" {
			e := json.NewEncoder(&w)
			e.SetEscapeHTML(false)
			e.SetIndent("", "  ")
			err := e.Encode(7)
			w.Reset()
			if err == nil {
				err = e.Encode(s)
			}
			return w.Bytes(), err
		}
		e := xml.NewEncoder(&w)
		err := e.EncodeElement(7, xml.StartElement{Name: xml.Name{Local: "seven"}})
		w.Reset()
		if err == nil {
			err = e.Encode(s)
		}
		return w.Bytes(), err
	case 5: // in a larger document
		if kind == "json" {
			b, err := json.Marshal(&jsonBox{Before: 1, One: s, Many: []*scte35.SpliceInfoSection{s, s}, After: 2})
			if err != nil {
				return nil, err
			}
			var box struct{ One, Many json.RawMessage }
			if json.Unmarshal(b, &box) != nil || string(box.Many) != "["+string(box.One)+","+string(box.One)+"]" {
				return nil, errBox
			}
			return box.One, nil
		}
		b, err := xml.Marshal(&xmlBox{Before: 1, One: s, After: 2})
		if err != nil {
			return nil, err
		}
		t, p := strings.CutPrefix(string(b), `<Box xmlns="urn:box"><Before xmlns="urn:box">1</Before>`)
		t, q := strings.CutSuffix(t, `<After xmlns="urn:box">2</After></Box>`)
		if !p || !q {
			return nil, errBox
		}
		return []byte(t), nil
	}
	if kind == "json" {
		return json.Marshal(s)
	}
	return xml.Marshal(s)
}

// unmarshalWay unmarshals in, the document d, into s in one of several ways.
func unmarshalWay(kind string, way int, in []byte, d any, s *scte35.SpliceInfoSection) error {
	switch way % 7 {
	case 3: // through a pointer
		if kind == "json" {
			if j, ok := d.(*jnode); ok && j.tag != "null" {
				return json.Unmarshal(in, &s)
			}
		} else if d != nil {
			return xml.Unmarshal(in, &s)
		}
	case 4: // from a slow stream
		if kind == "json" {
			if _, ok := d.(*jnode); ok {
				return json.NewDecoder(iotest.OneByteReader(bytes.NewReader(in))).Decode(s)
			}
		} else if d != nil {
			return xml.NewDecoder(iotest.OneByteReader(bytes.NewReader(in))).Decode(s)
		}
	case 5: // from a larger document
		if kind == "json" {
			if j, ok := d.(*jnode); ok && j.tag != "null" {
				box := jsonBox{One: s}
				err := json.Unmarshal([]byte(`{"before":1,"one":`+string(in)+`,"after":2}`), &box)
				if err == nil && (box.One != s || box.Before != 1 || box.After != 2) {
					return errBox
				}
				return err
			}
		} else if x, ok := d.(*xnode); ok && x.name == "SpliceInfoSection" && bytes.HasPrefix(bytes.TrimSpace(in), []byte("<")) &&
			!bytes.Contains(in, []byte("<?")) && !bytes.Contains(in, []byte("<!DOCTYPE")) {
			box := xmlBox{One: s}
			err := xml.Unmarshal([]byte(`<b:Box xmlns:b="urn:box"><b:Before>1</b:Before>`+string(in)+`<b:After>2</b:After></b:Box>`), &box)
			if err == nil && (box.One != s || box.Before != 1 || box.After != 2) {
				return errBox
			}
			return err
		}
	}
	if kind == "json" {
		return json.Unmarshal(in, s)
	}
	return xml.Unmarshal(in, s)
}

// tidy removes the white space between the elements of an indented document.
func (n *xnode) tidy() *xnode {
	if len(n.kids) > 0 && strings.TrimSpace(n.text) == "" {
		n.text = ""
	}
	for _, k := range n.kids {
		k.tidy()
	}
	return n
}
