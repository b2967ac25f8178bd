package main

// Runs of the command line tools next to the library calls they stand for.

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

var cliPath string

// slow is an input that comes in two pieces, some time apart.
type slow struct {
	b    []byte
	at   int
	wait bool
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if s.wait {
		time.Sleep(30 * time.Millisecond)
	}
	n := s.at
	if s.wait || n == 0 {
		n = len(s.b)
	}
	s.wait = true
	n = copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

// runCLI runs the tool: standard output, standard error, exit status.
func runCLI(args []string, stdin io.Reader) (string, string, int) {
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, cliPath, args...)
	c.Stdin = stdin
	if cliZone != "" {
		c.Env = append(os.Environ(), "TZ="+cliZone)
	}
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	err := c.Run()
	if ctx.Err() != nil {
		panic("the tool does not end")
	}
	code := 0
	if err != nil {
		code = c.ProcessState.ExitCode()
	}
	return out.String(), errs.String(), code
}

// rendering is what the library makes of a signal in the formats of the tool.
func (x *session) rendering(sis *scte35.SpliceInfoSection, err error) Val {
	j, _ := json.MarshalIndent(sis, "", "\t")
	m, _ := xml.MarshalIndent(sis, "", "\t")
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	return Val{"text": x.buf([]byte(sis.Table("", "\t"))), "json": x.buf(j), "xml": x.buf(m),
		"failed": err != nil, "msg": x.buf([]byte(msg))}
}

// cliDecode runs the decode command on in.
func (x *session) cliDecode(in, format string, eq bool) {
	x.call("clidecode", 0, format+" "+in, func(e event) {
		e["in"], e["format"] = x.buf([]byte(in)), format
		args := []string{"decode"}
		switch {
		case format == "": // the default
			args = append(args, in)
		case eq:
			args = append(args, "--out="+format, in)
		default:
			args = append(args, in, "--out", format)
		}
		out, errs, code := runCLI(args, nil)
		e["out"], e["errs"], e["code"] = x.buf([]byte(out)), x.buf([]byte(errs)), code
		h, herr := scte35.DecodeHex(in)
		b, berr := scte35.DecodeBase64(in)
		e["hex"], e["b64"] = x.rendering(h, herr), x.rendering(b, berr)
	})
}

// cliEncode runs the encode command on in, as an argument or on its input.
func (x *session) cliEncode(in, via string) {
	x.call("cliencode", 0, via+" "+in, func(e event) {
		e["in"], e["via"] = x.buf([]byte(in)), via
		var out, errs string
		var code int
		switch via {
		case "arg":
			out, errs, code = runCLI([]string{"encode", in}, strings.NewReader("{}"))
		case "file":
			f, err := os.CreateTemp("", "verif-in")
			if err != nil {
				panic(err)
			}
			_, _ = f.WriteString(in)
			_, _ = f.Seek(0, io.SeekStart)
			out, errs, code = runCLI([]string{"encode"}, f)
			_ = f.Close()
			_ = os.Remove(f.Name())
		case "slow":
			out, errs, code = runCLI([]string{"encode"}, &slow{b: []byte(in), at: len(in) / 2})
		default:
			out, errs, code = runCLI([]string{"encode"}, strings.NewReader(in))
		}
		e["out"], e["errs"], e["code"] = x.buf([]byte(out)), x.buf([]byte(errs)), code
		lib := func(err error, s *scte35.SpliceInfoSection) Val {
			v := Val{"failed": err != nil, "msg": 0, "b64": 0, "hex": 0}
			if err != nil {
				v["msg"] = x.buf([]byte(err.Error()))
			} else {
				v["b64"], v["hex"] = x.buf([]byte(s.Base64())), x.buf([]byte(s.Hex()))
			}
			return v
		}
		j, m := &scte35.SpliceInfoSection{}, &scte35.SpliceInfoSection{}
		e["json"] = lib(json.Unmarshal([]byte(in), j), j)
		e["xml"] = lib(xml.Unmarshal([]byte(in), m), m)
	})
}

// cliWrong runs the tools with a wrong number of arguments.
func (x *session) cliWrong(args ...string) {
	x.call("cliwrong", 0, strings.Join(args, " "), func(e event) {
		out, errs, code := runCLI(args, nil)
		e["code"], e["errs"] = code, x.buf([]byte(errs))
		e["sections"] = strings.Contains(out, "Base64: ") || strings.Contains(out, "splice_info_section")
	})
}

func (g *gen) cliDoc(x *session) string {
	v := g.value()
	x.put(0, v)
	var t string
	kind := g.pick("json", "xml")
	if g.chance(2) {
		var b []byte
		if kind == "json" {
			b, _ = json.MarshalIndent(x.slots[0], "", "\t")
		} else {
			b, _ = xml.MarshalIndent(x.slots[0], "", "\t")
		}
		t = string(b)
	} else {
		t, _ = x.marshal(0, kind)
		if g.chance(2) {
			if n, _ := jsonTree(t).(*jnode); n != nil && kind == "json" {
				for m := g.Intn(3); m > 0; m-- {
					g.jmutate(n)
				}
				t = g.jtext(n)
			}
			if n, _ := xmlTree(t).(*xnode); n != nil && kind == "xml" {
				for m := g.Intn(3); m > 0; m-- {
					g.xmutate(n)
				}
				t = g.xtext(n)
			}
		}
	}
	switch g.Intn(9) {
	case 0:
		t = g.pick(" ", "\n", "\t\n  ", "\r\n", "\v\f", "\u00a0", "\u0085") + t
	case 1:
		t += g.pick(" ", "\n", "\r\n\n")
	case 2:
		t = g.pick("x", "[", "\ufeff", "\"", "null") + t
	case 3:
		if len(t) > 0 {
			t = t[:g.Intn(len(t))]
		}
	}
	return t
}

// lengthen puts n spaces before or after a document, or between two of its lines or elements.
func (g *gen) lengthen(t string, n int) string {
	pad := strings.Repeat(" ", n)
	if i := strings.Index(t, "\n"); i > 0 && g.chance(2) {
		return t[:i] + pad + t[i:]
	}
	if i := strings.LastIndexAny(t, "}<"); i > 0 && g.chance(2) {
		return t[:i] + pad + t[i:]
	}
	if g.chance(2) {
		return pad + t
	}
	return t + pad
}

func init() {
	profiles["cli"] = profile{1, func(g *gen, x *session) {
		if cliPath == "" {
			return
		}
		for k := 0; k < 3; k++ {
			b := g.sectionBytes(g.chance(2))
			if g.chance(2) {
				b = g.damage(b)
			}
			if g.chance(20) {
				b = nil
			}
			t := b64(b)
			if g.chance(2) {
				t = hexText(b, g.chance(2), !g.chance(6))
			}
			if g.chance(4) {
				t = g.spoil(t)
			}
			t = strings.ReplaceAll(t, "\x00", "?")
			if strings.HasPrefix(t, "-") {
				t = "!" + t
			}
			x.cliDecode(t, g.pick("", "json", "xml", "text", "yaml", "JSON"), g.chance(2))
		}
		for k := 0; k < 2; k++ {
			t := strings.ReplaceAll(g.cliDoc(x), "\x00", "?")
			via := g.pick("arg", "arg", "stdin", "file", "slow")
			if strings.HasPrefix(t, "-") {
				via = "stdin"
			}
			if len(t) > 100000 {
				via = "stdin"
			}
			if via != "arg" && g.chance(12) { // more than one read
				t = g.lengthen(t, g.pickInt(5000, 40000, 70000))
			}
			x.cliEncode(t, via)
		}
		switch g.Intn(12) {
		case 0:
			x.cliWrong("decode")
		case 1:
			x.cliWrong("decode", "/DA=", "/DA=")
		case 2:
			x.cliWrong("encode", "{}", "{}")
		case 3:
			x.cliEncode("", "stdin")
		case 4:
			x.cliEncode("", "arg")
		case 5:
			x.cliWrong("frobnicate")
		case 6:
			x.cliWrong("decode", fmt.Sprint("--", "frob"), "/DA=")
		}
	}}
}
