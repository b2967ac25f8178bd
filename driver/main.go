package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

type event = map[string]any

// recorder writes one trace per line, spread over files.
type recorder struct {
	chunks []*bufio.Writer
	files  []*os.File
	n, ev  int
}

func newRecorder(dir string, chunks int) *recorder {
	r := &recorder{}
	for i := 0; i < chunks; i++ {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("trace%d.ndjson", i)))
		if err != nil {
			panic(err)
		}
		r.files = append(r.files, f)
		r.chunks = append(r.chunks, bufio.NewWriterSize(f, 1<<20))
	}
	return r
}

func (r *recorder) add(x *session) {
	if len(x.evs) == 0 {
		return
	}
	b, err := json.Marshal(x.trace())
	if err != nil {
		panic(err)
	}
	w := r.chunks[r.n%len(r.chunks)]
	_, _ = w.Write(b)
	_ = w.WriteByte('\n')
	r.n++
	r.ev += len(x.evs)
}

func (r *recorder) close() {
	for i := range r.chunks {
		_ = r.chunks[i].Flush()
		_ = r.files[i].Close()
	}
}

// guard ends the process when a call does not return.
func guard(w *watch, dir string) {
	for range time.Tick(time.Second) {
		t := w.since.Load()
		if t != 0 && time.Now().UnixNano()-t > int64(20*time.Second) {
			what, _ := w.what.Load().(string)
			_ = os.WriteFile(filepath.Join(dir, "hang.txt"), []byte(what), 0o644)
			fmt.Fprintln(os.Stderr, "HANG", what)
			os.Exit(3)
		}
	}
}

// cliZone names the file that gives the tools their time zone.
var cliZone string

// zoneFile is a time zone that is always sec seconds ahead of UTC.
func zoneFile(sec int) []byte {
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []byte{0, 0, 0, 0, 1, 4} { // one type, four letters
		b = append(b, 0, 0, 0, n)
	}
	b = append(b, byte(sec>>24), byte(sec>>16), byte(sec>>8), byte(sec), 0, 0)
	return append(b, "LOC\x00"...)
}

func main() {
	seed := flag.Int64("seed", 1, "seed of the generator")
	n := flag.Int("n", 1000, "number of sessions")
	mix := flag.String("mix", "decode", "profiles with weights: decode:3,damage:1")
	out := flag.String("out", "", "directory of the traces")
	chunks := flag.Int("chunks", 8, "number of trace files")
	syn := flag.String("syntax", "", "syntax exported from the specification")
	par := flag.Int("par", 0, "run that many sessions at a time")
	script := flag.String("script", "", "perform the sessions of this file instead")
	ham := flag.Int("hammer", 0, "repeat calls concurrently for that many seconds")
	flag.StringVar(&cliPath, "cli", "", "the command line tool")
	zone := flag.Int("zone", 0, "minutes that local time is ahead of UTC")
	flag.Parse()
	time.Local = time.UTC
	if *zone != 0 {
		time.Local = time.FixedZone("LOC", *zone*60)
		cliZone = filepath.Join(*out, "zone")
		if err := os.WriteFile(cliZone, zoneFile(*zone*60), 0o644); err != nil {
			panic(err)
		}
	}
	scte35.Logger = log.New(io.Discard, "", 0)
	g := &gen{Rand: rand.New(rand.NewSource(*seed)), syn: loadSyntax(*syn)}
	r := newRecorder(*out, *chunks)
	w := &watch{}
	go guard(w, *out)

	var ps []string
	for _, m := range strings.Split(*mix, ",") {
		name, weight, _ := strings.Cut(m, ":")
		k := 1
		if weight != "" {
			_, _ = fmt.Sscan(weight, &k)
		}
		if _, ok := profiles[name]; !ok {
			fmt.Fprintln(os.Stderr, "no profile", name)
			os.Exit(2)
		}
		for ; k > 0; k-- {
			ps = append(ps, name)
		}
	}
	if *script != "" {
		runScripts(r, g, w, *script, *par > 0, *seed)
		r.close()
		fmt.Println(r.n, r.ev)
		return
	}
	if *ham > 0 {
		hammer(r, g.syn, w, time.Duration(*ham)*time.Second, 8, *seed)
		r.close()
		fmt.Println(r.n, r.ev)
		return
	}
	if *par > 0 {
		parallel(r, g.syn, ps, *n, *par, *seed)
		r.close()
		fmt.Println(r.n, r.ev)
		return
	}
	for i := 0; i < *n; i++ {
		p := profiles[ps[i%len(ps)]]
		g.mode()
		x := newSession(p.slots, w)
		p.run(g, x)
		r.add(x)
	}
	r.close()
	fmt.Println(r.n, r.ev)
}
