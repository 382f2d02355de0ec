package main

import (
	"bufio"
	"bytes"
	stdctx "context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- C15: sources that deliver in pieces and fail ---------------------------------------

type answer struct {
	N   int    `json:"n"`
	End string `json:"end"`
}

type sTrace struct {
	ID      int      `json:"id"`
	Kind    string   `json:"kind"`
	Via     string   `json:"via"`
	Armor   bool     `json:"armor"`
	N       int      `json:"n"`
	Sched   []answer `json:"sched"`
	Reads   []answer `json:"reads"`
	Out     string   `json:"out"`
	Err     bool     `json:"err"`
	Text    string   `json:"text"`
	BinErr  bool     `json:"binerr"`
	BinText string   `json:"bintext"`
	Head    string   `json:"head"`
}

// source answers reads according to a schedule, in octets, and writes down its answers.
type source struct {
	data  []byte
	sched []answer
	err   error
	reads []answer
	done  string // after an end: what further reads give
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.sched) == 0 {
		if s.done == "again" {
			// the failure was passing: the rest follows
			n := copy(p, s.data)
			s.data = s.data[n:]
			if n == 0 {
				s.reads = append(s.reads, answer{0, "eof"})
				return 0, io.EOF
			}
			s.reads = append(s.reads, answer{n, "no"})
			return n, nil
		}
		if s.done == "err" {
			s.reads = append(s.reads, answer{0, "err"})
			return 0, s.err
		}
		s.reads = append(s.reads, answer{0, "eof"})
		return 0, io.EOF
	}
	a := &s.sched[0]
	n := a.N
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	a.N -= n
	if a.N > 0 {
		s.reads = append(s.reads, answer{n, "no"})
		return n, nil
	}
	end := a.End
	s.sched = s.sched[1:]
	s.reads = append(s.reads, answer{n, end})
	switch end {
	case "eof":
		return n, io.EOF
	case "err":
		return n, s.err
	}
	return n, nil
}

var readErrors = []error{errors.New("disk on fire"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, stdctx.Canceled, io.ErrNoProgress, &os.PathError{Op: "read", Path: "x", Err: os.ErrInvalid}}

// cut turns a schedule of units into one of octets
func (g *G) cut(sched []answer, units, n int) []answer {
	at := make([]int, units+1)
	at[units] = n
	for i := 1; i < units; i++ {
		at[i] = g.Intn(n + 1)
		if g.chance(0.2) {
			at[i] = g.oneOf(0, 1, 511, 512, 4095, 4096, n-1, n) % (n + 1)
		}
	}
	for i := 1; i < units; i++ {
		for j := i; j > 1 && at[j] < at[j-1]; j-- {
			at[j], at[j-1] = at[j-1], at[j]
		}
	}
	out := []answer{}
	u := 0
	for _, a := range sched {
		out = append(out, answer{at[u+a.N] - at[u], a.End})
		u += a.N
	}
	return out
}

var sourceVias = []string{"api", "api", "api", "stdin", "stdin", "json", "fetch", "hkp", "github"}

func (g *G) sourceTrace(id int, kind string, data []byte, sched []answer) *sTrace {
	via := sourceVias[g.Intn(len(sourceVias))]
	for (via == "hkp" || via == "github") && !bytes.Contains(data, []byte("BEGIN PGP")) && g.chance(0.8) {
		via = sourceVias[g.Intn(len(sourceVias))]
	}
	o := g.opts()
	o.GDump, o.Debug = false, false
	o.Armor = g.chance(0.3) && via != "hkp" && via != "github"
	o.zone()
	base := o
	base.Armor = o.Armor || via == "hkp" || via == "github"
	bin := dump(data, base)
	src := &source{data: append([]byte{}, data...), sched: append([]answer{}, sched...), err: readErrors[g.Intn(len(readErrors))], done: g.pick("err", "again")}
	if len(sched) > 0 && sched[len(sched)-1].End == "eof" {
		src.done = "eof"
	}
	t := &sTrace{ID: id, Kind: kind, Via: via, Armor: base.Armor, N: len(data), Sched: sched, BinErr: bin.Err != nil, BinText: bin.text(), Head: hexHead(data)}
	fl := o.flags()
	serve := &fakeNet{serve: func(*http.Request, int) reply { return reply{Body: src} }}
	oc := guarded(func() (*result.Info, error) {
		var c cliOut
		switch via {
		case "api":
			p, err := parse.New(o.context(), src)
			if err != nil {
				return nil, err
			}
			return p.Parse()
		case "stdin":
			c = runCLI(src, fl...)
		case "json":
			c = runCLI(src, append(fl, "-j")...)
			if bin.Err == nil {
				if r, err := bin.Info.JSON(0); err == nil {
					b, _ := io.ReadAll(r)
					t.BinText = esc(string(b))
				}
			}
		case "fetch":
			withNet(serve, func() { c = runCLI(nil, append(fl, "fetch", "http://localhost/x")...) })
		case "hkp":
			withNet(serve, func() { c = runCLI(nil, append(fl, "hkp", "alice")...) })
		case "github":
			withNet(serve, func() { c = runCLI(nil, append(fl, "github", "alice")...) })
		}
		t.Text = esc(c.Out)
		if c.Code != 0 {
			return nil, errors.New(c.Err)
		}
		return nil, nil
	})
	if via == "api" {
		t.Text = oc.text()
	}
	t.Reads = append([]answer{}, src.reads...)
	t.Out, t.Err = oc.Out, oc.Err != nil
	return t
}

func hexHead(d []byte) string {
	if len(d) > 600 {
		d = d[:600]
	}
	return hexOf(d)
}

func hexOf(d []byte) string {
	const h = "0123456789abcdef"
	var b strings.Builder
	for _, x := range d {
		b.WriteByte(h[x>>4])
		b.WriteByte(h[x&15])
	}
	return b.String()
}

// sourceData: binary streams, armored documents, damaged ones
func (g *G) sourceData() (string, []byte) {
	d := g.stream(1+g.Intn(3), 1)
	switch g.Intn(8) {
	case 0:
		return "damaged", g.damage(d)
	case 1, 2:
		ls, _ := g.document([]string{"text", "begin", "version", "gap", "body", g.pick("sum", "nosum"), "end"}, d, 64, false)
		return "armor", g.lineEnds(ls, g.oneOf(0, 1, 4))
	case 3:
		ls, _ := g.document([]string{"begin", "gap", "body", "sum", "end", "text", "text"}, d, 64, false)
		return "armor then text", g.lineEnds(ls, g.oneOf(0, 1, 4))
	case 4:
		n := g.oneOf(500, 512, 1024, 4080, 4096, 8192, 32768, 65536, 70000, g.nearConstant(256, 300000, 1000)) + g.oneOf(0, g.Intn(20))
		return "large", g.pkt(11, cat([]byte("b\x00\x00\x00\x00\x00"), g.bytes(n)), g.oneOf(hNew5, hOld4, hNewPartial, hOldIndef))
	}
	return "stream", d
}

// hidden shows only the Read method of a source
type hidden struct{ io.Reader }

// positioned: a source that other octets were read from before; only what is left counts
func (g *G) positioned(id int) *sTrace {
	k, d := g.sourceData()
	_, before := g.sourceData()
	if g.chance(0.2) {
		before = nil
	}
	all := cat(before, d)
	at := int64(len(before))
	form := g.pick("bytes.Reader", "strings.Reader", "bytes.Buffer", "bufio.Reader", "os.File", "SectionReader", "MultiReader", "LimitedReader", "Pipe", "TeeReader", "one octet")
	var r io.Reader
	switch form {
	case "bytes.Reader":
		b := bytes.NewReader(all)
		b.Seek(at, io.SeekStart)
		r = b
	case "strings.Reader":
		b := strings.NewReader(string(all))
		b.Seek(at, io.SeekStart)
		r = b
	case "bytes.Buffer":
		b := bytes.NewBuffer(append([]byte{}, all...))
		b.Next(len(before))
		r = b
	case "bufio.Reader":
		b := bufio.NewReaderSize(bytes.NewReader(all), g.oneOf(16, 100, 4096, 100000))
		io.CopyN(io.Discard, b, at)
		r = b
	case "os.File":
		f, err := os.Open(scratchFile("positioned", all))
		if err != nil {
			fatal(err)
		}
		defer f.Close()
		f.Seek(at, io.SeekStart)
		r = f
	case "SectionReader":
		r = io.NewSectionReader(bytes.NewReader(cat(all, []byte("more"))), at, int64(len(d)))
	case "MultiReader":
		n := g.Intn(len(d) + 1)
		r = io.MultiReader(bytes.NewReader(d[:n]), bytes.NewReader(nil), strings.NewReader(string(d[n:])))
	case "LimitedReader":
		b := bytes.NewReader(cat(all, []byte("more")))
		b.Seek(at, io.SeekStart)
		r = io.LimitReader(b, int64(len(d)))
	case "Pipe":
		pr, pw := io.Pipe()
		n := g.Intn(len(d) + 1)
		go func() {
			pw.Write(d[:n])
			pw.Write(d[n:])
			pw.Close()
		}()
		defer pr.Close()
		r = pr
	case "TeeReader":
		b := bytes.NewReader(all)
		b.Seek(at, io.SeekStart)
		r = io.TeeReader(b, io.Discard)
	case "one octet":
		b := bytes.NewReader(all)
		b.Seek(at, io.SeekStart)
		r = iotest.OneByteReader(b)
	}
	if g.chance(0.2) {
		r = hidden{r}
	}
	o := g.opts()
	o.GDump, o.Debug, o.Armor = false, false, g.chance(0.4)
	o.zone()
	bin := dump(d, o)
	t := &sTrace{ID: id, Kind: "positioned " + form, Via: g.pick("api", "api", "stdin", "positioned json"), Armor: o.Armor, N: len(d), Sched: []answer{}, Reads: []answer{{len(d), "eof"}},
		BinErr: bin.Err != nil, BinText: bin.text(), Head: hexHead(d)}
	_ = k
	oc := guarded(func() (*result.Info, error) {
		fl := o.flags()
		if t.Via == "api" {
			p, err := parse.New(o.context(), r)
			if err != nil {
				return nil, err
			}
			return p.Parse()
		}
		if t.Via == "positioned json" {
			fl = append(fl, "-j")
			if bin.Err == nil {
				if r, err := bin.Info.JSON(0); err == nil {
					b, _ := io.ReadAll(r)
					t.BinText = esc(string(b))
				}
			}
		}
		c := runCLI(r, fl...)
		t.Text = esc(c.Out)
		if c.Code != 0 {
			return nil, errors.New(c.Err)
		}
		return nil, nil
	})
	if t.Via == "api" {
		t.Text = oc.text()
	}
	t.Out, t.Err = oc.Out, oc.Err != nil
	return t
}

func sourceCmd() {
	g := newG(15)
	traces := []*sTrace{}
	kinds := map[string]int{}
	put := func(t *sTrace) { traces = append(traces, t); kinds[t.Kind]++; kinds["via "+t.Via]++ }
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var s []answer
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fatal(err)
		}
		for j := 0; j < 3; j++ {
			k, d := g.sourceData()
			if len(d) > 0 {
				put(g.sourceTrace(len(traces), k, d, g.cut(s, *fUnits, len(d))))
			}
		}
	}
	f.Close()
	// many small pieces, and a failure at every octet of an input
	for i := 0; i < scale(300, 2000); i++ {
		k, d := g.sourceData()
		s, left := []answer{}, len(d)
		size := g.oneOf(1, 2, 3, 7, 64, 511, 512, 513, 4096, g.nearConstant(1, 9000, 30))
		if len(d)/size > 3000 {
			size = 513
		}
		for left > 0 {
			n := 1 + g.Intn(size)
			if n > left {
				n = left
			}
			s = append(s, answer{n, "no"})
			left -= n
		}
		s = append(s, answer{0, "eof"})
		put(g.sourceTrace(len(traces), k+" in pieces", d, s))
	}
	for i := 0; i < scale(6, 30); i++ {
		k, d := g.sourceData()
		for len(d) > 400 {
			k, d = g.sourceData()
		}
		for n := 0; n <= len(d); n++ {
			s := []answer{{n, "err"}}
			if g.chance(0.5) {
				s = []answer{{n, "no"}, {0, "err"}}
			}
			put(g.sourceTrace(len(traces), k+" failing", d, s))
		}
	}
	// sources with more abilities than reading, somewhere in the middle of their data
	for i := 0; i < scale(400, 3000); i++ {
		put(g.positioned(len(traces)))
	}
	// files: the whole file, whatever its size; a directory and a missing file cannot be read
	for i := 0; i < scale(150, 1000); i++ {
		k, d := g.sourceData()
		o := g.opts()
		o.GDump, o.Debug, o.Armor = false, false, g.chance(0.3)
		bin := dump(d, o)
		t := &sTrace{ID: len(traces), Kind: k + " file", Via: "file", Armor: o.Armor, N: len(d), Sched: []answer{}, Reads: []answer{{len(d), "eof"}},
			BinErr: bin.Err != nil, BinText: bin.text(), Head: hexHead(d)}
		path := scratchFile("source", d)
		if i%50 == 7 {
			path, t.Reads = scratch, []answer{{0, "err"}}
		} else if i%50 == 8 {
			path, t.Reads = filepath.Join(scratch, "missing"), []answer{{0, "err"}}
		}
		oc := guarded(func() (*result.Info, error) {
			c := runCLI(bytes.NewReader([]byte{0xcd, 1, 'x'}), append(o.flags(), g.pick("-f", "--file"), path)...)
			t.Text = esc(c.Out)
			if c.Code != 0 {
				return nil, errors.New(c.Err)
			}
			return nil, nil
		})
		t.Out, t.Err = oc.Out, oc.Err != nil
		put(t)
	}
	for _, t := range traces {
		if t.Reads == nil {
			t.Reads = []answer{}
		}
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func init() { commands["source"] = sourceCmd }
