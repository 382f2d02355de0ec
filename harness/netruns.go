package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"html"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- C24: network commands ---------------------------------------------------------------------

type netTrace struct {
	ID       int      `json:"id"`
	Kind     string   `json:"kind"`
	Inv      inv      `json:"inv"`
	Argv     []string `json:"argv"`
	Out      string   `json:"out"`
	Code     int      `json:"code"`
	Stdout   string   `json:"stdout"`
	Stderr   string   `json:"stderr"`
	Body     string   `json:"body"`
	Given    string   `json:"given"`
	Asked    []string `json:"asked"`
	Local    lone     `json:"local"`
	LocalBad bool     `json:"localbad"`
}

// what a request for the URL asks for
func whatURL(s string) string {
	u, err := url.Parse(s)
	if err != nil {
		return "bad " + esc(s)
	}
	p := u.EscapedPath()
	if p == "" {
		p = "/"
	}
	return esc(u.Scheme + " " + u.Host + " " + p + " " + u.RawQuery)
}

// anyData: data of no particular class
func (g *G) anyData() []byte {
	switch g.Intn(12) {
	case 9, 10, 11:
		if g.chance(0.5) {
			return g.foreign(armored("PGP PUBLIC KEY BLOCK", g.stream(1+g.Intn(2), 1)))
		}
		return g.foreign(g.stream(1+g.Intn(2), 1))
	case 0:
		return g.bytes(g.Intn(60))
	case 1:
		return []byte{}
	case 2:
		return g.damage(g.stream(1+g.Intn(3), 1))
	case 3:
		return g.stream(1+g.Intn(4), 1)
	case 4:
		return cat([]byte("some text\r\n"), armored("PGP PUBLIC KEY BLOCK", g.stream(1+g.Intn(3), 1)), []byte("\r\nmore\x00text\n"))
	case 5:
		return bytes.ReplaceAll(armored("PGP MESSAGE", g.stream(1+g.Intn(3), 1)), []byte("\n"), []byte("\r\n"))
	case 6:
		a := armored("PGP MESSAGE", g.stream(1+g.Intn(3), 1))
		return a[:g.Intn(len(a)+1)]
	case 7:
		n := g.oneOf(4095, 4096, 4097, 32767, 32768, 32769, 65536, 100001)
		d := g.pkt(11, cat([]byte{'b', 0, 0, 0, 0, 0}, g.bytes(n-200)), hNew5)
		if g.chance(0.5) {
			d = armored("PGP MESSAGE", d)
		}
		return d
	}
	return armored("PGP SIGNATURE", g.damage(g.stream(1+g.Intn(2), 1)))
}

// foreign: packets in a form that is neither packets nor armor
func (g *G) foreign(d []byte) []byte {
	var b bytes.Buffer
	switch g.Intn(14) {
	case 0, 1:
		z := gzip.NewWriter(&b)
		z.Write(d)
		z.Close()
	case 2:
		z := zlib.NewWriter(&b)
		z.Write(d)
		z.Close()
	case 3:
		b.Write(bzip(d))
	case 4:
		b.Write([]byte("\xef\xbb\xbf"))
		b.Write(d)
	case 5:
		b.WriteString("<!DOCTYPE html>\n<html><body><pre>")
		b.WriteString(html.EscapeString(string(d)))
		b.WriteString("</pre></body></html>\n")
	case 6:
		j, _ := json.Marshal(map[string]string{"raw_key": string(d)})
		b.Write(j)
	case 7:
		b.WriteString(base64.StdEncoding.EncodeToString(d))
		b.WriteString(g.pick("", "\n"))
	case 8:
		b.WriteString(hex.EncodeToString(d))
	case 9: // UTF-16
		b.Write([]byte{0xff, 0xfe})
		for _, x := range d {
			b.Write([]byte{x, 0})
		}
	case 10:
		b.WriteString(g.pick("\n", "\r\n", " ", "\x00", "\n\n\n"))
		b.Write(d)
	case 11:
		b.Write(d)
		b.WriteString(g.pick("\n", "\x00", "\x00\x00\x00", "\x1a", "\xff"))
	case 12:
		b.WriteString(g.codeText())
		b.WriteString(g.pick("", "\n", " "))
		b.Write(d)
	default:
		b.WriteString(g.pick("%PDF-1.4\n", "PK\x03\x04", "\x7fELF", "\x89PNG\r\n\x1a\n", "-----BEGIN CERTIFICATE-----\n", "data:;base64,", "ustar\x00", "#!", "{", "[", "<?xml version=\"1.0\"?>\n"))
		b.Write(d)
	}
	return b.Bytes()
}

func (g *G) pieces(d []byte) io.Reader {
	s := &source{data: append([]byte{}, d...), done: "eof"}
	left := len(d)
	for left > 0 && len(s.sched) < 20 {
		n := 1 + g.Intn(left)
		s.sched = append(s.sched, answer{n, "no"})
		left -= n
	}
	s.sched = append(s.sched, answer{left, g.pick("no", "eof")})
	return s
}

func (g *G) netRun(kind string, i inv, any bool, bin string) *netTrace {
	base := ""
	var serve func(http.ResponseWriter, *http.Request)
	if bin != "" {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { serve(w, q) }))
		defer srv.Close()
		base = srv.URL
		if i.Net == "refused" {
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				fatal(err)
			}
			base = "http://" + ln.Addr().String()
			ln.Close()
		}
	}
	c := g.concretize(i, base)
	if any {
		i.Data = "any"
		if c.Inv.Data == "failing" {
			i.Data = "failing"
		}
		c.Input = g.anyData()
		if c.FailAt > len(c.Input) {
			c.FailAt = len(c.Input)
		}
		if c.SinkAt >= len(c.Input) && len(c.Input) > 0 {
			c.SinkAt = len(c.Input) - 1
		}
	}
	t := &netTrace{Kind: kind, Inv: i, Body: esc(string(c.Input)), Asked: []string{}}
	if c.URL != "" {
		t.Given = whatURL(c.URL)
	}
	served := c.Input
	if i.Cmd == "github" && len(c.Input) > 0 && utf8.Valid(c.Input) && g.chance(0.4) {
		// looked up in a listing
		id := g.hexID()
		raw := string(c.Input)
		list := []string{}
		for k := g.Intn(3); k > 0; k-- {
			other := "other"
			list = append(list, g.entry(g.hexID(), &other))
		}
		list = append(list, g.entry(id, &raw))
		served = []byte("[" + strings.Join(list, ",") + "]")
		c.Argv = append(c.Argv, "--keyid="+g.pick("", "0x")+g.flipCase(id))
		t.Kind += " listing"
	}
	t.Argv = c.Argv
	// the same data and options, locally
	o := Opts{}
	largs := []string{}
	for _, a := range c.Argv[1:] {
		switch {
		case a == "--raw" || strings.HasPrefix(a, "--keyid="):
		case a == "--keyserver" || a == "--port":
		case len(largs) > 0 && largs[len(largs)-1] == "--indent":
			largs = append(largs, a)
		case strings.HasPrefix(a, "-"):
			largs = append(largs, a)
		}
	}
	if i.Cmd != "fetch" {
		largs = append(largs, "-a")
	}
	o.Armor, o.Debug = i.Armor || i.Cmd != "fetch", i.Debug
	if i.Net == "ok" && !i.Raw && i.Data != "failing" {
		time.Local = time.UTC
		lo := guarded(func() (*result.Info, error) {
			r := runCLI(bytes.NewReader(c.Input), largs...)
			t.Local = lone{true, r.Code, esc(r.Out), esc(r.Err)}
			return nil, nil
		})
		if lo.Out != "returned" {
			t.Local = lone{true, -1, "", lo.Out}
		}
		ld := dump(c.Input, o)
		t.LocalBad = ld.Out != "returned" || ld.Err != nil
	}
	failed := func() io.Reader {
		k := c.FailAt
		if k > len(served) {
			k = len(served)
		}
		return &source{data: append([]byte{}, served...), sched: []answer{{k, "no"}, {0, "err"}}, err: readErrors[g.Intn(len(readErrors))], done: "err"}
	}
	if bin != "" {
		serve = func(w http.ResponseWriter, q *http.Request) {
			if t.Given != "" {
				t.Asked = append(t.Asked, q.Method+" "+whatURL(base+q.URL.RequestURI()))
			}
			switch {
			case i.Net == "status":
				w.WriteHeader(c.Status)
				w.Write(served)
			case c.FailAt >= 0:
				w.Header().Set("Content-Length", strconv.Itoa(len(served)+10))
				k := c.FailAt
				if k > len(served) {
					k = len(served)
				}
				w.Write(served[:k])
				w.(http.Flusher).Flush()
				if cn, _, err := w.(http.Hijacker).Hijack(); err == nil {
					cn.Close()
				}
			default:
				for k := 0; k < len(served); {
					n := 1 + (len(served)-k)/2
					w.Write(served[k : k+n])
					w.(http.Flusher).Flush()
					k += n
				}
			}
		}
		r := c.process(bin, "")
		t.Out, t.Code, t.Stdout, t.Stderr = r.Out, r.Code, r.Stdout, r.Stderr
		return t
	}
	kindOf := g.pick("text/plain", "text/plain; charset=utf-8", "text/html", "application/pgp-keys", "application/octet-stream", "application/json", "application/gzip", "", "image/png")
	nw := &fakeNet{head: http.Header{"Content-Type": {kindOf}}, serve: func(q *http.Request, _ int) reply {
		if t.Given != "" {
			t.Asked = append(t.Asked, q.Method+" "+whatURL(q.URL.String()))
		}
		switch {
		case i.Net == "refused":
			return reply{Err: errNoNet}
		case i.Net == "status":
			return reply{Status: c.Status, Body: bytes.NewReader(served)}
		case c.FailAt >= 0:
			return reply{Body: failed()}
		}
		return reply{Body: g.pieces(served)}
	}}
	time.Local = time.UTC
	oc := guarded(func() (*result.Info, error) {
		withNet(nw, func() {
			r := runCLI(bytes.NewReader([]byte{0xcd, 2, 'n', 'o'}), c.Argv...)
			t.Code, t.Stdout, t.Stderr = r.Code, esc(r.Out), esc(r.Err)
		})
		return nil, nil
	})
	t.Out = oc.Out
	return t
}

func netrunsCmd() {
	inScratch()
	g := newG(24)
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	is := []inv{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var i inv
		if err := json.Unmarshal(sc.Bytes(), &i); err != nil {
			fatal(err)
		}
		is = append(is, i)
	}
	traces := []*netTrace{}
	kinds := map[string]int{}
	put := func(t *netTrace) {
		t.ID = len(traces)
		traces = append(traces, t)
		kinds[t.Kind]++
	}
	for _, i := range is {
		for k := 0; k < scale(2, 4); k++ {
			put(g.netRun("emitted", i, false, ""))
		}
	}
	for k := 0; k < scale(1500, 6000); k++ {
		i := is[g.Intn(len(is))]
		if g.chance(0.6) {
			i.Net = "ok"
		}
		if i.Data == "failing" && g.chance(0.6) {
			i.Data = "binary"
		}
		put(g.netRun("any data", i, true, ""))
	}
	if *fBin != "" {
		for k := 0; k < scale(120, 600); k++ {
			i := is[g.Intn(len(is))]
			if i.Cmd == "github" {
				continue
			}
			put(g.netRun("process", i, g.chance(0.5), *fBin))
		}
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func init() { commands["netruns"] = netrunsCmd }
