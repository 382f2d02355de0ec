package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- the network, played by the harness ------------------------------------------

type reply struct {
	Status int
	Body   io.Reader
	Err    error
}

// net answers requests and remembers them.
type fakeNet struct {
	serve func(r *http.Request, n int) reply
	reqs  []*http.Request
	head  http.Header
}

func (f *fakeNet) RoundTrip(r *http.Request) (*http.Response, error) {
	f.reqs = append(f.reqs, r)
	if r.Body != nil {
		r.Body.Close()
	}
	rep := f.serve(r, len(f.reqs))
	if rep.Err != nil {
		return nil, rep.Err
	}
	if rep.Status == 0 {
		rep.Status = 200
	}
	head := f.head
	if head == nil {
		head = http.Header{"Content-Type": {"text/plain"}}
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", rep.Status, http.StatusText(rep.Status)), StatusCode: rep.Status, Proto: "HTTP/1.1",
		ProtoMajor: 1, ProtoMinor: 1, Header: head.Clone(), Body: io.NopCloser(rep.Body),
		ContentLength: -1, Request: r}, nil
}

func withNet(f *fakeNet, do func()) {
	old, oldC := http.DefaultTransport, http.DefaultClient.Transport
	http.DefaultTransport = f
	http.DefaultClient.Transport = f
	defer func() { http.DefaultTransport, http.DefaultClient.Transport = old, oldC }()
	do()
}

func serveBytes(b []byte) *fakeNet {
	return &fakeNet{serve: func(*http.Request, int) reply { return reply{Body: bytes.NewReader(b)} }}
}

var errNoNet = errors.New("no network here")
var noNet = &fakeNet{serve: func(*http.Request, int) reply { return reply{Err: errNoNet} }}

// ---- the command line, in process ---------------------------------------------------

type cliOut struct {
	Code     int
	Out, Err string
}

func runCLI(stdin io.Reader, args ...string) cliOut {
	var o, e bytes.Buffer
	ui := rwi.New(rwi.WithReader(stdin), rwi.WithWriter(&o), rwi.WithErrorWriter(&e))
	c := facade.Execute(ui, args)
	return cliOut{int(c), o.String(), e.String()}
}

func (o Opts) flags() []string {
	fs := []string{}
	for _, n := range optNames {
		if *o.get(n) && n != "gdump" {
			fs = append(fs, "--"+n)
		}
	}
	return fs
}

var scratch = ""

// scratchFile writes data to a file of the harness's own
func scratchFile(name string, data []byte) string {
	if scratch == "" {
		d, err := os.MkdirTemp(*fOut, "files")
		if err != nil {
			fatal(err)
		}
		scratch = d
	}
	p := filepath.Join(scratch, name)
	if err := os.WriteFile(p, data, 0600); err != nil {
		fatal(err)
	}
	return p
}

// dumpVia supplies the input in another way and only looks at how the run ends.
func dumpVia(c Case) Outcome {
	c.Opt.zone()
	fl := c.Opt.flags()
	return guarded(func() (*result.Info, error) {
		var r cliOut
		switch c.Via {
		case "render":
			p, err := parse.New(c.Opt.context(), bytes.NewReader(c.Data))
			if err != nil {
				return nil, err
			}
			info, err := p.Parse()
			_ = info.String()
			_, _ = io.Copy(io.Discard, info.ToString("  "))
			if j, e := info.JSON(1); e == nil {
				_, _ = io.Copy(io.Discard, j)
			}
			return info, err
		case "bytes":
			p, err := parse.NewBytes(c.Opt.context(), c.Data)
			if err != nil {
				return nil, err
			}
			return p.Parse()
		case "stdin":
			r = runCLI(bytes.NewReader(c.Data), fl...)
		case "json":
			r = runCLI(bytes.NewReader(c.Data), append(fl, "-j")...)
		case "file":
			r = runCLI(nil, append(fl, "-f", scratchFile("in", c.Data))...)
		case "hkp":
			withNet(serveBytes(c.Data), func() { r = runCLI(nil, append(fl, "hkp", "0x1234")...) })
		case "fetch":
			withNet(serveBytes(c.Data), func() { r = runCLI(nil, append(fl, "fetch", "http://localhost/x")...) })
		case "github":
			withNet(serveBytes(c.Data), func() { r = runCLI(nil, append(fl, "github", "user")...) })
		case "args":
			withNet(serveBytes(c.Data), func() { r = runCLI(bytes.NewReader(c.Data), c.Args...) })
		case "github-list":
			withNet(serveBytes(c.Data), func() { r = runCLI(nil, append(fl, "github", "user", "--keyid", "1234")...) })
		}
		if strings.HasPrefix(r.Err, "Panic:") || strings.Contains(r.Err, "\nPanic:") { // the panic handler of the command
			panic("command line: " + r.Err)
		}
		if r.Code != 0 {
			return nil, errors.New(r.Err)
		}
		return nil, nil
	})
}
