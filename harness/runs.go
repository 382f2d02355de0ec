package main

import (
	"bufio"
	"bytes"
	stdctx "context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- C17: runs of the command ----------------------------------------------------------------

type inv struct {
	Cmd     string `json:"cmd"`
	Args    string `json:"args"`
	FlagErr string `json:"flagerr"`
	Src     string `json:"src"`
	VFlag   bool   `json:"vflag"`
	Data    string `json:"data"`
	Net     string `json:"net"`
	Raw     bool   `json:"raw"`
	JSON    bool   `json:"json"`
	Indent  int    `json:"indent"`
	Armor   bool   `json:"armor"`
	Debug   bool   `json:"debug"`
	Sink    string `json:"sink"`
}

const beyond = 2000000000 // of Cli.tla

// concrete is an invocation written out.
type concrete struct {
	Inv    inv
	Argv   []string
	Input  []byte
	FailAt int // -1: the input does not fail
	SinkAt int // -1: the output accepts everything
	How    int // which of the ways to fail
	Status int
	Want   string
	Bare   string // a file in the current directory with the input
	URL    string
}

type lone struct {
	Has    bool   `json:"has"`
	Code   int    `json:"code"`
	Stdout string `json:"stdout"`
	Stderr string `json:"stderr"`
}

type runRec struct {
	Inv    inv      `json:"inv"`
	Argv   []string `json:"argv"`
	Out    string   `json:"out"`
	Code   int      `json:"code"`
	Stdout string   `json:"stdout"`
	Stderr string   `json:"stderr"`
	Want   string   `json:"want"`
	Alone  lone     `json:"alone"`
}

type cliTrace struct {
	ID   int       `json:"id"`
	Kind string    `json:"kind"`
	Runs []*runRec `json:"runs"`
}

type sink struct {
	bytes.Buffer
	at  int
	how int
}

var sinkErrors = []error{errors.New("no space left on device"), syscall.ENOSPC, syscall.EPIPE, os.ErrClosed, io.ErrClosedPipe, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, syscall.EINTR, syscall.EAGAIN,
	&os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EIO}, stdctx.Canceled, os.ErrDeadlineExceeded, nil}

func (s *sink) Write(p []byte) (int, error) {
	if s.at >= 0 && s.Len()+len(p) > s.at {
		n := s.at - s.Len()
		s.Buffer.Write(p[:n])
		return n, sinkErrors[s.how%len(sinkErrors)]
	}
	return s.Buffer.Write(p)
}

var fileNames = []string{"-", "--", "-f", "--help", "a b", " ", "stdin", "key.asc", "key.gpg", "KEY.PGP", "x.sig", "k.gz", "\u65e5\u672c\u8a9e", "a:b", "*", "http:", "0", "~", "$HOME", "%s", "version", strings.Repeat("n", 200), "\xff\xfe", "new\nline", "'\"`"}

// concretize; base is the address of a real server ("" for the harness's own network)
func (g *G) concretize(i inv, base string) *concrete {
	c := &concrete{Inv: i, FailAt: -1, SinkAt: -1}
	d := g.stream(1+g.Intn(2), 1)
	for len(d) == 0 || len(d) > 2000 || dump(d, Opts{}).Err != nil {
		d = g.stream(1+g.Intn(2), 1)
	}
	switch i.Data {
	case "binary", "damaged":
		if i.Data == "damaged" {
			if i.Cmd == "hkp" || i.Cmd == "github" || i.Armor || i.Src == "clip" || g.chance(0.5) {
				d = armored("PGP MESSAGE", g.pkt(13, []byte("alice"), hNew1)[:4])
			} else {
				d = cat(g.pkt(g.oneOf(13, 10, 12, 40), g.bytes(1+g.Intn(9)), hBest), []byte{0xcd, 5, 'a'})
			}
		}
	case "empty":
		d = []byte{}
	case "text":
		d = []byte(g.pick("\n", " ", "hello\n", "-----BEGIN PGP MESSAGE\n", "no key here\n\n", "<html><body>no results</body></html>\n", strings.Repeat("text\n", 3000)))
	default:
		if i.Data == "large" { // more than any buffer holds
			for first := d; ; first = g.stream0(1) { // what follows may be taken into a packet without a length
				d = cat(first, g.pkt(g.oneOf(11, 13, 10), g.bytesText(g.oneOf(5000, 40000, 70000)), hBest), g.stream0(1))
				if dump(d, Opts{}).Err == nil {
					break
				}
			}
		}
		d = armored(g.pick("PGP MESSAGE", "PGP PUBLIC KEY BLOCK", "PGP SIGNATURE"), d)
	}
	c.Input = d
	if i.Data == "failing" {
		c.FailAt = g.Intn(len(d) + 1)
		if g.chance(0.3) {
			c.FailAt = len(d)
		}
	}
	if i.Sink == "full" {
		c.SinkAt = g.oneOf(0, 0, 1, 2, 5)
		if i.Raw && c.SinkAt >= len(d) && len(d) > 0 { // it has to be too small
			c.SinkAt = len(d) - 1
		}
	}
	c.How = g.Intn(1000)
	o := g.opts()
	o.GDump, o.Debug, o.Armor, o.Off = false, i.Debug, i.Armor, 0
	// options, in any order and form
	type opt []string
	opts := []opt{}
	short := map[string]string{"armor": "a", "cert": "c", "int": "i", "literal": "l", "marker": "m", "private": "p", "utc": "u"}
	for _, n := range optNames {
		if !*o.get(n) {
			if g.chance(0.05) && n != "gdump" {
				opts = append(opts, opt{"--" + n + "=false"})
			}
			continue
		}
		if s := short[n]; s != "" && g.chance(0.5) {
			opts = append(opts, opt{"-" + s})
		} else {
			opts = append(opts, opt{"--" + n})
		}
	}
	if i.JSON {
		opts = append(opts, opt{g.pick("-j", "--json")})
	}
	if i.Indent == beyond { // no output can have it
		opts = append(opts, opt{"--indent", g.pick("9223372036854775807", "4611686018427387904", "1125899906842624")})
	} else if i.Indent != 0 {
		if i.Indent > 0 && g.chance(0.5) {
			i.Indent = g.oneOf(1, 2, 4, 8, 9, 16, g.nearConstant(1, 300, 5))
			c.Inv.Indent = i.Indent
		}
		if g.chance(0.5) {
			opts = append(opts, opt{"--indent", strconv.Itoa(i.Indent)})
		} else {
			opts = append(opts, opt{"--indent=" + strconv.Itoa(i.Indent)})
		}
	}
	local := []opt{}
	if i.VFlag {
		local = append(local, opt{g.pick("-v", "--version")})
	}
	if i.Raw {
		local = append(local, opt{"--raw"})
	}
	switch i.Src {
	case "file":
		f := g.keepFile(d)
		if g.chance(0.4) { // any name, in the current directory
			c.Bare = fileNames[g.named%len(fileNames)]
			g.named++
			if g.chance(0.15) {
				if t := g.codeWord(".", ".."); len(t) < 100 && !strings.Contains(t, "/") {
					c.Bare = t
				}
			}
			f = c.Bare
			if g.chance(0.3) {
				f = "./" + f
			}
		}
		if g.chance(0.8) {
			local = append(local, opt{g.pick("-f", "--file"), f})
		} else {
			local = append(local, opt{"--file=" + f})
		}
	case "clip":
		local = append(local, opt{"--clipboard"})
	case "missing":
		local = append(local, opt{"-f", filepath.Join(scratchDir(), "no-such-file")})
	case "dir":
		local = append(local, opt{"-f", scratchDir()})
	}
	switch i.FlagErr {
	case "unknown":
		opts = append(opts, opt{g.pick("--no-such-flag", "-Z", "--armour", "--raww")})
	case "value":
		opts = append(opts, g.pickOpt(opt{"--indent", "x"}, opt{"--indent=1.5"}, opt{"--json=maybe"}, opt{"--utc=2"}))
	case "conflict":
		if i.Cmd == "root" {
			if i.Src != "clip" {
				local = append(local, opt{"--clipboard"})
			}
			if i.Src == "stdin" || i.Src == "clip" {
				local = append(local, opt{"-f", g.keepFile(d)})
			}
		} else {
			local = append(local, opt{"--keyserver", ""})
		}
	}
	pos := []string{}
	switch i.Cmd {
	case "root":
		if i.Args == "extra" {
			pos = append(pos, g.pick("extra", "versio", "x.asc", g.codeWord("version", "ver", "v", "completion", "compl", "cmp", "hkp", "h", "github", "gh", "g", "fetch", "fch", "f", "help")))
		}
	case "completion":
		switch i.Args {
		case "right":
			pos = append(pos, g.pick("bash", "zsh", "fish", "powershell", "BASH", "Zsh"))
		case "extra":
			// a shell too many, any pair, possibly the same
			for k := 2 + g.oneOf(0, 0, 0, 1, 2); k > 0; k-- {
				pos = append(pos, g.pick("bash", "zsh", "fish", "powershell", "Bash", "tcsh", ""))
			}
			if g.chance(0.5) {
				pos[1] = pos[0]
			}
		case "wrong":
			pos = append(pos, g.pick("tcsh", "", "bashh", "ba", g.codeWord("bash", "zsh", "fish", "powershell")))
		}
	case "hkp", "github", "fetch":
		word := g.pick("alice", "0x1234ABCD", "alice@example.com")
		if i.Cmd == "fetch" {
			at := "http://localhost"
			if base != "" {
				at = base
			} else if g.chance(0.5) {
				at = g.pick("https://localhost", "HTTP://localhost", "http://Keys.Example.ORG", "https://keys.example.org:8443", "http://127.0.0.1:80", "http://[::1]:8080", "https://example.com:443")
			}
			word = at + "/key"
			if g.chance(0.6) {
				word = at + g.pick("", "/", "/key.asc", "/a/b/../c", "/a%20b", "/a%2Fb", "/K\u00e9y", "/~user/KEY", "//double", "/key?x=1", "/key?x=1&y=%26&x=2", "/key?", "/?q=a+b", "/key#top", "/key;v=1", "/a/./b/", "/pks/lookup?op=get&search=0x1234", "/very"+strings.Repeat("/long", 30))
			}
			if i.Args == "right" {
				c.URL = word
			}
			if i.Args == "wrong" {
				word = g.pick("http://[::1", "://x", "http://a b/", "%zz")
			}
		}
		if base != "" && i.Cmd == "hkp" && i.FlagErr != "conflict" {
			u, _ := url.Parse(base)
			local = append(local, opt{"--keyserver", u.Hostname()}, opt{"--port", u.Port()})
		}
		if i.Args != "none" {
			pos = append(pos, word)
		}
		if i.Args == "extra" {
			pos = append(pos, g.pick("more", word, "", g.codeWord()))
			if g.chance(0.2) {
				pos = append(pos, word)
			}
		}
	}
	name := map[string][]string{"version": {"version", "ver", "v"}, "completion": {"completion", "compl", "cmp"}, "hkp": {"hkp", "h"},
		"github": {"github", "gh", "g"}, "fetch": {"fetch", "fch", "f"}, "bogus": {"bogus"}}[i.Cmd]
	if len(name) > 0 {
		c.Argv = append(c.Argv, name[g.Intn(len(name))])
	}
	all := append(opts, local...)
	g.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
	at := g.Intn(len(all) + 1)
	for k, x := range all {
		if k == at {
			c.Argv = append(c.Argv, pos...)
		}
		c.Argv = append(c.Argv, x...)
	}
	if at == len(all) {
		c.Argv = append(c.Argv, pos...)
	}
	c.Status = g.oneOf(400, 401, 403, 404, 410, 429, 500, 502, 503)
	// the rendering by the library
	if i.Raw {
		c.Want = esc(string(d))
	} else {
		if i.Cmd == "hkp" || i.Cmd == "github" || i.Src == "clip" {
			o.Armor = true
		}
		if i.Indent != beyond {
			c.Want = renderingOf(d, o, i.JSON, i.Indent)
		}
	}
	return c
}

func renderingOf(d []byte, o Opts, js bool, indent int) string {
	oc := dump(d, o)
	if oc.Out != "returned" || oc.Err != nil {
		return ""
	}
	if js {
		r, err := oc.Info.JSON(indent)
		if err != nil {
			return ""
		}
		b, _ := io.ReadAll(r)
		return esc(string(b))
	}
	in := "\t"
	if indent > 0 {
		in = strings.Repeat(" ", indent)
	}
	return esc(oc.Info.ToString(in).String())
}

// a text of the code that is an argument, but none of these
func (g *G) codeWord(not ...string) string {
again:
	for k := 0; k < 50; k++ {
		t := g.codeText()
		if t == "" || t[0] == '-' || strings.ContainsRune(t, 0) {
			continue
		}
		for _, n := range not {
			if strings.EqualFold(strings.TrimSpace(t), n) {
				continue again
			}
		}
		return t
	}
	return "word"
}

func (g *G) pickOpt(xs ...[]string) []string { return xs[g.Intn(len(xs))] }

var kept = 0

func (g *G) keepFile(d []byte) string {
	kept++
	return scratchFile(fmt.Sprintf("kept%d", kept), d)
}

func scratchDir() string {
	scratchFile("keep", nil)
	return scratch
}

var runErrors = append([]error{errors.New("read failed"), syscall.EIO, syscall.EISDIR, os.ErrClosed, syscall.ECONNRESET}, readErrors...)

func (c *concrete) place() {
	if c.Bare != "" {
		if err := os.WriteFile(c.Bare, c.Input, 0600); err != nil {
			fatal(err)
		}
	}
}

func (c *concrete) reader() io.Reader {
	if c.FailAt >= 0 {
		return &source{data: append([]byte{}, c.Input...), sched: []answer{{c.FailAt, "no"}, {0, "err"}}, err: runErrors[c.How%len(runErrors)], done: "err"}
	}
	return bytes.NewReader(c.Input)
}

// clipEnv fills the clipboard, which is played by a script of the check
func (c *concrete) clipEnv() []string {
	if c.Inv.Src != "clip" {
		return []string{"VERIF_CLIP=/nonexistent", "VERIF_CLIP_RC=1"}
	}
	if c.FailAt >= 0 {
		return []string{"VERIF_CLIP=" + scratchFile("clip", c.Input[:c.FailAt]), "VERIF_CLIP_RC=1"}
	}
	return []string{"VERIF_CLIP=" + scratchFile("clip", c.Input), "VERIF_CLIP_RC=0"}
}

// run executes in this process
func (c *concrete) run() *runRec {
	c.place()
	time.Local = time.UTC
	r := &runRec{Inv: c.Inv, Argv: c.Argv, Want: c.Want}
	nw := &fakeNet{serve: func(*http.Request, int) reply {
		switch c.Inv.Net {
		case "refused":
			return reply{Err: errNoNet}
		case "status":
			return reply{Status: c.Status, Body: c.reader()}
		}
		return reply{Body: c.reader()}
	}}
	var in io.Reader = c.reader()
	if c.Inv.Src != "stdin" || c.Inv.Cmd != "root" {
		in = bytes.NewReader([]byte{0xcd, 2, 'n', 'o'})
	}
	for _, e := range c.clipEnv() {
		kv := strings.SplitN(e, "=", 2)
		os.Setenv(kv[0], kv[1])
	}
	oc := guarded(func() (*result.Info, error) {
		withNet(nw, func() {
			o := &sink{at: c.SinkAt, how: c.How}
			var e bytes.Buffer
			ui := rwi.New(rwi.WithReader(in), rwi.WithWriter(o), rwi.WithErrorWriter(&e))
			r.Code = int(facade.Execute(ui, c.Argv))
			r.Stdout, r.Stderr = esc(o.String()), esc(e.String())
		})
		return nil, nil
	})
	r.Out = oc.Out
	return r
}

// onceCmd executes one invocation in a process of its own
func onceCmd() {
	b, err := os.ReadFile(*fIn)
	if err != nil {
		fatal(err)
	}
	var c concrete
	if err := json.Unmarshal(b, &c); err != nil {
		fatal(err)
	}
	writeJSON("once.json", c.run())
}

func (c *concrete) alone() lone {
	b, _ := json.Marshal(c)
	dir, err := os.MkdirTemp(*fOut, "once")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in.json")
	if err := os.WriteFile(in, b, 0600); err != nil {
		fatal(err)
	}
	cmd := exec.Command(os.Args[0], "-cmd", "cli-once", "-in", in, "-out", dir)
	if out, err := cmd.CombinedOutput(); err != nil {
		return lone{Has: true, Code: -2, Stderr: esc(string(out))}
	}
	b, err = os.ReadFile(filepath.Join(dir, "once.json"))
	if err != nil {
		fatal(err)
	}
	var r runRec
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err)
	}
	return lone{Has: true, Code: r.Code, Stdout: r.Stdout, Stderr: r.Stderr}
}

// process executes the built program
func (c *concrete) process(bin string, closed string) *runRec {
	c.place()
	r := &runRec{Inv: c.Inv, Argv: c.Argv, Want: c.Want, Out: "returned"}
	cmd := exec.Command(bin, c.Argv...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Env = append(os.Environ(), "TZ=UTC", "NO_PROXY=*", "no_proxy=*")
	cmd.Env = append(cmd.Env, c.clipEnv()...)
	cmd.Stdin = bytes.NewReader(c.Input)
	if c.Inv.Cmd != "root" || c.Inv.Src != "stdin" {
		cmd.Stdin = bytes.NewReader([]byte{0xcd, 2, 'n', 'o'})
	} else if c.FailAt >= 0 {
		d, err := os.Open(scratchDir()) // reading a directory fails
		if err != nil {
			fatal(err)
		}
		defer d.Close()
		cmd.Stdin = d
	}
	if c.SinkAt >= 0 {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fatal(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		r.Code = cmd.ProcessState.ExitCode()
	case <-time.After(hangLimit):
		cmd.Process.Kill()
		<-done
		r.Out = "hang"
	}
	r.Stdout, r.Stderr = esc(o.String()), esc(e.String())
	return r
}

func readRuns() [][]inv {
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	out := [][]inv{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r []inv
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fatal(err)
		}
		out = append(out, r)
	}
	return out
}

// inScratch makes the scratch directory the current one
func inScratch() {
	if err := os.Chdir(scratchDir()); err != nil {
		fatal(err)
	}
}

func runsCmd() {
	inScratch()
	g := newG(17)
	traces := []*cliTrace{}
	kinds := map[string]int{}
	put := func(kind string, rs ...*runRec) {
		traces = append(traces, &cliTrace{ID: len(traces), Kind: kind, Runs: rs})
		kinds[kind]++
	}
	core := map[inv]*concrete{}
	alones := map[inv]lone{}
	for _, h := range readRuns() {
		if len(h) == 1 {
			for k := 0; k < scale(1, 3); k++ {
				put("single", g.concretize(h[0], "").run())
			}
			continue
		}
		rs := []*runRec{}
		for _, i := range h {
			c := core[i]
			if c == nil {
				c = g.concretize(i, "")
				core[i] = c
				alones[i] = c.alone()
			}
			r := c.run()
			r.Alone = alones[i]
			rs = append(rs, r)
		}
		put("history", rs...)
	}
	// longer random histories with other contents
	cs := []*concrete{}
	al := map[*concrete]lone{}
	keys := []inv{}
	for _, h := range readRuns() {
		for _, i := range h {
			keys = append(keys, i)
		}
	}
	for k := 0; k < scale(25, 80); k++ {
		c := g.concretize(keys[g.Intn(len(keys))], "")
		cs = append(cs, c)
		al[c] = c.alone()
	}
	for k := 0; k < scale(60, 300); k++ {
		rs := []*runRec{}
		for n := 2 + g.Intn(12); n > 0; n-- {
			c := cs[g.Intn(len(cs))]
			r := c.run()
			r.Alone = al[c]
			rs = append(rs, r)
		}
		put("long history", rs...)
	}
	if *fBin != "" {
		var cur *concrete
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			switch {
			case cur.Inv.Net == "status":
				w.WriteHeader(cur.Status)
				w.Write(cur.Input)
			case cur.FailAt >= 0:
				w.Header().Set("Content-Length", strconv.Itoa(len(cur.Input)+10))
				w.Write(cur.Input[:cur.FailAt])
				if h, ok := w.(http.Hijacker); ok {
					if f, ok := w.(http.Flusher); ok {
						f.Flush()
					}
					if cn, _, err := h.Hijack(); err == nil {
						cn.Close()
					}
				}
			default:
				w.Write(cur.Input)
			}
		}))
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			fatal(err)
		}
		dead := "http://" + ln.Addr().String()
		ln.Close()
		n := 0
		for _, h := range readRuns() {
			if len(h) != 1 || h[0].Cmd == "github" {
				continue
			}
			if n++; (n+int(*fSeed))%scale(5, 1) != 0 {
				continue
			}
			base := srv.URL
			if h[0].Net == "refused" {
				base = dead
			}
			cur = g.concretize(h[0], base)
			put("process", cur.process(*fBin, dead))
		}
		srv.Close()
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func init() {
	commands["runs"] = runsCmd
	commands["cli-once"] = onceCmd
}
