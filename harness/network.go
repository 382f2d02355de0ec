package main

import (
	"bufio"
	"bytes"
	stdctx "context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/ecode"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- C18: key listings -----------------------------------------------------------------------

type ghMatch struct {
	At   int    `json:"at"`
	Has  bool   `json:"has"`
	Text string `json:"text"`
}

type ghList struct {
	N     int       `json:"n"`
	Match []ghMatch `json:"match"`
	Fault []string  `json:"fault"`
	own   int       // the server's own page size, larger than any the client asks for (0: as asked)
}

type ghReq struct {
	Method string   `json:"method"`
	Scheme string   `json:"scheme"`
	Host   string   `json:"host"`
	Path   []string `json:"path"`
	Page   int      `json:"page"`
	Per    int      `json:"per"`
}

type ghTrace struct {
	ID    int     `json:"id"`
	Kind  string  `json:"kind"`
	Via   string  `json:"via"`
	User  string  `json:"user"`
	KeyID bool    `json:"keyid"`
	Given string  `json:"given"`
	List  ghList  `json:"list"`
	Body  string  `json:"body"`
	Reqs  []ghReq `json:"reqs"`
	Out   string  `json:"out"`
	Err   string  `json:"err"`
	Data  string  `json:"data"`
}

// segments of a path, each decoded on its own
func segments(u *url.URL) []string {
	out := []string{}
	for _, s := range strings.Split(strings.TrimPrefix(u.EscapedPath(), "/"), "/") {
		d, err := url.PathUnescape(s)
		if err != nil {
			d = "<bad escape>" + s
		}
		out = append(out, esc(d))
	}
	return out
}

func client(f *fakeNet) fetch.Client {
	return fetch.New(fetch.WithHTTPClient(&http.Client{Transport: f}))
}

func (g *G) hexID() string { return fmt.Sprintf("%08X%08X", g.Uint32(), g.Uint32()) }

// entry of a listing, as JSON
func (g *G) entry(id string, raw *string) string {
	m := map[string]interface{}{"id": g.Intn(1 << 30), "key_id": id, "raw_key": raw}
	if g.chance(0.5) {
		m["public_key"] = "xsBN"
		m["emails"] = []interface{}{map[string]interface{}{"email": "a@example.com", "verified": true}}
		m["subkeys"] = []interface{}{}
		m["created_at"] = "2016-03-24T11:31:04.000-06:00"
		m["expires_at"] = nil
		m["primary_key_id"] = nil
		m["can_sign"] = true
	}
	if g.chance(0.1) {
		m["new_field"] = []int{1, 2}
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func (g *G) flipCase(s string) string {
	b := []byte(strings.ToLower(s))
	for i := range b {
		if g.chance(0.5) && b[i] >= 'a' && b[i] <= 'f' {
			b[i] -= 32
		}
	}
	return string(b)
}

// spread turns a listing in pages of two into one in pages of a hundred
func (g *G) spread(l ghList) ghList {
	const per = 100
	o := ghList{Match: []ghMatch{}, Fault: append([]string{}, l.Fault...)}
	pos := map[int]int{}
	for p := 0; p*2 < l.n(); p++ {
		count := per
		if p*2+1 >= l.N {
			count = g.oneOf(1, 2, 50, 98, 99, 1+g.Intn(99))
			pos[p*2+1] = p*per + 1 + g.oneOf(0, count-1, g.Intn(count))
		} else {
			a, b := g.oneOf(0, g.Intn(99)), g.oneOf(99, g.Intn(100))
			for a >= b {
				a, b = g.Intn(99), g.Intn(100)
			}
			pos[p*2+1], pos[p*2+2] = p*per+1+a, p*per+1+b
		}
		o.N += count
	}
	for _, m := range l.Match {
		o.Match = append(o.Match, ghMatch{pos[m.At], m.Has, m.Text})
	}
	return o
}

func (l ghList) n() int { return l.N }

func (g *G) ghTrace(id int, kind string, l ghList) *ghTrace {
	wanted := g.hexID()
	t := &ghTrace{ID: id, Kind: kind, KeyID: true, User: g.pick("alice", "alice", "a-b-c", "x", "a b", "a/b", "a?b=c", "a%2Fb", "a#b", "\u00e9l\u00e8ve", "a+b", "a&page=9"), List: l, Reqs: []ghReq{}}
	if g.chance(0.5) {
		t.User = g.oddly(g.pick("alice", "Bob", "a-b", "x", "user.name", "USER_1", "0day"))
	}
	if g.chance(0.25) {
		if u := g.codeWord(".", ".."); utf8.ValidString(u) {
			t.User = u
		}
	}
	t.Via = g.pick("api", "api", "api", "cli")
	t.Given = g.pick("", "0x", "0X", "0x") + g.flipCase(wanted)
	if len(l.Match) == 0 && kind == "emitted" && l.N <= 1 && g.chance(0.7) {
		t.KeyID = false // the whole key file
		t.Given = ""
	}
	entries := make([]string, l.N)
	texts := map[int]*string{}
	for i := range t.List.Match {
		m := &t.List.Match[i]
		if m.Has {
			s := string(armored("PGP PUBLIC KEY BLOCK", g.bytes(1+g.Intn(30)))) + g.pick("", "\r\n", " \u65e5\u672c ", "<&>\"\\")
			texts[m.At] = &s
			m.Text = esc(s)
		} else {
			m.Text = ""
		}
	}
	decoy := string("decoy")
	for i := range entries {
		x := g.hexID()
		raw := &decoy
		switch g.Intn(12) {
		case 0:
			x = wanted[8:] // only the short form
		case 1:
			x = "0" + wanted
		case 2:
			x = wanted + "0"
		case 3:
			b := []byte(wanted)
			k := g.Intn(16)
			if b[k] == '0' {
				b[k] = '1'
			} else {
				b[k] = '0'
			}
			x = string(b)
		case 4:
			raw = nil
		case 5:
			x = ""
		}
		entries[i] = g.entry(x, raw)
		if g.chance(0.02) {
			entries[i] = "null"
		}
	}
	for _, m := range t.List.Match {
		entries[m.At-1] = g.entry(g.pick(wanted, wanted, strings.ToLower(wanted), g.flipCase(wanted)), texts[m.At])
	}
	body := string(g.bytes(g.Intn(300)))
	if g.chance(0.5) {
		body = string(armored("PGP PUBLIC KEY BLOCK", []byte(body)))
	}
	t.Body = esc(body)
	if !t.KeyID {
		for i, f := range t.List.Fault {
			if f == "garbage" || f == "type" || f == "trailing" {
				t.List.Fault[i] = "ok"
			}
		}
	}
	f := &fakeNet{}
	f.serve = func(r *http.Request, n int) reply {
		q := r.URL.Query()
		rq := ghReq{Method: r.Method, Scheme: r.URL.Scheme, Host: r.URL.Host, Path: segments(r.URL), Page: 1, Per: 30}
		if v := q.Get("page"); v != "" {
			rq.Page, _ = strconv.Atoi(v)
		}
		if v := q.Get("per_page"); v != "" {
			rq.Per, _ = strconv.Atoi(v)
		}
		if rq.Per <= 0 {
			rq.Per = 30
		}
		if rq.Per > 100 {
			rq.Per = 100
		}
		if l.own > 0 {
			rq.Per = l.own
		}
		t.Reqs = append(t.Reqs, rq)
		if len(t.Reqs) > 120 {
			return reply{Err: errors.New("too many requests")}
		}
		var b string
		page := 1
		if t.KeyID {
			page = rq.Page
			lo, hi := (rq.Page-1)*rq.Per, rq.Page*rq.Per
			if lo < 0 || lo > len(entries) {
				lo = len(entries)
			}
			if hi < lo {
				hi = lo
			}
			if hi > len(entries) {
				hi = len(entries)
			}
			b = "[" + strings.Join(entries[lo:hi], g.pick(",", ", ", ",\n  ")) + "]" + g.pick("", "\n")
		} else {
			b = body
		}
		fault := "ok"
		if page >= 1 && page <= len(t.List.Fault) {
			fault = t.List.Fault[page-1]
		}
		switch fault {
		case "status":
			return reply{Status: g.oneOf(400, 401, 403, 404, 422, 429, 500, 502, 503, 599), Body: strings.NewReader(b)}
		case "refused":
			return reply{Err: errNoNet}
		case "cut":
			k := g.Intn(len(b) + 1)
			if g.chance(0.3) {
				k = len(b)
			}
			return reply{Body: &source{data: []byte(b), sched: []answer{{k, "no"}, {0, "err"}}, err: io.ErrUnexpectedEOF, done: "err"}}
		case "garbage":
			b = g.pick("", "<html>", `{"message":"Not Found"}`, b[:len(strings.TrimSpace(b))-1], "[", "true", "\x00", strings.Replace(b, "[", "{", 1))
		case "type":
			b = "[" + g.pick(`{"key_id":12,"raw_key":"x"}`, `{"key_id":"12","raw_key":{}}`, "1", `"x"`, `{"id":"x","key_id":"1"}`, `{"key_id":"1","created_at":"yesterday"}`, `[]`) +
				strings.Replace(","+strings.TrimPrefix(strings.TrimSpace(b), "["), ",]", "]", 1)
		case "trailing":
			b += g.pick("x", "]", "[]", `{"message":"x"}`, "null")
		}
		return reply{Body: strings.NewReader(b)}
	}
	oc := guarded(func() (*result.Info, error) {
		if t.Via == "api" {
			d, err := github.GetKey(stdctx.Background(), client(f), t.User, t.Given)
			t.Data = esc(string(d))
			if errors.Is(err, ecode.ErrNoKey) {
				t.Err = "nokey"
			} else if err != nil {
				t.Err = "other"
			}
			return nil, nil
		}
		withNet(f, func() {
			args := []string{"github", "--raw"}
			if t.KeyID {
				args = append(args, "--keyid", t.Given)
			}
			if strings.HasPrefix(t.User, "-") || g.chance(0.3) {
				args = append(args, "--")
			}
			args = append(args, t.User)
			c := runCLI(nil, args...)
			t.Data = esc(c.Out)
			if c.Code != 0 {
				t.Err = "other"
			}
		})
		return nil, nil
	})
	t.Out = oc.Out
	t.User = esc(t.User)
	return t
}

func githubCmd() {
	g := newG(18)
	traces := []*ghTrace{}
	kinds := map[string]int{}
	put := func(t *ghTrace) { traces = append(traces, t); kinds[t.Kind]++; kinds["via "+t.Via]++ }
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var l ghList
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			fatal(err)
		}
		put(g.ghTrace(len(traces), "emitted", g.spread(l)))
	}
	f.Close()
	for i := 0; i < scale(200, 1500); i++ {
		l := ghList{N: g.oneOf(0, 1, 30, 99, 100, 101, 199, 200, 201, 300, g.Intn(500), 1000), Match: []ghMatch{}, Fault: []string{}}
		if l.N > 0 && g.chance(0.7) {
			at := 1 + g.oneOf(0, l.N-1, g.Intn(l.N))
			l.Match = append(l.Match, ghMatch{At: at, Has: g.chance(0.85)})
			if at < l.N && g.chance(0.3) {
				l.Match = append(l.Match, ghMatch{At: at + 1 + g.Intn(l.N-at), Has: g.chance(0.7)})
			}
		}
		put(g.ghTrace(len(traces), "random", l))
	}
	for _, n := range nearConstants(3, 99) { // as many pages as the numbers of the code
		l := ghList{N: n*100 + g.oneOf(-1, 0, 1, 50), Match: []ghMatch{}, Fault: []string{}}
		if g.chance(0.8) {
			l.Match = append(l.Match, ghMatch{At: l.N - g.oneOf(0, 0, 0, 50, 99), Has: g.chance(0.9)})
		}
		put(g.ghTrace(len(traces), "pages of the code", l))
	}
	for i := 0; i < scale(40, 300); i++ { // pages with more entries than asked for; the last one has fewer
		own := g.oneOf(101, 101, 102, 128, 150, 200, 101+g.Intn(400))
		l := ghList{N: own*(1+g.Intn(4)) + g.Intn(30), Match: []ghMatch{}, Fault: []string{}, own: own}
		if g.chance(0.8) {
			l.Match = append(l.Match, ghMatch{At: 1 + g.oneOf(l.N-1, own-1, 100, own, g.Intn(l.N)), Has: g.chance(0.9)})
			if l.Match[0].At > l.N {
				l.Match[0].At = l.N
			}
		}
		put(g.ghTrace(len(traces), "larger pages", l))
	}
	for i := 0; i < scale(60, 400); i++ {
		put(g.ghTrace(len(traces), "emitted", ghList{N: 0, Match: []ghMatch{}, Fault: []string{g.pick("ok", "ok", "status", "refused", "cut")}}))
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

// ---- C19: key server requests -------------------------------------------------------------------

type hkpReq struct {
	Method string   `json:"method"`
	Scheme string   `json:"scheme"`
	Host   string   `json:"host"`
	Port   string   `json:"port"`
	Path   []string `json:"path"`
	Op     []string `json:"op"`
	Search []string `json:"search"`
	Extra  []string `json:"extra"`
}

type hkpTrace struct {
	ID     int      `json:"id"`
	Kind   string   `json:"kind"`
	Via    string   `json:"via"`
	Host   string   `json:"host"`
	Port   string   `json:"port"`
	Secure bool     `json:"secure"`
	User   string   `json:"user"`
	Answer string   `json:"answer"`
	Body   string   `json:"body"`
	Reqs   []hkpReq `json:"reqs"`
	Out    string   `json:"out"`
	Err    bool     `json:"err"`
	Data   string   `json:"data"`
}

type hkpCase struct {
	Host   string `json:"host"`
	Port   string `json:"port"`
	Secure bool   `json:"secure"`
	User   string `json:"user"`
	Answer string `json:"answer"`
	Via    string `json:"via"`
}

// oddly puts any printable character somewhere
func (g *G) oddly(s string) string {
	c := string(rune(32 + g.Intn(95)))
	switch g.Intn(4) {
	case 0:
		return c + s
	case 1:
		return s + c
	case 2:
		if c != "." {
			return c
		}
	}
	k := g.Intn(len(s) + 1)
	return s[:k] + c + s[k:]
}

func escAll(xs []string) []string {
	out := []string{}
	for _, x := range xs {
		out = append(out, esc(x))
	}
	return out
}

func (g *G) hkpTrace(id int, kind string, c hkpCase) *hkpTrace {
	host := map[string]string{"default": "keys.gnupg.net", "name": g.pick("pgp.example.com", "localhost", "KEYS.Example.ORG", "x", "keys.example.org.", "www.keys.example.org", "a_b.example", "xn--bcher-kva.example", "9.example", "keys-1.example.co.uk", "http.example", "pool.sks-keyservers.net"), "ip": g.pick("192.0.2.7", "127.0.0.1", "10.1.2.3"), "ip6": g.pick("[2001:db8::1]", "[::1]", "[2001:DB8:0:0:1::9]")}[c.Host]
	port := map[string]int{"default": 11371, "low": g.oneOf(1, 80, 443, 80, 443), "high": g.oneOf(8080, 65535, 1024+g.Intn(60000), g.nearConstant(1, 65535, 11371))}[c.Port]
	user := map[string]string{
		"word": g.pick("alice", "0x44CE6900E2B307A4", "E2B307A4", "0X44ce6900", "ALICE", "0x", "-alice", "0000000000000001", g.codeText(), strings.ToUpper(g.codeText())), "mail": g.pick("alice@example.com", "Alice <alice@example.com>", "=a=b"),
		"space": g.pick("Alice B Cooper", " lead", "trail ", "a  b"), "special": g.pick("a&op=index", "a#b", "a?b", "100%", "%41", "a+b", "a;b", "a/b", "\"q\"", "a=b&search=c", "\\", "..", "%zz"),
		"unicode": g.pick("\u65e5\u672c\u8a9e", "caf\u00e9", "\U0001f511", "e\u0301"), "bytes": g.pick("\xff\xfe", "a\nb", "a\r\nHost: x", "\x00", "\x7f", "a\tb"),
		"empty": "", "long": strings.Repeat(g.pick("x", "a b", "\u65e5"), 500+g.Intn(1500)),
	}[c.User]
	if c.User == "word" && g.chance(0.4) || c.User == "special" && g.chance(0.6) {
		user = g.oddly(g.pick("alice", "Bob Smith", "0x1234ABCD", "bob@example.org", "a-b"))
	}
	body := string(g.bytes(g.Intn(400)))
	if g.chance(0.3) {
		body = strings.Repeat(body+"\n", 40)
	}
	t := &hkpTrace{ID: id, Kind: kind, Via: c.Via, Host: strings.Trim(host, "[]"), Port: strconv.Itoa(port), Secure: c.Secure, User: esc(user), Answer: c.Answer, Body: esc(body), Reqs: []hkpReq{}}
	f := &fakeNet{}
	f.serve = func(r *http.Request, n int) reply {
		q := r.URL.Query()
		rq := hkpReq{Method: r.Method, Scheme: r.URL.Scheme, Host: r.URL.Hostname(), Port: r.URL.Port(), Path: segments(r.URL), Op: escAll(q["op"]), Search: escAll(q["search"]), Extra: []string{}}
		if rq.Port == "" {
			rq.Port = map[string]string{"http": "80", "https": "443"}[rq.Scheme]
		}
		if r.URL.User != nil || r.URL.Fragment != "" {
			rq.Extra = append(rq.Extra, "user or fragment")
		}
		if r.Host != "" && r.Host != r.URL.Host {
			rq.Extra = append(rq.Extra, "Host header "+esc(r.Host))
		}
		t.Reqs = append(t.Reqs, rq)
		switch c.Answer {
		case "refused":
			return reply{Err: errNoNet}
		case "status":
			return reply{Status: g.oneOf(400, 403, 404, 410, 500, 501, 503, 599), Body: strings.NewReader(body)}
		case "cut":
			k := g.Intn(len(body) + 1)
			return reply{Body: &source{data: []byte(body), sched: []answer{{k, "no"}, {0, "err"}}, err: io.ErrUnexpectedEOF, done: "err"}}
		case "chunks":
			s := []answer{}
			for left := len(body); left > 0; {
				k := 1 + g.Intn(left)
				s = append(s, answer{k, "no"})
				left -= k
			}
			return reply{Body: &source{data: []byte(body), sched: append(s, answer{0, "eof"}), done: "eof"}}
		}
		return reply{Body: strings.NewReader(body)}
	}
	oc := guarded(func() (*result.Info, error) {
		if c.Via == "api" {
			if id%16 == 0 { //no server at all: an address without a host, never a panic
				_ = (*hkp.Server)(nil).String()
			}
			opts := []hkp.ServerOptFunc{}
			if c.Secure {
				opts = append(opts, hkp.WithProtocol(hkp.HKPS))
			} else if g.chance(0.5) {
				opts = append(opts, hkp.WithProtocol(hkp.HKP))
			}
			if c.Port != "default" || g.chance(0.5) {
				opts = append(opts, hkp.WithPort(port))
			}
			g.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
			r, err := hkp.New(host, opts...).Fetch(stdctx.Background(), client(f), user)
			if err != nil {
				t.Err = true
				return nil, nil
			}
			b, err := io.ReadAll(r)
			r.Close()
			if err != nil {
				t.Err = true
				return nil, nil
			}
			t.Data = esc(string(b))
			return nil, nil
		}
		withNet(f, func() {
			args := []string{"hkp", "--raw"}
			if c.Secure {
				args = append(args, "--secure")
			}
			if c.Port != "default" {
				args = append(args, "--port", strconv.Itoa(port))
			}
			if c.Host != "default" {
				args = append(args, "--keyserver", host)
			}
			r := runCLI(nil, append(args, "--", user)...)
			t.Err = r.Code != 0
			if !t.Err {
				t.Data = esc(r.Out)
			}
		})
		return nil, nil
	})
	t.Out = oc.Out
	return t
}

func hkpCmd() {
	g := newG(19)
	traces := []*hkpTrace{}
	kinds := map[string]int{}
	put := func(t *hkpTrace) { traces = append(traces, t); kinds[t.Kind]++; kinds["via "+t.Via]++ }
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var c hkpCase
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			fatal(err)
		}
		for k := 0; k < scale(1, 4); k++ {
			put(g.hkpTrace(len(traces), "emitted", c))
		}
	}
	f.Close()
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

var _ = bytes.NewReader

func init() {
	commands["github"] = githubCmd
	commands["hkp"] = hkpCmd
}
