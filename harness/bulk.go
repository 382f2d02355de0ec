package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- large inputs, described instead of written out (spec/Bulk.tla) ---------------------------

type bPacket struct {
	Tag   int       `json:"tag"`
	Head  []int     `json:"head"`
	Fill  int       `json:"fill"`
	N     int       `json:"n"`
	Tail  []int     `json:"tail"`
	C     []int     `json:"c"`
	Alg   int       `json:"alg"`
	Z     int       `json:"z"`
	Total int       `json:"total"`
	Inner []bPacket `json:"inner"`
	form  int
	cut   int // damage inside compressed data: octets missing at the end of the inner stream
}

type bItem struct {
	N string   `json:"n"`
	V string   `json:"v"`
	T string   `json:"t"`
	D [][2]int `json:"d"`
	C []*bItem `json:"c"`
}

type bSum struct {
	N   int    `json:"n"`
	Sum string `json:"sum"`
}

type bTrace struct {
	ID      int       `json:"id"`
	Kind    string    `json:"kind"`
	Via     string    `json:"via"`
	Opt     Opts      `json:"opt"`
	Packets []bPacket `json:"packets"`
	Whole   int       `json:"whole"`
	Size    int       `json:"size"`
	Silent  bool      `json:"silent"`
	Raw     bool      `json:"raw"`
	Sent    bSum      `json:"sent"`
	Got     bSum      `json:"got"`
	Around  [][3]int  `json:"around"` // text around an armor block: [lines, octets in each, octet] before and after
	Out     string    `json:"out"`
	Err     bool      `json:"err"`
	Items   []*bItem  `json:"items"`
}

func sumOf(b []byte) bSum { return bSum{len(b), fmt.Sprintf("%x", sha256.Sum256(b))} }

// runText writes runs of 64 and more equal octets as {octet*count}
func runText(s string) string {
	var b strings.Builder
	from := 0
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] == s[i] {
			j++
		}
		if j-i >= 64 {
			b.WriteString(esc(s[from:i]))
			fmt.Fprintf(&b, "{%d*%d}", s[i], j-i)
			from = j
		}
		i = j
	}
	b.WriteString(esc(s[from:]))
	return b.String()
}

func runOctets(s string) [][2]int {
	out := [][2]int{}
	add := func(v int) {
		if n := len(out); n > 0 && out[n-1][0] == v {
			out[n-1][1]++
		} else {
			out = append(out, [2]int{v, 1})
		}
	}
	hex := func(c byte) int { return strings.IndexByte("0123456789abcdef", c) }
	for i := 0; i < len(s); i += 3 {
		if i+2 > len(s) || hex(s[i]) < 0 || hex(s[i+1]) < 0 || (i+2 < len(s) && (s[i+2] != ' ' || i+3 == len(s))) {
			return [][2]int{{-1, i}}
		}
		add(hex(s[i])<<4 | hex(s[i+1]))
	}
	return out
}

func bProject(it *result.Item) *bItem {
	if it == nil {
		return &bItem{N: "<nil>", D: [][2]int{}, C: []*bItem{}}
	}
	o := &bItem{N: esc(it.Name), V: runText(it.Value), T: esc(it.Note), D: runOctets(it.Dump), C: []*bItem{}}
	for _, c := range it.Items {
		o.C = append(o.C, bProject(c))
	}
	return o
}

func (p bPacket) body(g *G) []byte {
	out := make([]byte, 0, len(p.Head)+p.N)
	for _, x := range p.Head {
		out = append(out, byte(x))
	}
	out = append(out, bytes.Repeat([]byte{byte(p.Fill)}, p.N)...)
	for _, x := range p.Tail {
		out = append(out, byte(x))
	}
	return out
}

// streamOf builds the octets; compressed packets get their sizes filled in
func (g *G) streamOf(ps []bPacket) []byte {
	var out []byte
	for i := range ps {
		p := &ps[i]
		if p.Head == nil {
			p.Head = []int{}
		}
		if p.Tail == nil {
			p.Tail = []int{}
		}
		p.C = []int{}
		if p.Tag != 8 {
			p.Inner = []bPacket{}
			out = append(out, g.pkt(p.Tag, p.body(g), p.form)...)
			continue
		}
		in := g.streamOf(p.Inner)
		p.Total = len(in)
		in = in[:len(in)-p.cut]
		var z []byte
		switch p.Alg {
		case 0:
			z = in
		case 1:
			z = deflate(true, in, 6)
		case 2:
			z = deflate(false, in, 6)
		case 3:
			z = bzip(in)
		}
		p.Z = len(z)
		out = append(out, g.pkt(8, cat([]byte{byte(p.Alg)}, z), p.form)...)
	}
	return out
}

// bulkPacket: a packet of the given tag whose body can grow at its end
func (g *G) bulkPacket(tag, n, form int) bPacket {
	head := []byte{}
	fill := g.oneOf(0, 0x20, 0x61, 0x0a, 0x80, 0xff)
	switch tag {
	case 1:
		head = cat([]byte{3}, g.bytes(8), []byte{1}, mpi(16, []byte{0x80, 1}))
	case 3:
		head = []byte{4, 9, 0, 8}
	case 4:
		head = cat([]byte{3, 0, 8, 1}, g.bytes(8), []byte{1})
	case 6, 14:
		head = cat([]byte{4}, g.when(), []byte{1}, mpi(9, []byte{1, 0xff}), mpi(17, []byte{1, 0, 1}))
	case 10:
		head = []byte("PGP")
	case 11:
		name := "file.bin"[:g.Intn(9)]
		head = cat([]byte{"btu"[g.Intn(3)], byte(len(name))}, []byte(name), g.when())
	case 13:
		head = []byte("Alice <")
		fill = 'a'
	case 18:
		head = []byte{1}
	case 20:
		head = cat([]byte{1, 9, 1, 10}, g.bytes(16))
	default:
		head = g.bytes(g.Intn(4))
	}
	for len(head) > 0 && int(head[len(head)-1]) == fill {
		fill = (fill + 1) % 256
		if tag == 13 {
			fill = 'b'
		}
	}
	return bPacket{Tag: tag, Head: ints(head), Fill: fill, N: n, form: form}
}

// slow delivers pieces of very different sizes
type slow struct {
	data []byte
	k    int
}

func (r *slow) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := []int{1, 700, 7, 4096, 3, 100000}[r.k%6]
	r.k++
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}

// the input in another way
func (g *G) bulkDump(t *bTrace, data []byte) {
	t.Opt.zone()
	var cout cliOut
	cli := false
	oc := guarded(func() (*result.Info, error) {
		fl := append(t.Opt.flags(), "-j")
		raw := []string{}
		if t.Raw {
			raw = append(raw, "--raw")
		}
		var p *parse.Parser
		var err error
		switch t.Via {
		case "bytes":
			p, err = parse.NewBytes(t.Opt.context(), data)
		case "slow":
			p, err = parse.New(t.Opt.context(), &slow{data: data})
		case "stdin":
			cli, cout = true, runCLI(bytes.NewReader(data), fl...)
		case "file":
			cli, cout = true, runCLI(nil, append(fl, "-f", scratchFile("bulk", data))...)
		case "clip":
			os.Setenv("VERIF_CLIP", scratchFile("clip", data))
			os.Setenv("VERIF_CLIP_RC", "0")
			cli, cout = true, runCLI(nil, append(fl, "--clipboard")...)
		case "fetch":
			cli = true
			withNet(serveBytes(data), func() { cout = runCLI(nil, append(append(fl, "fetch", "http://localhost/x"), raw...)...) })
		case "hkp":
			cli = true
			withNet(serveBytes(data), func() { cout = runCLI(nil, append(append(fl, "hkp", "0x1234"), raw...)...) })
		case "github":
			cli = true
			withNet(serveBytes(data), func() { cout = runCLI(nil, append(append(fl, "github", "user"), raw...)...) })
		case "github-list":
			cli = true
			b, _ := json.Marshal([]map[string]interface{}{{"key_id": "0123456789ABCDEF", "raw_key": nil},
				{"key_id": "00000000DEADBEEF", "raw_key": string(data)}})
			nw := &fakeNet{serve: func(*http.Request, int) reply { return reply{Body: bytes.NewReader(b)} }}
			withNet(nw, func() {
				cout = runCLI(nil, append(append(fl, "github", "user", "--keyid", "00000000deadbeef"), raw...)...)
			})
		default:
			p, err = parse.New(t.Opt.context(), bytes.NewReader(data))
		}
		if cli {
			if cout.Code != 0 {
				return nil, errors.New(cout.Err)
			}
			return nil, nil
		}
		if err != nil {
			return nil, err
		}
		return p.Parse()
	})
	t.Out, t.Err = oc.Out, oc.Err != nil
	t.Items = []*bItem{}
	if t.Raw {
		t.Sent, t.Got = sumOf(data), sumOf([]byte(cout.Out))
		return
	}
	info := oc.Info
	if cli && !t.Err {
		info = &result.Info{}
		if err := json.Unmarshal([]byte(cout.Out), info); err != nil {
			t.Items = append(t.Items, &bItem{N: "<no JSON>", D: [][2]int{}, C: []*bItem{}})
			return
		}
	}
	t.Silent = cli && t.Err
	if info != nil {
		for _, it := range info.Packets {
			t.Items = append(t.Items, bProject(it))
		}
	}
}

var bulkTags = []int{1, 3, 4, 6, 9, 10, 11, 12, 13, 14, 18, 19, 20, 15, 16, 21, 40, 60, 61, 62, 63}
var bulkForms = []int{hOld4, hNew5, hNewPartial}

func (g *G) bulkTag(of ...int) int {
	if len(of) == 0 {
		of = bulkTags
	}
	return of[g.Intn(len(of))]
}

func (g *G) formFor(tag int) int {
	if tag > 15 {
		return g.oneOf(hNew5, hNewPartial)
	}
	return bulkForms[g.Intn(len(bulkForms))]
}

func bulkCmd() {
	g := newG(31)
	hangLimit = 120 * time.Second
	traces := []*bTrace{}
	kinds := map[string]int{}
	deep := thorough()
	around := [][3]int{}
	put := func(kind, via string, o Opts, ps []bPacket, cut int, wrap string, raw bool) {
		t := &bTrace{ID: len(traces), Kind: kind, Via: via, Opt: o, Packets: ps, Whole: len(ps), Raw: raw, Around: around}
		data := g.streamOf(ps)
		for _, p := range ps {
			if p.cut > 0 {
				t.Whole--
			}
		}
		if cut > 0 {
			data = data[:len(data)-cut]
			t.Whole--
		}
		if wrap != "" {
			data = armored(wrap, data)
		}
		if len(around) == 2 {
			text := func(a [3]int) []byte {
				return bytes.Repeat(append(bytes.Repeat([]byte{byte(a[2])}, a[1]), '\n'), a[0])
			}
			data = cat(text(around[0]), data, text(around[1]))
		}
		t.Size = len(data)
		g.bulkDump(t, data)
		traces = append(traces, t)
		kinds[kind]++
		kinds["via "+via]++
	}
	utc := Opts{UTC: true}
	small := func() bPacket { return g.bulkPacket(g.bulkTag(), 3, hBest) }
	sizes := []int{65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 7, 1<<24 - 1, 1 << 24, 1<<24 + 1}
	extra := nearConstants(8193, 64<<20) // the numbers of the code
	for len(extra) > 15 {
		k := g.Intn(len(extra))
		extra = append(extra[:k], extra[k+1:]...)
	}
	with := func(ns []int) []int { return append(append([]int{}, ns...), extra...) }
	mid := []int{65535, 65536, 70000, 131071, 300000, 1<<20 + 1, 3 << 20}
	api := []string{"", "bytes", "slow"}
	anyAPI := func() string { return api[g.Intn(len(api))] }
	switch *fProp {
	case "C02":
		for _, n := range with(sizes) {
			for _, f := range bulkForms {
				t := g.bulkTag()
				put("size", anyAPI(), utc, []bPacket{small(), g.bulkPacket(t, n, f), small()}, 0, "", false)
			}
			put("size", anyAPI(), utc, []bPacket{small(), g.bulkPacket(g.oneOf(11, 9, 60), n, hOldIndef)}, 0, "", false)
		}
		for _, n := range []int{100, 1000, 5000, scale(66000, 140000)} {
			ps := []bPacket{}
			for i := 0; i < n; i++ {
				p := small()
				p.form = g.anyForm(false)
				ps = append(ps, p)
			}
			put("many packets", anyAPI(), utc, ps, 0, "", false)
		}
		put("very large", "", utc, []bPacket{small(), g.bulkPacket(11, scale(150<<20, 900<<20), hNew5), small()}, 0, "", false)
		put("very large", "", utc, []bPacket{small(), g.bulkPacket(g.oneOf(9, 18), scale(70<<20, 300<<20), hNewPartial), small()}, 0, "", false)
	case "C03":
		for _, n := range with(mid) {
			for _, f := range append([]int{hOld4}, bulkForms...) {
				t := g.bulkTag()
				if t > 15 && f == hOld4 {
					f = hNew5
				}
				put("cut", anyAPI(), utc, []bPacket{small(), g.bulkPacket(t, n, f)}, g.oneOf(1, 2, 100, n/2, n-1), "", false)
				put("whole", anyAPI(), utc, []bPacket{small(), g.bulkPacket(t, n, f)}, 0, "", false)
			}
		}
		put("cut", "", utc, []bPacket{small(), g.bulkPacket(11, 40<<20, hNew5)}, 1, "", false)
		put("cut", "file", utc, []bPacket{small(), g.bulkPacket(11, 20<<20, hNewPartial)}, 1, "", false)
	case "C08", "C23":
		tags := []int{1, 3, 4, 9, 18, 19, 20}
		if *fProp == "C23" {
			tags = []int{10, 11, 12, 13, 15, 16, 21, 40, 60, 61, 62, 63}
		}
		for _, t := range tags {
			for _, n := range with(mid) {
				put("size", anyAPI(), utc, []bPacket{small(), g.bulkPacket(t, n, g.formFor(t)), small()}, 0, "", false)
			}
			put("size", anyAPI(), utc, []bPacket{g.bulkPacket(t, 1<<24+g.Intn(99), g.formFor(t)), small()}, 0, "", false)
			o := Opts{UTC: true, Literal: true, Marker: true, Private: true, Debug: g.chance(0.5)}
			put("dumped", anyAPI(), o, []bPacket{g.bulkPacket(t, g.oneOf(65536, 70001, 300000), g.formFor(t)), small()}, 0, "", false)
		}
	case "C12":
		for _, t := range bulkTags {
			for k := 0; k < scale(2, 6); k++ {
				o := g.anyOpts()
				o.Armor, o.Off = false, 0
				o.UTC = true
				put("dumped", anyAPI(), o, []bPacket{g.bulkPacket(t, g.oneOf(1000, 4096, 65536, 70001, 300000), g.formFor(t)), small()}, 0, "", false)
			}
		}
	case "C16":
		for _, n := range with([]int{64, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 70000, 1 << 20}) {
			put("user ID", anyAPI(), utc, []bPacket{g.bulkPacket(13, n, g.formFor(13)), small()}, 0, "", false)
			for _, tail := range []string{"\x00", "\n", "\x1b[0m", "\x7f", "\xc2\x9b", "\xc2\x85x", "\xff", "\xe3\x81", "\xe3\x81\x82", "x\x80", "\xed\xa0\x80", "\U0001f511\r\n"} {
				p := g.bulkPacket(13, n, g.formFor(13))
				p.Tail = ints([]byte(tail))
				if g.chance(0.3) { // the odd octets first
					p.Head, p.Tail = ints([]byte(tail+"z")), nil
				} else if g.chance(0.3) {
					p.Tail = append(p.Tail, ints([]byte("yyy"))...)
				}
				put("user ID, odd octets", anyAPI(), Opts{UTC: true, Debug: g.chance(0.2)}, []bPacket{p, small()}, 0, "", false)
			}
		}
	case "C11":
		for _, alg := range []int{0, 1, 2, 3} {
			for _, n := range with([]int{1, 300, 65535, 65536, 1<<20 - 1, 1 << 20, 1<<22 + 5, 1 << 24, 1<<24 + 1, 20<<20 + 3, 40 << 20}) {
				in := []bPacket{small(), g.bulkPacket(11, n, g.oneOf(hOld4, hNew5, hNewPartial)), small()}
				put("compressed", anyAPI(), utc, []bPacket{{Tag: 8, Alg: alg, Inner: in, form: g.formFor(8)}, small()}, 0, "", false)
				in2 := []bPacket{small(), small(), g.bulkPacket(11, n+10, g.oneOf(hOld4, hNew5, hNewPartial))}
				put("inner cut", anyAPI(), utc, []bPacket{small(), {Tag: 8, Alg: alg, Inner: in2, form: g.formFor(8), cut: 1 + g.Intn(5)}}, 0, "", false)
			}
			// many inner packets
			in := []bPacket{}
			n := scale(800, 4000)
			if alg == 1+int(*fSeed)%3 {
				n = 66000
			}
			for i := 0; i < n; i++ {
				in = append(in, small())
			}
			put("many inner", anyAPI(), utc, []bPacket{{Tag: 8, Alg: alg, Inner: in, form: g.formFor(8)}, small()}, 0, "", false)
		}
		big := func(alg, n int) {
			put("large", "", utc, []bPacket{{Tag: 8, Alg: alg, Inner: []bPacket{g.bulkPacket(11, n, hNew5), small()}, form: hNew5}, small()}, 0, "", false)
		}
		big(1, 130<<20)
		big(2, 260<<20)
		big(g.oneOf(1, 2), 1<<30-4096)
		big(g.oneOf(1, 2), 1<<30+5)
		if deep {
			big(3, 260<<20)
			big(1, 1<<30-4096)
			big(2, 1<<30-4096)
			big(2, 1<<30+100<<20)
		}
	case "C14":
		for _, n := range with([]int{3000, 65536, 1 << 20, 5 << 20, 20 << 20}) {
			for _, via := range []string{"", "bytes", "slow", "stdin", "file", "clip"} {
				for _, a := range []bool{true, false} {
					if n > 5<<20 && (via == "slow" || via == "bytes") {
						continue
					}
					o := utc
					o.Armor = a
					ps := []bPacket{small(), g.bulkPacket(11, n, hNew5), small()}
					put("armored", via, o, ps, 0, g.pick("PGP MESSAGE", "PGP PUBLIC KEY BLOCK", "PGP SIGNATURE"), false)
				}
			}
		}
		lines := append([]int{0, 1, 100, 1000, 1024, 4096, 10000, 65536, 100001, 1 << 20}, nearConstants(2, 2<<20)...)
		for _, n := range lines {
			for _, a := range []bool{true, false} {
				o := utc
				o.Armor = a
				w := g.oneOf(0, 1, 5, 76, 200)
				if n > 200000 {
					w = g.oneOf(0, 1, 5)
				}
				ta := [3]int{n, w, g.oneOf('a', ' ', '=', '>', 0xe3)}
				tb := [3]int{g.oneOf(0, 1, 3), g.oneOf(0, 3), 'z'}
				if g.chance(0.3) {
					ta, tb = tb, ta
				} else if g.chance(0.3) && n > 1 { // few lines, long ones
					ta[0], ta[1] = 1+g.Intn(2), n
				}
				around = [][3]int{ta, tb}
				put("text around", g.pick("", "bytes", "stdin", "file", "clip"), o, []bPacket{small(), small()}, 0, "PGP MESSAGE", false)
				around = [][3]int{}
			}
		}
	case "C15", "C17":
		for _, n := range with([]int{4096, 65535, 65536, 1 << 20, 5 << 20, 20 << 20}) {
			for _, via := range []string{"", "bytes", "slow", "stdin", "file", "fetch"} {
				put("way", via, utc, []bPacket{small(), g.bulkPacket(g.oneOf(11, 9, 60), n, g.oneOf(hNew5, hNewPartial)), small()}, 0, "", false)
				put("way cut", via, utc, []bPacket{small(), g.bulkPacket(g.oneOf(11, 9, 60), n, g.oneOf(hNew5, hNewPartial))}, 1, "", false)
			}
			o := utc
			o.Literal = true
			if n < 5<<20 {
				put("way dumped", g.pick("stdin", "file", "fetch"), o, []bPacket{g.bulkPacket(11, n, hNew5), small()}, 0, "", false)
			}
		}
	case "C24", "C18", "C19":
		vias := []string{"fetch", "hkp", "github", "github-list"}
		if *fProp == "C18" {
			vias = vias[2:]
		} else if *fProp == "C19" {
			vias = vias[1:2]
		}
		for _, n := range with([]int{4096, 65536, 1<<20 - 700, 1 << 20, 3 << 20, 11 << 20, 40 << 20}) {
			for _, via := range vias {
				put("raw", via, utc, []bPacket{small(), g.bulkPacket(11, n, hNew5), small()}, 0, "PGP MESSAGE", true)
				put("fetched", via, utc, []bPacket{small(), g.bulkPacket(11, n, hNew5), small()}, 0, "PGP MESSAGE", false)
				if via == "fetch" {
					put("raw", via, utc, []bPacket{small(), g.bulkPacket(11, n, hNew5), small()}, 0, "", true)
				}
			}
		}
	default:
		fatal(errors.New("no bulk inputs for " + *fProp))
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func init() { commands["bulk"] = bulkCmd }
