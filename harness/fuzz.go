package main

import (
	"bytes"
	"encoding/base64"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/crypto/openpgp/armor"
)

// ---- C01: anything at all ------------------------------------------------------------

func corpus() [][]byte {
	out := [][]byte{}
	for _, dir := range []string{"testdata", "facade/testdata"} {
		names := []string{}
		filepath.Walk(filepath.Join(*fRepo, dir), func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && fi.Size() < 200000 {
				names = append(names, p)
			}
			return nil
		})
		sort.Strings(names)
		for _, n := range names {
			b, err := os.ReadFile(n)
			if err != nil {
				fatal(err)
			}
			out = append(out, b)
			if blk, err := armor.Decode(bytes.NewReader(b)); err == nil {
				var buf bytes.Buffer
				buf.ReadFrom(blk.Body)
				out = append(out, buf.Bytes())
			}
		}
	}
	return out
}

func armored(kind string, data []byte) []byte {
	var b bytes.Buffer
	w, err := armor.Encode(&b, kind, map[string]string{"Version": "x"})
	if err != nil {
		fatal(err)
	}
	w.Write(data)
	w.Close()
	b.WriteByte('\n')
	return b.Bytes()
}

// nested: signatures in signatures, key blocks in key blocks
func (g *G) nested(depth int, block bool) []byte {
	sig := g.sigV4(4, 99, g.sub(2, g.when()), nil)
	for i := 0; i < depth && len(sig) < 60000; i++ {
		if block && g.chance(0.5) {
			sig = g.sigV4(4, 99, nil, g.sub(38, cat([]byte{0}, g.pkt(2, sig, hNew5))))
		} else {
			sig = g.sigV4(byte(g.oneOf(4, 5)), 99, g.sub(32, sig), nil)
		}
	}
	return g.pkt(2, sig, hNew5)
}

func (g *G) anyOpts() Opts {
	o := Opts{UTC: g.chance(0.7)}
	for _, n := range optNames[:8] {
		*o.get(n) = g.chance(0.4)
	}
	if g.chance(0.6) {
		o.Armor = false
	}
	return o
}

// sizes that no output can have; smaller ones are not asked for: they would only take memory
var absurd = []string{"9223372036854775807", "4611686018427387904", "1125899906842624", "2251799813685249", "-9223372036854775808", "-1"}

// anyArgs: words of the command line in any order
func (g *G) anyArgs() []string {
	as := []string{}
	for n := g.Intn(7); n > 0; n-- {
		switch g.Intn(8) {
		case 0:
			as = append(as, g.pick("hkp", "h", "github", "gh", "g", "fetch", "fch", "f", "version", "ver", "v", "completion", "compl", "cmp", "help", "bash", "zsh", "fish", "powershell", "__complete", "x"))
		case 1, 2:
			as = append(as, "--"+g.pick(optNames...))
		case 3:
			as = append(as, g.pick("-j", "-a", "-u", "-v", "-ai", "-lmpcu", "--json", "--raw", "--clipboard", "--version", "--help", "-h", "--secure", "-", "--", "", "-f", "--file", "--indent", "--port", "--keyserver", "--keyid"))
		case 4:
			as = append(as, g.pick("--indent", "--indent="+g.pick(absurd...)), g.pick("0", "1", "3", "64", "x", "", g.pick(absurd...)))
		case 5:
			as = append(as, g.pick("--port", "--keyserver", "--keyid", "--file", "-f"), g.pick("0", "-1", "65536", "99999999999", "localhost", "[::1", "a b", "", "1234", "0x1234", "0x", scratchDir(), filepath.Join(scratchDir(), "keep")))
		case 6:
			as = append(as, g.pick("alice", "http://localhost/k", "://", "%", "0x1234", "a@b", "\x00", "\xff\xfe", "../..", "?a=b#c"))
		default:
			as = append(as, g.pick("--utc=false", "--debug=false", "--json=true", "--armor=x", "--indent=", "--raw=1", g.codeWord()))
		}
	}
	// a dump with an indent
	if g.chance(0.3) {
		as = []string{"--indent", g.pick("0", "2", "64", g.pick(absurd...))}
		if g.chance(0.4) {
			as = append(as, "-j")
		}
		if g.chance(0.3) {
			as = append(as, g.pick("--armor", "--debug", "--int"))
		}
		if g.chance(0.3) {
			as = append(as, g.pick("hkp", "github"), "alice")
		}
	}
	return as
}

var vias = []string{"", "", "render", "bytes", "stdin", "json", "file", "hkp", "fetch", "github", "github-list"}

func genC01() []Case {
	s := &set{g: newG(101)}
	g := s.g
	put := func(kind string, d []byte) {
		via := vias[0]
		if g.chance(0.3) {
			via = vias[g.Intn(len(vias))]
		}
		s.cs = append(s.cs, Case{Kind: kind, Data: d, Opt: g.anyOpts(), Via: via})
	}
	// the command with any arguments
	nargs := 3000
	if thorough() {
		nargs = 30000
	}
	for k := 0; k < nargs; k++ {
		d := g.stream(1+g.Intn(2), 1)
		switch g.Intn(4) {
		case 0:
			d = armored(g.pick("PGP MESSAGE", "PGP PUBLIC KEY BLOCK"), d)
		case 1:
			d = []byte(g.pick("", "[]", "[null]", `[{"key_id":"1234"}]`, `[{"key_id":"1234","raw_key":""}]`, "{}", "null"))
		}
		s.cs = append(s.cs, Case{Kind: "arguments", Data: d, Via: "args", Opt: Opts{UTC: true}, Args: g.anyArgs()})
	}
	for k := 0; k < scale(400, 4000); k++ {
		d := g.stream(1, 1)
		if g.chance(0.4) {
			d = armored(g.pick("PGP MESSAGE", "PGP SIGNATURE"), d)
		}
		put("foreign", g.foreign(d))
	}
	files := corpus()
	// every prefix of small packets of every kind, every single-octet body
	for t := 0; t < 64; t++ {
		put("empty", g.pkt(t, nil, hBest))
		for k := 0; k < 4; k++ {
			put("short", g.pkt(t, g.bytes(1+g.Intn(12)), g.anyForm(true)))
		}
		b := g.body(t, 1)
		if len(b) < 300 {
			for i := 0; i <= len(b); i++ {
				put("prefix", g.pkt(t, b[:i], hBest))
			}
		}
	}
	for v := 0; v < 256; v++ {
		for _, t := range []int{1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 17, 20} {
			put("first-octet", g.pkt(t, cat([]byte{byte(v)}, g.bytes(g.Intn(40))), hBest))
		}
		for k := 0; k < 2; k++ {
			put("sub", g.pkt(2, g.sigV4(4, 99, cat([]byte{byte(k + 1), byte(v)}, g.bytes(k)), nil), hBest))
			put("sub-long", g.pkt(2, g.sigV4(4, 99, g.sub(byte(v), g.bytes(g.Intn(30))), nil), hBest))
			put("attr", g.pkt(17, g.sub(byte(v), g.bytes(g.Intn(30))), hBest))
		}
		put("algorithm", g.pkt(6, cat([]byte{byte(g.oneOf(3, 4, 5)), 0, 0, 0, 0, byte(v)}, g.bytes(g.Intn(40))), hBest))
		put("secret", g.pkt(5, cat([]byte{byte(g.oneOf(3, 4, 5))}, g.pubFields(4, byte(g.oneOf(1, 16, 17, 18, 22, 99))), []byte{byte(v)}, g.bytes(g.Intn(40))), hBest))
	}
	// bodies and subpackets longer than any counter of one or two octets
	for t := 0; t < 64; t++ {
		for _, k := range []int{127, 128, 255, 256, 257, 1000, 4096, 32768, 65535, 65536} {
			b := g.body(t, 0)
			put("long", g.pkt(t, cat(b, g.bytes(k)), hBest))
			put("long", g.pkt(t, cat(b[:g.Intn(len(b)+1)], bytes.Repeat([]byte{byte(g.oneOf(0, 1, 2, 255))}, k)), hBest))
		}
	}
	for t := 0; t < 128; t++ {
		for _, k := range []int{127, 128, 254, 255, 256, 257, 1000, 32767, 32768, 65000} {
			area := g.sub(byte(t), cat(g.subBody(byte(t), 0), g.bytes(k)))
			if len(area) <= 65535 {
				put("sub-longer", g.pkt(2, g.sigV4(byte(g.oneOf(4, 5)), 99, area, nil), hBest))
			}
			put("sub-longer", g.pkt(2, g.sigV4(4, 99, nil, g.sub(byte(t), bytes.Repeat([]byte{byte(g.oneOf(0, 1, 2, 255))}, k))), hBest))
			put("attr-longer", g.pkt(17, g.sub(byte(t), g.bytes(k)), hBest))
		}
	}
	for _, t := range dict().texts { // the texts of the code, anywhere
		b := []byte(t)
		put("text of the code", g.pkt(g.oneOf(13, 13, 60, 11), b, hBest))
		put("text of the code", g.pkt(11, cat([]byte{'b', byte(len(b))}, b, g.when()), hBest))
		put("text of the code", g.pkt(2, g.sigV4(4, 99, g.sub(byte(g.oneOf(6, 24, 26, 28, 20)), b), nil), hBest))
		put("text of the code", b)
		put("text of the code", cat([]byte("-----BEGIN PGP MESSAGE-----\n"+t+"\n\n"+t+"\n"+t+"-----END PGP MESSAGE-----")))
	}
	for _, k := range nearConstants(6, 5000) { // the numbers of the code
		if d := g.nested(k, true); k <= 300 {
			put("depth of the code", d)
		} else { // the debug dump of nested data grows with the square of the depth
			o := g.anyOpts()
			o.Debug = false
			s.addO("depth of the code", d, o)
		}
		put("size of the code", g.pkt(g.anyTag(), g.bytes(k), hBest))
		put("size of the code", g.pkt(2, g.sigV4(4, 99, g.sub(byte(g.Intn(128)), g.bytes(k)), nil), hBest))
		m := []byte{}
		for i := 0; i < k; i++ {
			m = append(m, g.pkt(g.oneOf(8, 10, 13, 40, 60), nil, hNew1)...)
		}
		put("count of the code", m)
	}
	n := scale(40000, 250000)
	for i := 0; i < n; i++ {
		switch g.Intn(11) {
		case 0:
			put("random", g.bytes(g.Intn(80)))
		case 1:
			put("random-packet", g.pkt(g.anyTag(), g.bytes(g.Intn(60)), g.anyForm(true)))
		case 2, 3:
			put("stream", g.stream(1+g.Intn(4), 2))
		case 4, 5, 6:
			d := g.damage(g.stream(1+g.Intn(2), 2))
			for g.chance(0.4) {
				d = g.damage(d)
			}
			put("damaged", d)
		case 7:
			d := g.damage(files[g.Intn(len(files))])
			for g.chance(0.7) {
				d = g.damage(d)
			}
			if len(d) < 6000 || g.chance(0.1) {
				put("file", d)
			}
		case 8:
			d := armored("PGP MESSAGE", g.stream(1+g.Intn(2), 1))
			for g.chance(0.6) {
				d = g.damage(d)
			}
			put("armor", d)
		case 9:
			// armor without a checksum, odd text around
			d := []byte("-----BEGIN PGP " + strings.Repeat("X", g.Intn(5)) + "-----\n" + g.pick("", "\n", "a: b\n\n", "nonsense\n", "\r\n") +
				base64.StdEncoding.EncodeToString(g.bytes(g.Intn(60))) + g.pick("", "\n", "\n=", "\n=abcd\n") + g.pick("", "-----END PGP X-----\n", "-----END PGP"))
			put("armor-odd", d)
		default:
			put("list", []byte(g.pick("null", "[]", "[null]", "{}", "[{}]", `[{"key_id":null,"raw_key":"x"}]`, `[{"key_id":"1234"}]`, `[{"key_id":"1234","raw_key":"x"}]`,
				`[{"key_id":"1234","raw_key":"`, `[[`, `"x"`, `[{"key_id":12}]`, `[{"created_at":"x"}]`, `[{"subkeys":[null,{}],"emails":[null],"key_id":"12`)))
		}
	}
	// large and deep ones
	for i := 0; i < scale(10, 60); i++ {
		put("nested", g.nested(g.oneOf(5, 50, 300), true))
		// the debug dump of nested data grows with the square of the depth
		s.addO("nested-deep", g.nested(5000, g.chance(0.5)), Opts{Int: true, Private: true})
	}
	many := []byte{}
	for len(many) < scale(60000, 600000) {
		many = append(many, g.pkt(g.anyTag(), nil, hNew1)...)
		many = append(many, g.pkt(g.oneOf(13, 10, 12, 40, 60), g.bytes(g.Intn(3)), hNewPartial)...)
	}
	put("many", many)
	put("many-in", g.pkt(8, g.compress(1, many), hNew5))
	put("huge-length", cat([]byte{0xcb, 255, 255, 255, 255, 255}, g.bytes(20)))
	put("huge-length", cat([]byte{0x9a, 255, 255, 255, 255}, g.bytes(20)))
	put("huge-partial", cat([]byte{0xcb, 254}, g.bytes(20)))
	chain := []byte{0xcb}
	for i := 0; i < scale(20000, 200000); i++ {
		chain = append(chain, 224, 'x')
	}
	put("partial-chain", chain)
	put("partial-chain", append(append([]byte{}, chain...), 0))
	put("long-line", []byte("-----BEGIN PGP X-----\n\n"+strings.Repeat("A", scale(70000, 700000))+"\n-----END PGP X-----\n"))
	put("bomb", g.pkt(8, g.compress(byte(g.oneOf(1, 2)), bytes.Repeat([]byte{0}, scale(1<<20, 1<<24))), hNew5))
	return s.cs
}

func (g *G) pick(xs ...string) string { return xs[g.Intn(len(xs))] }
