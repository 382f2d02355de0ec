package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- C14: documents with armor blocks, written out from the symbols of the specification ----

type aRun struct {
	Armor bool   `json:"armor"`
	Via   string `json:"via"`
	Out   string `json:"out"`
	Err   bool   `json:"err"`
	Text  string `json:"text"`
}

type aTrace struct {
	ID      int      `json:"id"`
	Kind    string   `json:"kind"`
	Doc     []string `json:"doc"`
	Data    []int    `json:"data"`
	Payload []int    `json:"payload"`
	Want    string   `json:"want"`
	BinErr  bool     `json:"binerr"`
	BinText string   `json:"bintext"`
	Runs    []aRun   `json:"runs"`
}

var blockTypes = []string{"MESSAGE", "PUBLIC KEY BLOCK", "PRIVATE KEY BLOCK", "SIGNATURE", "MESSAGE, PART 1/2", "ARMORED FILE"}

func crc24(d []byte) []byte {
	c := uint32(0xb704ce)
	for _, b := range d {
		c ^= uint32(b) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return []byte{byte(c >> 16), byte(c >> 8), byte(c)}
}

func (g *G) textLine() string {
	if g.chance(0.25) { // a line of any octets
		b := g.bytes(1 + g.Intn(40))
		if g.chance(0.5) {
			b = cat([]byte{byte(0x80 + g.Intn(128))}, g.bytesText(g.Intn(30)))
		}
		for i, x := range b {
			if x == '\n' || x == '\r' {
				b[i] = ' '
			}
		}
		return string(b)
	}
	if g.chance(0.15) { // a text of the code itself, away from the start of the line
		t := g.codeText()
		return g.pick("x ", "> ", "see: ") + t + g.pick("", " ", "-----", ".")
	}
	return g.pick("hello", "<pre>", "a: b", "=abcd", "QUJDRA==", "-- ", "-----", "- dash", "  indented", "Version: x", "-----BEGIN", "BEGIN PGP MESSAGE", "-----begin pgp message-----",
		"----BEGIN PGP MESSAGE----", "x-----BEGIN PGP MESSAGE-----", "tab\there", "$%s", "\ufeff", "\u00e9t\u00e9", "\u65e5\u672c", "\x99\x01\x0d", "\xef\xbb\xbfx", "=", "/", "{}", "#!/bin/sh", "\x00\x01\x7f", strings.Repeat("w", g.Intn(150)))
}

// a line with a boundary line somewhere inside
func (g *G) mention() string {
	return g.pick("see ", "x", "- ends with ", "a: ", "----- ", "=") + g.pick("-----BEGIN PGP ", "-----END PGP ") + blockTypes[g.Intn(len(blockTypes))] + "-----" + g.pick("", "", " below", ".")
}

// document writes the symbols out as lines
func (g *G) document(doc []string, payload []byte, width int, trail bool) (lines []string, want string) {
	kind := blockTypes[g.Intn(len(blockTypes))]
	if g.chance(0.15) { // any other type
		kind = g.pick("FILE", "X", "MESSAGE, PART 12", "KEY", "PUBLIC KEY", "SECRET KEY BLOCK", "DATA 2", "SIGNATURE BLOCK")
	}
	b64 := base64.StdEncoding.EncodeToString(payload)
	sum := "=" + base64.StdEncoding.EncodeToString(crc24(payload))
	put := func(ls ...string) { lines = append(lines, ls...) }
	begun, ended, bad, body := false, false, false, false
	wrap := func(s string) {
		for len(s) > 0 {
			n := width
			if n == 0 {
				n = 1 + g.Intn(76)
			}
			if n > len(s) {
				n = len(s)
			}
			put(s[:n])
			s = s[n:]
		}
	}
	const ctl = "\x00\n\r*_ ~,!?\x80\xff:-"
	for _, s := range doc {
		switch s {
		case "text":
			put(g.textLine())
		case "blank":
			put("")
		case "dashed":
			put("- -----BEGIN PGP MESSAGE-----", "", "- -----END PGP MESSAGE-----")
		case "quoted":
			put(g.pick("> ", " ", "\t", "| ")+"-----BEGIN PGP MESSAGE-----", "> -----END PGP MESSAGE-----")
		case "cleartext":
			put("-----BEGIN PGP SIGNED MESSAGE-----", "Hash: SHA256", "", g.textLine(), "- -----BEGIN PGP SIGNATURE-----", "text")
		case "mention":
			put(g.mention())
		case "headmention":
			put(g.pick("Comment: ", "Version: ", "X-Note: ") + g.mention())
		case "pem":
			put("-----BEGIN CERTIFICATE-----", "QUJD", "-----END CERTIFICATE-----")
		case "strayend":
			put("-----END PGP MESSAGE-----")
			ended = ended || begun
		case "straybegin":
			put("-----BEGIN PGP MESSAGE-----", "", "QUJD")
			if !begun {
				body = true
			}
			begun = true
		case "long":
			put(strings.Repeat(g.pick("long ", "=", "A", "x: y "), g.oneOf(60, 200, 900)))
		case "utf8":
			put("caf\u00e9 \u65e5\u672c\u8a9e \xff\xfe")
		case "begin":
			t := ""
			if trail {
				t = g.pick(" ", "\t ")
			}
			put("-----BEGIN PGP " + kind + "-----" + t)
			begun = true
		case "version":
			put("Version: GnuPG v2")
		case "longheader":
			put("Comment: " + strings.Repeat(g.pick("x", "word ", "a: b "), g.oneOf(20, 80, 92, 100, 300)) + "x")
		case "anyheader":
			key := g.pick("Version", "Comment", "MessageID", "Hash", "Charset", "X-Any", "Key-ID", "A1", "comment", "Version", string(rune('A'+g.Intn(26)))+string(rune('a'+g.Intn(26))))
			v := string(g.bytesText(1 + g.Intn(30)))
			if g.chance(0.15) {
				if t := strings.Map(func(r rune) rune {
					if r == '\n' || r == '\r' {
						return ' '
					}
					return r
				}, g.codeText()); strings.TrimSpace(t) != "" {
					v = t
				}
			}
			put(key + ": " + v)
		case "novalue":
			put(g.pick("Comment:", "Version:", "X-Any:", "a:b:", "Hash:") + g.pick("", " ", "  ", " \t"))
		case "colons":
			put("Comment: a: b:c =AAAA", "Hash: SHA1")
		case "unicode":
			put("Comment: \u65e5\u672c\u8a9e \u00e9")
		case "gap":
			put(g.pick("", "", "", " ", "\t"))
		case "body":
			wrap(b64)
			body = true
		case "nobody":
			body = true
			bad = true // the checksum, if any, does not fit
		case "badchar":
			i := g.Intn(len(b64) + 1)
			wrap(b64[:i] + string(ctl[g.Intn(len(ctl))]) + b64[i:])
			bad = true
		case "dropped":
			i := g.Intn(len(b64))
			wrap(b64[:i] + b64[i+1:])
			bad = true
		case "spaced":
			i := g.Intn(len(b64))
			wrap(b64[:i] + " " + b64[i:])
			bad = true
		case "sum":
			put(sum)
		case "nosum":
		case "badsum":
			c := crc24(payload)
			c[g.Intn(3)] ^= 1 << uint(g.Intn(8))
			put("=" + base64.StdEncoding.EncodeToString(c))
			bad = true
		case "shortsum":
			put("=" + base64.StdEncoding.EncodeToString(crc24(payload)[:1+g.Intn(2)]))
			bad = true
		case "oddsum":
			b := []byte(sum)
			b[1+g.Intn(4)] = g.pick("!", " ", "-", "\x80")[0]
			put(string(b))
			bad = true
		case "textaftersum":
			put(sum, g.pick("QUJD", "text", "=AAAA"))
			bad = true
		case "end":
			put("-----END PGP " + kind + "-----")
			ended = ended || begun
		case "nobegin", "noend":
		default:
			fatal(os.ErrInvalid)
		}
		_ = body
	}
	want = "any"
	if begun && ended && !bad && doc[len(doc)-1] != "strayend" && doc[len(doc)-1] != "straybegin" {
		want = "payload"
	}
	return
}

func (g *G) lineEnds(lines []string, mode int) []byte {
	var b bytes.Buffer
	for i, l := range lines {
		b.WriteString(l)
		if i == len(lines)-1 && mode >= 4 {
			break
		}
		crlf := mode%4 == 1 || (mode%4 == 2 && g.chance(0.5))
		if crlf {
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	return b.Bytes()
}

func textOf(info *result.Info) string {
	if info == nil {
		return ""
	}
	return esc(info.String())
}

func (o Outcome) text() string {
	if o.Out != "returned" {
		return ""
	}
	return textOf(o.Info)
}

func armorRun(data []byte, o Opts, via string) aRun {
	r := aRun{Armor: o.Armor, Via: via}
	var oc Outcome
	switch via {
	case "api":
		oc = dump(data, o)
		r.Text = oc.text()
	default:
		o.zone()
		oc = guarded(func() (*result.Info, error) {
			var c cliOut
			if via == "file" {
				c = runCLI(nil, append(o.flags(), "-f", scratchFile("doc", data))...)
			} else {
				c = runCLI(bytes.NewReader(data), o.flags()...)
			}
			r.Text = esc(c.Out)
			if c.Code != 0 {
				return nil, os.ErrInvalid
			}
			return nil, nil
		})
	}
	r.Out, r.Err = oc.Out, oc.Err != nil
	return r
}

func (g *G) armorTrace(id int, kind string, doc []string) *aTrace {
	payload := g.stream(1+g.Intn(2), 1)
	for len(payload) == 0 || len(payload) > 400 {
		payload = g.stream(1, 0)
	}
	if g.chance(0.1) {
		payload = g.damage(payload)
	}
	if len(payload) == 0 {
		payload = []byte{0xcd, 0}
	}
	if kind == "empty" {
		payload = nil
	}
	lines, want := g.document(doc, payload, g.oneOf(0, 64, 76, 60, 4, 75, 1), g.chance(0.1))
	mode := g.oneOf(0, 0, 1, 2, 4, 5)
	data := g.lineEnds(lines, mode)
	o := g.opts()
	o.GDump, o.Armor = false, false
	if o.Debug {
		o.Debug = false // the command line reports differently with it
		o.Int, o.Literal = true, true
	}
	bin := dump(payload, o)
	t := &aTrace{ID: id, Kind: kind, Doc: doc, Data: ints(data), Payload: ints(payload), Want: want, BinErr: bin.Err != nil, BinText: bin.text()}
	oa := o
	oa.Armor = true
	t.Runs = []aRun{armorRun(data, o, "api"), armorRun(data, oa, "api")}
	if g.chance(0.3) {
		t.Runs = append(t.Runs, armorRun(data, oa, g.pick("stdin", "file")), armorRun(data, o, g.pick("stdin", "file")))
	}
	return t
}

func armorCmd() {
	g := newG(14)
	traces := []*aTrace{}
	kinds := map[string]int{}
	put := func(t *aTrace) { traces = append(traces, t); kinds[t.Kind]++ }
	docs := [][]string{}
	if *fIn != "" {
		f, err := os.Open(*fIn)
		if err != nil {
			fatal(err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var d []string
			if err := json.Unmarshal(sc.Bytes(), &d); err != nil {
				fatal(err)
			}
			docs = append(docs, d)
		}
		f.Close()
	}
	for i, d := range docs {
		// without faults all of them, with faults a part of them
		if thorough() || !faulty(d) || (i+int(*fSeed))%4 == 0 {
			put(g.armorTrace(len(traces), "emitted", d))
		}
	}
	good := []string{"begin", "version", "gap", "body", "sum", "end"}
	for i := 0; i < 12; i++ {
		put(g.armorTrace(len(traces), "empty", good))
	}
	// longer surroundings, several headers
	pre := []string{"text", "mention", "blank", "dashed", "quoted", "cleartext", "pem", "strayend", "long", "utf8"}
	head := []string{"version", "anyheader", "headmention", "longheader", "colons", "unicode", "novalue"}
	for i := 0; i < scale(300, 3000); i++ {
		d := []string{}
		for k := g.Intn(7); k > 0; k-- {
			d = append(d, pre[g.Intn(len(pre))])
		}
		d = append(d, "begin")
		for k := g.Intn(4); k > 0; k-- {
			d = append(d, head[g.Intn(len(head))])
		}
		d = append(d, "gap", g.pick("body", "body", "body", "badchar", "dropped", "spaced"), g.pick("sum", "sum", "nosum", "badsum", "oddsum"), "end")
		for k := g.Intn(4); k > 0; k-- {
			d = append(d, g.pick("text", "blank", "dashed", "pem", "long", "mention"))
		}
		put(g.armorTrace(len(traces), "random", d))
	}
	// many headers
	for i := 0; i < scale(60, 500); i++ {
		d := []string{"begin"}
		for k := g.oneOf(4+i%20, 3+g.Intn(50), g.nearConstant(3, 120, 9)); k > 0; k-- {
			d = append(d, g.pick("anyheader", "anyheader", "anyheader", head[g.Intn(len(head))]))
		}
		put(g.armorTrace(len(traces), "many headers", append(d, "gap", "body", g.pick("sum", "nosum"), "end")))
	}
	// single-bit damage anywhere in the body of a checked block
	for i := 0; i < scale(200, 2000); i++ {
		t := g.armorTrace(len(traces), "octet damage", good)
		d := make([]byte, len(t.Data))
		for j, x := range t.Data {
			d[j] = byte(x)
		}
		k := g.Intn(len(d))
		switch g.Intn(3) {
		case 0:
			d[k] ^= 1 << uint(g.Intn(8))
		case 1:
			d = append(d[:k], d[k+1:]...)
		default:
			d = d[:k]
		}
		t.Data, t.Want = ints(d), "any"
		t.Runs = []aRun{armorRun(d, Opts{UTC: true}, "api"), armorRun(d, Opts{UTC: true, Armor: true}, "api")}
		bin := dump(bytesOf(t.Payload), Opts{UTC: true})
		t.BinErr, t.BinText = bin.Err != nil, bin.text()
		put(t)
	}
	// in other containers
	for i := 0; i < scale(120, 1000); i++ {
		t := g.armorTrace(len(traces), "foreign", good)
		d := g.foreign(bytesOf(t.Data))
		t.Data, t.Want = ints(d), "any"
		t.Runs = []aRun{armorRun(d, Opts{UTC: true}, "api"), armorRun(d, Opts{UTC: true, Armor: true}, "api")}
		bin := dump(bytesOf(t.Payload), Opts{UTC: true})
		t.BinErr, t.BinText = bin.Err != nil, bin.text()
		put(t)
	}
	// one very long line around, as in a generated page
	for i := 0; i < 2; i++ {
		t := g.armorTrace(len(traces), "very long line", append([]string{"text"}, good...))
		d := append(append(bytes.Repeat([]byte("x"), 66000+g.Intn(2000)), '\n'), bytesOf(t.Payload)[:0]...)
		ls, _ := g.document(good, bytesOf(t.Payload), 64, false)
		d = append(d, g.lineEnds(ls, 0)...)
		t.Data, t.Want = ints(d), "payload"
		t.Runs = []aRun{armorRun(d, Opts{UTC: true}, "api"), armorRun(d, Opts{UTC: true, Armor: true}, "api")}
		bin := dump(bytesOf(t.Payload), Opts{UTC: true})
		t.BinErr, t.BinText = bin.Err != nil, bin.text()
		put(t)
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func bytesOf(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

func faulty(d []string) bool {
	for _, s := range d {
		switch s {
		case "badchar", "dropped", "spaced", "nobody", "badsum", "oddsum", "shortsum", "textaftersum", "nobegin", "noend", "strayend", "straybegin":
			return true
		}
	}
	return false
}

func init() { commands["armor"] = armorCmd }
