package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// Opts mirrors the option record of the specification.
type Opts struct {
	Armor   bool `json:"armor"`
	Cert    bool `json:"cert"`
	Debug   bool `json:"debug"`
	GDump   bool `json:"gdump"`
	Int     bool `json:"int"`
	Literal bool `json:"literal"`
	Marker  bool `json:"marker"`
	Private bool `json:"private"`
	UTC     bool `json:"utc"`
	Off     int  `json:"off"`
	Shift   int  `json:"shift"`
}

var optNames = []string{"armor", "cert", "debug", "gdump", "int", "literal", "marker", "private", "utc"}

func (o *Opts) get(n string) *bool {
	switch n {
	case "armor":
		return &o.Armor
	case "cert":
		return &o.Cert
	case "debug":
		return &o.Debug
	case "gdump":
		return &o.GDump
	case "int":
		return &o.Int
	case "literal":
		return &o.Literal
	case "marker":
		return &o.Marker
	case "private":
		return &o.Private
	}
	return &o.UTC
}

var optCodes = map[string]context.OptCode{"armor": context.ARMOR, "cert": context.CERT, "debug": context.DEBUG, "gdump": context.GDUMP,
	"int": context.INTEGER, "literal": context.LITERAL, "marker": context.MARKER, "private": context.PRIVATE, "utc": context.UTC}

// zone sets the local time zone: Off minutes east of UTC, Shift more from 2001-09-09T01:46:40Z on
func (o Opts) zone() {
	if o.Shift == 0 {
		time.Local = time.FixedZone("verif", o.Off*60)
		return
	}
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []uint32{0, 0, 0, 1, 2, 4} {
		b = append(b, u32(n)...)
	}
	b = append(b, u32(1000000000)...)
	b = append(b, 1)
	b = cat(b, u32(uint32(o.Off*60)), []byte{0, 0}, u32(uint32((o.Off+o.Shift)*60)), []byte{0, 0}, []byte("VFY\x00"))
	loc, err := time.LoadLocationFromTZData("verif", b)
	if err != nil {
		fatal(err)
	}
	time.Local = loc
}

func (o Opts) context() *context.Context {
	fs := []context.OptFunc{}
	for _, n := range optNames {
		if *o.get(n) {
			fs = append(fs, context.Set(optCodes[n], true))
		}
	}
	return context.New(fs...)
}

// Item is an observed entry.
type Item struct {
	N string  `json:"n"`
	V string  `json:"v"`
	T string  `json:"t"`
	D []int   `json:"d"`
	C []*Item `json:"c"`
}

// esc writes everything outside printable ASCII, and the backslash, visibly.
func esc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			fmt.Fprintf(&b, "\\x{%02x}", s[i])
		} else if r >= 32 && r <= 126 && r != '\\' {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", r)
		}
		i += n
	}
	return b.String()
}

// hexOctets undoes a dump string; anything but "xx xx ..." gives [-1, ...].
func hexOctets(s string) []int {
	if s == "" {
		return []int{}
	}
	out := []int{}
	for _, p := range strings.Split(s, " ") {
		v, err := strconv.ParseUint(p, 16, 8)
		if err != nil || len(p) != 2 || p != strings.ToLower(p) {
			r := []int{-1}
			for _, b := range []byte(s) {
				r = append(r, int(b))
			}
			return r
		}
		out = append(out, int(v))
	}
	return out
}

// maxLevels keeps a recorded tree within the nesting limit of TLC's JSON
// reader (255, two per level). Only the cases of C01 go deeper, and C01 judges
// how a run ends, not the tree.
const maxLevels = 110

func project(it *result.Item) *Item { return projectAt(it, 0) }

func projectAt(it *result.Item, level int) *Item {
	if it == nil {
		return &Item{N: "<nil>", D: []int{}, C: []*Item{}}
	}
	v := it.Value
	if strings.HasPrefix(it.Name, "Signature Expiration Time") || strings.HasPrefix(it.Name, "Key Expiration Time") {
		if f, err := strconv.ParseFloat(strings.TrimSuffix(v, " days after"), 64); err == nil && f >= 0 {
			secs := uint64(math.Round(f * 86400))
			if fmt.Sprintf("%v days after", float64(secs)/86400.0) == v {
				v = fmt.Sprintf("secs:%08x", secs)
			}
		}
	}
	o := &Item{N: esc(it.Name), V: esc(v), T: esc(it.Note), D: hexOctets(it.Dump), C: []*Item{}}
	if level >= maxLevels && len(it.Items) > 0 {
		o.C = append(o.C, &Item{N: "(deeper)", D: []int{}, C: []*Item{}})
		return o
	}
	for _, c := range it.Items {
		o.C = append(o.C, projectAt(c, level+1))
	}
	return o
}

func controls(it *result.Item, acc []int) []int {
	if it == nil {
		return acc
	}
	for _, s := range []string{it.Name, it.Value, it.Note, it.Dump} {
		for _, r := range s {
			if r < 32 || (r >= 127 && r < 160) {
				acc = append(acc, int(r))
			}
		}
	}
	for _, c := range it.Items {
		acc = controls(c, acc)
	}
	return acc
}

// Outcome of one dump of the real code.
type Outcome struct {
	Out   string // "returned", "panic", "hang", "nil"
	Info  *result.Info
	Err   error
	Where string
}

var hangLimit = 45 * time.Second

func guarded(f func() (*result.Info, error)) Outcome {
	ch := make(chan Outcome, 1)
	go func() {
		var o Outcome
		defer func() {
			if r := recover(); r != nil {
				o = Outcome{Out: "panic", Where: fmt.Sprint(r) + "\n" + string(debug.Stack())}
			}
			ch <- o
		}()
		info, err := f()
		o = Outcome{Out: "returned", Info: info, Err: err}
	}()
	select {
	case o := <-ch:
		return o
	case <-time.After(hangLimit):
		return Outcome{Out: "hang"}
	}
}

func dumpReader(cxt *context.Context, r io.Reader) Outcome {
	return guarded(func() (*result.Info, error) {
		p, err := parse.New(cxt, r)
		if err != nil {
			return nil, err
		}
		return p.Parse()
	})
}

func dump(data []byte, o Opts) Outcome {
	o.zone()
	return dumpReader(o.context(), bytes.NewReader(data))
}

// Trace is one recorded dump.
type Trace struct {
	Via   string   `json:"via"`
	Argv  []string `json:"argv"`
	ID    int      `json:"id"`
	Data  []int    `json:"data"`
	Opt   Opts     `json:"opt"`
	Items []*Item  `json:"items"`
	Err   bool     `json:"err"`
	Out   string   `json:"out"`
	Ctl   []int    `json:"ctl"`
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func record(id int, data []byte, o Opts, out Outcome) *Trace {
	t := &Trace{ID: id, Data: ints(data), Opt: o, Argv: []string{}, Items: []*Item{}, Err: out.Err != nil, Out: out.Out, Ctl: []int{}}
	if out.Info != nil {
		for _, it := range out.Info.Packets {
			t.Items = append(t.Items, project(it))
			t.Ctl = controls(it, t.Ctl)
		}
	}
	return t
}

// inflation table: every compressed body that can be met while decoding a stream
type zentry struct {
	A    int    `json:"a"`
	B    []int  `json:"b"`
	St   string `json:"st"`
	Data []int  `json:"data"`
}

type ztable struct {
	seen map[string]bool
	list []zentry
}

func (z *ztable) add(alg int, b []byte) []byte {
	st, d := inflate(alg, b)
	k := string(rune(alg)) + string(b)
	if !z.seen[k] {
		z.seen[k] = true
		z.list = append(z.list, zentry{alg, ints(b), st, ints(d)})
	}
	return d
}

// scan walks a packet stream and registers compressed bodies, also inside expanded
// data, key blocks and signatures
func (z *ztable) scan(data []byte, depth int) {
	if depth > 4 {
		return
	}
	for p := 0; p < len(data); {
		tag, body, nxt := frame(data, p)
		if nxt < 0 {
			return
		}
		switch {
		case tag == 8 && len(body) > 1:
			if body[0] >= 1 && body[0] <= 3 {
				z.scan(z.add(int(body[0]), body[1:]), depth+1)
			} else if body[0] == 0 {
				z.scan(body[1:], depth+1)
			}
		case tag == 2:
			z.scanSig(body, depth+1)
		}
		p = nxt
	}
}

func (z *ztable) scanSig(b []byte, depth int) {
	if depth > 6 || len(b) < 6 || (b[0] != 4 && b[0] != 5) {
		return
	}
	p := 4
	for k := 0; k < 2 && p+2 <= len(b); k++ {
		n := int(b[p])<<8 | int(b[p+1])
		p += 2
		if p+n > len(b) {
			return
		}
		a := b[p : p+n]
		p += n
		for q := 0; q < len(a); {
			h, n := 1, int(a[q])
			if a[q] == 255 {
				if q+5 > len(a) {
					return
				}
				h, n = 5, int(a[q+1])<<24|int(a[q+2])<<16|int(a[q+3])<<8|int(a[q+4])
			} else if a[q] >= 192 {
				if q+2 > len(a) {
					return
				}
				h, n = 2, (int(a[q])-192)<<8+int(a[q+1])+192
			}
			if n == 0 || q+h+n > len(a) {
				return
			}
			switch a[q+h] & 0x7f {
			case 32:
				z.scanSig(a[q+h+1:q+h+n], depth+1)
			case 38:
				if n > 2 {
					z.scan(a[q+h+2:q+h+n], depth+1)
				}
			}
			q += h + n
		}
	}
}

// frame finds the packet at p; nxt < 0 when it is damaged
func frame(d []byte, p int) (tag int, body []byte, nxt int) {
	if d[p] < 128 {
		return 0, nil, -1
	}
	if d[p] < 192 {
		tag = int(d[p]&0x3f) >> 2
		k := []int{1, 2, 4, 0}[d[p]&3]
		if k == 0 {
			return tag, d[p+1:], len(d)
		}
		if p+1+k > len(d) {
			return 0, nil, -1
		}
		n := 0
		for _, x := range d[p+1 : p+1+k] {
			n = n<<8 | int(x)
		}
		if p+1+k+n > len(d) {
			return 0, nil, -1
		}
		return tag, d[p+1+k : p+1+k+n], p + 1 + k + n
	}
	tag = int(d[p] & 0x3f)
	p++
	for {
		if p >= len(d) {
			return 0, nil, -1
		}
		n, h, more := int(d[p]), 1, false
		switch {
		case d[p] < 192:
		case d[p] < 224:
			if p+2 > len(d) {
				return 0, nil, -1
			}
			n, h = (n-192)<<8+int(d[p+1])+192, 2
		case d[p] < 255:
			n, more = 1<<(n-224), true
		default:
			if p+5 > len(d) {
				return 0, nil, -1
			}
			n, h = int(d[p+1])<<24|int(d[p+2])<<16|int(d[p+3])<<8|int(d[p+4]), 5
		}
		if p+h+n > len(d) {
			return 0, nil, -1
		}
		body = append(append([]byte{}, body...), d[p+h:p+h+n]...)
		p += h + n
		if !more {
			return tag, body, p
		}
	}
}

func writeLines(path string, n int, at func(i int) interface{}) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	w := bufio.NewWriterSize(f, 1<<20)
	for i := 0; i < n; i++ {
		b, err := json.Marshal(at(i))
		if err != nil {
			return err
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	return w.Flush()
}
