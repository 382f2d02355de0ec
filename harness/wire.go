package main

import (
	"bytes"
	"compress/bzip2"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"encoding/binary"
	"io"
	"math/rand"
	"os/exec"
)

// G is a seeded generator of OpenPGP octets.
type G struct {
	*rand.Rand
	named int  // how many file names were used
	low   bool // octets are mostly small, so that a reader that lost its place still finds something to read
}

func (g *G) oneOf(xs ...int) int       { return xs[g.Intn(len(xs))] }
func (g *G) chance(p float64) bool     { return g.Float64() < p }
func (g *G) pickB(xs ...[]byte) []byte { return xs[g.Intn(len(xs))] }

func (g *G) bytes(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	if g.low {
		for i := range b {
			switch g.Intn(8) {
			case 0:
			case 1, 2:
				b[i] &= 3
			default:
				b[i] = 0
			}
		}
	}
	return b
}

// octets biased towards boundary values
func (g *G) octet() byte {
	if g.chance(0.4) {
		return []byte{0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xfe, 0xff, 100, 110, 111, 99}[g.Intn(18)]
	}
	return byte(g.Intn(256))
}

func u16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func u32(n uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, n)
	return b
}

func cat(bs ...[]byte) []byte {
	out := []byte{}
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// ---- packet headers -------------------------------------------------------

const (
	hOld1 = iota
	hOld2
	hOld4
	hOldIndef
	hNew1
	hNew2
	hNew5
	hNewPartial
	hBest // shortest new format
)

// pkt frames a body; falls back to an encoding that can hold it.
func (g *G) pkt(tag int, body []byte, form int) []byte {
	n := len(body)
	if tag > 15 && form <= hOldIndef {
		form = hBest
	}
	switch form {
	case hOld1:
		if n < 256 {
			return cat([]byte{byte(0x80 | tag<<2), byte(n)}, body)
		}
		return g.pkt(tag, body, hOld2)
	case hOld2:
		if n < 65536 {
			return cat([]byte{byte(0x80 | tag<<2 | 1)}, u16(n), body)
		}
		return g.pkt(tag, body, hOld4)
	case hOld4:
		return cat([]byte{byte(0x80 | tag<<2 | 2)}, u32(uint32(n)), body)
	case hOldIndef:
		return cat([]byte{byte(0x80 | tag<<2 | 3)}, body)
	case hNew1:
		if n < 192 {
			return cat([]byte{byte(0xc0 | tag), byte(n)}, body)
		}
		return g.pkt(tag, body, hNew2)
	case hNew2:
		if n >= 192 && n < 8384 {
			m := n - 192
			return cat([]byte{byte(0xc0 | tag), byte(192 + m>>8), byte(m)}, body)
		}
		if n < 192 {
			return g.pkt(tag, body, hNew1)
		}
		return g.pkt(tag, body, hNew5)
	case hNew5:
		return cat([]byte{byte(0xc0 | tag), 255}, u32(uint32(n)), body)
	case hNewPartial:
		out := []byte{byte(0xc0 | tag)}
		rest := body
		for {
			k := -1
			if len(rest) > 0 && g.chance(0.85) {
				k = 0
				for (1<<(k+1)) <= len(rest) && g.chance(0.7) {
					k++
				}
			}
			if k < 0 {
				break
			}
			out = append(out, byte(224+k))
			out = append(out, rest[:1<<k]...)
			rest = rest[1<<k:]
		}
		l := g.pkt(0, rest, g.oneOf(hNew1, hNew2, hNew5))
		return append(out, l[1:]...)
	default:
		if n < 192 {
			return g.pkt(tag, body, hNew1)
		}
		return g.pkt(tag, body, hNew2)
	}
}

// any header form; indeterminate only when the packet is the last of its stream
func (g *G) anyForm(last bool) int {
	f := g.oneOf(hOld1, hOld2, hOld4, hNew1, hNew2, hNew5, hNewPartial, hBest, hOldIndef)
	if f == hOldIndef && !last {
		f = hBest
	}
	return f
}

// ---- integers, texts --------------------------------------------------------

func mpi(bits int, data []byte) []byte { return cat(u16(bits), data) }

// mpi of a random bit length, octets arbitrary
func (g *G) mpi() []byte {
	bits := g.oneOf(0, 1, 7, 8, 9, 15, 16, 17, 160, 255, 256, 257, 263, 512, 521, g.nearConstant(0, 2000, 33))
	if g.chance(0.5) {
		bits = g.Intn(300)
	}
	if g.chance(0.06) {
		bits = g.oneOf(1023, 1024, 2047, 2048, 2049, 3072, 4096, 4097)
	}
	return mpi(bits, g.bytes((bits+7)/8))
}

// EC point
func (g *G) point() []byte {
	n := g.oneOf(0, 1, 2, 33, 65)
	b := g.bytes(n)
	if n > 0 && g.chance(0.8) {
		b[0] = []byte{4, 0x40, 0x41, 0x42, 0x43, 0x3f, 5, 3, 0, 1, 0xff}[g.Intn(11)]
	}
	bits := n * 8
	if n > 0 && g.chance(0.6) { // leading zero bits are not counted
		bits -= g.Intn(8)
	}
	return mpi(bits, b)
}

var curves = [][]byte{
	{0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07}, {0x2b, 0x81, 0x04, 0x00, 0x0a},
	{0x2b, 0x81, 0x04, 0x00, 0x22}, {0x2b, 0x81, 0x04, 0x00, 0x23},
	{0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x07}, {0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0B},
	{0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0D},
	{0x2B, 0x06, 0x01, 0x04, 0x01, 0xDA, 0x47, 0x0F, 0x01},
	{0x2B, 0x06, 0x01, 0x04, 0x01, 0x97, 0x55, 0x01, 0x05, 0x01},
}

func (g *G) curve() []byte {
	c := curves[g.Intn(len(curves))]
	switch g.Intn(9) {
	case 8:
		if d := []byte(g.codeText()); len(d) < 256 {
			c = d
		}
	case 0: // near miss: one octet changed
		d := append([]byte{}, c...)
		d[g.Intn(len(d))] ^= byte(1 << g.Intn(8))
		c = d
	case 1: // prefix
		c = c[:g.Intn(len(c))]
	case 2: // extension
		c = cat(c, g.bytes(1+g.Intn(3)))
	case 3:
		c = g.bytes(g.oneOf(0, 1, 2, 17, 127, 128, 254, 255))
	}
	return cat([]byte{byte(len(c))}, c)
}

func (g *G) when() []byte {
	switch g.Intn(6) {
	case 0:
		return u32([]uint32{0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 86399, 86400, 951782400, 951868799, 951868800, 999999999, 1000000000, 1000000001}[g.Intn(15)])
	case 1: // around year boundaries
		y := uint32(g.Intn(137))
		days := y*365 + (y+1)/4
		if y > 130 {
			days--
		}
		return u32(days*86400 + uint32(g.Intn(5)) - 2)
	case 2: // near the numbers of the code
		return u32(uint32(g.nearConstant(256, 1<<32-1, 1000)))
	default:
		return u32(g.Uint32())
	}
}

var asciiTexts = []string{"Alice <alice@example.com>", "a", "tes.txt", "http://example.com/policy?x=1&y=%20", "(comment)", "<b>&amp;", "\"quoted\"", "back\\slash", "~", " lead", "trail "}
var oddTexts = []string{"tab\there", "line\nbreak", "\r", "\x00", "nul\x00in", "\x1b[31mred", "\x7f", "\u0080", "\u0085", "\u009f", "\u00a0", "é", "鈴木", "😀", "a\u200bb", "\u202e", "\ufffd", "\ufeff", "\u2028", "\U0010ffff", "\u00ad", "\v\f\b\a", "x\u0301"}
var badTexts = []string{"\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "a\x80", "\xc2", "\xe2\x82", "ab\xf0\x9f\x98", "\xe0\x9f\xbf", "ok then \xfe", "\xc1\xbf", "\x1b\xff", "\xf8\x88\x80\x80\x80"}

func (g *G) text(max int) []byte {
	var s string
	switch g.Intn(9) {
	case 8:
		s = g.codeText()
	case 0, 1, 2:
		s = asciiTexts[g.Intn(len(asciiTexts))]
	case 3, 4:
		s = oddTexts[g.Intn(len(oddTexts))]
		if g.chance(0.5) {
			s = asciiTexts[g.Intn(len(asciiTexts))] + s + asciiTexts[g.Intn(len(asciiTexts))]
		}
	case 5:
		s = badTexts[g.Intn(len(badTexts))]
		if g.chance(0.5) {
			s = asciiTexts[g.Intn(len(asciiTexts))] + s
		}
		if g.chance(0.3) {
			s += oddTexts[g.Intn(len(oddTexts))]
		}
	case 6:
		n := g.Intn(40)
		rs := make([]rune, n)
		for i := range rs {
			rs[i] = rune([]int{g.Intn(128), g.Intn(0x800), g.Intn(0xd800), 0x10000 + g.Intn(0x100000)}[g.Intn(4)])
		}
		s = string(rs)
	default:
		s = string(g.bytes(g.Intn(20)))
	}
	if g.chance(0.05) {
		s = ""
	}
	if len(s) > max {
		s = s[:max]
	}
	return []byte(s)
}

// ---- compression (independent oracle: the standard library) -------------------

func deflate(raw bool, data []byte, level int) []byte {
	var b bytes.Buffer
	if raw {
		w, _ := flate.NewWriter(&b, level)
		w.Write(data)
		w.Close()
	} else {
		w, _ := zlib.NewWriterLevel(&b, level)
		w.Write(data)
		w.Close()
	}
	return b.Bytes()
}

func bzip(data []byte) []byte {
	c := exec.Command("bzip2", "-c")
	c.Stdin = bytes.NewReader(data)
	out, err := c.Output()
	if err != nil {
		return nil
	}
	return out
}

type container struct {
	name string
	data []byte
}

// the same contents in every format there is
func containers(data []byte) []container {
	var gz, dict bytes.Buffer
	w := gzip.NewWriter(&gz)
	w.Write(data)
	w.Close()
	d, _ := zlib.NewWriterLevelDict(&dict, -1, []byte("a dictionary of the sender"))
	d.Write(data)
	d.Close()
	return []container{
		{"plain", data}, {"deflate", deflate(true, data, -1)}, {"stored", deflate(true, data, 0)}, {"zlib", deflate(false, data, -1)}, {"bzip2", bzip(data)},
		{"gzip", gz.Bytes()}, {"zlib with dictionary", dict.Bytes()},
		{"deflate in zlib", deflate(false, deflate(true, data, -1), -1)}, {"zlib in deflate", deflate(true, deflate(false, data, -1), 0)},
		{"two deflate", cat(deflate(true, data, -1), deflate(true, data, -1))}, {"two zlib", cat(deflate(false, data, -1), deflate(false, data, -1))},
		{"two bzip2", cat(bzip(data), bzip(data))},
	}
}

func inflate(alg int, b []byte) (string, []byte) {
	var r io.Reader
	switch alg {
	case 1:
		r = flate.NewReader(bytes.NewReader(b))
	case 2:
		z, err := zlib.NewReader(bytes.NewReader(b))
		if err != nil {
			return "err", nil
		}
		r = z
	case 3:
		r = bzip2.NewReader(bytes.NewReader(b))
	}
	d, err := io.ReadAll(io.LimitReader(r, 1<<20))
	if err != nil {
		return "err", nil
	}
	return "ok", d
}
