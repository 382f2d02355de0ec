package main

import (
	"bufio"
	"encoding/json"
	"os"
)

// genFile: inputs emitted by the specification, one JSON array of octets per line
func genFile() []Case {
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	cs := []Case{}
	r := bufio.NewScanner(f)
	r.Buffer(make([]byte, 1<<20), 1<<26)
	for r.Scan() {
		var v []int
		if err := json.Unmarshal(r.Bytes(), &v); err != nil {
			fatal(err)
		}
		b := make([]byte, len(v))
		for i, x := range v {
			b[i] = byte(x)
		}
		cs = append(cs, Case{Kind: "emitted", Data: b, Opt: utc})
	}
	return cs
}

// ---- C09: long random histories of session keys and encrypted data ------------------

func (g *G) sessionPacket(depth int, last bool) []byte {
	form := g.anyForm(last)
	switch g.Intn(12) {
	case 0, 1:
		return g.pkt(1, g.pubEsk(), form)
	case 2, 3:
		return g.pkt(3, g.symEsk(), form)
	case 4, 5:
		return g.pkt(9, g.bytes(g.Intn(20)), form)
	case 6, 7:
		return g.pkt(18, g.bytes(g.Intn(20)), form)
	case 8:
		if depth > 0 {
			in := []byte{}
			for i := g.Intn(4); i >= 0; i-- {
				in = append(in, g.sessionPacket(depth-1, false)...)
			}
			alg := byte(g.Intn(4))
			return g.pkt(8, g.compress(alg, in), form)
		}
		fallthrough
	case 9:
		if depth > 0 {
			in := []byte{0}
			for i := g.Intn(3); i >= 0; i-- {
				in = append(in, g.sessionPacket(0, false)...)
			}
			return g.pkt(2, g.sigV4(4, 99, g.sub(38, in), nil), form)
		}
		fallthrough
	default:
		t := g.anyTag()
		return g.pkt(t, g.body(t, 0), form)
	}
}

func genC09() []Case {
	s := &set{g: newG(9)}
	g := s.g
	for i := 0; i < scale(1200, 6000); i++ {
		n := 1 + g.Intn(12)
		d := []byte{}
		for j := 0; j < n; j++ {
			d = append(d, g.sessionPacket(1, j == n-1)...)
		}
		s.addO("history", d, g.opts())
	}
	// many of one kind, after one of the other, before the data
	for i, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 260, 300, 384, 520} {
		if n > 300 && !thorough() {
			continue
		}
		for k := 0; k < 2; k++ {
			pub, sym := g.pkt(1, cat([]byte{3}, g.bytes(8), []byte{1, 0, 8, 255}), hNew1), g.pkt(3, []byte{4, 7, 0, 8}, hNew1)
			if k == 1 {
				pub, sym = sym, pub
			}
			data := func() []byte { return g.pkt(g.oneOf(9, 18), g.bytes(3), hNew1) }
			d := append([]byte{}, sym...)
			for j := 0; j < n; j++ {
				d = append(d, pub...)
			}
			d = cat(d, data())
			if i%2 == 0 {
				d = cat(d, data())
			}
			d = cat(d, sym, pub, data(), data())
			s.addO("many", d, utc)
			// the other way round: many of one and then one of the other
			d = []byte{}
			for j := 0; j < n; j++ {
				d = append(d, sym...)
			}
			s.addO("many", cat(d, pub, data(), sym, data()), utc)
			// many messages
			d = []byte{}
			for j := 0; j < n; j++ {
				d = cat(d, pub, data())
			}
			s.addO("many", cat(d, sym, data(), data()), utc)
		}
	}
	return s.cs
}

// ---- C10: long random histories of keys and signatures --------------------------------

func (g *G) expirySub(depth int) []byte {
	switch g.Intn(9) {
	case 0, 1:
		return g.sub(2|crit(g), g.when())
	case 2, 3:
		return g.sub(3|crit(g), g.when())
	case 4, 5:
		return g.sub(9|crit(g), g.when())
	case 6:
		if depth > 0 {
			return g.sub(32|crit(g), g.expirySig(depth-1))
		}
		return g.sub(16, g.bytes(8))
	case 7:
		if depth > 0 {
			b := []byte{0}
			for i := g.Intn(3); i >= 0; i-- {
				b = append(b, g.expiryPacket(depth-1, false)...)
			}
			return g.sub(38|crit(g), b)
		}
		return g.sub(27, g.bytes(1))
	default:
		return g.subpacket(0)
	}
}

func crit(g *G) byte {
	if g.chance(0.2) {
		return 0x80
	}
	return 0
}

func (g *G) expiryArea(depth int) []byte {
	out := []byte{}
	for i := g.Intn(5); i > 0; i-- {
		out = append(out, g.expirySub(depth)...)
	}
	return out
}

func (g *G) expirySig(depth int) []byte {
	if g.chance(0.1) {
		return g.sig(0)
	}
	return g.sigV4(byte(g.oneOf(4, 4, 5)), g.pubAlg(), g.expiryArea(depth), g.expiryArea(depth))
}

func (g *G) expiryPacket(depth int, last bool) []byte {
	form := g.anyForm(last)
	switch g.Intn(10) {
	case 0:
		return g.pkt(g.oneOf(6, 14), g.pubKey(), form)
	case 1:
		return g.pkt(g.oneOf(5, 7), g.secKey(), form)
	case 2:
		t := g.anyTag()
		return g.pkt(t, g.body(t, 0), form)
	case 3:
		if depth > 1 {
			in := []byte{}
			for i := g.Intn(3); i >= 0; i-- {
				in = append(in, g.expiryPacket(depth-1, false)...)
			}
			alg := byte(g.Intn(4))
			return g.pkt(8, g.compress(alg, in), form)
		}
		fallthrough
	default:
		return g.pkt(2, g.expirySig(depth), form)
	}
}

func genC10() []Case {
	s := &set{g: newG(10)}
	g := s.g
	for i := 0; i < scale(1500, 5000); i++ {
		n := 1 + g.Intn(6)
		d := []byte{}
		for j := 0; j < n; j++ {
			d = append(d, g.expiryPacket(2, j == n-1)...)
		}
		o := g.opts()
		if g.chance(0.3) {
			o.UTC, o.Off, o.Shift = false, g.oneOf(-720, -210, 0, 330, 540, 840), g.oneOf(0, 0, 60, -60)
		}
		s.addO("history", d, o)
	}
	return s.cs
}
