package main

import (
	"bytes"
	"fmt"
)

var commands = map[string]func(){}

var generators = map[string]func() []Case{
	"ALL": genAll, "FILE": genFile, "C01": genC01, "C09": genC09, "C10": genC10,
	"C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07,
	"C08": genC08, "C11": genC11, "C12": genC12, "C16": genC16, "C22": genC22, "C23": genC23,
}

var utc = Opts{UTC: true}

type set struct {
	cs []Case
	g  *G
}

func (s *set) add(kind string, data []byte) {
	s.addO(kind, data, utc)
}
func (s *set) addO(kind string, data []byte, o Opts) {
	s.cs = append(s.cs, Case{Kind: kind, Data: data, Opt: o})
	s.g.low = s.g.chance(0.25)
}
func (s *set) pkt(kind string, tag int, body []byte) {
	s.add(kind, s.g.pkt(tag, body, s.g.anyForm(true)))
}
func (s *set) pktD(kind string, tag int, body []byte) {
	s.addO(kind, s.g.pkt(tag, body, s.g.anyForm(true)), Opts{UTC: true, Int: s.g.chance(0.5), Debug: s.g.chance(0.3)})
}

func (g *G) opts() Opts {
	o := Opts{UTC: true}
	for _, n := range optNames[1:8] {
		*o.get(n) = g.chance(0.3)
	}
	return o
}

func genAll() []Case {
	s := &set{g: newG(1)}
	g := s.g
	for i := 0; i < scale(1500, 20000); i++ {
		d := g.stream(1+g.Intn(3), 1)
		k := "complete"
		if g.chance(0.3) {
			d = g.damage(d)
			k = "damaged"
		}
		s.addO(k, d, g.opts())
	}
	return s.cs
}

// the streams of the cases again, one after another: the same twice, two, the first again after another
func combined(cs []Case) []Case {
	g := newG(77)
	short := []Case{}
	for _, c := range cs {
		if c.Via == "" && len(c.Data) < 400 {
			short = append(short, c)
		}
	}
	if len(short) < 2 {
		return cs
	}
	for i := 0; i < scale(500, 4000); i++ {
		a, b := short[g.Intn(len(short))], short[g.Intn(len(short))]
		switch i % 4 {
		case 0, 1:
			cs = append(cs, Case{Kind: "the same twice", Data: cat(a.Data, a.Data), Opt: a.Opt})
		case 2:
			cs = append(cs, Case{Kind: "one after another", Data: cat(a.Data, b.Data), Opt: a.Opt})
		default:
			cs = append(cs, Case{Kind: "one around another", Data: cat(a.Data, b.Data, a.Data), Opt: a.Opt})
		}
	}
	return cs
}

// ---- C02: framing -------------------------------------------------------------

// a body of exactly n octets that is complete for the tag, or nil
func (g *G) sized(tag, n int) []byte {
	switch tag {
	case 1, 2, 3, 4, 5, 6, 7, 14, 8, 17, 20:
		if n < 1 {
			return nil
		}
		switch tag {
		case 2, 6, 14: // unknown version: the rest is opaque
			return cat([]byte{byte(g.oneOf(1, 6, 200))}, g.bytes(n-1))
		case 3:
			return cat([]byte{byte(g.oneOf(1, 6, 5))}, g.bytes(n-1))
		case 1:
			if n < 10 {
				return nil
			}
			return cat([]byte{3}, g.bytes(8), []byte{99}, g.bytes(n-10))
		case 4:
			if n < 13 {
				return nil
			}
			return cat([]byte{3}, g.bytes(n-1))
		case 5, 7: // unknown version, opaque protection, no IV
			if n < 2 {
				return nil
			}
			return cat([]byte{9, 200}, g.bytes(n-2))
		case 8:
			return cat([]byte{byte(g.oneOf(4, 100, 255))}, g.bytes(n-1))
		case 17:
			if n < 2 {
				return nil
			}
			if n-1 < 192 {
				return cat([]byte{byte(n - 1), 50}, g.bytes(n-2))
			}
			if n < 6 {
				return nil
			}
			return cat([]byte{255}, u32(uint32(n-5)), []byte{50}, g.bytes(n-6))
		case 20:
			if n < 4 {
				return nil
			}
			return cat([]byte{1, 9, 3}, g.bytes(n-3))
		}
	case 11:
		if n < 6 {
			return nil
		}
		return cat([]byte{'b', 0}, g.bytes(n-2))
	case 13:
		b := g.bytes(n)
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
		return b
	}
	return g.bytes(n)
}

func genC02() []Case {
	s := &set{g: newG(2)}
	g := s.g
	lens := []int{0, 1, 2, 3, 13, 63, 64, 127, 128, 190, 191, 192, 193, 223, 224, 225, 254, 255, 256, 257, 300, 511, 512, 513}
	forms := []int{hOld1, hOld2, hOld4, hOldIndef, hNew1, hNew2, hNew5, hNewPartial}
	for tag := 0; tag < 64; tag++ {
		for _, f := range forms {
			if tag > 15 && f <= hOldIndef {
				continue
			}
			for k := 0; k < scale(4, 12); k++ {
				n := lens[g.Intn(len(lens))]
				b := g.sized(tag, n)
				if b == nil {
					continue
				}
				p := g.pkt(tag, b, f)
				if f != hOldIndef && g.chance(0.5) { // followed by another packet
					t2 := g.Intn(64)
					if b2 := g.sized(t2, g.oneOf(20, 40, 200)); b2 != nil {
						p = cat(p, g.pkt(t2, b2, g.anyForm(true)))
					}
				}
				s.addO("tag x form", p, g.opts())
			}
		}
	}
	for _, n := range nearConstants(100, 20000) { // as many octets, as many packets as the numbers of the code
		tag := g.oneOf(13, 9, 10, 12, 60)
		if n < 5000 || thorough() || n%3 == 1 {
			s.add("length of the code", g.pkt(tag, g.sized(tag, n), g.anyForm(true)))
		}
		if n < 300 || n%3 == 1 || thorough() {
			out := []byte{}
			for k := 0; k < n && k < 3000; k++ {
				out = append(out, g.pkt(g.oneOf(0, 10, 13, 40, 60), g.bytesText(g.oneOf(0, 0, 1)), hNew1)...)
			}
			s.add("count of the code", out)
		}
	}
	for _, n := range []int{0, 1, 191, 192, 193, 255, 256, 4096, 8383, 8384, 8385, 65535, 65536, 70001} {
		if n > 10000 && !thorough() && n != 65536 {
			continue
		}
		for _, f := range forms {
			if n > 10000 && f == hOld1 {
				continue
			}
			s.add("length boundary", g.pkt(g.oneOf(9, 10, 12, 11), g.sized(11, n+6)[6:], f))
			tag := g.oneOf(13, 9, 10, 12)
			s.add("length boundary", g.pkt(tag, g.sized(tag, n), f))
		}
	}
	for i := 0; i < scale(250, 3000); i++ {
		n := g.oneOf(0, 1, 2, 3, 5, 8, 13, 21, 34, 55)
		if i == 0 {
			n = 300
		}
		out := []byte{}
		for k := 0; k < n; k++ {
			t := g.Intn(64)
			b := g.sized(t, g.oneOf(0, 1, 2, 13, 20, 191, 192, 5, 7))
			if b == nil {
				b, t = g.bytes(5), 60
			}
			out = append(out, g.pkt(t, b, g.anyForm(k == n-1))...)
		}
		s.add("long stream", out)
	}
	for i := 0; i < scale(600, 8000); i++ {
		s.addO("mixed stream", g.stream(1+g.Intn(5), 1), g.opts())
	}
	return s.cs
}

// ---- C03: damage ------------------------------------------------------------------

// a modest body of the given tag
func (g *G) small(tag, max int) []byte {
	for i := 0; i < 200; i++ {
		if b := g.body(tag, 1); len(b) <= max {
			return b
		}
	}
	return g.body(tag, 0)
}

// every prefix of packet bodies, correctly framed: fields running past the body
func (s *set) prefixes(n int, tags ...int) {
	g := s.g
	for _, tag := range tags {
		for k := 0; k < n; k++ {
			b := g.small(tag, 110)
			for i := 0; i <= len(b); i++ {
				p := g.pkt(tag, b[:i], g.oneOf(hNew1, hOld1, hNewPartial))
				if g.chance(0.3) {
					p = cat(g.pkt(13, []byte("before"), hNew1), p)
				}
				if g.chance(0.3) {
					p = cat(p, g.pkt(13, []byte("after"), hNew1))
				}
				s.add("body prefix", p)
			}
		}
	}
}

// a short field: small integers, so that every cut of every combination is affordable
func (g *G) tiny(n int) []byte {
	out := []byte{}
	for i := 0; i < n; i++ {
		out = cat(out, mpi(g.oneOf(1, 8, 9, 13), g.bytes(2))[:4])
	}
	for i := 0; i < n; i++ {
		if out[i*4+1] <= 8 {
			out[i*4+1] = 9
		}
	}
	return out
}

func (g *G) tinyMaterial(kind string, alg byte) []byte {
	n := 0
	switch alg {
	case 1, 2, 3:
		n = map[string]int{"key": 2, "sig": 1, "ses": 1, "sec": 4}[kind]
	case 16, 20:
		n = map[string]int{"key": 3, "sig": 2, "ses": 2, "sec": 1}[kind]
	case 17:
		n = map[string]int{"key": 4, "sig": 2, "ses": 0, "sec": 1}[kind]
	case 18, 19, 22:
		switch kind {
		case "sec":
			return g.tiny(1)
		case "sig":
			return g.tiny(2)
		}
		out := g.point()
		if len(out) > 12 {
			out = mpi(24, []byte{4, 1, 2})
		}
		if kind == "ses" {
			if alg != 18 {
				return g.bytes(4)
			}
			return cat(out, []byte{3}, g.bytes(3))
		}
		out = cat(g.curve(), out)
		if alg == 18 {
			out = cat(out, g.kdf())
		}
		return out
	default:
		return g.bytes(4)
	}
	return g.tiny(n)
}

// bodies of every version, algorithm and protection, ended after every octet
func (s *set) fieldCuts(every int, tags ...int) {
	g := s.g
	k := int(*fSeed)
	ends := func(tag int, b []byte, from int) {
		for i := from; i <= len(b); i++ {
			if k++; thorough() || k%every == 0 || i == len(b) {
				s.pktD("field cut", tag, b[:i])
			}
		}
	}
	algs := []byte{1, 2, 3, 16, 17, 18, 19, 20, 22, 21, 99, 0}
	for _, tag := range tags {
		switch tag {
		case 1:
			for _, a := range algs {
				for r := 0; r < 2; r++ {
					ends(1, cat([]byte{3}, g.bytes(8), []byte{a}, g.tinyMaterial("ses", a), g.bytes(2*r)), 8)
				}
			}
		case 2:
			for _, a := range algs {
				ends(2, cat([]byte{3, 5, byte(g.Intn(32))}, g.when(), g.bytes(8), []byte{a, 8}, g.bytes(2), g.tinyMaterial("sig", a)), 1)
				for _, v := range []byte{4, 5} {
					ends(2, cat([]byte{v, byte(g.Intn(32)), a, 8, 0, 2, 1, 7 + byte(g.Intn(90)), 0, 3, 2, 30, byte(g.Intn(256))}, g.bytes(2), g.tinyMaterial("sig", a)), 1)
				}
			}
		case 6, 14:
			for _, a := range algs {
				m := g.tinyMaterial("key", a)
				ends(tag, cat([]byte{byte(g.oneOf(2, 3))}, g.when(), u16(g.Intn(3)), []byte{a}, m), 1)
				ends(tag, cat([]byte{4}, g.when(), []byte{a}, m), 1)
				ends(tag, cat([]byte{5}, g.when(), []byte{a}, u32(uint32(len(m))), m), 1)
				for i := 0; i < len(m); i++ { // the counted part shorter than its fields
					ends(tag, cat([]byte{5}, g.when(), []byte{a}, u32(uint32(i)), m[:i], g.bytes(g.Intn(3))), 10+i)
				}
			}
		case 5, 7:
			for _, a := range algs {
				for _, v := range []byte{3, 4, 5} {
					m := g.tinyMaterial("key", a)
					head := cat([]byte{v}, g.when(), []byte{a}, m)
					switch v {
					case 3:
						head = cat([]byte{v}, g.when(), []byte{0, 0, a}, m)
					case 5:
						head = cat([]byte{v}, g.when(), []byte{a}, u32(uint32(len(m))), m)
					}
					sec := g.tinyMaterial("sec", a)
					if v == 5 {
						ends(tag, cat(head, []byte{0, 0}, u32(uint32(len(sec))), sec, g.bytes(2)), len(head)-2)
						ends(tag, cat(head, []byte{0, 0}, u32(uint32(len(sec)-1)), sec, g.bytes(2)), len(head)+2)
					} else {
						ends(tag, cat(head, []byte{0}, sec, g.bytes(2)), len(head)-2)
					}
					u := byte(g.oneOf(253, 254, 255))
					for _, s2k := range [][]byte{{0, 8}, cat([]byte{1, 8}, g.bytes(8)), cat([]byte{3, 8}, g.bytes(9)), []byte("\x65GNU\x01"), []byte("\x65GNU\x02\x03abc"), {77}} {
						if g.chance(0.5) {
							continue
						}
						prot := []byte{7}
						if u == 253 {
							prot = []byte{7, 2}
						}
						prot = cat(prot, s2k)
						if s2k[0] != 101 {
							prot = cat(prot, g.bytes(16))
						}
						if v == 5 {
							ends(tag, cat(head, []byte{u, byte(len(prot))}, prot, u32(2), g.bytes(3)), len(head))
						} else {
							ends(tag, cat(head, []byte{u}, prot, g.bytes(3)), len(head))
						}
					}
				}
			}
		case 3:
			for _, v := range []byte{4, 5} {
				for _, s2k := range [][]byte{{0, 8}, cat([]byte{1, 8}, g.bytes(8)), cat([]byte{3, 8}, g.bytes(9)), []byte("\x65GNU\x01"), {77}} {
					for _, c := range []byte{1, 7, 9, 99} {
						mode := []byte{}
						if v == 5 {
							mode = []byte{byte(g.oneOf(1, 2, 3))}
						}
						ends(3, cat([]byte{v, c}, mode, s2k, g.bytes(4)), 1)
					}
				}
			}
		case 4:
			for _, v := range []byte{3, 4} {
				ends(4, cat([]byte{v}, g.onePass()[1:], g.bytes(2)), 1)
			}
		case 20:
			for _, m := range []byte{1, 2, 3} {
				ends(20, cat([]byte{1, 9, m, 10}, g.bytes(18)), 1)
			}
		}
	}
}

// each octet of a body replaced by boundary values, and lengths one off
func (s *set) octets(n int, tags ...int) {
	g := s.g
	for _, tag := range tags {
		for k := 0; k < n; k++ {
			b := g.small(tag, 90)
			for i := range b {
				c := append([]byte{}, b...)
				switch g.Intn(4) {
				case 0:
					c[i]++
				case 1:
					c[i]--
				case 2:
					c[i] = 0xff
				default:
					c[i] = g.octet()
				}
				s.pkt("octet changed", tag, c)
			}
		}
	}
}

func genC03() []Case {
	s := &set{g: newG(3)}
	g := s.g
	s.prefixes(scale(6, 60), 1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 17, 20, 13, 19)
	s.shortSubs(scale(1, 10))
	s.fieldCuts(4, 1, 2, 3, 4, 5, 6, 7, 14, 20)
	s.tinyAreas(scale(1, 10))
	// every prefix of a stream: headers and bodies cut short
	for k := 0; k < scale(20, 150); k++ {
		d := []byte{}
		for len(d) < 40 {
			t := g.anyTag()
			d = cat(d, g.pkt(t, g.small(t, 40), g.anyForm(false)))
		}
		if len(d) > 160 {
			d = d[:160]
		}
		for i := 0; i <= len(d); i++ {
			s.add("stream prefix", d[:i])
		}
	}
	// all headers with few octets after them
	for h := 0; h < 256; h++ {
		for k := 0; k < scale(4, 30); k++ {
			s.add("header", cat([]byte{byte(h)}, g.bytes(g.Intn(7))))
		}
		s.add("header", []byte{byte(h)})
		s.add("header", []byte{byte(h), 0})
		s.add("header", []byte{byte(h), 0, 0, 0, 0})
		s.add("header", []byte{0xcc, byte(h)})
		s.add("header", cat([]byte{0xcc, byte(h)}, g.bytes(g.oneOf(1, 2, 4, 5, 191, 192))))
	}
	s.octets(scale(3, 25), 1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 17, 20)
	for i := 0; i < scale(1200, 15000); i++ {
		s.addO("damaged stream", g.damage(g.stream(1+g.Intn(4), 1)), g.opts())
	}
	for i := 0; i < scale(400, 4000); i++ {
		s.add("complete stream", g.stream(1+g.Intn(4), 1))
	}
	for i := 0; i < scale(200, 1500); i++ { // not packets, though made of packets
		s.addO("foreign", g.foreign(g.stream0(1+g.Intn(2))), g.opts())
	}
	return s.cs
}

// ---- C04: signatures ------------------------------------------------------------------

func (g *G) wantSig(v, ty, alg, hash byte) []byte {
	if v == 3 {
		return cat([]byte{v, 5, ty}, g.when(), g.bytes(8), []byte{alg, hash}, g.bytes(2), g.sigMaterial(alg), g.trailFor(alg))
	}
	b := g.sigV4(v, alg, g.area(1, 2), g.area(0, 2))
	b[1], b[3] = ty, hash
	return cat(b, g.trailFor(alg))
}

func genC04() []Case {
	s := &set{g: newG(4)}
	g := s.g
	s.prefixes(scale(12, 120), 2)
	s.fieldCuts(1, 2)
	s.octets(scale(2, 20), 2)
	s.tinyAreas(scale(3, 30))
	s.parts(2)
	for x := 0; x < 256; x++ {
		b := byte(x)
		s.pktD("version sweep", 2, cat([]byte{b}, g.sig(0)[1:]))
		for _, v := range []byte{3, 4, 5} {
			s.pktD("type sweep", 2, g.wantSig(v, b, g.pubAlg(), 8))
			s.pktD("pub alg sweep", 2, g.wantSig(v, 0, b, 8))
			s.pktD("hash alg sweep", 2, g.wantSig(v, 0, g.pubAlg(), b))
		}
		// left two octets, key id octets, v3 material length
		s.pktD("v3 material", 2, cat([]byte{3, b}, g.bytes(x), g.bytes(8), []byte{1, 8}, g.bytes(2), g.mpi()))
		s.pktD("hash left", 2, cat([]byte{4, 0, 1, 8, 0, 0, 0, 0, b, byte(g.Intn(256))}, g.mpi()))
	}
	for _, alg := range []byte{1, 2, 3, 16, 17, 19, 20, 22} {
		n := 2
		if alg <= 3 {
			n = 1
		}
		for bits := 0; bits <= scale(80, 600); bits++ {
			m := []byte{}
			for i := 0; i < n; i++ {
				k := bits
				if i > 0 {
					k = g.Intn(80)
				}
				m = cat(m, mpi(k, g.bytes((k+7)/8)))
			}
			s.pktD("mpi bits", 2, cat([]byte{byte(g.oneOf(4, 5)), 0, alg, 8, 0, 0, 0, 0, 1, 2}, m, g.trail()))
		}
		for _, bits := range []int{2047, 2048, 2049, 4096, 8191, 8192, 16384, 65528, 65535} {
			if bits > 5000 && !thorough() && alg != 1 && alg != 17 {
				continue
			}
			m := mpi(bits, g.bytes((bits+7)/8))
			if n == 2 {
				m = cat(mpi(9, g.bytes(2)), m)
			}
			s.pktD("mpi bits", 2, cat([]byte{4, 0, alg, 8, 0, 0, 0, 0, 1, 2}, m))
		}
	}
	// area sizes: one opaque subpacket filling the area exactly
	for _, n := range []int{0, 2, 3, 100, 191, 192, 193, 194, 254, 255, 256, 257, 511, 512, 513, 1024, 8000, 16000, 32767, 32768, 65535} {
		if n > 2000 && !thorough() && n != 32768 {
			continue
		}
		a := g.fill(n)
		s.pktD("area size", 2, g.sigV4(4, 1, a, nil))
		s.pktD("area size", 2, g.sigV4(5, 17, nil, a))
		if n < 2000 {
			s.pktD("area size", 2, g.sigV4(4, 22, a, a))
		}
	}
	for i := 0; i < scale(2500, 25000); i++ {
		s.addO("random signature", g.pkt(2, g.sig(2), g.anyForm(true)), g.opts())
	}
	for i := 0; i < scale(200, 2000); i++ {
		s.add("several signatures", cat(g.pkt(2, g.sig(1), g.anyForm(false)), g.pkt(6, g.pubKey(), g.anyForm(false)), g.pkt(2, g.sig(1), g.anyForm(true))))
	}
	return s.cs
}

// an area of exactly n octets
func (g *G) fill(n int) []byte {
	switch {
	case n == 0:
		return nil
	case n < 193:
		return cat([]byte{byte(n - 1), 60}, g.bytes(n-2))
	case n < 195:
		return cat([]byte{255}, u32(uint32(n-5)), []byte{60}, g.bytes(n-6))
	case n < 16000:
		m := n - 2 - 192
		return cat([]byte{byte(192 + m>>8), byte(m), 60}, g.bytes(n-3))
	}
	return cat([]byte{255}, u32(uint32(n-5)), []byte{60}, g.bytes(n-6))
}

// ---- every variable part of a packet at small and boundary sizes ----------------------------

var partSizes = []int{0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192}

func boundarySize(n int) bool {
	for _, k := range partSizes {
		if n == k {
			return true
		}
	}
	return false
}

// an integer of n octets (8192 are 65535 bits)
func (g *G) octetMpi(n int) []byte {
	bits := n * 8
	if n > 0 && g.chance(0.5) {
		bits -= g.Intn(8)
	}
	if bits > 65535 {
		bits = 65535
	}
	return mpi(bits, g.bytes(n))
}

func (g *G) part(tag, n int) [][]byte {
	big := g.octetMpi(n)
	prot := cat([]byte{9, 3, 8}, g.bytes(8), []byte{96}, g.bytes(16))
	v4 := func(alg byte, mat ...[]byte) []byte { return cat([]byte{4}, g.when(), []byte{alg}, cat(mat...)) }
	switch tag {
	case 1:
		id := cat([]byte{3}, g.bytes(8))
		return [][]byte{cat(id, []byte{1}, big), cat(id, []byte{16}, big, g.mpi()), cat(id, []byte{16}, g.mpi(), big),
			cat(id, []byte{18}, big, []byte{2, 1, 2}), cat(id, []byte{99}, g.bytes(n))}
	case 2:
		h := []byte{byte(g.oneOf(4, 5)), 0, byte(g.oneOf(1, 2, 3)), 8, 0, 0, 0, 0, 1, 2}
		h2 := []byte{byte(g.oneOf(4, 5)), 0x13, byte(g.oneOf(16, 17, 19, 20, 22)), 8, 0, 0, 0, 0, 1, 2}
		return [][]byte{cat(h, big), cat(h2, big, g.mpi()), cat(h2, g.mpi(), big), cat([]byte{4, 0, 99, 8, 0, 0, 0, 0, 1, 2}, g.bytes(n)),
			cat([]byte{3, 5, 0}, g.when(), g.bytes(8), []byte{1, 8}, g.bytes(2), big)}
	case 3:
		return [][]byte{cat([]byte{4, 9, 3, 8}, g.bytes(9), g.bytes(n)), cat([]byte{4, 9, 0, 8}, g.bytes(n))}
	case 6, 14:
		return [][]byte{v4(1, big, g.mpi()), v4(1, g.mpi(), big), v4(17, big, g.mpis(3)), v4(17, g.mpis(3), big), v4(16, g.mpi(), big, g.mpi()),
			v4(18, g.curve(), big, g.kdf()), v4(22, g.curve(), big), v4(99, g.bytes(n)),
			cat([]byte{5}, g.when(), []byte{1}, u32(uint32(len(big)+5)), big, mpi(17, g.bytes(3)))}
	case 5, 7:
		pub := g.pubPart(4, 17)
		rsa := g.pubPart(4, 1)
		return [][]byte{cat(pub, []byte{0}, big, g.bytes(2)), cat(rsa, []byte{0}, big, g.mpis(3), g.bytes(2)), cat(rsa, []byte{0}, g.mpis(3), big, g.bytes(2)),
			cat(rsa, []byte{0}, g.mpi(), big, g.mpis(2), g.bytes(2)), cat(v4(1, big, g.mpi()), []byte{254}, prot, g.bytes(20)), cat(pub, []byte{254}, prot, g.bytes(n)),
			cat(g.pubPart(5, 22), []byte{254, byte(len(prot))}, prot, u32(uint32(n)), g.bytes(n)), cat(g.pubPart(5, 22), []byte{0, 0}, u32(uint32(len(big))), big, g.bytes(2))}
	case 20:
		return [][]byte{cat([]byte{1, 9, 1, 10}, g.bytes(16), g.bytes(n))}
	case 11:
		return [][]byte{cat([]byte{'b', 3}, []byte("f.x"), g.when(), g.bytes(n))}
	}
	return [][]byte{g.bytes(n)}
}

func (s *set) parts(tags ...int) {
	g := s.g
	for _, tag := range tags {
		for _, n := range append(append([]int{}, partSizes...), nearConstants(6, 8192)...) {
			bs := g.part(tag, n)
			pick := g.Intn(len(bs))
			for i, b := range bs {
				if !boundarySize(n) && n <= 257 && i != pick {
					continue
				}
				if boundarySize(n) && n > 600 && !thorough() && (i+n+int(*fSeed))%3 != 0 {
					continue
				}
				o := Opts{UTC: true, Int: true, Private: true, Literal: true, Marker: true, Cert: true, Debug: g.chance(0.2)}
				if g.chance(0.3) {
					o = g.opts()
				}
				s.addO("part size", g.pkt(tag, b, g.anyForm(true)), o)
			}
		}
	}
}

// areas of a few octets, well formed or not
func (s *set) tinyAreas(rounds int) {
	g := s.g
	for k := 0; k < rounds; k++ {
		for n := 0; n <= 5; n++ {
			for x := 0; x < 12; x++ {
				a := g.bytes(n)
				if n > 0 && x < 9 {
					a[0] = byte([]int{0, 1, n - 1, n, n + 1, 2, 191, 192, 255}[x])
				}
				if n > 1 && g.chance(0.6) {
					a[1] = knownSubs[g.Intn(len(knownSubs))]
				}
				var h, u []byte
				switch g.Intn(3) {
				case 0:
					h = a
				case 1:
					u = a
				default:
					h, u = g.area(0, 2), a
				}
				s.pktD("tiny area", 2, g.sigV4(byte(g.oneOf(4, 4, 5)), byte(g.oneOf(1, 17, 22, 99)), h, u))
				s.pktD("tiny attribute", 17, a)
			}
		}
	}
}

// ---- C05: subpackets --------------------------------------------------------------------

func (s *set) sub(kind string, t byte, body []byte) {
	g := s.g
	a := g.sub(t, body)
	var b []byte
	switch g.Intn(3) {
	case 0:
		b = g.sigV4(byte(g.oneOf(4, 5)), 1, a, nil)
	case 1:
		b = g.sigV4(4, 1, nil, a)
	default:
		b = g.sigV4(4, 22, cat(g.subpacket(0), a), cat(g.subpacket(0), g.subpacket(0)))
	}
	s.pktD(kind, 2, b)
}

// subpackets whose own body is cut short while the packet around them is complete
func (s *set) shortSubs(rounds int) {
	g := s.g
	for k := 0; k < rounds; k++ {
		for _, t := range knownSubs {
			b := g.subBody(t, 1)
			for i := 0; i < len(b); i++ {
				if i > 24 && g.Intn(len(b)) > 8 {
					continue
				}
				ty := t | byte(g.oneOf(0, 0, 0x80))
				s.sub("short subpacket", ty, b[:i:i])
			}
		}
		im := g.image()
		im[2] = byte(g.oneOf(0, 1, 100, 105, 110, 111))
		for i := 0; i < len(im) && i < 24; i++ {
			c := append([]byte{}, im[:i]...)
			s.pktD("short attribute", 17, g.sub(1, c))
			if i > 1 {
				c[0], c[1] = byte(g.oneOf(i-1, i, i, i+1)), 0
				s.pktD("short attribute", 17, g.sub(1, c))
			}
		}
		n, v := g.text(20), g.text(20)
		for _, d := range [][2]int{{1, 0}, {0, 1}, {-1, 2}, {255, 0}, {0, 256}} {
			if len(n)+d[0] >= 0 {
				s.sub("notation lengths", 20, cat([]byte{byte(g.oneOf(0, 0x80)), 0, 0, 0}, u16(len(n)+d[0]), u16(len(v)+d[1]), n, v))
			}
		}
	}
}

func genC05() []Case {
	s := &set{g: newG(5)}
	g := s.g
	s.shortSubs(scale(3, 30))
	s.tinyAreas(scale(3, 30))
	s.prefixes(scale(8, 80), 2, 17)
	s.octets(scale(2, 20), 2, 17)
	for t := 0; t < 256; t++ {
		for k := 0; k < scale(4, 30); k++ {
			s.sub("type sweep", byte(t), g.subBody(byte(t), 1))
		}
		// the same octet as an attribute type
		b := g.bytes(g.oneOf(0, 1, 5, 30))
		if t&0x7f == 1 {
			b = g.image()
		}
		s.pktD("attribute type", 17, g.sub(byte(t), b))
	}
	for x := 0; x < 256; x++ {
		b := byte(x)
		for _, t := range []byte{23, 27, 30} {
			s.sub("flag octet 1", t, []byte{b})
			s.sub("flag octet 2", t, []byte{byte(g.oneOf(0, 1, 3, 255)), b})
			s.sub("flag octet 3", t, []byte{0, byte(g.oneOf(0, 0, 7)), b, byte(g.oneOf(0, 0, 1))})
		}
		s.sub("notation flags", 20, cat([]byte{b, byte(g.oneOf(0, x)), byte(g.oneOf(0, x)), byte(g.oneOf(0, x))}, u16(1), u16(2), []byte("nvv")))
		for _, t := range []byte{4, 7, 25} {
			s.sub("boolean", t, []byte{b})
		}
		s.sub("trust", 5, []byte{b, byte(g.Intn(256))})
		s.sub("trust", 5, []byte{byte(g.Intn(256)), b})
		s.sub("revocation reason", 29, cat([]byte{b}, g.text(20)))
		s.sub("revocation key class", 12, cat([]byte{b, byte(g.Intn(256))}, g.bytes(20)))
		s.sub("revocation key alg", 12, cat([]byte{0x80, b}, g.bytes(20)))
		for _, t := range []byte{11, 21, 22, 34} {
			s.sub("preference", t, []byte{b, byte(g.Intn(16))})
		}
		s.sub("fingerprint version", 33, cat([]byte{b}, g.bytes(20)))
		s.sub("fingerprint version", 35, cat([]byte{b}, g.bytes(32)))
		s.sub("target", 31, cat([]byte{b, byte(g.Intn(256))}, g.bytes(20)))
		s.sub("target", 31, cat([]byte{1, b}, g.bytes(20)))
		s.sub("key block type", 38, cat([]byte{b}, g.pkt(13, []byte("x"), hNew1)))
		im := g.image()
		im[2] = b
		s.pktD("image version", 17, g.sub(1, im))
		im = g.image()
		im[2], im[3] = 100, b
		s.pktD("image encoding", 17, g.sub(1, im))
		hdr := cat([]byte{b, byte(g.oneOf(0, 0, 1))}, []byte{1, 1}, g.bytes(g.oneOf(12, 300, 520)))
		s.pktD("image header", 17, g.sub(1, hdr))
		s.pktD("image header", 17, g.sub(1, cat([]byte{byte(g.oneOf(0, 0, 1, x, 255)), b, 1, 1}, g.bytes(g.oneOf(0, 12, 30, 260, 520)))))
	}
	// contents of every kind at boundary sizes
	for _, t := range []byte{2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 33, 34, 35, 37, 39, 40, 100, 110} {
		for _, n := range partSizes {
			if n > 2048 && !thorough() || n > 300 && !thorough() && (n+int(t)+int(*fSeed))%3 != 0 {
				continue
			}
			if n == 0 || t == 20 && n < 8 {
				continue
			}
			b := g.subBody(t, 0)
			for len(b) < n {
				b = append(b, g.bytesText(n-len(b))...)
			}
			b = b[:n]
			switch t {
			case 20:
				nm := g.oneOf(0, 1, n/2, n-8) % (n - 7)
				copy(b, cat([]byte{byte(g.oneOf(0x80, 0)), 0, 0, 0}, u16(nm), u16(n-8-nm)))
			case 11, 21, 22, 34, 23, 27, 30:
				b = g.bytes(n)
			}
			s.sub("contents size", t, b)
		}
	}
	for _, t := range dict().texts { // the texts of the code in every place that holds text
		b := []byte(t)
		switch g.Intn(5) {
		case 0:
			s.sub("text of the code", 20, cat([]byte{byte(g.oneOf(0x80, 0x80, 0)), 0, 0, 0}, u16(len(b)), u16(4), b, []byte("vval")))
		case 1:
			s.sub("text of the code", 20, cat([]byte{byte(g.oneOf(0x80, 0x80, 0)), 0, 0, 0}, u16(3), u16(len(b)), []byte("nam"), b))
		case 2:
			s.sub("text of the code", 29, cat([]byte{byte(g.Intn(5))}, b))
		default:
			s.sub("text of the code", byte(g.oneOf(6, 24, 26, 28, 37, 50, 101)), b)
		}
	}
	for _, n := range nearConstants(1, 1100) { // numbers of subpackets
		if n > 64 && !thorough() && n%3 != 1 && n < 257 {
			continue
		}
		a := []byte{}
		for k := 0; k < n; k++ {
			a = cat(a, g.sub(byte(g.oneOf(7, 25, 50, 101, 11)), g.bytes(1)))
		}
		s.pktD("count of the code", 2, g.sigV4(4, 1, a, nil))
		if n < 200 {
			s.pktD("count of the code", 17, a)
			s.sub("list of the code", byte(g.oneOf(11, 21, 22, 34, 23, 27, 30)), g.bytes(n))
		}
	}
	// lengths around every boundary of the length encoding, every encoding
	for _, n := range []int{0, 1, 2, 100, 189, 190, 191, 192, 193, 200, 254, 255, 256, 446, 447, 448, 1000, 8382, 8383, 8384, 16318, 16319, 16320, 20000} {
		if n > 9000 && !thorough() && n != 16319 && n != 16318 {
			continue
		}
		for _, t := range []byte{50, 16, 26, 100} {
			if n > 1000 && t != 26 {
				continue
			}
			b := g.bytes(n)
			if t == 26 {
				for i := range b {
					b[i] = 'a' + b[i]%26
				}
			}
			if t == 16 && n < 8 {
				continue
			}
			one := cat(g.sub(t, b), g.sub(50, g.bytes(3)))
			five := cat([]byte{255}, u32(uint32(n+1)), []byte{t}, b, g.sub(50, g.bytes(2)))
			s.pktD("length encoding", 2, g.sigV4(4, 1, one, nil))
			s.pktD("length encoding", 2, g.sigV4(4, 1, nil, five))
			if n > 190 && n < 16000 { // two-octet form is also allowed from 192 on
				m := n + 1 - 192
				s.pktD("length encoding", 17, cat([]byte{byte(192 + m>>8), byte(m), 50}, b))
			}
		}
	}
	for n := 0; n < scale(60, 250); n++ { // list lengths
		s.sub("list length", byte(g.oneOf(11, 21, 22, 34)), g.bytes(n))
	}
	for i := 0; i < scale(1500, 15000); i++ {
		s.addO("random areas", g.pkt(2, g.sigV4(byte(g.oneOf(4, 4, 5)), 1, g.area(2, 6), g.area(2, 4)), g.anyForm(true)), g.opts())
	}
	for i := 0; i < scale(150, 2000); i++ { // embedded signatures and key blocks in depth
		b := g.sig(0)
		for k := 0; k < 1+g.Intn(4); k++ {
			b = g.sigV4(byte(g.oneOf(4, 5)), 1, cat(g.area(0, 2), g.sub(32, b), g.area(0, 1)), g.area(0, 1))
		}
		s.addO("embedded", g.pkt(2, b, hBest), g.opts())
		kb := []byte{0}
		for k := 0; k < 1+g.Intn(4); k++ {
			kb = cat(kb, g.simplePacket(false))
		}
		s.addO("key block", g.pkt(2, g.sigV4(4, 1, g.sub(38, kb), g.sub(byte(38+128), kb)), hBest), g.opts())
	}
	for _, n := range nearConstants(5, 24) { // embedded as deep as the numbers of the code
		b := g.sigV4(4, 99, g.sub(2, g.when()), nil)
		for k := 0; k < n; k++ {
			if g.chance(0.4) {
				b = g.sigV4(4, 99, nil, g.sub(38, cat([]byte{0}, g.pkt(2, b, hNew5))))
			} else {
				b = g.sigV4(byte(g.oneOf(4, 5)), 99, g.sub(32, b), g.area(0, 1))
			}
		}
		s.addO("deep", g.pkt(2, b, hNew5), Opts{UTC: true, Int: g.chance(0.5), Private: g.chance(0.5)})
	}
	for i := 0; i < scale(400, 4000); i++ {
		s.addO("attributes", g.pkt(17, g.attribute(), g.anyForm(true)), g.opts())
	}
	return s.cs
}

// ---- C06: public keys -----------------------------------------------------------------------

func (g *G) wantKey(v, alg byte, mat []byte) []byte {
	switch v {
	case 3:
		return cat([]byte{3}, g.when(), u16(g.Intn(65536)), []byte{alg}, mat)
	case 4:
		return cat([]byte{4}, g.when(), []byte{alg}, mat)
	}
	return cat([]byte{5}, g.when(), []byte{alg}, u32(uint32(len(mat))), mat)
}

func (s *set) key(kind string, alg byte, mat []byte) {
	g := s.g
	s.pktD(kind, g.oneOf(6, 14), cat(g.wantKey(byte(g.oneOf(3, 4, 4, 5)), alg, mat), g.trailKey(alg)))
}

func (g *G) trailKey(alg byte) []byte {
	switch alg {
	case 1, 2, 3, 16, 17, 18, 19, 20, 22:
		return g.trail()
	}
	return nil
}

func genC06() []Case {
	s := &set{g: newG(6)}
	g := s.g
	s.prefixes(scale(8, 80), 6, 14)
	s.fieldCuts(1, 6, 14)
	s.octets(scale(2, 20), 6, 14)
	s.parts(6, 14)
	for x := 0; x < 256; x++ {
		b := byte(x)
		for _, tag := range []int{6, 14} {
			for _, v := range []byte{3, 4, 5} {
				s.pktD("alg sweep", tag, g.wantKey(v, b, g.keyMaterial(b)))
			}
			s.pktD("version sweep", tag, cat([]byte{b}, g.pubKey()[1:]))
		}
		s.pktD("valid days", 6, cat([]byte{3}, g.when(), []byte{b, byte(g.oneOf(0, x, 255))}, []byte{1}, g.mpis(2)))
		for _, alg := range []byte{18, 19, 22} {
			tail := []byte{}
			if alg == 18 {
				tail = g.kdf()
			}
			// point format octet, curve length
			s.key("point format", alg, cat(g.curve(), mpi(16, []byte{b, 1}), tail))
			s.key("curve length", alg, cat([]byte{b}, g.bytes(x), g.point(), tail))
		}
		s.key("kdf version", 18, cat(g.curve(), g.point(), []byte{3, b, 8, 7}))
		s.key("kdf hash", 18, cat(g.curve(), g.point(), []byte{3, 1, b, byte(g.Intn(14))}))
		s.key("kdf cipher", 18, cat(g.curve(), g.point(), []byte{3, 1, byte(g.Intn(14)), b}))
		s.key("kdf length", 18, cat(g.curve(), g.point(), []byte{b}, cat([]byte{1, 8, 7}, g.bytes(255))[:x]))
	}
	for _, c := range curves { // every curve, and every single-bit neighbour
		for _, alg := range []byte{18, 19, 22} {
			s.key("curve", alg, cat([]byte{byte(len(c))}, c, g.point(), g.kdf()))
		}
		for i := 0; i < len(c)*8; i++ {
			if !thorough() && i%3 != int(*fSeed%3) {
				continue
			}
			d := append([]byte{}, c...)
			d[i/8] ^= 1 << (i % 8)
			s.key("curve neighbour", byte(g.oneOf(19, 22)), cat([]byte{byte(len(d))}, d, g.point()))
		}
		for n := 0; n < len(c); n++ {
			s.key("curve prefix", 19, cat([]byte{byte(n)}, c[:n], g.point()))
		}
		s.key("curve extended", 22, cat([]byte{byte(len(c) + 1)}, c, []byte{0}, g.point()))
	}
	for _, alg := range []byte{1, 2, 3, 16, 17, 20} {
		n := map[byte]int{1: 2, 2: 2, 3: 2, 16: 3, 20: 3, 17: 4}[alg]
		for bits := 0; bits <= scale(40, 400); bits++ {
			pos := g.Intn(n)
			m := []byte{}
			for i := 0; i < n; i++ {
				k := g.Intn(60)
				if i == pos {
					k = bits
				}
				m = cat(m, mpi(k, g.bytes((k+7)/8)))
			}
			s.key("mpi bits", alg, m)
		}
		for _, bits := range []int{1024, 2047, 2048, 3072, 4096, 8192, 16384, 65535} {
			if bits > 5000 && !thorough() && alg != 1 {
				continue
			}
			m := mpi(bits, g.bytes((bits+7)/8))
			s.key("mpi bits", alg, cat(m, g.mpis(n-1)))
			if bits <= 4096 {
				s.key("mpi bits", alg, cat(g.mpis(n-1), m))
			}
		}
	}
	for bits := 0; bits <= scale(70, 600); bits++ {
		s.key("point bits", byte(g.oneOf(18, 19, 22)), cat(g.curve(), mpi(bits, g.bytes((bits+7)/8)), g.kdf()))
	}
	for n := 0; n < 40; n++ { // v5 material counts with octets left inside and after
		alg := byte(g.oneOf(1, 17, 22, 18, 99))
		mat := cat(g.keyMaterial(alg), g.bytes(n))
		s.pktD("v5 count", g.oneOf(6, 14), cat(g.wantKey(5, alg, mat), g.bytes(g.oneOf(0, 0, 3))))
	}
	for i := 0; i < scale(1500, 20000); i++ {
		s.addO("random key", g.pkt(g.oneOf(6, 14), g.pubKey(), g.anyForm(true)), g.opts())
	}
	return s.cs
}

// ---- C07: secret keys -------------------------------------------------------------------------

func (g *G) pubPart(v, alg byte) []byte { return cat([]byte{v}, g.pubFields(v, alg)) }

// a secret key with the given protection parameters (after the usage octet)
func (g *G) secWith(v, alg, usage byte, prot []byte) []byte {
	mat := g.secMaterial(alg)
	sum := g.bytes(2)
	if usage != 0 {
		mat, sum = g.bytes(g.oneOf(0, 1, 20, 48)), nil
	}
	pub := g.pubPart(v, alg)
	if v == 5 {
		return cat(pub, []byte{usage, byte(len(prot))}, prot, u32(uint32(len(mat))), mat, sum)
	}
	return cat(pub, []byte{usage}, prot, mat, sum)
}

func genC07() []Case {
	s := &set{g: newG(7)}
	g := s.g
	s.prefixes(scale(14, 120), 5, 7)
	s.fieldCuts(2, 5, 7)
	s.octets(scale(2, 20), 5, 7)
	s.parts(5, 7)
	for x := 0; x < 256; x++ {
		b := byte(x)
		for _, v := range []byte{3, 4, 5} {
			s.pktD("usage sweep", g.oneOf(5, 7), g.secWith(v, g.pubAlg(), b, g.protection(b)))
			// symmetric algorithm decides the IV
			for _, u := range []byte{253, 254, 255} {
				if v == 3 && u == 253 {
					continue
				}
				pre := []byte{b}
				if u == 253 {
					pre = append(pre, byte(g.oneOf(1, 2)))
				}
				s.pktD("cipher sweep", g.oneOf(5, 7), g.secWith(v, g.pubAlg(), u, cat(pre, []byte{3, 8}, g.bytes(8), []byte{byte(g.Intn(256))}, g.bytes(ivLen(b)))))
			}
			alg := byte(g.oneOf(1, 17, 18, 19, 22, 16, 20))
			s.pktD("alg sweep", g.oneOf(5, 7), g.secWith(v, b, 0, nil))
			s.pktD("alg sweep", g.oneOf(5, 7), g.secWith(v, b, 254, cat([]byte{9, 3, 8}, g.bytes(9), g.bytes(16))))
			s.pktD("count", g.oneOf(5, 7), g.secWith(v, alg, 254, cat([]byte{9, 3, 8}, g.bytes(8), []byte{b}, g.bytes(16))))
			s.pktD("s2k hash", 5, g.secWith(v, alg, 255, cat([]byte{3, 1, b}, g.bytes(8), g.bytes(8))))
			if b != 0 && b != 1 && b != 3 && b != 101 {
				s.pktD("s2k type", 5, g.secWith(v, alg, 254, cat([]byte{9, b}, g.bytes(16))))
			}
			s.pktD("aead", 7, g.secWith(v, alg, 253, cat([]byte{9, b, 3, 8}, g.bytes(9), g.bytes(16))))
			s.pktD("gnu mode", 5, g.secWith(v, alg, 255, cat([]byte{9, 101}, []byte("GNU"), []byte{b}, cat([]byte{4}, g.bytes(4))[:map[bool]int{true: 5, false: 0}[b == 2]])))
			s.pktD("gnu serial", 7, g.secWith(v, alg, 255, cat([]byte{9, 101}, []byte("GNU"), []byte{2, b % 64}, g.bytes(x%64))))
		}
		s.pktD("version sweep", g.oneOf(5, 7), cat([]byte{b}, g.secKey()[1:]))
	}
	// length fields of version 5 keys that say more, or less, than there is
	for i := 0; i < scale(600, 6000); i++ {
		alg := byte(g.oneOf(1, 17, 22, 18, 99))
		u := byte(g.oneOf(0, 0, 253, 254, 255, 9, g.Intn(256)))
		rest := g.oneOf(0, 1, 3, 4, 5, 8, 20, 40)
		b := make([]byte, rest)
		if rest > 0 && g.chance(0.7) {
			b[g.Intn(rest)] = byte(g.Intn(40))
		}
		opt := g.oneOf(0, 1, rest, rest+1, rest-1, rest/2, 255, g.Intn(256))
		s.pktD("v5 length fields", g.oneOf(5, 7), cat(g.pubPart(5, alg), []byte{u, byte(opt)}, b))
		prot := g.protection(u)
		mat := g.bytes(g.Intn(40))
		n := uint32(g.oneOf(0, 1, len(mat), len(mat)+1, len(mat)-1, len(mat)/2, 0x7fffffff, -1, -0x80000000))
		s.pktD("v5 length fields", g.oneOf(5, 7), cat(g.pubPart(5, alg), []byte{u, byte(len(prot))}, prot, u32(n), mat))
	}
	// 101 without the GNU mark
	for _, w := range []string{"GNV", "GN", "XNU", "gnu", "GUN", "G", ""} {
		for _, v := range []byte{4, 5} {
			s.pktD("s2k 101", 5, g.secWith(v, 1, 254, cat([]byte{9, 101}, []byte(w), g.bytes(17))))
		}
	}
	for _, alg := range []byte{1, 2, 3, 16, 17, 18, 19, 20, 22} {
		n := 1
		if alg <= 3 {
			n = 4
		}
		for bits := 0; bits <= scale(24, 300); bits++ {
			m := []byte{}
			pos := g.Intn(n)
			for i := 0; i < n; i++ {
				k := g.Intn(60)
				if i == pos {
					k = bits
				}
				m = cat(m, mpi(k, g.bytes((k+7)/8)))
			}
			for _, v := range []byte{4, 5} {
				pub := g.pubPart(v, alg)
				if v == 5 {
					s.pktD("plain mpi", g.oneOf(5, 7), cat(pub, []byte{0, 0}, u32(uint32(len(m))), m, g.bytes(2), g.trail()))
				} else {
					s.pktD("plain mpi", g.oneOf(5, 7), cat(pub, []byte{0}, m, g.bytes(2), g.trail()))
				}
			}
		}
		for _, bits := range []int{2048, 4096} {
			m := cat(mpi(bits, g.bytes(bits/8)), g.mpis(n-1))
			s.pktD("plain mpi", 5, cat(g.pubPart(4, alg), []byte{0}, m, g.bytes(2)))
		}
	}
	for _, n := range []int{0, 1, 2, 19, 20, 21, 100, 255, 256, 257, 650, 1000, 4000} {
		for _, v := range []byte{3, 4, 5} {
			for _, alg := range []byte{1, 17, 16, 18, 19, 22, 99} {
				prot := cat([]byte{9, 3, 8}, g.bytes(8), []byte{96}, g.bytes(16))
				pub := g.pubPart(v, alg)
				if v == 5 {
					s.pktD("encrypted size", g.oneOf(5, 7), cat(pub, []byte{254, byte(len(prot))}, prot, u32(uint32(n)), g.bytes(n), g.trail()))
				} else {
					s.pktD("encrypted size", g.oneOf(5, 7), cat(pub, []byte{254}, prot, g.bytes(n)))
				}
			}
		}
	}
	for i := 0; i < scale(2000, 25000); i++ {
		s.addO("random secret key", g.pkt(g.oneOf(5, 7), g.secKey(), g.anyForm(true)), g.opts())
	}
	return s.cs
}

// ---- C08: session keys and encrypted data --------------------------------------------------------

func genC08() []Case {
	s := &set{g: newG(8)}
	g := s.g
	s.prefixes(scale(8, 80), 1, 3, 4, 18, 19, 20)
	s.fieldCuts(1, 1, 3, 4, 20)
	s.octets(scale(2, 20), 1, 3, 4, 18, 19, 20)
	s.parts(1, 3, 9, 18, 19, 20)
	for x := 0; x < 256; x++ {
		b := byte(x)
		s.pktD("pkesk version", 1, cat([]byte{b}, g.pubEsk()[1:]))
		s.pktD("pkesk alg", 1, cat([]byte{3}, g.bytes(8), []byte{b}, g.sesMaterial(b)))
		id := make([]byte, 8)
		id[g.Intn(8)] = b
		s.pktD("pkesk key id", 1, cat([]byte{3}, id, []byte{1}, g.mpi()))
		s.pktD("ecdh symmetric", 1, cat([]byte{3}, g.bytes(8), []byte{18}, g.point(), []byte{b}, g.bytes(x)))
		s.pktD("ecdh point", 1, cat([]byte{3}, g.bytes(8), []byte{18}, mpi(24, []byte{b, 1, 2}), []byte{2, 3, 4}))
		s.pktD("skesk version", 3, cat([]byte{b}, g.symEsk()[1:]))
		sp, _ := g.s2k()
		s.pktD("skesk cipher", 3, cat([]byte{4, b}, sp))
		s.pktD("skesk count", 3, cat([]byte{4, 9, 3, 8}, g.bytes(8), []byte{b}, g.bytes(g.oneOf(0, 0, 17, 33))))
		s.pktD("skesk hash", 3, cat([]byte{4, 9, byte(g.oneOf(0, 1, 3)), b}, g.bytes(9)))
		if b != 0 && b != 1 && b != 3 && b != 101 {
			s.pktD("skesk s2k", 3, cat([]byte{4, 9, b}, g.bytes(g.Intn(20))))
		}
		s.pktD("one-pass version", 4, cat([]byte{b}, g.onePass()[1:]))
		for f := 1; f < 13; f++ {
			if f >= 4 && f < 12 && g.chance(0.7) {
				continue
			}
			o := g.onePass()
			o[f] = b
			s.pktD("one-pass field", 4, o)
		}
		s.pktD("aead version", 20, cat([]byte{b, 9, 1, 10}, g.bytes(16), g.bytes(20)))
		s.pktD("aead cipher", 20, cat([]byte{1, b, 2, 10}, g.bytes(16), g.bytes(20)))
		s.pktD("aead mode", 20, cat([]byte{1, 9, b, 10}, g.bytes(16), g.bytes(20)))
		s.pktD("aead chunk", 20, cat([]byte{1, 9, byte(g.oneOf(1, 2)), b}, g.bytes(16), g.bytes(20)))
	}
	for n := 0; n < 300; n++ {
		if n > 40 && !thorough() && n%7 != int(*fSeed%7) {
			continue
		}
		s.pktD("opaque size", 9, g.bytes(n))
		s.pktD("opaque size", 18, g.bytes(n))
		s.pktD("opaque size", 19, g.bytes(n))
		s.pktD("opaque size", 20, cat([]byte{1, 9, 1, 0}, g.bytes(16), g.bytes(n)))
	}
	for _, n := range []int{1000, 8383, 8384, 20000} {
		for _, t := range []int{9, 18} {
			s.pktD("opaque size", t, g.bytes(n))
		}
	}
	for _, alg := range []byte{1, 2, 3, 16, 20, 18} {
		n := 1
		if alg == 16 || alg == 20 {
			n = 2
		}
		for bits := 0; bits <= scale(60, 500); bits++ {
			var m []byte
			if n == 1 {
				m = mpi(bits, g.bytes((bits+7)/8))
			} else if g.chance(0.5) {
				m = cat(mpi(bits, g.bytes((bits+7)/8)), g.mpi())
			} else {
				m = cat(g.mpi(), mpi(bits, g.bytes((bits+7)/8)))
			}
			if alg == 18 {
				m = cat(m, []byte{5}, g.bytes(5))
			}
			s.pktD("session key bits", 1, cat([]byte{3}, g.bytes(8), []byte{alg}, m, g.trail()))
		}
		for _, bits := range []int{2047, 2048, 2049, 4096} {
			s.pktD("session key bits", 1, cat([]byte{3}, g.bytes(8), []byte{alg}, mpi(bits, g.bytes((bits+7)/8)), g.mpi()))
		}
	}
	for i := 0; i < scale(1500, 20000); i++ {
		n := 1 + g.Intn(3)
		d := []byte{}
		for k := 0; k < n; k++ {
			t := g.oneOf(1, 3, 4, 9, 18, 19, 20)
			d = cat(d, g.pkt(t, g.body(t, 0), g.anyForm(k == n-1)))
		}
		s.addO("random", d, g.opts())
	}
	return s.cs
}

// ---- C11: compressed data ---------------------------------------------------------------------------

func genC11() []Case {
	s := &set{g: newG(11)}
	g := s.g
	for x := 0; x < 256; x++ {
		s.pktD("alg sweep", 8, cat([]byte{byte(x)}, g.stream(1, 0)))
		s.pktD("alg sweep", 8, []byte{byte(x)})
		s.pktD("alg sweep", 8, cat([]byte{byte(x)}, g.bytes(1+g.Intn(4))))
	}
	for i := 0; i < scale(1500, 15000); i++ {
		inner := g.stream(g.oneOf(0, 1, 1, 2, 3, 5, 8), g.oneOf(0, 0, 1))
		alg := byte(g.oneOf(0, 1, 2))
		if i%5 == 0 {
			alg = 3
		}
		k := "complete"
		if g.chance(0.25) && len(inner) > 0 {
			inner = g.damage(inner)
			k = "inner damaged"
		}
		b := g.compress(alg, inner)
		if g.chance(0.15) {
			b = cat(b[:1], g.damage(b[1:]))
			k = "data damaged"
		}
		if g.chance(0.1) {
			b = cat(b, g.bytes(1+g.Intn(8)))
			k = "octets after the data"
		}
		p := g.pkt(8, b, g.anyForm(false))
		if g.chance(0.3) {
			p = cat(g.stream0(1), p)
		}
		if g.chance(0.3) {
			p = cat(p, g.stream(1, 0))
		}
		s.addO(k, p, g.opts())
	}
	// contents that belong to another algorithm than the one named
	for k := 0; k < scale(3, 20); k++ {
		inner := g.stream0(g.oneOf(1, 2))
		for _, c := range containers(inner) {
			for _, alg := range []byte{0, 1, 2, 3, byte(g.oneOf(4, 100, 110))} {
				s.pktD("container "+c.name, 8, cat([]byte{alg}, c.data))
			}
		}
		// every header of the ZLIB format
		z := deflate(false, inner, -1)
		for i := 0; i < 16; i++ {
			c := append([]byte{}, z...)
			c[g.Intn(2)] = byte(g.Intn(256))
			if g.chance(0.5) { // a valid check of the header
				c[1] = c[1] &^ 31
				c[1] += byte((31 - (int(c[0])*256+int(c[1]))%31) % 31)
			}
			s.pktD("zlib header", 8, cat([]byte{2}, c))
		}
	}
	// every prefix of the compressed octets, and of the inner stream
	for _, alg := range []byte{0, 1, 2, 3} {
		for k := 0; k < scale(2, 12); k++ {
			inner := cat(g.pkt(13, []byte("user"), hNew1), g.pkt(11, g.small(11, 30), hNew1), g.pkt(60, g.bytes(5), hNew1))
			b := g.compress(alg, inner)
			for i := 0; i <= len(b); i++ {
				s.pktD("compressed prefix", 8, b[:i])
			}
			for i := 0; i <= len(inner); i++ {
				if alg == 3 && i%4 != 0 {
					continue
				}
				s.pktD("inner prefix", 8, g.compress(alg, inner[:i]))
			}
			if alg == 2 { // each octet of the checksum
				for i := 1; i <= 4; i++ {
					c := append([]byte{}, b...)
					c[len(c)-i] ^= byte(1 + g.Intn(255))
					s.pktD("bad checksum", 8, c)
				}
			}
			for i := 0; i < 30; i++ {
				c := append([]byte{}, b...)
				c[1+g.Intn(len(c)-1)] ^= byte(1 << g.Intn(8))
				s.pktD("flipped bit", 8, c)
			}
		}
	}
	for i := 0; i < scale(40, 300); i++ { // larger and highly compressible contents, nested compression
		alg := byte(g.oneOf(1, 2, 3))
		n := g.oneOf(1000, 5000, 9000)
		s.pktD("compressible", 8, g.compress(alg, g.pkt(11, cat([]byte{'b', 0, 0, 0, 0, 0}, make([]byte, n)), g.anyForm(true))))
		in := g.pkt(8, g.compress(byte(g.oneOf(0, 1, 2, 3)), g.stream0(2)), hBest)
		s.pktD("nested", 8, g.compress(alg, cat(g.stream0(1), in)))
		in = g.pkt(8, g.damage(g.compress(byte(g.oneOf(1, 2)), g.stream0(2))), hBest)
		s.pktD("nested damaged", 8, g.compress(alg, in))
		m := []byte{}
		for k := 0; k < g.oneOf(20, 60, 100); k++ {
			m = cat(m, g.pkt(g.oneOf(13, 60, 10, 12), g.bytesText(g.Intn(6)), g.anyForm(false)))
		}
		s.pktD("many inner", 8, g.compress(alg, m))
	}
	return s.cs
}

func (g *G) bytesText(n int) []byte {
	b := g.bytes(n)
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	return b
}

// stream without an indeterminate-length packet
func (g *G) stream0(n int) []byte {
	out := []byte{}
	for i := 0; i < n; i++ {
		t := g.anyTag()
		out = append(out, g.pkt(t, g.body(t, 0), g.anyForm(false))...)
	}
	return out
}

// ---- C12: options --------------------------------------------------------------------------------------

var zones = []int{0, 540, -480, 330, 345, -210, 840, -720, 1, -1}

func genC12() []Case {
	s := &set{g: newG(12)}
	g := s.g
	sets := []Opts{{}}
	for _, n := range optNames[1:] {
		o := Opts{}
		*o.get(n) = true
		sets = append(sets, o)
	}
	for i := 0; i < scale(260, 2500); i++ {
		var d []byte
		switch {
		case i < 60:
			t := allTags[i%len(allTags)]
			d = g.pkt(t, g.body(t, 1), g.anyForm(true))
		case i < 90:
			t := knownSubs[i%len(knownSubs)]
			d = g.pkt(2, g.sigV4(4, 1, g.sub(t, g.subBody(t, 1)), g.sub(t, g.subBody(t, 1))), g.anyForm(true))
		default:
			d = g.stream(1+g.Intn(2), 1)
		}
		z := zones[g.Intn(len(zones))]
		for _, o := range sets {
			o.Off = z
			s.addO("single option", d, o)
			o.UTC = true
			if g.chance(0.3) {
				s.addO("option with utc", d, o)
			}
		}
		for k := 0; k < 3; k++ {
			o := g.opts()
			o.UTC = g.chance(0.5)
			o.Off = zones[g.Intn(len(zones))]
			o.Shift = g.oneOf(0, 60, -60)
			s.addO("random options", d, o)
		}
	}
	s.parts(1, 2, 3, 5, 6, 10, 11, 60)
	for i := 0; i < scale(120, 1500); i++ { // every kind of dump, of octets of every kind
		x := func() []byte {
			if t := g.codeText(); g.chance(0.1) && t != "" {
				return []byte(t)
			}
			return g.pickB(g.special(), g.special(), g.bytes(g.Intn(20)), bytes.Repeat([]byte{g.octet()}, 1+g.Intn(30)), cat(g.special(), make([]byte, g.Intn(4))), cat(make([]byte, g.Intn(4)), g.special()))
		}
		m := x()
		if len(m) == 0 {
			m = []byte{1}
		}
		whole := cat(u16(8*len(m)-g.Intn(8)), m)
		f := []byte{'b', 't', 'u', 'l', '1', 'm', byte(g.Intn(256))}[g.Intn(7)]
		for k, d := range [][]byte{
			g.pkt(11, cat([]byte{f, 1, 'n'}, g.when(), x()), g.anyForm(true)),
			g.pkt(10, x(), g.anyForm(true)),
			g.pkt(g.oneOf(60, 61, 62, 63), x(), g.anyForm(true)),
			g.pkt(2, g.sigV4(4, byte(g.oneOf(1, 3, 17, 19, 22)), g.sub(37, x()), nil), g.anyForm(true)),
			g.pkt(6, g.wantKey(4, 1, cat(whole, g.mpis(1))), g.anyForm(true)),
			g.pkt(1, cat([]byte{3}, g.bytes(8), []byte{1}, whole), g.anyForm(true)),
		} {
			name := []string{"literal", "marker", "private", "cert", "int", "int"}[k]
			o := Opts{}
			*o.get(name) = true
			s.addO("octets of every kind", d, o)
			if o = (Opts{Debug: true}); g.chance(0.5) {
				o = g.opts()
			}
			s.addO("octets of every kind", d, o)
		}
	}
	for i := 0; i < scale(700, 5000); i++ { // times near midnight and year ends in every zone
		d := cat(g.pkt(11, cat([]byte{'b', 0}, g.when(), g.bytes(2)), hNew1), g.pkt(2, g.sigV4(4, 1, cat(g.sub(2, g.when()), g.sub(3, u32(g.Uint32()))), nil), hNew1), g.pkt(6, g.wantKey(4, 1, g.mpis(2)), hNew1))
		s.addO("zones", d, Opts{UTC: g.chance(0.3), Off: zones[g.Intn(len(zones))], Shift: g.oneOf(0, 60, -60, 30)})
	}
	return s.cs
}

// ---- C16: text -----------------------------------------------------------------------------------------

// put a text where the dump reproduces it
func (s *set) text(kind string, t []byte) {
	g := s.g
	o := Opts{UTC: true, Literal: g.chance(0.3), Debug: g.chance(0.2)}
	area := func(b []byte) []byte { return g.pkt(2, g.sigV4(4, 1, b, nil), hBest) }
	clip := func(n int) []byte {
		if len(t) > n {
			return t[:n]
		}
		return t
	}
	switch g.Intn(9) {
	case 0, 1:
		s.addO(kind, g.pkt(13, t, g.anyForm(true)), o)
	case 2:
		n := clip(255)
		s.addO(kind, g.pkt(11, cat([]byte{'t', byte(len(n))}, n, g.when(), []byte("data")), hBest), o)
	case 3:
		s.addO(kind, area(g.sub(20, cat([]byte{0x80, 0, 0, 0}, u16(len(t)), u16(3), t, []byte("val")))), o)
	case 4:
		s.addO(kind, area(g.sub(20, cat([]byte{byte(g.oneOf(0x80, 0x80, 0)), 0, 0, 0}, u16(3), u16(len(t)), []byte("nam"), t))), o)
	case 5:
		s.addO(kind, area(g.sub(byte(g.oneOf(6, 24, 26, 28)), t)), o)
	case 6:
		s.addO(kind, area(g.sub(29, cat([]byte{0}, t))), o)
	case 7:
		s.addO(kind, area(g.sub(byte(g.oneOf(6+128, 24+128, 26+128, 28+128)), t)), o)
	default:
		s.addO(kind, g.pkt(8, g.compress(byte(g.oneOf(0, 1, 2)), g.pkt(13, t, hBest)), hBest), o)
	}
}

func genC16() []Case {
	s := &set{g: newG(16)}
	g := s.g
	for x := 0; x < 256; x++ {
		b := byte(x)
		s.add("format octet", g.pkt(11, cat([]byte{b, 1, 'f'}, g.when(), []byte("data")), hBest))
		for k := 0; k < scale(3, 9); k++ {
			s.text("single octet", []byte{b})
			s.text("octet in text", cat([]byte("ab"), []byte{b}, []byte("yz")))
		}
		for k := 0; k < scale(2, 8); k++ {
			s.text("two octets", []byte{b, byte(g.Intn(256))})
			s.text("two octets", []byte{byte(g.Intn(256)), b})
			s.text("code point", []byte(string(rune(x))))
			s.text("code point in text", []byte("a"+string(rune(x))+"b"))
		}
	}
	for _, t := range dict().texts {
		for k := 0; k < scale(2, 8); k++ {
			s.text("text of the code", []byte(t))
		}
		s.text("text of the code", []byte(g.codeText()))
	}
	for _, n := range nearConstants(20, 4000) {
		s.text("length of the code", g.bytesText(n))
		s.text("length of the code", cat(g.bytesText(n/2), []byte(oddTexts[g.Intn(len(oddTexts))]), g.bytesText(n-n/2)))
	}
	for _, t := range append(append(append([]string{}, asciiTexts...), oddTexts...), badTexts...) {
		for k := 0; k < scale(10, 30); k++ {
			s.text("sample", []byte(t))
		}
	}
	for _, r := range []rune{0x7f, 0x80, 0x9f, 0xa0, 0xad, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0x10ffff, 0x200b, 0x200e, 0x202a, 0x2028, 0x2066, 0x600, 0x180e, 0xe0001} {
		for k := 0; k < scale(4, 9); k++ {
			s.text("rune boundary", []byte(string(r)))
			s.text("rune boundary", []byte(fmt.Sprintf("<%c\x07%c>", r, r)))
		}
	}
	for i := 0; i < scale(250, 2500); i++ {
		r := rune(g.Intn(0x110000))
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		u := []byte(string(r))
		s.text("random rune", u)
		s.text("cut rune", u[:len(u)-1])
		if len(u) > 1 {
			u[g.Intn(len(u))] = g.octet()
		}
		s.text("broken rune", u)
	}
	for i := 0; i < scale(1200, 12000); i++ {
		s.text("random", g.text(200))
	}
	for _, n := range []int{191, 192, 193, 255, 256, 1000, 1800} {
		t := g.bytesText(n)
		s.text("long", t)
		t[n-1] = 0x0a
		s.text("long with control", t)
		u := cat(t, []byte{0xff})
		s.text("long invalid", u)
		s.text("long control first", cat([]byte{0}, g.bytesText(n)))
	}
	// the odd octets anywhere in a longer text
	for _, n := range []int{300, 1023, 1025, 2048, 4095, 4096, 4097, 5000} {
		for k := 0; k < scale(2, 12); k++ {
			for _, odd := range []string{"\xff", "\x00", "\x1b", "\xc2\x85", "\xe3\x81", "\xf0\x9f\x94\x91"} {
				if n > 2000 && !g.chance(0.3) {
					continue
				}
				t := g.bytesText(n)
				at := g.oneOf(g.Intn(n), n-1, n, n/2)
				s.text("odd octets in a long text", cat(t[:at], []byte(odd), t[at:]))
			}
		}
	}
	return s.cs
}

// ---- C22: identifiers and dates ------------------------------------------------------------------------

func genC22() []Case {
	s := &set{g: newG(22)}
	g := s.g
	for t := 0; t < 64; t++ {
		for k := 0; k < 3; k++ {
			s.pktD("tag", t, g.body(t, 0))
		}
	}
	for x := 0; x < 256; x++ {
		b := byte(x)
		sp := cat([]byte{3, b}, g.bytes(9))
		s.pktD("sig type", 2, g.wantSig(4, b, 1, 8))
		s.pktD("sig type", 2, g.wantSig(3, b, 1, 8))
		s.pktD("sig type", 4, cat([]byte{3, b, 8, 1}, g.bytes(9)))
		s.pktD("sig type", 2, g.sigV4(4, 1, g.sub(32, g.wantSig(4, b, 1, 8)), nil))
		s.pktD("pub", 1, cat([]byte{3}, g.bytes(8), []byte{b}, g.sesMaterial(b)))
		s.pktD("pub", 2, g.wantSig(byte(g.oneOf(3, 4, 5)), 0, b, 8))
		s.pktD("pub", 4, cat([]byte{3, 0, 8, b}, g.bytes(9)))
		s.pktD("pub", 6, g.wantKey(byte(g.oneOf(3, 4, 5)), b, g.keyMaterial(b)))
		s.pktD("pub", 5, g.secWith(4, b, 0, nil))
		s.sub("pub", 12, cat([]byte{0x80, b}, g.bytes(20)))
		s.sub("pub", 31, cat([]byte{b, 8}, g.bytes(20)))
		s.pktD("sym", 3, cat([]byte{4, b}, sp))
		s.pktD("sym", 20, cat([]byte{1, b, 1, 2}, g.bytes(20)))
		s.pktD("sym", 5, g.secWith(4, 1, 254, cat([]byte{b}, sp, g.bytes(ivLen(b)))))
		if b > 0 && b < 253 {
			s.pktD("sym", 5, g.secWith(4, 1, b, g.bytes(ivLen(b))))
		}
		s.pktD("sym", 6, g.wantKey(4, 18, cat(g.curve(), g.point(), []byte{3, 1, 8, b})))
		s.sub("sym", 11, []byte{b, 9, b})
		s.pktD("hash", 2, g.wantSig(byte(g.oneOf(3, 4, 5)), 0, 1, b))
		s.pktD("hash", 3, cat([]byte{4, 9}, sp))
		s.pktD("hash", 4, cat([]byte{3, 0, b, 1}, g.bytes(9)))
		s.pktD("hash", 6, g.wantKey(4, 18, cat(g.curve(), g.point(), []byte{3, 1, b, 7})))
		s.sub("hash", 21, []byte{b, 8})
		s.sub("hash", 31, cat([]byte{1, b}, g.bytes(20)))
		s.pktD("hash", 7, g.secWith(4, 1, 254, cat([]byte{9, 3, b}, g.bytes(9), g.bytes(16))))
		s.sub("comp", 22, []byte{b, 1})
		if x == 0 || x > 3 {
			s.pktD("comp", 8, []byte{b})
		} else {
			s.pktD("comp", 8, g.compress(b, g.pkt(60, []byte{1}, hNew1)))
		}
		s.sub("aead", 34, []byte{b, 1})
		s.pktD("aead", 20, cat([]byte{1, 9, b, 2}, g.bytes(20)))
		s.pktD("aead", 5, g.secWith(4, 1, 253, cat([]byte{9, b}, sp, g.bytes(16))))
		if b != 0 && b != 1 && b != 3 && b != 101 {
			s.pktD("s2k", 3, []byte{4, 9, b})
			s.pktD("s2k", 5, g.secWith(4, 1, 254, cat([]byte{9, b}, g.bytes(16))))
		} else {
			sk := cat([]byte{b, 8}, g.bytes(9))
			s.pktD("s2k", 3, cat([]byte{4, 9}, sk))
			s.pktD("s2k", 5, g.secWith(4, 1, 254, cat([]byte{9}, sk, g.bytes(40))))
		}
		for _, t := range []int{1, 2, 3, 4, 5, 6, 14, 20} {
			bd := g.small(t, 300)
			bd[0] = b
			s.pktD("version", t, bd)
		}
		st := b
		sb := g.subBody(st, 0)
		s.pktD("subpacket", 2, g.sigV4(4, 1, g.sub(st, sb), g.sub(st, g.subBody(st, 0))))
		if st&0x7f == 1 {
			sb = g.image()
		}
		s.pktD("subpacket", 17, g.sub(st, sb))
	}
	// dates: every month start and end of 1970-2106, leap days, and random
	date := func(kind string, t uint32) {
		switch g.Intn(4) {
		case 0:
			s.add(kind, g.pkt(11, cat([]byte{'b', 0}, u32(t)), hNew1))
		case 1:
			s.add(kind, g.pkt(6, cat([]byte{4}, u32(t), []byte{99}), hNew1))
		case 2:
			s.add(kind, g.pkt(2, cat([]byte{3, 5, 0}, u32(t), g.bytes(8), []byte{99, 8}, g.bytes(2)), hNew1))
		default:
			s.add(kind, g.pkt(2, g.sigV4(4, 99, g.sub(2, u32(t)), nil), hNew1))
		}
	}
	day := int64(0)
	for y := 1970; y <= 2106; y++ {
		leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
		for m, n := range []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31} {
			if m == 1 && leap {
				n++
			}
			for _, t := range []int64{day * 86400, day*86400 - 1, (day+27)*86400 + 86399, (day+28)*86400 + 5} {
				if t >= 0 && t < 1<<32 && (thorough() || (int64(y)+int64(m)+t)%4 == *fSeed%4 || m == 1) {
					date("calendar", uint32(t))
				}
			}
			day += n
		}
	}
	for i := 0; i < scale(600, 10000); i++ {
		date("random time", g.Uint32())
	}
	for i := uint(0); i < 32; i++ {
		date("power of two", 1<<i)
		date("power of two", 1<<i-1)
		date("power of two", 1<<i+1)
	}
	date("last", 0xffffffff)
	return s.cs
}

// ---- C23: the other packets --------------------------------------------------------------------------------

func genC23() []Case {
	s := &set{g: newG(23)}
	g := s.g
	s.prefixes(scale(4, 40), 11, 10, 12, 13, 60)
	s.octets(scale(2, 20), 11, 10, 12, 13, 60)
	s.parts(11, 10, 12, 60)
	anyO := func(kind string, tag int, b []byte) { s.addO(kind, g.pkt(tag, b, g.anyForm(true)), g.opts()) }
	for x := 0; x < 256; x++ {
		b := byte(x)
		anyO("literal format", 11, cat([]byte{b, 3}, []byte("f.x"), g.when(), g.bytes(g.Intn(9))))
		name := g.bytesText(x)
		anyO("literal name length", 11, cat([]byte{'b', b}, name, g.when(), g.bytes(g.Intn(4))))
		anyO("literal name octets", 11, cat([]byte{'u', 2}, []byte{b, byte(g.Intn(256))}, g.when(), g.bytes(3)))
		anyO("literal time", 11, cat([]byte{'b', 1, 'x'}, []byte{byte(g.oneOf(0, 0, x)), byte(g.oneOf(0, 0, x)), byte(g.oneOf(0, 0, x)), b}, []byte("d")))
		anyO("user id", 13, []byte{b})
	}
	for _, t := range dict().texts {
		anyO("user id of the code", 13, []byte(t))
		if len(t) < 256 {
			anyO("literal name of the code", 11, cat([]byte{g.pick("t", "b", "u", "l", "1", "m")[0], byte(len(t))}, []byte(t), g.when(), g.bytes(g.Intn(4))))
		}
		anyO("octets of the code", g.oneOf(10, 12, 60, 61, 62, 63, 30, 11), []byte(t))
		anyO("octets of the code", 11, cat([]byte{'b', 3}, []byte("f.x"), g.when(), []byte(t)))
	}
	for i := 0; i < scale(60, 600); i++ {
		for _, f := range []byte("btul1m") {
			s.addO("special octets", g.pkt(11, cat([]byte{f, 1, 'n'}, g.when(), g.special()), g.anyForm(true)), Opts{Literal: true, UTC: g.chance(0.5)})
		}
		anyO("special octets", g.oneOf(10, 12, 13, 60, 61, 62, 63, 40), g.special())
	}
	for n := 0; n <= scale(40, 300); n++ {
		anyO("literal size", 11, cat([]byte{'b', 4}, []byte("name"), g.when(), g.bytes(n)))
		for _, t := range []int{10, 12, 60, 61, 62, 63, 0, 15, 16, 21, 22, 30, 59} {
			if t > 15 || t == 10 || t == 12 || n%5 == 0 {
				anyO("opaque size", t, g.bytes(n))
			}
		}
		anyO("user id length", 13, g.bytesText(n))
		anyO("attribute size", 17, g.sub(byte(g.oneOf(2, 50, 100, 128+3)), g.bytes(n)))
		im := cat([]byte{16, 0, 1, 1}, make([]byte, 12), g.bytes(n))
		anyO("image size", 17, g.sub(1, im))
	}
	for t := 0; t < 64; t++ {
		for k := 0; k < 4; k++ {
			switch t {
			case 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 18, 19, 20:
				continue
			}
			anyO("tag sweep", t, g.body(t, 0))
		}
	}
	for _, n := range []int{127, 128, 191, 192, 255, 256, 257, 1000, 8383, 8384, 20000} {
		for _, t := range []int{10, 11, 12, 13, 17, 40, 63} {
			if n > 2000 && t == 13 {
				continue
			}
			b := g.sized(t, n)
			s.pktD("size boundary", t, b)
		}
	}
	for i := 0; i < scale(2000, 25000); i++ {
		t := g.oneOf(10, 11, 11, 11, 12, 13, 13, 17, 17, 60, 61, 62, 63, g.oneOf(0, 15, 16, 21, 33, 59))
		anyO("random", t, g.body(t, 0))
	}
	return s.cs
}
