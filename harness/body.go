package main

// Generators of packet bodies.  Every generator produces complete bodies; damage is
// applied separately (see damage).

func (g *G) pubAlg() byte {
	if g.chance(0.85) {
		return []byte{1, 2, 3, 16, 17, 18, 19, 20, 22}[g.Intn(9)]
	}
	return g.octet()
}

func (g *G) trail() []byte {
	if g.chance(0.15) {
		return g.bytes(1 + g.Intn(4))
	}
	return nil
}

func (g *G) mpis(n int) []byte {
	out := []byte{}
	for i := 0; i < n; i++ {
		out = append(out, g.mpi()...)
	}
	return out
}

func (g *G) kdf() []byte {
	switch g.Intn(8) {
	case 0:
		return []byte{0}
	case 1:
		return []byte{2, 1, g.octet()}
	case 2:
		return cat([]byte{byte(5)}, []byte{1, g.octet(), g.octet()}, g.bytes(2))
	case 3:
		return []byte{3, g.octet(), g.octet(), g.octet()}
	case 4:
		return []byte{1, 1}
	default:
		return []byte{3, 1, byte(g.oneOf(8, 9, 10)), byte(g.oneOf(7, 8, 9))}
	}
}

func (g *G) keyMaterial(alg byte) []byte {
	switch alg {
	case 1, 2, 3:
		return g.mpis(2)
	case 17:
		return g.mpis(4)
	case 16, 20:
		return g.mpis(3)
	case 18:
		return cat(g.curve(), g.point(), g.kdf())
	case 19, 22:
		return cat(g.curve(), g.point())
	}
	return g.bytes(g.Intn(20))
}

func (g *G) sigMaterial(alg byte) []byte {
	switch alg {
	case 1, 2, 3:
		return g.mpi()
	case 17, 16, 20, 19, 22:
		return g.mpis(2)
	}
	return g.bytes(g.Intn(20))
}

func (g *G) sesMaterial(alg byte) []byte {
	switch alg {
	case 1, 2, 3:
		return g.mpi()
	case 16, 20:
		return g.mpis(2)
	case 18:
		n := g.oneOf(0, 1, 32, 40, 48, 255)
		return cat(g.point(), []byte{byte(n)}, g.bytes(n))
	}
	return g.bytes(g.Intn(20))
}

func (g *G) secMaterial(alg byte) []byte {
	switch alg {
	case 1, 2, 3:
		return g.mpis(4)
	case 17, 16, 20, 18, 19, 22:
		return g.mpi()
	}
	return g.bytes(g.Intn(20))
}

func (g *G) ver(common ...byte) byte {
	if g.chance(0.9) {
		return common[g.Intn(len(common))]
	}
	return g.octet()
}

// public key fields without the version
func (g *G) pubFields(v byte, alg byte) []byte {
	mat := g.keyMaterial(alg)
	switch v {
	case 3:
		return cat(g.when(), u16(g.oneOf(0, 1, 255, 256, 365, 65535)), []byte{alg}, mat)
	case 4:
		return cat(g.when(), []byte{alg}, mat)
	case 5:
		mat = cat(mat, g.trail())
		return cat(g.when(), []byte{alg}, u32(uint32(len(mat))), mat)
	}
	return g.bytes(g.Intn(12))
}

func (g *G) pubKey() []byte {
	v := g.ver(3, 4, 4, 5)
	return cat([]byte{v}, g.pubFields(v, g.pubAlg()), g.trail())
}

func (g *G) symAlg() byte {
	if g.chance(0.8) {
		return byte(g.Intn(14))
	}
	return g.octet()
}

func ivLen(sym byte) int {
	switch {
	case sym <= 6:
		return 8
	case sym <= 13:
		return 16
	}
	return 0
}

// string-to-key specifier; the second result tells whether an IV follows in a secret key
func (g *G) s2k() ([]byte, bool) {
	h := byte(g.oneOf(1, 2, 8, 10, 11, int(g.octet())))
	switch g.Intn(8) {
	case 0:
		return []byte{0, h}, true
	case 1:
		return cat([]byte{1, h}, g.bytes(8)), true
	case 2, 3, 4:
		return cat([]byte{3, h}, g.bytes(8), []byte{byte(g.Intn(256))}), true
	case 5:
		m := byte(g.oneOf(1, 2, 0, 3, 255))
		if m == 2 {
			n := g.oneOf(0, 1, 16, 16, 255)
			return cat([]byte{101}, []byte("GNU"), []byte{m, byte(n)}, g.bytes(n)), false
		}
		return cat([]byte{101}, []byte("GNU"), []byte{m}), false
	case 6:
		k := g.octet()
		for k == 0 || k == 1 || k == 3 || k == 101 {
			k = byte(g.Intn(256))
		}
		return cat([]byte{k}, g.marks()), true
	default:
		return cat([]byte{byte(g.oneOf(2, 4, 100, 102, 110))}, g.marks()), true
	}
}

// octets after an unknown specifier that would be a mark after another
func (g *G) marks() []byte {
	if g.chance(0.3) {
		return cat([]byte("GNU"), []byte{byte(g.oneOf(1, 2, 3)), byte(g.Intn(20))})
	}
	return nil
}

func (g *G) usage() byte {
	return byte(g.oneOf(0, 0, 253, 254, 254, 255, 1, 2, 7, 9, 13, 14, 99, 100, 110, 252, int(g.octet())))
}

// protection parameters after the usage octet
func (g *G) protection(usage byte) []byte {
	switch {
	case usage == 0:
		return nil
	case usage >= 253:
		sym := g.symAlg()
		out := []byte{sym}
		if usage == 253 {
			out = append(out, byte(g.oneOf(1, 2, int(g.octet()))))
		}
		s, iv := g.s2k()
		out = append(out, s...)
		if iv {
			out = append(out, g.bytes(ivLen(sym))...)
		}
		return out
	}
	return g.bytes(ivLen(usage))
}

func (g *G) secKey() []byte {
	b, _, _ := g.secKeyParts()
	return b
}

// a secret key, the length of its public part and its algorithm
func (g *G) secKeyParts() ([]byte, int, byte) {
	v := g.ver(3, 4, 4, 4, 5, 5)
	alg := g.pubAlg()
	pub := cat([]byte{v}, g.pubFields(v, alg))
	u := g.usage()
	prot := g.protection(u)
	var mat []byte
	if u == 0 {
		mat = g.secMaterial(alg)
	} else {
		mat = g.bytes(g.Intn(60))
	}
	sum := g.bytes(2)
	if v == 5 {
		prot = cat(prot, g.trail())
		if u != 0 {
			sum = nil
		} else {
			mat = cat(mat, g.trail())
		}
		return cat(pub, []byte{u, byte(len(prot))}, prot, u32(uint32(len(mat))), mat, sum, g.trail()), len(pub), alg
	}
	if u != 0 {
		return cat(pub, []byte{u}, prot, mat), len(pub), alg
	}
	return cat(pub, []byte{u}, prot, mat, sum, g.trail()), len(pub), alg
}

// ---- signatures -------------------------------------------------------------

// subpacket framing; long forms are used at random
func (g *G) sub(t byte, body []byte) []byte {
	n := len(body) + 1
	switch {
	case g.chance(0.05):
		return cat([]byte{255}, u32(uint32(n)), []byte{t}, body)
	case n < 192:
		return cat([]byte{byte(n), t}, body)
	case n < 16320:
		m := n - 192
		return cat([]byte{byte(192 + m>>8), byte(m), t}, body)
	}
	return cat([]byte{255}, u32(uint32(n)), []byte{t}, body)
}

var knownSubs = []byte{2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38}

func (g *G) list() []byte {
	b := g.bytes(g.oneOf(0, 1, 2, 3, 4, 7))
	if g.chance(0.7) {
		for i := range b {
			b[i] = byte(g.Intn(15))
		}
	}
	return b
}

func (g *G) flags() []byte {
	b := g.bytes(1 + g.oneOf(0, 0, 0, 1, 1, 2, 3))
	if g.chance(0.3) {
		for i := range b {
			b[i] = byte(1 << g.Intn(8))
		}
	}
	return b
}

func (g *G) subBody(t byte, depth int) []byte {
	switch t & 0x7f {
	case 2:
		return cat(g.when(), g.trail())
	case 3, 9:
		p := u32([]uint32{0, 1, 86400, 86400 * 365, 31557600, 0x7fffffff, 0x80000000, 0xffffffff, g.Uint32(), g.Uint32()}[g.Intn(10)])
		return cat(p, g.trail())
	case 4, 7, 25:
		return cat([]byte{byte(g.oneOf(0, 1, 1, 2, 255))}, g.trail())
	case 5:
		return cat([]byte{g.octet(), g.octet()}, g.trail())
	case 6, 24, 26, 28:
		return g.text(250)
	case 11, 21, 22, 34:
		return g.list()
	case 12:
		return cat([]byte{byte(g.oneOf(0x80, 0xc0, 0, 0x40, 0xff)), g.pubAlg()}, g.bytes(g.oneOf(0, 1, 20, 32)))
	case 16:
		return cat(g.bytes(8), g.trail())
	case 20:
		n, v := g.text(60), g.text(200)
		f := []byte{byte(g.oneOf(0x80, 0x80, 0, 0xff, 0x7f, 1)), byte(g.oneOf(0, 0, 1, 255)), byte(g.oneOf(0, 0, 2)), byte(g.oneOf(0, 0, 0x80))}
		return cat(f, u16(len(n)), u16(len(v)), n, v, g.trail())
	case 23, 27, 30:
		return g.flags()
	case 29:
		return cat([]byte{byte(g.oneOf(0, 1, 2, 3, 4, 31, 32, 33, 99, 100, 110, 111, int(g.octet())))}, g.text(100))
	case 31:
		return cat([]byte{g.pubAlg(), byte(g.Intn(16))}, g.bytes(g.oneOf(0, 1, 20, 32)))
	case 32:
		if depth > 0 {
			return g.sig(depth - 1)
		}
		return cat([]byte{4, 0x19, 1, 8}, u16(0), u16(0), g.bytes(2), g.mpi())
	case 33, 35:
		return cat([]byte{byte(g.oneOf(4, 5, 3, 0, 6, int(g.octet())))}, g.bytes(g.oneOf(0, 1, 20, 32)))
	case 37:
		return g.bytes(g.oneOf(0, 1, 32, 64))
	case 38:
		if g.chance(0.3) {
			return cat([]byte{byte(g.oneOf(1, 2, 255))}, g.bytes(g.Intn(10)))
		}
		out := []byte{0}
		if depth > 0 {
			n := g.Intn(3)
			for i := 0; i < n; i++ {
				out = append(out, g.simplePacket(i == n-1)...)
			}
		}
		return out
	}
	return g.bytes(g.oneOf(0, 0, 1, 2, 5, 20))
}

// a packet of a kind that stays small
func (g *G) simplePacket(last bool) []byte {
	switch g.Intn(6) {
	case 0:
		return g.pkt(6, g.pubKey(), g.anyForm(last))
	case 1:
		return g.pkt(13, g.text(60), g.anyForm(last))
	case 2:
		return g.pkt(2, g.sig(0), g.anyForm(last))
	case 3:
		return g.pkt(11, g.literal(), g.anyForm(last))
	case 4:
		return g.pkt(60+g.Intn(4), g.bytes(g.Intn(8)), g.anyForm(last))
	}
	return g.pkt(14, g.pubKey(), g.anyForm(last))
}

func (g *G) subpacket(depth int) []byte {
	t := knownSubs[g.Intn(len(knownSubs))]
	if g.chance(0.1) {
		t = byte(g.Intn(128))
	}
	b := g.subBody(t, depth)
	if g.chance(0.2) {
		t |= 0x80
	}
	return g.sub(t, b)
}

func (g *G) area(depth, max int) []byte {
	out := []byte{}
	for i, n := 0, g.Intn(max+1); i < n; i++ {
		out = append(out, g.subpacket(depth)...)
	}
	return out
}

func (g *G) sigV4(v byte, alg byte, hashed, unhashed []byte) []byte {
	return cat([]byte{v, g.sigType(), alg, byte(g.oneOf(1, 2, 8, 10, int(g.octet())))},
		u16(len(hashed)), hashed, u16(len(unhashed)), unhashed, g.bytes(2), g.sigMaterial(alg))
}

func (g *G) sigType() byte {
	return byte(g.oneOf(0, 1, 2, 0x10, 0x11, 0x12, 0x13, 0x16, 0x18, 0x19, 0x1f, 0x20, 0x28, 0x30, 0x40, 0x50, int(g.octet())))
}

func (g *G) sig(depth int) []byte {
	v := g.ver(3, 4, 4, 4, 5)
	alg := g.pubAlg()
	switch v {
	case 3, 2:
		hm := cat([]byte{5, g.sigType()}, g.when())
		if g.chance(0.15) {
			n := g.oneOf(0, 1, 4, 6, 19)
			hm = cat([]byte{byte(n)}, g.bytes(n))
		}
		return cat([]byte{v}, hm, g.bytes(8), []byte{alg, g.octet()}, g.bytes(2), g.sigMaterial(alg), g.trailFor(alg))
	}
	return cat(g.sigV4(v, alg, g.area(depth, 4), g.area(depth, 3)), g.trailFor(alg))
}

// trailing octets only make sense where the material is self-delimiting
func (g *G) trailFor(alg byte) []byte {
	switch alg {
	case 1, 2, 3, 16, 17, 19, 20, 22:
		return g.trail()
	}
	return nil
}

// ---- the other packets ---------------------------------------------------------

func (g *G) pubEsk() []byte {
	alg := g.pubAlg()
	return cat([]byte{g.ver(3, 3, 2, 4)}, g.bytes(8), []byte{alg}, g.sesMaterial(alg), g.trailFor(alg))
}

func (g *G) symEsk() []byte {
	v := g.ver(4, 4, 5)
	if v != 4 {
		return cat([]byte{v}, g.bytes(g.Intn(20)))
	}
	s, _ := g.s2k()
	return cat([]byte{v, g.symAlg()}, s, g.bytes(g.oneOf(0, 0, 1, 17, 33)))
}

func (g *G) onePass() []byte {
	return cat([]byte{g.ver(3, 3, 2, 4), g.sigType(), g.octet(), g.pubAlg()}, g.bytes(8), []byte{byte(g.oneOf(0, 1, 1, 2, 255))}, g.trail())
}

func (g *G) aead() []byte {
	a := byte(g.oneOf(1, 2, 1, 2, 0, 3, 100, 110, int(g.octet())))
	iv := 0
	if a == 1 || a == 2 {
		iv = 16
	}
	return cat([]byte{g.ver(1, 1, 0, 2), g.symAlg(), a, byte(g.Intn(256))}, g.bytes(iv), g.bytes(g.oneOf(0, 1, 16, 32, 100)))
}

func (g *G) literal() []byte {
	name := g.text(255)
	if g.chance(0.03) {
		name = g.bytes(255)
	}
	t := g.when()
	if g.chance(0.2) {
		t = u32(0)
	}
	f := []byte{'b', 't', 'u', 'l', '1', 'm'}[g.Intn(6)]
	if g.chance(0.3) {
		f = byte(g.Intn(256))
	}
	data := g.bytes(g.oneOf(0, 0, 1, 2, 8, 60))
	if g.chance(0.3) {
		data = g.special()
	}
	return cat([]byte{f, byte(len(name))}, name, t, data)
}

// special: octets that something on the way might take for more than octets
func (g *G) special() []byte {
	d := []byte{}
	for i := 1 + g.Intn(6); i > 0; i-- {
		d = append(d, g.pickB([]byte("\r\n"), []byte("\n"), []byte("\r"), []byte("- dash"), []byte(" "), []byte("\t"), []byte{0}, []byte{0, 0, 0}, []byte{0xff, 0xff}, []byte{0x1a}, []byte{4},
			[]byte("\xef\xbb\xbf"), []byte("-----END PGP MESSAGE-----"), []byte("a"), []byte("line"), []byte("\u65e5"), []byte{0x80}, []byte("\\"), []byte("%s"), []byte("="), []byte("."), g.bytes(2))...)
	}
	return d
}

func (g *G) image() []byte {
	hdr := g.oneOf(16, 16, 16, 3, 4, 5, 17)
	v := byte(g.oneOf(1, 1, 1, 0, 2, 100, 105, 110, 111, int(g.octet())))
	n := hdr
	if n < 4 {
		n = 4
	}
	n += g.oneOf(0, 1, 30, 300)
	b := g.bytes(n)
	b[0], b[1], b[2], b[3] = byte(hdr), byte(hdr>>8), v, byte(g.oneOf(1, 1, 0, 2))
	if g.chance(0.1) { // header covering the whole body
		b[0], b[1] = byte(n), byte(n>>8)
	}
	if g.chance(0.05) {
		b[0], b[1] = 0, 0
	}
	if g.chance(0.05) { // the octets of the header length in the other order
		b[0], b[1] = b[1], b[0]
	}
	return b
}

func (g *G) attribute() []byte {
	out := []byte{}
	for i, n := 0, 1+g.Intn(3); i < n; i++ {
		if g.chance(0.7) {
			out = append(out, g.sub(1, g.image())...)
		} else {
			t := byte(g.Intn(256))
			b := g.bytes(g.Intn(10))
			if t&0x7f == 1 {
				b = g.image()
			}
			out = append(out, g.sub(t, b)...)
		}
	}
	return out
}

// inner streams of compressed data, without compressed data inside
func (g *G) compressed(depth int) []byte {
	inner := g.stream(1+g.Intn(3), depth)
	if g.chance(0.1) {
		inner = nil
	}
	return g.compress(byte(g.oneOf(0, 1, 1, 2, 2, 3)), inner)
}

func (g *G) compress(alg byte, inner []byte) []byte {
	switch alg {
	case 1, 2:
		return cat([]byte{alg}, deflate(alg == 1, inner, g.oneOf(0, 1, 9, -1)))
	case 3:
		return cat([]byte{alg}, bzip(inner))
	}
	return cat([]byte{alg}, inner)
}

var allTags = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 60, 63}

func (g *G) body(tag, depth int) []byte {
	switch tag {
	case 1:
		return g.pubEsk()
	case 2:
		return g.sig(1 + depth)
	case 3:
		return g.symEsk()
	case 4:
		return g.onePass()
	case 5, 7:
		return g.secKey()
	case 6, 14:
		return g.pubKey()
	case 8:
		if depth > 0 {
			return g.compressed(depth - 1)
		}
		return g.compress(0, nil)
	case 9, 18:
		return g.bytes(g.oneOf(0, 1, 2, 20, 100))
	case 10:
		return g.pickB([]byte("PGP"), g.bytes(g.Intn(10)), nil)
	case 11:
		return g.literal()
	case 13:
		return g.text(300)
	case 17:
		return g.attribute()
	case 19:
		return g.bytes(20)
	case 20:
		return g.aead()
	}
	return g.bytes(g.oneOf(0, 1, 2, 6, 12, 40))
}

func (g *G) anyTag() int {
	if g.chance(0.06) {
		return g.Intn(64)
	}
	return allTags[g.Intn(len(allTags))]
}

// a complete stream of n packets
func (g *G) stream(n, depth int) []byte {
	out := []byte{}
	for i := 0; i < n; i++ {
		t := g.anyTag()
		out = append(out, g.pkt(t, g.body(t, depth), g.anyForm(i == n-1))...)
	}
	return out
}

// damage: cut, grow or flip
func (g *G) damage(b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	c := append([]byte{}, b...)
	switch g.Intn(6) {
	case 0, 1:
		return c[:g.Intn(len(c))]
	case 2:
		c[g.Intn(len(c))] = g.octet()
	case 3:
		c[g.Intn(len(c))] ^= byte(1 << g.Intn(8))
	case 4:
		i := g.Intn(len(c))
		return cat(c[:i], g.bytes(1+g.Intn(3)), c[i:])
	default:
		i := g.Intn(len(c))
		j := i + 1 + g.Intn(4)
		if j > len(c) {
			j = len(c)
		}
		return cat(c[:i], c[j:])
	}
	return c
}
