package main

import (
	"bufio"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/json"
	"os"
)

// Compositions emitted by the specification, turned into octets whose fields refer to each other.

type keyRef struct {
	alg     byte
	ver     byte
	created []byte
	fp, id  []byte
}

type opsRef struct {
	ty, hash byte
	key      keyRef
}

type composer struct {
	g       *G
	linked  float64 // how often a field that could refer to another one does
	known   []keyRef
	primary keyRef
	sub     keyRef
	ops     []opsRef
	last    map[string][]byte
}

func newComposer(g *G) *composer {
	c := &composer{g: g, linked: []float64{1, 1, 0.5, 0}[g.Intn(4)], last: map[string][]byte{}}
	for i := 0; i < 2; i++ {
		alg := g.pubAlg()
		c.known = append(c.known, c.ref(cat([]byte{4}, g.pubFields(4, alg)), alg))
	}
	c.primary, c.sub = c.known[0], c.known[1]
	return c
}

// ref: the key of a public key packet body
func (c *composer) ref(body []byte, alg byte) keyRef {
	k := keyRef{alg: alg, ver: body[0], created: c.g.when()}
	if len(body) >= 5 {
		k.created = body[1:5]
	}
	if k.ver == 5 {
		h := sha256.Sum256(cat([]byte{0x9a}, u32(uint32(len(body))), body))
		k.fp = h[:]
		k.id = k.fp[:8]
	} else {
		h := sha1.Sum(cat([]byte{0x99}, u16(len(body)), body))
		k.fp = h[:]
		k.id = k.fp[12:]
	}
	return k
}

func (c *composer) link() bool { return c.g.chance(c.linked) }

func (c *composer) keyOf(k keyRef) keyRef {
	if c.link() {
		return k
	}
	if c.link() {
		return c.known[c.g.Intn(len(c.known))]
	}
	g := c.g
	return keyRef{alg: g.pubAlg(), ver: 4, created: g.when(), fp: g.bytes(20), id: g.bytes(8)}
}

// later: a time some days after another
func (c *composer) later(t []byte) []byte {
	if !c.link() {
		return c.g.when()
	}
	n := uint32(t[0])<<24 | uint32(t[1])<<16 | uint32(t[2])<<8 | uint32(t[3])
	return u32(n + uint32(c.g.oneOf(0, 0, 1, 86400, 86400*30)))
}

func (c *composer) signature(ty, hash byte, by keyRef, depth int) []byte {
	g := c.g
	k := c.keyOf(by)
	when := c.later(by.created)
	switch g.Intn(10) {
	case 0:
		return cat([]byte{3, 5, ty}, when, k.id, []byte{k.alg, hash}, g.bytes(2), g.sigMaterial(k.alg))
	}
	v := byte(4)
	if k.ver == 5 || g.chance(0.1) {
		v = 5
	}
	subs := [][]byte{g.sub(33, cat([]byte{k.ver}, k.fp)), g.sub(2|crit(g), when), g.sub(16, k.id)}
	if g.chance(0.3) {
		subs[0], subs[2] = subs[2], subs[0]
	}
	more := [][]byte{}
	for _, t := range []byte{27, 9, 3, 11, 21, 22, 30, 23, 25, 34, 20, 28, 35, 12, 31, 29} {
		if g.chance(0.2) {
			b := g.subBody(t, 0)
			switch {
			case t == 12 && c.link():
				b = cat([]byte{0x80, k.alg}, c.known[g.Intn(len(c.known))].fp)
			case t == 35 && c.link():
				o := c.known[g.Intn(len(c.known))]
				b = cat([]byte{o.ver}, o.fp)
			case t == 28 && c.link() && c.last["uid"] != nil:
				b = c.last["uid"]
			case t == 27 && g.chance(0.5):
				b = []byte{byte(1 << uint(g.Intn(8)))}
			}
			more = append(more, g.sub(t|crit(g), b))
		}
	}
	if ty == 0x18 && depth > 0 && g.chance(0.5) { // the subkey's own signature
		more = append(more, g.sub(32, c.signature(0x19, hash, c.sub, 0)))
	}
	var hashed, unhashed []byte
	for _, s := range append(subs, more...) {
		switch g.Intn(4) {
		case 0:
			unhashed = append(unhashed, s...)
		default:
			hashed = append(hashed, s...)
		}
	}
	return cat([]byte{v, ty, k.alg, hash}, u16(len(hashed)), hashed, u16(len(unhashed)), unhashed, g.bytes(2), g.sigMaterial(k.alg))
}

func (c *composer) hash() byte { return byte(c.g.oneOf(1, 2, 8, 9, 10)) }

func (c *composer) body(sym string) (int, []byte) {
	g := c.g
	switch sym {
	case "pk", "psub":
		v, alg := byte(g.oneOf(4, 4, 4, 3, 5)), g.pubAlg()
		b := cat([]byte{v}, g.pubFields(v, alg))
		k := c.ref(b, alg)
		if sym == "pk" {
			c.primary = k
			c.known = append(c.known, k)
			return 6, b
		}
		c.sub = k
		c.known = append(c.known, k)
		return 14, b
	case "sk", "ssub":
		b, n, alg := g.secKeyParts()
		k := c.ref(b[:n], alg)
		c.known = append(c.known, k)
		if sym == "sk" {
			c.primary = k
			return 5, b
		}
		c.sub = k
		return 7, b
	case "uid":
		b := g.text(40)
		if c.last["uid"] != nil && g.chance(0.2) {
			b = c.last["uid"]
		}
		c.last["uid"] = b
		return 13, b
	case "attribute":
		return 17, g.attribute()
	case "trust":
		return 12, g.bytes(g.oneOf(0, 2, 6, 12))
	case "marker":
		return 10, []byte("PGP")
	case "direct":
		return 2, c.signature(0x1f, c.hash(), c.primary, 1)
	case "revocation":
		return 2, c.signature(0x20, c.hash(), c.primary, 1)
	case "cert":
		return 2, c.signature(byte(g.oneOf(0x10, 0x11, 0x12, 0x13)), c.hash(), c.primary, 1)
	case "certrevocation":
		return 2, c.signature(0x30, c.hash(), c.primary, 1)
	case "bind":
		return 2, c.signature(0x18, c.hash(), c.primary, 1)
	case "subrevocation":
		return 2, c.signature(0x28, c.hash(), c.primary, 1)
	case "sig":
		return 2, c.signature(byte(g.oneOf(0, 1)), c.hash(), c.known[g.Intn(len(c.known))], 1)
	case "ops":
		o := opsRef{byte(g.oneOf(0, 1)), c.hash(), c.known[g.Intn(len(c.known))]}
		c.ops = append(c.ops, o)
		nested := byte(1)
		if len(c.ops) > 1 || g.chance(0.2) {
			nested = byte(g.oneOf(0, 0, 1))
		}
		return 4, cat([]byte{3, o.ty, o.hash, o.key.alg}, o.key.id, []byte{nested})
	case "close":
		o := c.ops[len(c.ops)-1]
		c.ops = c.ops[:len(c.ops)-1]
		if !c.link() {
			o.ty, o.hash = g.sigType(), c.hash()
		}
		return 2, c.signature(o.ty, o.hash, o.key, 1)
	case "pkesk":
		k := c.keyOf(c.known[g.Intn(len(c.known))])
		id := k.id
		if g.chance(0.1) {
			id = make([]byte, 8)
		}
		return 1, cat([]byte{3}, id, []byte{k.alg}, g.sesMaterial(k.alg))
	case "skesk":
		return 3, g.symEsk()
	case "sed":
		return 9, g.bytes(g.Intn(30))
	case "seipd":
		return 18, cat([]byte{1}, g.bytes(g.Intn(30)))
	case "aead":
		return 20, g.aead()
	case "literal":
		return 11, g.literal()
	}
	fatal(os.ErrInvalid)
	return 0, nil
}

// stream: the octets of the symbols up to the matching bracket, and what is left of them
func (c *composer) stream(syms []string) ([]byte, []string) {
	g := c.g
	out := []byte{}
	for len(syms) > 0 && syms[0] != ")" {
		var tag int
		var body []byte
		if syms[0] == "(" {
			in, rest := c.stream(syms[1:])
			tag, body, syms = 8, g.compress(byte(g.Intn(4)), in), rest[1:]
		} else {
			tag, body = c.body(syms[0])
			syms = syms[1:]
		}
		p := g.pkt(tag, body, g.anyForm(len(syms) == 0 || syms[0] == ")"))
		out = append(out, p...)
	}
	return out, syms
}

func composedCases(path string) []Case {
	g := newG(88)
	f, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	cs := []Case{}
	r := bufio.NewScanner(f)
	for r.Scan() {
		var syms []string
		if err := json.Unmarshal(r.Bytes(), &syms); err != nil {
			fatal(err)
		}
		d, _ := newComposer(g).stream(syms)
		kind := "composition"
		if *fProp == "C03" && g.chance(0.6) {
			d, kind = g.damage(d), "damaged composition"
		}
		cs = append(cs, Case{Kind: kind, Data: d, Opt: g.opts()})
	}
	return cs
}
