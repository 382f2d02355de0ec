package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- C20: histories of the byte cursor -----------------------------------------------------

const far = 2000000000

type curOp struct {
	Op   string `json:"op"`
	A    int64  `json:"a"`
	B    int64  `json:"b"`
	Raw  string `json:"raw"`
	N    int64  `json:"n"`
	Data []int  `json:"data"`
	Text string `json:"text"`
	Err  string `json:"err"`
	Rest int64  `json:"rest"`
	Size int64  `json:"size"`
	Len  int    `json:"len"`
	Out  string `json:"out"`
}

type curTrace struct {
	ID   int      `json:"id"`
	Kind string   `json:"kind"`
	Buf  []int    `json:"buf"`
	Far  int      `json:"far"`
	Ops  []*curOp `json:"ops"`
}

func clamp(x int64) int64 {
	if x > far {
		return far
	}
	if x < -far {
		return -far
	}
	return x
}

type failing struct{ n int }

func (f failing) Write(p []byte) (int, error) {
	if len(p) < f.n {
		return len(p), nil
	}
	return f.n, errors.New("disk full")
}

func classify(err error) string {
	if err == nil {
		return ""
	}
	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
		return "eod"
	}
	return "other"
}

// doCursor performs an operation with the real arguments a, b and writes down the answer
func doCursor(r *reader.Reader, op string, a, b int64, n int) *curOp {
	o := &curOp{Op: op, A: clamp(a), B: clamp(b), Raw: fmt.Sprintf("%d %d", a, b), Data: []int{}}
	oc := guarded(func() (*result.Info, error) {
		var err error
		switch op {
		case "Read", "ReadAt":
			p := make([]byte, a)
			var k int
			if op == "Read" {
				k, err = r.Read(p)
			} else {
				k, err = r.ReadAt(p, b)
			}
			o.N = int64(k)
			if err != nil && bytes.Equal(p, make([]byte, a)) && k == 0 {
				p = nil
			} else if k >= 0 && k <= len(p) && err == nil {
				p = p[:k]
			}
			o.Data = ints(p)
		case "ReadBytes":
			var d []byte
			d, err = r.ReadBytes(a)
			o.Data = ints(d)
		case "ReadByte":
			var c byte
			c, err = r.ReadByte()
			if err == nil || c != 0 {
				o.Data = []int{int(c)}
			}
		case "Seek":
			o.N, err = r.Seek(a, int(b))
			o.N = clamp(o.N)
		case "Read2EOF":
			var d []byte
			d, err = r.Read2EOF()
			o.Data = ints(d)
		case "WriteTo":
			var w bytes.Buffer
			if a == 0 {
				o.N, err = r.WriteTo(&w)
				o.Data = ints(w.Bytes())
			} else {
				o.N, err = r.WriteTo(failing{int(a - 1)})
			}
		case "DumpString":
			o.Text = r.DumpString(a)
		case "GetBody":
			o.Data = ints(r.GetBody())
		}
		o.Err = classify(err)
		o.Rest, o.Size, o.Len = clamp(r.Rest()), r.Size(), r.Len()
		return nil, nil
	})
	o.Out = oc.Out
	return o
}

// place says where in buf the octets p are: [from, number], [-1, number] if nowhere
func place(buf, p []byte) []int {
	if len(p) == 0 {
		return []int{}
	}
	k := len(p)
	if k > 16 {
		k = 16
	} else if bytes.HasSuffix(buf, p) {
		return []int{len(buf) - k, k}
	}
	if i := bytes.Index(buf, p[:k]); i >= 0 && i+len(p) <= len(buf) && bytes.Equal(buf[i:i+len(p)], p) {
		return []int{i, len(p)}
	}
	return []int{-1, len(p)}
}

// doFar performs an operation on a large buffer
func doFar(r *reader.Reader, buf []byte, op string, a, b int64) *curOp {
	o := &curOp{Op: op, A: clamp(a), B: clamp(b), Raw: fmt.Sprintf("%d %d", a, b), Data: []int{}}
	oc := guarded(func() (*result.Info, error) {
		var err error
		switch op {
		case "Read", "ReadAt":
			p := make([]byte, a)
			var k int
			if op == "Read" {
				k, err = r.Read(p)
			} else {
				k, err = r.ReadAt(p, b)
			}
			o.N = int64(k)
			if k >= 0 && k <= len(p) {
				p = p[:k]
			}
			o.Data = place(buf, p)
		case "ReadBytes":
			var d []byte
			d, err = r.ReadBytes(a)
			o.Data = place(buf, d)
		case "Seek":
			o.N, err = r.Seek(a, int(b))
			o.N = clamp(o.N)
		case "Read2EOF":
			var d []byte
			d, err = r.Read2EOF()
			o.Data = place(buf, d)
		case "WriteTo":
			var w bytes.Buffer
			o.N, err = r.WriteTo(&w)
			o.Data = place(buf, w.Bytes())
		case "DumpString":
			s := r.DumpString(a)
			d := make([]byte, 0, len(s)/3+1)
			hex := func(c byte) int { return strings.IndexByte("0123456789abcdef", c) }
			for i := 0; i < len(s); i += 3 {
				if i+2 > len(s) || hex(s[i]) < 0 || hex(s[i+1]) < 0 || (i+2 < len(s) && (s[i+2] != ' ' || i+3 == len(s))) {
					o.Data = []int{-2, i}
					return nil, nil
				}
				d = append(d, byte(hex(s[i])<<4|hex(s[i+1])))
			}
			o.Data = place(buf, d)
		case "GetBody":
			o.Data = place(buf, r.GetBody())
		}
		o.Err = classify(err)
		o.Rest, o.Size, o.Len = clamp(r.Rest()), r.Size(), r.Len()
		return nil, nil
	})
	o.Out = oc.Out
	return o
}

func farSizes(g *G) []int {
	out := []int{1 << 16, 1 << 20, 1 << 24, 1<<24 + 1, 1<<25 + 13, 40 << 20}
	for _, n := range nearConstants(70000, 64<<20) {
		if g.chance(0.4) {
			out = append(out, n)
		}
	}
	return out
}

// real picks the number a clamped argument stands for
func (g *G) real(x int64) int64 {
	switch x {
	case far:
		return []int64{math.MaxInt64, math.MaxInt64 - int64(g.Intn(10)), 1 << 32, 1<<32 + int64(g.Intn(4)), math.MaxInt32 + 1, 1 << 40, 1 << 62, 1<<63 - 256}[g.Intn(8)]
	case -far:
		return []int64{math.MinInt64, math.MinInt64 + int64(g.Intn(10)), -1 << 32, -(1<<32 + int64(g.Intn(4))), math.MinInt32 - 1, -1 << 40}[g.Intn(6)]
	}
	return x
}

func cursorCmd() {
	g := newG(20)
	traces := []*curTrace{}
	kinds := map[string]int{}
	put := func(t *curTrace) { traces = append(traces, t); kinds[t.Kind]++ }
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var h struct {
			Size int     `json:"size"`
			Ops  []curOp `json:"ops"`
		}
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			fatal(err)
		}
		b := nonzero(g, h.Size)
		r := reader.New(append([]byte{}, b...))
		t := &curTrace{ID: len(traces), Kind: "emitted", Buf: ints(b)}
		for _, o := range h.Ops {
			a := o.A
			if o.Op == "WriteTo" && a == 1 && h.Size > 0 {
				a = int64(1 + g.Intn(h.Size))
			}
			t.Ops = append(t.Ops, doCursor(r, o.Op, g.real(a), g.real(o.B), h.Size))
		}
		put(t)
	}
	f.Close()
	names := []string{"Read", "ReadBytes", "ReadBytes", "ReadByte", "ReadAt", "Seek", "Seek", "Read2EOF", "WriteTo", "DumpString", "GetBody"}
	for i := 0; i < scale(1500, 15000); i++ {
		n := g.oneOf(0, 1, 2, 3, 8, 40, 300, g.nearConstant(0, 1100, 12))
		kind, long := "random", 40
		if i < scale(40, 400) { // longer buffers, around powers of two
			n = []int{127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, g.nearConstant(500, 100000, 70000)}[i%22] + g.oneOf(0, 0, 1, -1)
			kind, long = "long buffer", 6
		}
		b := nonzero(g, n)
		r := reader.New(append([]byte{}, b...))
		t := &curTrace{ID: len(traces), Kind: kind, Buf: ints(b)}
		num := func() int64 {
			switch g.Intn(8) {
			case 0:
				return g.real(far)
			case 1:
				return g.real(-far)
			case 2:
				return int64(-g.Intn(n + 3))
			case 3, 4:
				return int64(g.Intn(4))
			}
			if g.chance(0.2) {
				return int64(g.nearConstant(0, int64(n)+2, 0))
			}
			return int64(g.Intn(n + 3))
		}
		for k := 1 + g.Intn(long); k > 0; k-- {
			op := names[g.Intn(len(names))]
			a, b := num(), num()
			switch op {
			case "Read", "ReadAt":
				a = int64(g.oneOf(0, 1, 2, g.Intn(n+3), n, n+1))
				if g.chance(0.3) {
					b = int64(g.Intn(n + 1))
				}
			case "Seek":
				b = int64(g.oneOf(0, 0, 1, 1, 2, 2, 3, -1, 1<<20))
			case "WriteTo":
				a = 0
				if n > 0 && g.chance(0.3) {
					a = int64(1 + g.Intn(n))
				}
			}
			t.Ops = append(t.Ops, doCursor(r, op, a, b, n))
		}
		put(t)
	}
	// large buffers: no sixteen octets occur twice
	sizes := farSizes(g)
	whole := make([]byte, 100<<20)
	for i := 0; i < len(whole); i += 8 {
		binary.LittleEndian.PutUint64(whole[i:], (uint64(i)+0x9e3779b97f4a7c15)*0xbf58476d1ce4e5b9)
	}
	for i := 0; i < scale(60, 400); i++ {
		n := sizes[i%len(sizes)] + g.oneOf(0, 0, 1, -1, 100)
		buf := whole[:n]
		r := reader.New(buf)
		t := &curTrace{ID: len(traces), Kind: "large buffer", Far: n, Buf: []int{}}
		num := func() int64 {
			k := g.oneOf(0, 16, n, n-1, n+1, n/2, n-16, g.Intn(n), g.Intn(n), sizes[g.Intn(len(sizes))])
			return int64(k)
		}
		for k := 1 + g.Intn(5); k > 0; k-- {
			op := g.pick("Read", "Read", "ReadBytes", "ReadBytes", "ReadAt", "Seek", "Seek", "Read2EOF", "WriteTo", "DumpString", "GetBody")
			a, b := num(), num()
			switch op {
			case "Read", "ReadAt", "ReadBytes":
				if a < 16 && a > 0 {
					a = 16
				}
			case "Seek":
				if g.chance(0.3) {
					a = -a
				}
				b = int64(g.oneOf(0, 0, 1, 1, 2, 2, 3, -1))
				// a seek leaves sixteen octets or none, so that what is read can be placed
				if b == 0 && a > int64(n)-16 && a < int64(n) {
					a = int64(n) - 16
				}
			case "WriteTo":
				a = 0
			case "DumpString":
				if int64(n)-a > 1<<21 && g.chance(0.8) {
					a = int64(n) - int64(g.oneOf(16, 70000, 1<<20))
				}
				if a > int64(n)-16 && a < int64(n) {
					a = int64(n) - 16
				}
			}
			t.Ops = append(t.Ops, doFar(r, buf, op, a, b))
		}
		put(t)
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func nonzero(g *G, n int) []byte {
	b := g.bytes(n)
	for i := range b {
		if b[i] == 0 {
			b[i] = byte(1 + g.Intn(255))
		}
	}
	return b
}

func init() { commands["cursor"] = cursorCmd }
