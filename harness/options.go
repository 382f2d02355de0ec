package main

// C12: histories of option sets.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

type optSet struct {
	Name string `json:"name"`
	How  string `json:"how"`
	Flag bool   `json:"flag"`
}

type optCall struct {
	Op string `json:"op"`
	C  int    `json:"c"`
	optSet
	With []optSet `json:"with"`

	Out   string     `json:"out"`
	Get   [][]string `json:"get"`
	Acts  [][]string `json:"acts"`
	Err   bool       `json:"err"`
	Shows []string   `json:"shows"`
}

type optTrace struct {
	ID   int        `json:"id"`
	Kind string     `json:"kind"`
	Ops  []*optCall `json:"ops"`
}

// the code or name of an option; "other" is one that does not exist
func (g *G) optFunc(o optSet) context.OptFunc {
	if o.Name == "other" {
		if o.How == "code" {
			return context.Set(context.OptCode(g.oneOf(0, -1, 10, 11, 64, 1<<30)), o.Flag)
		}
		return context.SetByString(g.pick("", "other", "armour", "lit", "debugg", "utc ", "-u", "unknown", "json"), o.Flag)
	}
	if o.How == "code" {
		return context.Set(optCodes[o.Name], o.Flag)
	}
	n := o.Name
	if g.chance(0.4) {
		n = g.flipCase(n)
	}
	return context.SetByString(n, o.Flag)
}

// probe has one of each kind of optional data
func probe() []byte {
	g := newG(121)
	at := []byte{0x5f, 0, 0, 0}
	c := bytes.Repeat([]byte{0xc1, 0xc2}, 32)
	h := cat(g.sub(2, at), g.sub(37, c))
	return cat(g.pkt(6, cat([]byte{4}, at, []byte{1}, mpi(24, []byte{0xa1, 0xa2, 0xa3}), mpi(2, []byte{3})), hNew1),
		g.pkt(2, cat([]byte{4, 0x13, 1, 10}, u16(len(h)), h, u16(0), []byte{0xab, 0xcd}, mpi(24, []byte{0xa1, 0xa2, 0xa3})), hNew1),
		g.pkt(11, cat([]byte{'b', 0}, at, []byte{0xb1, 0xb2, 0xb3}), hNew1),
		g.pkt(10, []byte{0xd1, 0xd2, 0xd3}, hNew1), g.pkt(60, []byte{0xe1, 0xe2, 0xe3}, hNew1))
}

func probeShows(text string) []string {
	out := []string{}
	n := map[string]int{}
	for _, l := range strings.Split(text, "\n") {
		n[strings.TrimSpace(l)]++
	}
	is := func(name string, yes bool) {
		if yes {
			out = append(out, name)
		}
	}
	is("cert", n[strings.TrimSpace(strings.Repeat("c1 c2 ", 32))] > 0)
	is("int", n["a1 a2 a3"] == 2)
	is("literal", n["b1 b2 b3"] > 0)
	is("marker", n["d1 d2 d3"] > 0)
	is("private", n["e1 e2 e3"] > 0)
	is("utc", strings.Count(text, "2020-07-04T04:05:20Z") == 3)
	is("local", strings.Count(text, "2020-07-04T09:35:20+05:30") != 3 && strings.Count(text, "2020-07-04T04:05:20Z") != 3) // neither: never expected
	return out
}

type optWorld struct{ cs []*context.Context }

func (w *optWorld) observe(o *optCall) {
	for _, c := range w.cs {
		get, acts := []string{}, []string{}
		for _, n := range optNames {
			if c.Get(optCodes[n]) {
				get = append(get, n)
			}
		}
		for _, a := range []struct {
			n string
			f bool
		}{{"armor", c.Armor()}, {"cert", c.Cert()}, {"debug", c.Debug()}, {"gdump", c.GDump()}, {"int", c.Integer()}, {"literal", c.Literal()},
			{"marker", c.Marker()}, {"private", c.Private()}, {"utc", c.UTC()}} {
			if a.f {
				acts = append(acts, a.n)
			}
		}
		o.Get, o.Acts = append(o.Get, get), append(o.Acts, acts)
	}
}

func (g *G) optDo(w *optWorld, o optCall, data []byte) *optCall {
	r := &optCall{Op: o.Op, C: o.C, optSet: o.optSet, With: o.With, Out: "returned", Get: [][]string{}, Acts: [][]string{}, Shows: []string{}}
	if r.With == nil {
		r.With = []optSet{}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Out = "panicked"
			}
		}()
		switch o.Op {
		case "new":
			fs := []context.OptFunc{}
			for _, x := range o.With {
				fs = append(fs, g.optFunc(x))
			}
			w.cs = append(w.cs, context.New(fs...))
		case "set":
			if o.How == "code" && o.Name != "other" && g.chance(0.7) {
				w.cs[o.C-1].Set(optCodes[o.Name], o.Flag)
			} else {
				g.optFunc(o.optSet)(w.cs[o.C-1])
			}
		case "dump":
			p, err := parse.New(w.cs[o.C-1], bytes.NewReader(data))
			if err != nil {
				r.Err = true
				break
			}
			info, err := p.Parse()
			if err != nil {
				r.Err = true
				break
			}
			r.Shows = probeShows(info.ToString("\t").String())
		}
	}()
	if r.Out == "returned" {
		w.observe(r)
	}
	return r
}

func optionsCmd() {
	g := newG(1212)
	time.Local = sesZone
	data := probe()
	traces := []*optTrace{}
	kinds := map[string]int{}
	put := func(kind string, ops []optCall) {
		t := &optTrace{ID: len(traces), Kind: kind}
		w := &optWorld{}
		for _, o := range ops {
			r := g.optDo(w, o, data)
			t.Ops = append(t.Ops, r)
			if r.Out != "returned" {
				break
			}
		}
		traces = append(traces, t)
		kinds[kind]++
	}
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var calls []optCall
		if err := json.Unmarshal(sc.Bytes(), &calls); err != nil {
			fatal(err)
		}
		for i := range calls {
			calls[i].C = 1
		}
		// some of the settings when the set is made, the others afterwards
		k := 0
		if g.chance(0.3) {
			k = 1 + g.Intn(len(calls))
		}
		with := []optSet{}
		for _, c := range calls[:k] {
			with = append(with, c.optSet)
		}
		ops := append([]optCall{{Op: "new", With: with}}, calls[k:]...)
		put("emitted", append(ops, optCall{Op: "dump", C: 1}))
	}
	f.Close()
	set := func(c int) optCall {
		n := optNames[g.Intn(len(optNames))]
		if g.chance(0.07) {
			n = "other"
		}
		return optCall{Op: "set", C: c, optSet: optSet{n, g.pick("code", "name"), g.chance(0.55)}}
	}
	for i := 0; i < scale(1200, 12000); i++ {
		ops := []optCall{}
		n := 0
		for k := 2 + g.Intn(24); k > 0; k-- {
			switch {
			case n == 0 || n < 4 && g.chance(0.12):
				w := []optSet{}
				for j := g.Intn(5); j > 0; j-- {
					w = append(w, set(0).optSet)
				}
				ops = append(ops, optCall{Op: "new", With: w})
				n++
			case g.chance(0.2):
				ops = append(ops, optCall{Op: "dump", C: 1 + g.Intn(n)})
			default:
				ops = append(ops, set(1+g.Intn(n)))
			}
		}
		put("random", ops)
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func init() { commands["options"] = optionsCmd }
