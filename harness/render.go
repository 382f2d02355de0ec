package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// RItem is an entry with its dump as a string.
type RItem struct {
	N string   `json:"n"`
	V string   `json:"v"`
	T string   `json:"t"`
	D string   `json:"d"`
	C []*RItem `json:"c"`
}

type rText struct {
	Indent string `json:"indent"`
	Out    string `json:"out"`
}

type rCli struct {
	N   int    `json:"n"`
	Out string `json:"out"`
}

type rJSON struct {
	N     int      `json:"n"`
	Valid bool     `json:"valid"`
	Es    []*RItem `json:"es"`
	Step  int      `json:"step"`
	Via   string   `json:"via"`
}

type rTrace struct {
	ID    int      `json:"id"`
	Kind  string   `json:"kind"`
	Es    []*RItem `json:"es"`
	Texts []rText  `json:"texts"`
	Cli   []rCli   `json:"cli"`
	Jsons []rJSON  `json:"jsons"`
	Out   string   `json:"out"`
}

func ritems(is []*result.Item) []*RItem {
	out := []*RItem{}
	for _, i := range is {
		out = append(out, &RItem{esc(i.Name), esc(i.Value), esc(i.Note), esc(i.Dump), ritems(i.Items)})
	}
	return out
}

// unrender decodes a JSON output strictly: only the documented keys, strings and lists.
func unrender(b []byte) (es []*RItem, ok bool) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.DisallowUnknownFields()
	type jitem struct {
		Name  *string         `json:"name"`
		Value string          `json:"value"`
		Dump  string          `json:"dump"`
		Note  string          `json:"note"`
		Item  json.RawMessage `json:"Item"`
	}
	var top map[string]json.RawMessage
	if err := dec.Decode(&top); err != nil {
		return nil, false
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, false
	}
	for k := range top {
		if k != "Packet" {
			return nil, false
		}
	}
	var list func(raw json.RawMessage) ([]*RItem, bool)
	list = func(raw json.RawMessage) ([]*RItem, bool) {
		out := []*RItem{}
		if raw == nil {
			return out, true
		}
		var js []*jitem
		d := json.NewDecoder(bytes.NewReader(raw))
		d.DisallowUnknownFields()
		if err := d.Decode(&js); err != nil {
			return nil, false
		}
		for _, j := range js {
			if j == nil || j.Name == nil {
				return nil, false
			}
			c, ok := list(j.Item)
			if !ok {
				return nil, false
			}
			out = append(out, &RItem{esc(*j.Name), esc(j.Value), esc(j.Note), esc(j.Dump), c})
		}
		return out, true
	}
	return list(top["Packet"])
}

// jsonStep: indentation per level; 0 for a single line, -1 when it is not uniform
func jsonStep(b []byte) int {
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if len(lines) == 1 {
		return 0
	}
	depth, step := 0, -2
	for _, l := range lines {
		body := strings.TrimLeft(l, " ")
		in := len(l) - len(body)
		d := depth
		if strings.HasPrefix(body, "}") || strings.HasPrefix(body, "]") {
			d--
		}
		if d > 0 {
			if in%d != 0 || (step != -2 && in/d != step) {
				return -1
			}
			step = in / d
		} else if in != 0 {
			return -1
		}
		if strings.HasSuffix(body, "{") || strings.HasSuffix(body, "[") {
			depth = d + 1
		} else {
			depth = d
		}
	}
	return step
}

func readJSONOut(b []byte, n int, via string) rJSON {
	es, ok := unrender(b)
	if es == nil {
		es = []*RItem{}
	}
	return rJSON{N: n, Valid: ok && json.Valid(b), Es: es, Step: jsonStep(b), Via: via}
}

var textIndents = []string{"\t", "", " ", "  ", "    ", "--"}

func rrecord(id int, kind string, info *result.Info, g *G) *rTrace {
	t := &rTrace{ID: id, Kind: kind, Es: ritems(info.Packets), Texts: []rText{}, Cli: []rCli{}, Jsons: []rJSON{}}
	o := guarded(func() (*result.Info, error) {
		t.Texts = append(t.Texts, rText{esc("\t"), esc(info.String())})
		// renderings may be read in any order
		late := []func(){}
		for _, in := range textIndents {
			if in := in; g.chance(0.4) {
				b := info.ToString(in)
				late = append(late, func() { t.Texts = append(t.Texts, rText{esc(in), esc(b.String())}) })
			}
		}
		for _, n := range []int{0, 2, 1 + g.Intn(8), -1, g.nearConstant(1, 300, 9)} {
			n := n
			r, err := info.JSON(n)
			if err != nil {
				t.Jsons = append(t.Jsons, rJSON{N: n, Es: []*RItem{}, Via: err.Error()})
				continue
			}
			late = append(late, func() {
				b, _ := io.ReadAll(r)
				t.Jsons = append(t.Jsons, readJSONOut(b, n, "api"))
			})
		}
		g.Shuffle(len(late), func(i, j int) { late[i], late[j] = late[j], late[i] })
		for _, f := range late {
			f()
		}
		if len(info.Packets) == 1 {
			t.Texts = append(t.Texts, rText{esc("\t"), esc(info.Packets[0].String())})
		}
		return info, nil
	})
	t.Out = o.Out
	return t
}

// anyItem: some entry of a tree
func (g *G) anyItem(is []*result.Item) *result.Item {
	for {
		if len(is) == 0 {
			return nil
		}
		it := is[g.Intn(len(is))]
		if len(it.Items) == 0 || g.chance(0.4) {
			return it
		}
		is = it.Items
	}
}

// alter changes a tree in one place
func (g *G) alter(info *result.Info) {
	it := g.anyItem(info.Packets)
	switch k := g.Intn(8); {
	case it == nil || k == 0:
		info.Add(buildItem(g.ritem(g.Intn(2))))
	case k == 1:
		it.Name = g.label(false)
	case k == 2:
		it.Value = g.label(true)
	case k == 3:
		it.Note = g.label(true)
	case k == 4:
		it.Dump = g.pick("", "00", "0f 1e 2d")
	case k == 5:
		info.Packets = info.Packets[:len(info.Packets)-1]
	default:
		it.Add(buildItem(g.ritem(g.Intn(2))))
	}
}

func buildItem(r *RItem) *result.Item {
	it := result.NewItem(result.Name(r.N), result.Value(r.V), result.Note(r.T), result.DumpStr(r.D))
	for _, c := range r.C {
		it.Add(buildItem(c))
	}
	return it
}

func (g *G) label(may bool) string {
	if may && g.chance(0.4) {
		return ""
	}
	if g.chance(0.1) {
		if t := g.codeText(); t != "" && printable(t) {
			return t
		}
	}
	return g.pick("x", "Key ID", "a: b", "(note)", "a (b)", " lead", "trail ", "<&>'\"", "back\\slash", "\u65e5\u672c\u8a9e", "\u2028\u2029", "e\u0301", "%s%d%!", "1 2 3",
		"{\"a\":[1]}", "\U0001f511", "0", "null", "\ufeffbom", string(g.runes(1+g.Intn(12))))
}

func printable(t string) bool {
	for _, r := range t {
		if !unicode.IsPrint(r) || r == utf8.RuneError {
			return false
		}
	}
	return true
}

func (g *G) runes(n int) []rune {
	r := make([]rune, n)
	for i := range r {
		r[i] = rune(g.oneOf(32+g.Intn(95), 0xa0+g.Intn(0x300), 0x3000+g.Intn(0x200), 0x1f300+g.Intn(100), 0xfffd, '<', '>', '&', '"', '\\'))
	}
	return r
}

func (g *G) ritem(depth int) *RItem {
	r := &RItem{N: g.label(false), V: g.label(true), T: g.label(true)}
	if g.chance(0.5) {
		for i := g.Intn(9); i >= 0; i-- {
			r.D += strings.Repeat("0", g.Intn(2)) + strconv.Itoa(g.Intn(10)) + " "
		}
	}
	if depth > 0 {
		for i := g.Intn(4); i > 0; i-- {
			r.C = append(r.C, g.ritem(depth-1))
		}
	}
	return r
}

func renderCmd() {
	g := newG(13)
	traces := []*rTrace{}
	kinds := map[string]int{}
	put := func(t *rTrace) { traces = append(traces, t); kinds[t.Kind]++ }
	if *fIn != "" {
		f, err := os.Open(*fIn)
		if err != nil {
			fatal(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var rs []*RItem
			if err := json.Unmarshal(sc.Bytes(), &rs); err != nil {
				fatal(err)
			}
			info := result.New()
			for _, r := range rs {
				info.Add(buildItem(r))
			}
			put(rrecord(len(traces), "emitted tree", info, g))
		}
		f.Close()
	}
	put(rrecord(len(traces), "empty", result.New(), g))
	for i := 0; i < scale(400, 3000); i++ {
		info := result.New()
		for k := g.Intn(4); k > 0; k-- {
			info.Add(buildItem(g.ritem(g.Intn(5))))
		}
		put(rrecord(len(traces), "synthetic tree", info, g))
	}
	// renderings of a result that changes between them
	for i := 0; i < scale(60, 500); i++ {
		info := result.New()
		for k := g.Intn(4); k > 0; k-- {
			info.Add(buildItem(g.ritem(g.Intn(3))))
		}
		for k := 0; k < 5; k++ {
			put(rrecord(len(traces), "changing tree", info, g))
			for j := 1 + g.Intn(2); j > 0; j-- {
				g.alter(info)
			}
		}
	}
	// deep chains and wide levels
	for _, n := range []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 64, 65, 100, -1, -2, -3, -4, -5, -6, -7, -8} {
		if n < 0 { // the numbers of the code
			n = g.nearConstant(5, 110, 21) // TLC reads JSON up to 255 levels, two for each item
		}
		info := result.New()
		root := g.ritem(0)
		at := root
		for k := 1; k < n; k++ {
			next := g.ritem(0)
			if g.chance(0.2) {
				at.C = append(at.C, g.ritem(1))
			}
			at.C = append(at.C, next)
			if g.chance(0.2) {
				at.C = append(at.C, g.ritem(1))
			}
			at = next
		}
		info.Add(buildItem(root))
		put(rrecord(len(traces), "deep tree", info, g))
		info = result.New()
		for k := 0; k < n; k++ {
			info.Add(buildItem(g.ritem(g.oneOf(0, 0, 1))))
		}
		wide := g.ritem(0)
		for k := 0; k < n*3; k++ {
			wide.C = append(wide.C, g.ritem(0))
		}
		info.Add(buildItem(wide))
		put(rrecord(len(traces), "wide tree", info, g))
	}
	longs := []int{100, 255, 256, 1000, 4096, 20000, 70000, 140000, 270000}
	for _, c := range nearConstants(80, 1<<20) {
		longs = append(longs, c)
	}
	for i, n := range longs { // long names, values, notes and dumps
		for k := 0; k < 4; k++ {
			if i > 6 && !thorough() && (i+k+int(*fSeed))%4 > 0 && n < 20000 {
				continue
			}
			r := g.ritem(1)
			l := strings.Repeat("x<y ", n/4)
			switch k {
			case 0:
				r.N += l
			case 1:
				r.V = l + "v"
			case 2:
				r.T = "t" + l
			default:
				r.D = strings.Repeat("0f ", n/3) + "00"
			}
			info := result.New()
			info.Add(buildItem(r))
			put(rrecord(len(traces), "long strings", info, g))
		}
	}
	for i := 0; i < scale(300, 2500); i++ {
		d := g.stream(1+g.Intn(2), 1)
		if i%50 == 0 {
			d = nil
		}
		if len(d) > 1200 {
			continue
		}
		o := g.opts()
		// the line of the options is the same for the library and the command line
		p, err := parse.New(o.context(), bytes.NewReader(d))
		if err != nil {
			continue
		}
		info, err := p.Parse()
		if err != nil {
			continue
		}
		t := rrecord(len(traces), "dump", info, g)
		o.GDump = false
		fl := o.flags()
		for _, n := range []int{0, g.oneOf(1, 2, 3, 4, 7, 16, -3, g.nearConstant(1, 300, 5), -g.nearConstant(1, 300, 5))} {
			args := append([]string{}, fl...)
			if n != 0 || g.chance(0.5) {
				args = append(args, "--indent", strconv.Itoa(n))
			}
			r := runCLI(bytes.NewReader(d), args...)
			t.Cli = append(t.Cli, rCli{n, esc(r.Out)})
			r = runCLI(bytes.NewReader(d), append(args, "--json")...)
			t.Jsons = append(t.Jsons, readJSONOut([]byte(r.Out), n, "cli"))
		}
		put(t)
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func init() { commands["render"] = renderCmd }
