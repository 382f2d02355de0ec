package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// ---- C21: several dumps that share one option set ----------------------------------------------

type sesDump struct {
	Kind string `json:"kind"`
	Ctx  string `json:"ctx"`
}

type sesStep struct {
	S  int    `json:"s"`
	Op string `json:"op"`
}

type sesRun struct {
	Dumps []sesDump `json:"dumps"`
	Sched []sesStep `json:"sched"`
}

type sesResult struct {
	Err  bool   `json:"err"`
	Text string `json:"text"`
}

type sesEvent struct {
	S    int    `json:"s"`
	Op   string `json:"op"`
	Out  string `json:"out"`
	Err  bool   `json:"err"`
	Text string `json:"text"`
	Opts string `json:"opts"`
}

type sesTrace struct {
	ID     int         `json:"id"`
	Kind   string      `json:"kind"`
	Opts   string      `json:"opts"`
	Inputs []string    `json:"inputs"`
	Alone  []sesResult `json:"alone"`
	Events []sesEvent  `json:"events"`
}

// world: one option set, a concrete input for every kind, and what each gives alone
type world struct {
	opt   Opts
	data  map[string][]byte
	alone map[string]map[string]sesResult // kind, "shared" or "none"
	kinds []string
	plain [][]byte
}

var sesKinds = []string{"empty", "pub", "sym", "enc", "pubenc", "symenc", "key", "sig", "kexp", "sexp", "keyexp", "plain", "armored", "bad"}

const richN = 20

// local time differs from UTC, so that a dump in the wrong one shows
var sesZone = time.FixedZone("local", 19800)

func optString(c *context.Context) string {
	names := []string{}
	for _, n := range optNames {
		if c.Get(optCodes[n]) {
			names = append(names, n)
		}
	}
	return strings.Join(names, " ") + " | " + c.String()
}

func sesOf(info *result.Info, err error) sesResult {
	r := sesResult{Err: err != nil}
	if info != nil {
		r.Text = esc(info.ToString("\t").String())
	}
	return r
}

func (g *G) sesSig(area []byte) []byte { return g.pkt(2, g.sigV4(4, 99, area, nil), hBest) }

func (g *G) sesTok(tok string) []byte {
	switch tok {
	case "P":
		return g.pkt(1, g.pubEsk(), hBest)
	case "S":
		return g.pkt(3, g.symEsk(), hBest)
	case "E":
		return g.pkt(g.oneOf(9, 18), g.bytes(1+g.Intn(9)), hBest)
	case "K":
		return g.pkt(g.oneOf(6, 14), g.pubKeyFor(), hBest)
	case "C":
		return g.sesSig(cat(g.sub(2, g.when()), g.sub(3, g.when())))
	case "X":
		return g.sesSig(g.sub(9, []byte{0, byte(g.Intn(256)), byte(g.Intn(256)), 1}))
	case "Y":
		return g.sesSig(g.sub(3, []byte{0, byte(g.Intn(256)), byte(g.Intn(256)), 1}))
	case "!":
		return []byte{0xcd, 9, 'a'}
	}
	return g.simplePacket(false)
}

func (g *G) pubKeyFor() []byte { return cat([]byte{4}, g.when(), []byte{1}, g.mpi(), g.mpi()) }

var sesInputs = map[string]string{"empty": "", "pub": "P", "sym": "S", "enc": "E", "pubenc": "PE", "symenc": "SEE", "key": "K", "sig": "C",
	"kexp": "X", "sexp": "Y", "keyexp": "KCX", "plain": "UU", "armored": "KX", "bad": "SKC!"}

const lookN = 14

// lookalike: a packet with much in it that could be taken for the same again; where its text begins, when it is one
func (g *G) lookalike() (tag int, b []byte, text int) {
	n := g.oneOf(5, 9, 17, 33, 40, 65, 129, 200, 300)
	t := g.bytesText(n)
	ar := func(ty byte, b []byte) []byte {
		return cat([]byte{byte(0xff), 0, 0, byte((len(b) + 1) >> 8), byte(len(b) + 1), ty}, b)
	}
	sg := func(a []byte) []byte { return cat([]byte{4, 0x13, 99, 8}, u16(len(a)), a, u16(0), []byte{1, 2}) }
	switch g.Intn(12) {
	case 0, 1, 2:
		return 13, t, 1
	case 3:
		return 17, g.sub(byte(g.oneOf(2, 100)), g.bytes(n)), 0
	case 4:
		if n > 255 {
			n, t = 255, t[:255]
		}
		return 11, cat([]byte{'b', byte(n)}, t, g.when(), g.bytes(4)), 0
	case 5:
		return 2, sg(ar(byte(g.oneOf(6, 24, 26, 28)), t)), 0
	case 6:
		return 2, sg(ar(20, cat([]byte{0x80, 0, 0, 0}, u16(3), u16(n), []byte("a@b"), t))), 0
	case 7:
		return g.oneOf(6, 14), g.pubKey(), 0
	case 8:
		return g.oneOf(5, 7), g.secKey(), 0
	case 9:
		return g.oneOf(10, 12, 60, 63, 19, 18), g.bytes(n), 0
	case 10:
		return g.oneOf(1, 3), g.pickB(g.pubEsk(), g.symEsk()), 0
	}
	return 2, g.sig(1), 0
}

func (g *G) world() *world {
	w := &world{opt: g.opts(), data: map[string][]byte{}, alone: map[string]map[string]sesResult{}}
	w.opt.Off, w.opt.UTC = 0, g.chance(0.5)
	if g.chance(0.7) {
		w.opt.Armor = false
	}
	for _, k := range sesKinds {
		d := []byte{}
		for _, t := range sesInputs[k] {
			d = append(d, g.sesTok(string(t))...)
		}
		if k == "armored" || (w.opt.Armor && k != "plain") {
			d = armored("PGP MESSAGE", d)
		}
		w.data[k] = d
	}
	// packets of every kind: anything a dump could remember about what it decoded
	for i := 0; i < richN; i++ {
		var d []byte
		switch i % 4 {
		case 0, 1:
			d = g.stream(1+g.Intn(6), 2)
		case 2:
			// keys of every algorithm and curve
			for j := 0; j < 4; j++ {
				d = append(d, g.pkt(g.oneOf(5, 6, 7, 14), g.pickB(g.pubKey(), g.secKey()), hBest)...)
			}
		default:
			d = g.damage(g.stream(1+g.Intn(3), 1))
		}
		if i >= 16 { // an earlier input with another end, or one octet changed
			d = append([]byte{}, w.plain[g.Intn(len(w.plain))]...)
			switch {
			case len(d) == 0:
			case g.chance(0.3):
				d = cat(d, g.stream(1, 0))
			default:
				d[len(d)-1-g.Intn((len(d)+1)/2)] ^= byte(1 + g.Intn(255))
			}
		}
		w.plain = append(w.plain, d)
		if w.opt.Armor || g.chance(0.2) {
			d = armored("PGP MESSAGE", d)
		}
		k := fmt.Sprintf("rich%d", i)
		w.data[k] = d
		w.kinds = append(w.kinds, k)
	}
	// inputs that differ in a single octet
	for i := 0; i < lookN; i++ {
		tag, b, isText := g.lookalike()
		for k := 0; k < 3; k++ {
			c := append([]byte{}, b...)
			if k > 0 && len(c) > 0 {
				at := len(c) - 1
				switch g.Intn(4) {
				case 0:
				case 1:
					at -= g.Intn(1 + len(c)/4)
				case 2:
					at -= g.Intn(1 + len(c)/2)
				default:
					at = g.Intn(len(c))
				}
				if isText > 0 && at < isText {
					at = isText
				}
				if isText > 0 {
					c[at] = 'a' + (c[at]-'a'+byte(1+g.Intn(25)))%26
				} else {
					c[at] ^= byte(1 + g.Intn(255))
				}
			}
			d := g.pkt(tag, c, hBest)
			if w.opt.Armor {
				d = armored("PGP MESSAGE", d)
			}
			name := fmt.Sprintf("look%d.%d", i, k)
			w.data[name] = d
			w.kinds = append(w.kinds, name)
		}
	}
	w.kinds = append(w.kinds, sesKinds...)
	// each dump in a process of its own
	type job struct{ kind, ctx string }
	jobs := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				r := sesAlone(w.opt, w.data[j.kind], j.ctx)
				mu.Lock()
				if w.alone[j.kind] == nil {
					w.alone[j.kind] = map[string]sesResult{}
				}
				w.alone[j.kind][j.ctx] = r
				mu.Unlock()
			}
		}()
	}
	for _, k := range w.kinds {
		jobs <- job{k, "shared"}
		jobs <- job{k, "none"}
	}
	close(jobs)
	wg.Wait()
	return w
}

type onceIn struct {
	Opt  Opts
	Data []byte
	Ctx  string
}

func sesAlone(o Opts, d []byte, ctx string) sesResult {
	if ctx == "none" {
		o, ctx = Opts{}, "shared" // no option set is one with no options
	}
	b, _ := json.Marshal(onceIn{o, d, ctx})
	exe := os.Args[0]
	if *fBin != "" {
		exe = *fBin
	}
	cmd := exec.Command(exe, "-cmd", "session-once", "-out", *fOut)
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	var r sesResult
	if err != nil || json.Unmarshal(out, &r) != nil {
		return sesResult{true, "<no result>"}
	}
	return r
}

func sesOnceCmd() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal(err)
	}
	var in onceIn
	if err := json.Unmarshal(b, &in); err != nil {
		fatal(err)
	}
	time.Local = sesZone
	o := dumpReader(in.Opt.context(), bytes.NewReader(in.Data))
	r := sesOf(o.Info, o.Err)
	if o.Out != "returned" {
		r = sesResult{true, "<" + o.Out + ">"}
	}
	json.NewEncoder(os.Stdout).Encode(r)
}

// gated delivers half of its data and waits for the gate
type gated struct {
	data    []byte
	half    int
	pos     int
	gate    chan struct{}
	blocked chan struct{}
	once    sync.Once
}

func (r *gated) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := r.half
	if r.pos >= r.half {
		r.once.Do(func() { close(r.blocked) })
		<-r.gate
		end = len(r.data)
	}
	if r.pos >= end {
		return 0, io.EOF
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	return n, nil
}

type made struct {
	p   *parse.Parser
	err error
	out string
}

func (g *G) sesReplay(id int, kind string, w *world, run sesRun) *sesTrace {
	shared := w.opt.context()
	t := &sesTrace{ID: id, Kind: kind, Opts: optString(shared), Events: []sesEvent{}, Inputs: []string{}, Alone: []sesResult{}}
	type live struct {
		r    *gated
		done chan made
		m    made
	}
	ls := make([]*live, len(run.Dumps))
	for i, d := range run.Dumps {
		t.Alone = append(t.Alone, w.alone[d.Kind][d.Ctx])
		t.Inputs = append(t.Inputs, d.Ctx+" "+d.Kind+" "+hexOf(w.data[d.Kind]))
		ls[i] = &live{}
	}
	start := func(i int, d sesDump) {
		l := ls[i]
		data := w.data[d.Kind]
		l.r = &gated{data: data, half: g.Intn(len(data) + 1), gate: make(chan struct{}), blocked: make(chan struct{})}
		l.done = make(chan made, 1)
		var cxt *context.Context
		if d.Ctx == "shared" {
			cxt = shared
		}
		go func() {
			m := made{out: "returned"}
			defer func() {
				if r := recover(); r != nil {
					m.out = "panic"
				}
				l.done <- m
			}()
			m.p, m.err = parse.New(cxt, l.r)
		}()
		select {
		case <-l.r.blocked:
		case m := <-l.done:
			l.done <- m
		case <-time.After(hangLimit):
		}
	}
	for _, s := range run.Sched {
		i, d := s.S-1, run.Dumps[s.S-1]
		l := ls[i]
		e := sesEvent{S: s.S, Op: s.Op, Out: "returned"}
		switch s.Op {
		case "open":
			start(i, d)
		case "made":
			if l.r == nil && g.chance(0.4) {
				var cxt *context.Context
				if d.Ctx == "shared" {
					cxt = shared
				}
				o := guarded(func() (*result.Info, error) {
					l.m.p, l.m.err = parse.NewBytes(cxt, w.data[d.Kind])
					return nil, nil
				})
				l.m.out, e.Out = o.Out, o.Out
				break
			}
			if l.r == nil {
				start(i, d)
			}
			close(l.r.gate)
			select {
			case l.m = <-l.done:
				e.Out = l.m.out
			case <-time.After(hangLimit):
				e.Out = "hang"
			}
		case "parse":
			if l.m.err != nil || l.m.p == nil {
				e.Err = true
				break
			}
			o := guarded(func() (*result.Info, error) { return l.m.p.Parse() })
			r := sesOf(o.Info, o.Err)
			e.Out, e.Err, e.Text = o.Out, r.Err, r.Text
		}
		e.Opts = optString(shared)
		t.Events = append(t.Events, e)
		if e.Out != "returned" {
			break
		}
	}
	return t
}

// sesAtOnce: dumps running at the same time, each in a goroutine of its own
func (g *G) sesAtOnce(id int, w *world, n int, mixed bool) *sesTrace {
	shared := w.opt.context()
	t := &sesTrace{ID: id, Kind: "at once", Opts: optString(shared), Events: []sesEvent{}, Inputs: []string{}, Alone: []sesResult{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for i := 0; i < n; i++ {
		d := sesDump{w.kinds[g.Intn(len(w.kinds))], "shared"}
		if mixed && g.chance(0.3) {
			d.Ctx = "none"
		}
		t.Alone = append(t.Alone, w.alone[d.Kind][d.Ctx])
		t.Inputs = append(t.Inputs, d.Ctx+" "+d.Kind+" "+hexOf(w.data[d.Kind]))
		wg.Add(1)
		viaBytes := g.chance(0.5)
		go func(i int) {
			defer wg.Done()
			var cxt *context.Context
			if d.Ctx == "shared" {
				cxt = shared
			}
			<-begin
			ev := sesEvent{S: i + 1, Op: "parse", Out: "returned"}
			func() {
				defer func() {
					if r := recover(); r != nil {
						ev.Out = "panic"
					}
				}()
				var p *parse.Parser
				var err error
				if viaBytes {
					p, err = parse.NewBytes(cxt, w.data[d.Kind])
				} else {
					p, err = parse.New(cxt, bytes.NewReader(w.data[d.Kind]))
				}
				mu.Lock()
				t.Events = append(t.Events, sesEvent{S: i + 1, Op: "made", Out: "returned"})
				mu.Unlock()
				if err != nil {
					ev.Err = true
					return
				}
				info, err := p.Parse()
				r := sesOf(info, err)
				ev.Err, ev.Text = r.Err, r.Text
			}()
			mu.Lock()
			t.Events = append(t.Events, ev)
			mu.Unlock()
		}(i)
	}
	close(begin)
	wg.Wait()
	for i := range t.Events {
		t.Events[i].Opts = optString(shared)
	}
	return t
}

// sesCrowd: many goroutines, each dumping several inputs one after another, with nothing between them that would order them
func (g *G) sesCrowd(id int, w *world, n, m int) *sesTrace {
	shared := w.opt.context()
	t := &sesTrace{ID: id, Kind: "crowd", Opts: optString(shared), Events: []sesEvent{}, Inputs: []string{}, Alone: []sesResult{}}
	type slot struct {
		d    sesDump
		how  int
		data []byte
		ev   sesEvent
	}
	slots := make([][]slot, n)
	same := g.chance(0.3)
	for i := range slots {
		slots[i] = make([]slot, m)
		for j := range slots[i] {
			d := sesDump{w.kinds[g.Intn(len(w.kinds))], "shared"}
			if g.chance(0.2) {
				d.Ctx = "none"
			}
			if same && i > 0 {
				d = slots[0][j].d
			}
			slots[i][j] = slot{d: d, how: g.Intn(2), data: append([]byte{}, w.data[d.Kind]...)}
			k := i*m + j + 1
			slots[i][j].ev = sesEvent{S: k, Op: "parse", Out: "returned"}
			t.Alone = append(t.Alone, w.alone[d.Kind][d.Ctx])
			t.Inputs = append(t.Inputs, d.Ctx+" "+d.Kind+" "+hexOf(w.data[d.Kind]))
		}
	}
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for i := range slots {
		wg.Add(1)
		go func(mine []slot) {
			defer wg.Done()
			<-begin
			for j := range mine {
				s := &mine[j]
				func() {
					defer func() {
						if r := recover(); r != nil {
							s.ev.Out = "panic"
						}
					}()
					var cxt *context.Context
					if s.d.Ctx == "shared" {
						cxt = shared
					}
					var p *parse.Parser
					var err error
					if s.how == 0 {
						p, err = parse.NewBytes(cxt, s.data)
					} else {
						p, err = parse.New(cxt, bytes.NewReader(s.data))
					}
					if err != nil {
						s.ev.Err = true
						return
					}
					info, err := p.Parse()
					r := sesOf(info, err)
					s.ev.Err, s.ev.Text = r.Err, r.Text
					if info != nil {
						info.JSON(2)
					}
				}()
			}
		}(slots[i])
	}
	close(begin)
	wg.Wait()
	now := optString(shared)
	for j := 0; j < m; j++ {
		for i := range slots {
			t.Events = append(t.Events, sesEvent{S: slots[i][j].ev.S, Op: "made", Out: "returned", Opts: now})
			e := slots[i][j].ev
			e.Opts = now
			t.Events = append(t.Events, e)
		}
	}
	return t
}

func readSesRuns() []sesRun {
	out := []sesRun{}
	if *fIn == "" {
		return out
	}
	f, err := os.Open(*fIn)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r sesRun
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fatal(err)
		}
		out = append(out, r)
	}
	return out
}

// randomRun: many dumps, any interleaving
func (g *G) randomRun(w *world, n int) sesRun {
	r := sesRun{}
	left := []int{}
	ops := make([][]string, n)
	for i := 0; i < n; i++ {
		d := sesDump{w.kinds[g.Intn(len(w.kinds))], "shared"}
		if g.chance(0.15) {
			d.Ctx = "none"
		}
		r.Dumps = append(r.Dumps, d)
		ops[i] = []string{"made", "parse"}
		if g.chance(0.4) {
			ops[i] = []string{"open", "made", "parse"}
		}
		left = append(left, i)
	}
	window := 1 + g.Intn(n)
	for len(left) > 0 {
		k := window
		if k > len(left) {
			k = len(left)
		}
		j := g.Intn(k)
		i := left[j]
		r.Sched = append(r.Sched, sesStep{i + 1, ops[i][0]})
		if ops[i] = ops[i][1:]; len(ops[i]) == 0 {
			left = append(left[:j], left[j+1:]...)
		}
	}
	return r
}

func sessionsCmd() {
	time.Local = sesZone
	g := newG(21)
	traces := []*sesTrace{}
	kinds := map[string]int{}
	put := func(t *sesTrace) {
		t.ID = len(traces)
		traces = append(traces, t)
		kinds[t.Kind]++
	}
	worlds := []*world{}
	for i := 0; i < scale(6, 20); i++ {
		worlds = append(worlds, g.world())
	}
	pickW := func() *world { return worlds[g.Intn(len(worlds))] }
	race := *fCmd == "sessions-race"
	if !race {
		for _, r := range readSesRuns() {
			put(g.sesReplay(0, fmt.Sprintf("interleaved %d", len(r.Dumps)), pickW(), r))
		}
		for i := 0; i < scale(400, 2000); i++ {
			w := pickW()
			put(g.sesReplay(0, "long", w, g.randomRun(w, 2+g.Intn(12))))
		}
	}
	for i := 0; i < scale(40, 200); i++ {
		put(g.sesCrowd(0, pickW(), 2+g.Intn(10), 1+g.Intn(6)))
	}
	for i := 0; i < scale(150, 800); i++ {
		put(g.sesAtOnce(0, pickW(), 2+g.Intn(15), i%2 == 0))
	}
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "kinds": kinds})
}

func init() {
	commands["sessions"] = sessionsCmd
	commands["sessions-race"] = sessionsCmd
	commands["session-once"] = sesOnceCmd
}
