package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

var (
	fProp     = flag.String("prop", "ALL", "property")
	fTier     = flag.String("tier", "quick", "tier")
	fSeed     = flag.Int64("seed", 1, "seed")
	fOut      = flag.String("out", ".", "output directory")
	fCmd      = flag.String("cmd", "traces", "what to do")
	fIn       = flag.String("in", "", "input file")
	fRepo     = flag.String("repo", "/repo", "repository")
	fOnly     = flag.Int("only", -1, "record only this trace")
	fUpto     = flag.Int("upto", -1, "record traces up to this one")
	fComposed = flag.String("composed", "", "file of compositions")
	fUnits    = flag.Int("units", 3, "units of data in a schedule")
	fBin      = flag.String("bin", "", "the built program")
	fDead     = flag.String("crashed", "", "traces known to kill the process")
)

func thorough() bool { return *fTier == "thorough" }

// scale picks a bound by tier
func scale(q, t int) int {
	if thorough() {
		return t
	}
	return q
}

// Case is an input to be dumped.
type Case struct {
	Kind string
	Data []byte
	Opt  Opts
	Via  string   // how the input is supplied; "" is the library
	Args []string // of the command, for Via "args"
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

func newG(salt int64) *G { return &G{Rand: rand.New(rand.NewSource(*fSeed*1000003 + salt))} }

func writeJSON(name string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(*fOut, name), b, 0644); err != nil {
		fatal(err)
	}
}

// keepAll: without it only a sample of the uneventful dumps is written down
func recordTraces(cases []Case, keepAll bool) {
	z := &ztable{seen: map[string]bool{}}
	traces := []*Trace{}
	kinds := map[string]int{}
	where := map[int]string{}
	dead := map[int]bool{}
	for _, x := range strings.Split(*fDead, ",") {
		if n, err := strconv.Atoi(x); err == nil {
			dead[n] = true
		}
	}
	hangs, ran, odd := 0, 0, len(dead)
	prog, err := os.Create(filepath.Join(*fOut, "progress"))
	if err != nil {
		fatal(err)
	}
	mark := func(i int) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(int64(i)))
		prog.WriteAt(b[:], 0)
	}
	mark(-1)
	debug.SetMaxStack(256 << 20)
	for i, c := range cases {
		if *fUpto >= 0 && i > *fUpto {
			break
		}
		if *fOnly >= 0 && i != *fOnly {
			continue
		}
		if hangs >= 2 {
			break
		}
		if keepAll {
			z.scan(c.Data, 0)
		}
		if dead[i] {
			z.scan(c.Data, 0)
			traces = append(traces, record(i, c.Data, c.Opt, Outcome{Out: "crash"}))
			continue
		}
		mark(i)
		var o Outcome
		if c.Via == "" {
			o = dump(c.Data, c.Opt)
		} else {
			o = dumpVia(c)
		}
		mark(-1)
		if o.Out == "hang" {
			hangs++
		}
		if o.Where != "" {
			where[i] = o.Where
		}
		kinds[c.Kind]++
		if c.Via != "" {
			kinds["via "+c.Via]++
		}
		ran++
		if !keepAll && o.Out == "returned" && (i%101 != 0 || len(c.Data) > 3000) {
			continue
		}
		if !keepAll {
			z.scan(c.Data, 0)
		}
		if o.Out != "returned" {
			odd++
		}
		t := record(i, c.Data, c.Opt, o)
		t.Via = c.Via
		for _, a := range c.Args {
			t.Argv = append(t.Argv, esc(a))
		}
		traces = append(traces, t)
	}
	// long traces first, so that the workers finish together
	sort.SliceStable(traces, func(a, b int) bool { return len(traces[a].Data) > len(traces[b].Data) })
	if err := writeLines(filepath.Join(*fOut, "traces.ndjson"), len(traces), func(i int) interface{} { return traces[i] }); err != nil {
		fatal(err)
	}
	// the file must not be empty
	z.list = append(z.list, zentry{-1, []int{}, "err", []int{}})
	if err := writeLines(filepath.Join(*fOut, "inflate.ndjson"), len(z.list), func(i int) interface{} { return z.list[i] }); err != nil {
		fatal(err)
	}
	writeJSON("record.json", map[string]interface{}{"traces": len(traces), "ran": ran, "odd": odd, "kinds": kinds, "panics": where})
}

func main() {
	flag.Parse()
	switch *fCmd {
	case "traces":
		f, ok := generators[*fProp]
		if !ok {
			fatal(fmt.Errorf("no generator for %s", *fProp))
		}
		cases := f()
		if *fProp != "C01" && *fProp != "FILE" {
			cases = combined(cases)
		}
		if *fComposed != "" {
			cases = append(cases, composedCases(*fComposed)...)
		}
		recordTraces(cases, *fProp != "C01")
	default:
		if f, ok := commands[*fCmd]; ok {
			f()
			return
		}
		fatal(fmt.Errorf("unknown command %s", *fCmd))
	}
}
