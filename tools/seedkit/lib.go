package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"strings"

	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
)

func unhex(s string) []byte {
	b, err := hex.DecodeString(strings.ReplaceAll(s, " ", ""))
	if err != nil {
		panic(err)
	}
	return b
}

// text dumps data and returns the text form and the error
func text(data []byte, opts ...string) (string, error) {
	fs := []context.OptFunc{context.Set(context.UTC, true)}
	for _, o := range opts {
		fs = append(fs, context.SetByString(o, true))
	}
	p, err := parse.New(context.New(fs...), bytes.NewReader(data))
	if err != nil {
		return "", err
	}
	info, err := p.Parse()
	return info.String(), err
}

// pkt makes a new-format packet
func pkt(tag byte, body []byte) []byte {
	n := len(body)
	h := []byte{0xc0 | tag, 255, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	return append(h, body...)
}

// cli runs the command line in process
func cli(stdin []byte, args ...string) (code int, stdout, stderr string) {
	var o, e bytes.Buffer
	ui := rwi.New(rwi.WithReader(bytes.NewReader(stdin)), rwi.WithWriter(&o), rwi.WithErrorWriter(&e))
	c := facade.Execute(ui, args)
	return int(c), o.String(), e.String()
}

var failed bool

func check(ok bool, what string, got ...interface{}) {
	if !ok {
		failed = true
		fmt.Println("FAIL:", what)
		for _, g := range got {
			fmt.Printf("  got: %v\n", g)
		}
	}
}

func done() {
	if failed {
		os.Exit(1)
	}
	fmt.Println("ok")
}
