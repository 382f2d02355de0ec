package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// ---- the constants of the code under test ---------------------------------------------------
//
// Texts, sizes, counts and depths are chosen, among others, near the constants that occur in the
// code under test: whatever it treats specially is written there.  The constants only choose
// inputs; what the code has to do with them is said by the specification.

type constants struct {
	texts []string // distinct, sorted, without line ends
	ints  []int64  // distinct, ascending, not negative
}

var (
	dictOnce sync.Once
	dictOf   constants
)

var wellKnown = map[string]int64{
	"math.MaxInt8": 1<<7 - 1, "math.MaxUint8": 1<<8 - 1, "math.MaxInt16": 1<<15 - 1, "math.MaxUint16": 1<<16 - 1,
	"math.MaxInt32": 1<<31 - 1, "math.MaxUint32": 1<<32 - 1, "bufio.MaxScanTokenSize": 64 * 1024, "bytes.MinRead": 512,
}

type folder struct {
	consts map[string]ast.Expr
	busy   map[string]bool
}

func (f *folder) fold(e ast.Expr) constant.Value {
	switch e := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(e.Value, e.Kind, 0)
	case *ast.ParenExpr:
		return f.fold(e.X)
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if v, ok := wellKnown[x.Name+"."+e.Sel.Name]; ok {
				return constant.MakeInt64(v)
			}
		}
	case *ast.Ident:
		if d, ok := f.consts[e.Name]; ok && !f.busy[e.Name] {
			f.busy[e.Name] = true
			v := f.fold(d)
			f.busy[e.Name] = false
			return v
		}
	case *ast.CallExpr: // a conversion such as int64(5)
		if len(e.Args) == 1 {
			if x, ok := e.Fun.(*ast.Ident); ok && (strings.HasPrefix(x.Name, "int") || strings.HasPrefix(x.Name, "uint") || x.Name == "byte" || x.Name == "rune") {
				return f.fold(e.Args[0])
			}
		}
	case *ast.UnaryExpr:
		if v := f.fold(e.X); v != nil && v.Kind() == constant.Int && e.Op != token.NOT && e.Op != token.AND && e.Op != token.ARROW {
			return constant.UnaryOp(e.Op, v, 0)
		}
	case *ast.BinaryExpr:
		a, b := f.fold(e.X), f.fold(e.Y)
		if a == nil || b == nil {
			return nil
		}
		if a.Kind() == constant.String && b.Kind() == constant.String && e.Op == token.ADD {
			return constant.BinaryOp(a, e.Op, b)
		}
		if a.Kind() != constant.Int || b.Kind() != constant.Int {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b); ok && n < 64 {
				return constant.Shift(a, e.Op, uint(n))
			}
		case token.QUO, token.REM:
			if constant.Sign(b) == 0 {
				return nil
			}
			if e.Op == token.QUO {
				return constant.BinaryOp(a, token.QUO_ASSIGN, b)
			}
			return constant.BinaryOp(a, e.Op, b)
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(a, e.Op, b)
		}
	}
	return nil
}

func dict() *constants {
	dictOnce.Do(func() {
		texts, ints := map[string]bool{}, map[int64]bool{}
		dirs := map[string][]*ast.File{}
		_ = filepath.Walk(*fRepo, func(p string, i os.FileInfo, err error) error {
			if err != nil || i == nil {
				return nil
			}
			if i.IsDir() && (i.Name() == ".git" || i.Name() == "vendor" || i.Name() == "testdata") {
				return filepath.SkipDir
			}
			if i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			if f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0); err == nil {
				dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], f)
			}
			return nil
		})
		for _, fs := range dirs {
			fd := &folder{consts: map[string]ast.Expr{}, busy: map[string]bool{}}
			for _, f := range fs {
				ast.Inspect(f, func(n ast.Node) bool {
					if v, ok := n.(*ast.ValueSpec); ok && len(v.Names) == len(v.Values) {
						for i, x := range v.Names {
							fd.consts[x.Name] = v.Values[i]
						}
					}
					return true
				})
			}
			for _, f := range fs {
				ast.Inspect(f, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.ImportSpec:
						return false
					case *ast.CompositeLit: // octets
						b := []byte{}
						for _, e := range n.Elts {
							v := fd.fold(e)
							if v == nil || v.Kind() != constant.Int {
								b = nil
								break
							}
							if x, ok := constant.Int64Val(v); ok && x >= 0 && x < 256 {
								b = append(b, byte(x))
							}
						}
						if len(b) > 0 {
							texts[string(b)] = true
						}
					case ast.Expr:
						v := fd.fold(n)
						if v == nil {
							return true
						}
						switch v.Kind() {
						case constant.String:
							texts[constant.StringVal(v)] = true
						case constant.Int:
							if x, ok := constant.Int64Val(v); ok {
								if x < 0 {
									x = -x
								}
								if x >= 0 {
									ints[x] = true
								}
							}
						}
					}
					return true
				})
			}
		}
		for t := range texts {
			if t == "" || len(t) > 200 || strings.ContainsAny(t, "\r\n") {
				continue
			}
			dictOf.texts = append(dictOf.texts, t)
			if n, err := strconv.ParseInt(t, 0, 64); err == nil && n >= 0 {
				ints[n] = true
			}
		}
		for n := range ints {
			dictOf.ints = append(dictOf.ints, n)
		}
		sort.Strings(dictOf.texts)
		sort.Slice(dictOf.ints, func(i, j int) bool { return dictOf.ints[i] < dictOf.ints[j] })
	})
	return &dictOf
}

// nearConstants: n-1, n, n+1 (and n in other units) for the constants from lo to hi
func nearConstants(lo, hi int64, units ...int64) []int {
	have := map[int64]bool{}
	for _, c := range dict().ints {
		for _, u := range append([]int64{1}, units...) {
			for _, n := range []int64{c*u - 1, c * u, c*u + 1} {
				if n >= lo && n <= hi && c < 1<<40 {
					have[n] = true
				}
			}
		}
	}
	ns := []int{}
	for n := range have {
		ns = append(ns, int(n))
	}
	sort.Ints(ns)
	return ns
}

var nearMemo = map[[2]int64][]int{}

// one of them
func (g *G) nearConstant(lo, hi int64, def int) int {
	ns, ok := nearMemo[[2]int64{lo, hi}]
	if !ok {
		ns = nearConstants(lo, hi)
		nearMemo[[2]int64{lo, hi}] = ns
	}
	if len(ns) == 0 {
		return def
	}
	return ns[g.Intn(len(ns))]
}

// a text of the code under test, plain or somewhat changed
func (g *G) codeText() string {
	ts := dict().texts
	if len(ts) == 0 {
		return "text"
	}
	t := ts[g.Intn(len(ts))]
	switch g.Intn(6) {
	case 0:
		return strings.ToUpper(t)
	case 1:
		return "see " + t
	case 2:
		return t + " x"
	case 3:
		return t[:g.Intn(len(t)+1)]
	}
	return t
}
