package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/gen"
)

// known.txt has one line per declaration of the tree the harness was developed with
// (made by "vh known"). Constants of other declarations are tried more often. Like
// everything in this file it steers the workload only; no verdict depends on it.
//
//go:embed known.txt
var knownDecls string

type mined struct {
	ints map[int64]bool
	strs map[string]bool
}

func newMined() mined { return mined{map[int64]bool{}, map[string]bool{}} }

func (m mined) hints() (ints []int64, strs []string) {
	for v := range m.ints {
		ints = append(ints, v)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	for s := range m.strs {
		if !strings.Contains(s, "-----BEGIN PGP") {
			strs = append(strs, s)
		}
	}
	sort.Strings(strs)
	return
}

// mine collects the integer and string constants of the code under test: values that
// the code itself distinguishes are worth trying.
func mine(dir string) (h gen.Hints, decls []string) {
	known := map[string]bool{}
	for _, l := range strings.Split(knownDecls, "\n") {
		known[l] = true
	}
	force := os.Getenv("VERIF_HOT") // for trying out the steering: part of a declaration's name
	type decl struct {
		key  string
		node ast.Node
		pkg  string
	}
	var list []decl
	consts := map[string]map[string]ast.Expr{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != dir {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		pkg := filepath.Dir(rel)
		if consts[pkg] == nil {
			consts[pkg] = map[string]ast.Expr{}
		}
		text := func(n ast.Node) string {
			var b bytes.Buffer
			format.Node(&b, fset, n)
			k := fnv.New64a()
			for _, l := range strings.Fields(b.String()) {
				k.Write([]byte(l + " "))
			}
			return fmt.Sprintf("%016x", k.Sum64())
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				name := d.Name.Name
				if d.Recv != nil && len(d.Recv.List) == 1 {
					t := d.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if i, ok := t.(*ast.Ident); ok {
						name = i.Name + "." + name
					}
				}
				list = append(list, decl{rel + " " + name + " " + text(d), d, pkg})
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				for _, s := range d.Specs {
					name := "type"
					if v, ok := s.(*ast.ValueSpec); ok {
						name = v.Names[0].Name
						if d.Tok == token.CONST {
							for i, n := range v.Names {
								if i < len(v.Values) {
									consts[pkg][n.Name] = v.Values[i]
								}
							}
						}
					}
					if t, ok := s.(*ast.TypeSpec); ok {
						name = t.Name.Name
					}
					list = append(list, decl{rel + " " + name + " " + text(s), s, pkg})
				}
			}
		}
		return nil
	})
	digits := regexp.MustCompile(`[0-9]+`)
	all, hot := newMined(), newMined()
	for _, d := range list {
		decls = append(decls, d.key)
		m := newMined()
		collect(d.node, consts[d.pkg], m)
		into := []mined{all}
		if !known[d.key] || force != "" && strings.Contains(d.key, force) {
			into = append(into, hot)
			name := d.key[:strings.LastIndex(d.key, " ")]
			for _, x := range digits.FindAllString(name, -1) {
				if v, err := strconv.Atoi(x); err == nil && v < 256 {
					hot.ints[int64(v)] = true
				}
			}
		}
		for _, x := range into {
			for v := range m.ints {
				x.ints[v] = true
			}
			for s := range m.strs {
				x.strs[s] = true
			}
		}
	}
	ints, strs := all.hints()
	for _, v := range ints {
		if v >= 0 && v <= 0xffffffff {
			h.Ints = append(h.Ints, uint32(v))
		}
	}
	h.Strs = strs
	h.Hot, h.HotStrs = hot.hints()
	return
}

func collect(n ast.Node, consts map[string]ast.Expr, m mined) {
	var eval func(e ast.Expr, depth int) constant.Value
	eval = func(e ast.Expr, depth int) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		if depth > 20 {
			return nil
		}
		switch e := e.(type) {
		case *ast.BasicLit:
			if e.Kind == token.INT || e.Kind == token.CHAR || e.Kind == token.STRING || e.Kind == token.FLOAT {
				return constant.MakeFromLiteral(e.Value, e.Kind, 0)
			}
		case *ast.ParenExpr:
			return eval(e.X, depth+1)
		case *ast.Ident:
			if x, ok := consts[e.Name]; ok {
				return eval(x, depth+1)
			}
		case *ast.UnaryExpr:
			if x := eval(e.X, depth+1); x != nil && (e.Op == token.SUB || e.Op == token.ADD) {
				return constant.UnaryOp(e.Op, x, 0)
			}
		case *ast.CallExpr:
			if i, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 && strings.Contains(" int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 byte rune string ", " "+i.Name+" ") {
				return eval(e.Args[0], depth+1)
			}
		case *ast.BinaryExpr:
			x, y := eval(e.X, depth+1), eval(e.Y, depth+1)
			if x == nil || y == nil {
				return nil
			}
			switch e.Op {
			case token.SHL, token.SHR:
				if s, ok := constant.Uint64Val(y); ok && s < 64 {
					return constant.Shift(x, e.Op, uint(s))
				}
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
				return constant.BinaryOp(x, e.Op, y)
			case token.QUO:
				return constant.BinaryOp(x, token.QUO_ASSIGN, y)
			}
		}
		return nil
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if c, ok := n.(*ast.CompositeLit); ok { // octet strings
			var b []byte
			for _, x := range c.Elts {
				if e, ok := x.(ast.Expr); ok {
					if v := eval(e, 0); v != nil && v.Kind() == constant.Int {
						if k, ok := constant.Int64Val(v); ok && k >= 0 && k < 256 {
							b = append(b, byte(k))
						}
					}
				}
			}
			if len(b) > 1 && len(b) < 200 && len(b) == len(c.Elts) {
				m.strs[string(b)] = true
			}
		}
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		v := eval(e, 0)
		if v == nil {
			return true
		}
		switch v.Kind() {
		case constant.Int:
			if k, ok := constant.Int64Val(v); ok {
				m.ints[k] = true
			}
		case constant.Float:
			if f, _ := constant.Float64Val(v); f == float64(int64(f)) {
				m.ints[int64(f)] = true
			}
		case constant.String:
			if s := constant.StringVal(v); len(s) > 0 && len(s) < 200 {
				m.strs[s] = true
			}
		}
		return true
	})
}
