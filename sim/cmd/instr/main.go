// Command instr writes an instrumented copy of the package under test and the
// overlay file that makes the go command use it.
//
//	instr -out DIR PKG
//
// It reads the output of "go list -export -deps -json PKG" on standard input. Every
// non-test file of a package whose import path starts with PKG is rewritten:
// a yield call before each statement and in each empty loop body; time-zone lookups, the
// clock, the order of maps and package sync redirected to the simulator. Lines keep their numbers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
}

type insertion struct {
	off, del int
	text     string
}

type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
}

func main() {
	out := flag.String("out", "", "output directory")
	flag.Parse()

	if err := run(*out, flag.Arg(0), os.Stdin); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

// simulated are the functions of other packages that the simulator stands for.
var simulated = map[string]map[string]string{
	"time": {"LoadLocation": "LoadLocation", "Now": "Now", "Since": "Since", "Until": "Until"},
	"maps": {"All": "All", "Keys": "Keys", "Values": "Values"},
}

// used is a declaration that uses a package whose other uses may be gone.
var used = map[string]string{"time": "var _ %s.Duration", "maps": "var _ = %s.Clone[map[int]int]"}

func run(out, root string, in io.Reader) error {
	var pkgs []pkg

	export := map[string]string{}

	for d := json.NewDecoder(in); ; {
		var p pkg

		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}

		export[p.ImportPath] = p.Export

		if p.ImportPath == root || strings.HasPrefix(p.ImportPath, root+"/") {
			pkgs = append(pkgs, p)
		}
	}

	if len(pkgs) == 0 {
		return fmt.Errorf("no package %s", root)
	}

	type file struct {
		path string
		src  []byte
		ast  *ast.File
	}

	var files []file

	fset := token.NewFileSet()
	coarse := false

	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(export[path]) })

	for _, p := range pkgs {
		first := len(files)

		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)

			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}

			a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				return err
			}

			files = append(files, file{path, src, a})

			ast.Inspect(a, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
					coarse = true
				}

				return true
			})
		}

		var as []*ast.File

		for _, f := range files[first:] {
			as = append(as, f.ast)
		}

		conf := types.Config{Importer: imp, FakeImportC: true, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: warning:", err) }}
		_, _ = conf.Check(p.ImportPath, fset, as, info) // what has no type is left alone
	}

	replace := make(map[string]string)

	var sites []site

	for i, f := range files {
		var ins []insertion

		off := func(p token.Pos) int { return fset.Position(p).Offset }
		yield := func(p token.Pos) string {
			n := len(sites)
			pos := fset.Position(p)
			sites = append(sites, site{filepath.Base(pos.Filename), pos.Line})

			return "verifhook.Y(" + strconv.Itoa(n) + ");"
		}

		names, uses, keep := map[string]string{}, map[string]bool{}, ""

		for _, im := range f.ast.Imports {
			switch path, _ := strconv.Unquote(im.Path.Value); path {
			case "time", "maps":
				if im.Name != nil {
					names[im.Name.Name] = path
				} else {
					names[path] = path
				}
			case "sync":
				if coarse {
					break
				}

				name := "sync "

				if im.Name != nil {
					name = ""
				}

				ins = append(ins, insertion{off(im.Path.Pos()), len(im.Path.Value), name + strconv.Quote("verif/sim/hook/simsync")})
			}
		}

		list := func(stmts []ast.Stmt) {
			if coarse {
				return
			}

			for _, s := range stmts {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}

				ins = append(ins, insertion{off(s.Pos()), 0, yield(s.Pos())})
			}
		}

		body := func(b *ast.BlockStmt) {
			if b != nil && len(b.List) == 0 && !coarse {
				ins = append(ins, insertion{off(b.Lbrace) + 1, 0, yield(b.Lbrace)})
			}
		}

		ast.Inspect(f.ast, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.ForStmt:
				body(n.Body)
			case *ast.RangeStmt:
				if t := info.Types[n.X].Type; t != nil && n.Key != nil && !coarse {
					if _, ok := t.Underlying().(*types.Map); ok {
						ins = append(ins, overMap(n, off)...)
					}
				}

				body(n.Body)
			case *ast.SelectorExpr:
				if x, ok := n.X.(*ast.Ident); ok && x.Obj == nil {
					if to := simulated[names[x.Name]][n.Sel.Name]; to != "" {
						ins = append(ins, insertion{off(n.Pos()), int(n.End() - n.Pos()), "verifhook." + to})
						uses[x.Name] = true
					}
				}
			}

			return true
		})

		for n := range uses {
			keep += "\n" + fmt.Sprintf(used[names[n]], n) + "\n"
		}

		if len(ins) == 0 {
			continue
		}

		if !coarse || len(uses) > 0 {
			ins = append(ins, insertion{off(f.ast.Name.End()), 0, `; import verifhook "verif/sim/hook"`})
			keep += "\nvar _ = verifhook.Y\n"
		}

		sort.SliceStable(ins, func(a, b int) bool { return ins[a].off < ins[b].off })

		var b strings.Builder

		last := 0

		for _, in := range ins {
			b.Write(f.src[last:in.off])
			b.WriteString(in.text)
			last = in.off + in.del
		}

		b.Write(f.src[last:])
		b.WriteString(keep)

		dst := filepath.Join(out, fmt.Sprintf("f%d_%s", i, filepath.Base(f.path)))

		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			return err
		}

		replace[f.path] = dst
	}

	if len(sites) >= 1<<16 {
		return fmt.Errorf("too many yield points: %d", len(sites))
	}

	for name, v := range map[string]any{
		"overlay.json": map[string]any{"Replace": replace},
		"sites.json":   map[string]any{"coarse": coarse, "sites": sites},
	} {
		j, err := json.Marshal(v)
		if err != nil {
			return err
		}

		if err := os.WriteFile(filepath.Join(out, name), j, 0o644); err != nil {
			return err
		}
	}

	return nil
}

// overMap rewrites the head of a loop over a map.
func overMap(n *ast.RangeStmt, off func(token.Pos) int) []insertion {
	name := func(e ast.Expr) (string, bool) {
		if e == nil {
			return "_", true
		}

		x, ok := e.(*ast.Ident)
		if !ok {
			return "", false
		}

		return x.Name, true
	}

	k, ok := name(n.Key)
	v, ok2 := name(n.Value)

	if !ok || !ok2 {
		return nil
	}

	tok := n.Tok.String()

	if k == "_" && v == "_" {
		tok = "="
	}

	return []insertion{
		{off(n.Key.Pos()), off(n.X.Pos()) - off(n.Key.Pos()), "_, verifPair := range verifhook.Pairs("},
		{off(n.X.End()), 0, ")"},
		{off(n.Body.Lbrace) + 1, 0, "if !verifPair.Has() { continue };" + k + ", " + v + " " + tok + " verifPair.K, verifPair.V();"},
	}
}
