// instr OUTDIR REPO SCHEDDIR: copies the non-test Go files of REPO's library packages to OUTDIR with a
// scheduling point before every statement and "sync" replaced by a cooperative stand-in, and writes
// OUTDIR/overlay.json for go build -overlay.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/HannesKimara/cddlc/verifsched"

type ins struct {
	off, del int
	text     string
}

func instrument(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	if f.Name.Name == "main" {
		return nil, nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	l := []ins{{off(f.Name.End()), 0, "; import verifsched \"" + mod + "\"; var _ = verifsched.Yield"}}
	// the use of the import must come after all imports
	l[0].text = "; import verifsched \"" + mod + "\""
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			t := strconv.Quote(mod + "/vsync")
			if im.Name == nil {
				t = "sync " + t
			}
			l = append(l, ins{off(im.Path.Pos()), len(im.Path.Value), t})
		}
	}
	n := 0
	list := func(b []ast.Stmt) {
		for _, s := range b {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			l = append(l, ins{off(s.Pos()), 0, "verifsched.Yield(); "})
			n++
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			list2 := x.List
			if len(list2) > 0 {
				switch list2[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(list2)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	sort.SliceStable(l, func(i, j int) bool { return l[i].off < l[j].off })
	var b bytes.Buffer
	at := 0
	for _, i := range l {
		b.Write(src[at:i.off])
		b.WriteString(i.text)
		at = i.off + i.del
	}
	b.Write(src[at:])
	if n == 0 {
		b.WriteString("\nvar _ = verifsched.Yield\n")
	}
	return b.Bytes(), nil
}

func main() {
	out, repo, sched := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	n := 0
	err := filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			base := d.Name()
			if p != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || base == "examples") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		b, err := instrument(p, src)
		if err != nil {
			return fmt.Errorf("%s: %v", p, err)
		}
		if b == nil {
			return nil
		}
		q := filepath.Join(out, fmt.Sprintf("%03d_%s", n, strings.ReplaceAll(rel, "/", "_")))
		n++
		repl[p] = q
		return os.WriteFile(q, b, 0644)
	})
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	repl[filepath.Join(repo, "verifsched", "sched.go")] = filepath.Join(sched, "sched.go.txt")
	repl[filepath.Join(repo, "verifsched", "race.go")] = filepath.Join(sched, "race.go.txt")
	repl[filepath.Join(repo, "verifsched", "norace.go")] = filepath.Join(sched, "norace.go.txt")
	repl[filepath.Join(repo, "verifsched", "vsync", "vsync.go")] = filepath.Join(sched, "vsync", "vsync.go.txt")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
