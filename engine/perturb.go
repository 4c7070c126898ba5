package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// A counterexample that depends on the schedule is replayed on a build in which every
// statement of /repo and of the harness is preceded by a call that may delay it. The
// calls take no locks and touch no shared memory, so they add no ordering of their own.

// durationArg names calls that take the duration of a timer, which the replay may shorten:
// to the engine a timer goes off at any time.
var durationArg = map[string]int{"time.After": 0, "time.NewTimer": 0, "time.AfterFunc": 0, "time.Sleep": 0, "time.NewTicker": 0,
	"time.Tick": 0, "context.WithTimeout": 1}

// perturbed is the text of a Go file with those calls inserted.
func perturbed(file string, src []byte) ([]byte, error) {
	// a number for each place that is the same in every build
	hash := fnv.New32()
	hash.Write([]byte(strings.TrimPrefix(file, repoDir)))
	site := int(hash.Sum32()&0x7ffff) << 12
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		at   int
		text string // empty: a new call of P
	}
	var at []edit
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				at = append(at, edit{at: fset.Position(s.Pos()).Offset})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.CallExpr:
			sel, ok := x.Fun.(*ast.SelectorExpr)
			if !ok {
				break
			}
			if id, ok := sel.X.(*ast.Ident); ok && len(x.Args) > 0 {
				if i, ok := durationArg[id.Name+"."+sel.Sel.Name]; ok && i < len(x.Args) {
					at = append(at, edit{fset.Position(x.Args[i].Pos()).Offset, "zzsym.D("}, edit{fset.Position(x.Args[i].End()).Offset, ")"})
				}
			}
		}
		return true
	})
	if len(at) == 0 {
		return src, nil
	}
	sort.SliceStable(at, func(i, j int) bool { return at[i].at < at[j].at })
	var out bytes.Buffer
	pkgEnd := fset.Position(f.Name.End()).Offset
	out.Write(src[:pkgEnd])
	fmt.Fprintf(&out, "; import zzsym %q", symPath)
	last := pkgEnd
	for _, o := range at {
		out.Write(src[last:o.at])
		if o.text == "" {
			site++
			fmt.Fprintf(&out, "zzsym.P(%d); ", site)
		}
		out.WriteString(o.text)
		last = o.at
	}
	out.Write(src[last:])
	return out.Bytes(), nil
}

// perturbOverlay turns the overlay of dir into one of perturbed files.
func perturbOverlay(dir string) error {
	b, err := os.ReadFile(filepath.Join(dir, "overlay.json"))
	if err != nil {
		return err
	}
	var ov struct{ Replace map[string]string }
	if err := json.Unmarshal(b, &ov); err != nil {
		return err
	}
	files := perturbable(ov.Replace)
	var names []string
	for k := range files {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, k := range names {
		src, err := os.ReadFile(files[k])
		if err != nil {
			continue
		}
		out, err := perturbed(k, src)
		if err != nil {
			continue
		}
		p := filepath.Join(dir, fmt.Sprintf("perturbed%d.go", i))
		if err := os.WriteFile(p, out, 0o644); err != nil {
			return err
		}
		ov.Replace[k] = p
	}
	b, _ = json.Marshal(ov)
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
}

// perturbable are the files of /repo and of the harnesses that calls are inserted into, with the
// files their text is in.
func perturbable(overlay map[string]string) map[string]string {
	files := map[string]string{}
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "spec") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files[p] = p
		}
		return nil
	})
	for k, v := range overlay {
		if strings.HasSuffix(k, ".go") && strings.HasPrefix(k, repoDir+"/") && !strings.Contains(k, "/zzverif/sym/") && !strings.Contains(k, "/zzverif/run_") {
			files[k] = v
		}
	}
	return files
}
