// Package gen writes the build overlays: copies of the source files of the
// repository in which imports, a constant or statement boundaries are changed
// so that the exploration can control what is otherwise left to chance.
// It works on the syntax tree, not on the text of particular functions.
package gen

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

// Overlay writes the overlay for a variant below dir and returns the path of the overlay file.
// notes tells what could not be done.
// coarse leaves the synchronisation of the code alone; it is what is done where
// the code has goroutines or channels of its own, which cannot be controlled.
func Overlay(repo, dir, variant string, coarse bool) (path string, notes []string, isCoarse bool, err error) {
	rep := map[string]string{}
	var files []string
	err = filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "examples" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return "", nil, coarse, err
	}
	if variant == "work" && coarse {
		notes = append(notes, "variant work: only statements are counted, not the elements that append, copy and make touch")
	}
	segDone := 0
	randDone := 0
	if (variant == "sched" || variant == "race") && (coarse || own(files)) {
		coarse = true
		notes = append(notes, "variant "+variant+": the code starts goroutines, uses channels or builds only with the real sync package; its own synchronisation is left alone and threads change only between calls")
	}
	// in packages that use sync/atomic every statement may be synchronisation
	atomics := map[string]bool{}
	for _, f := range files {
		if af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ImportsOnly); err == nil {
			for _, im := range af.Imports {
				if im.Path.Value == `"sync/atomic"` {
					atomics[filepath.Dir(f)] = true
				}
			}
		}
	}
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return "", nil, coarse, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			return "", nil, coarse, err
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var eds []edit
		for _, im := range af.Imports {
			var to, name string
			switch im.Path.Value {
			case `"math/rand"`:
				to, name = `"verifmc/vrand"`, "rand"
				randDone++
			case `"sync"`:
				if !coarse && (variant == "sched" || variant == "race") {
					to, name = `"verifmc/vsync"`, "sync"
				}
			}
			if to == "" {
				continue
			}
			t := to
			if im.Name == nil {
				t = name + " " + to
			}
			eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), t})
		}
		switch {
		case strings.HasPrefix(variant, "seg"):
			if af.Name.Name == "deque" {
				ast.Inspect(af, func(n ast.Node) bool {
					vs, ok := n.(*ast.ValueSpec)
					if !ok {
						return true
					}
					for i, id := range vs.Names {
						if id.Name == "SegmentCapacity" && i < len(vs.Values) {
							eds = append(eds, edit{off(vs.Values[i].Pos()), off(vs.Values[i].End()), strings.TrimPrefix(variant, "seg")})
							segDone++
						}
					}
					return true
				})
			}
		case !coarse && (variant == "sched" || variant == "race"):
			eds = append(eds, points(fset, af, atomics[filepath.Dir(f)])...)
		case variant == "work":
			eds = append(eds, work(fset, af, !coarse)...)
		}
		if len(eds) == 0 {
			continue
		}
		out := apply(src, eds)
		rel, _ := filepath.Rel(repo, f)
		dst := filepath.Join(dir, "ov-"+variant, strings.ReplaceAll(rel, "/", "__"))
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return "", nil, coarse, err
		}
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return "", nil, coarse, err
		}
		rep[f] = dst
	}
	if strings.HasPrefix(variant, "seg") && segDone != 1 {
		notes = append(notes, fmt.Sprintf("segment capacity constant found %d times; deque explored with the capacity of the source", segDone))
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	path = filepath.Join(dir, "ov-"+variant+".json")
	return path, notes, coarse, os.WriteFile(path, b, 0o644)
}

// own says whether the code starts goroutines or uses channels.
func own(files []string) bool {
	found := false
	for _, f := range files {
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GoStmt, *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
				found = true
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					found = true
				}
			case *ast.SelectorExpr:
				if x, ok := n.X.(*ast.Ident); ok && x.Name == "time" && (n.Sel.Name == "After" || n.Sel.Name == "AfterFunc" || n.Sel.Name == "NewTimer") {
					found = true
				}
			}
			return !found
		})
	}
	return found
}

// points inserts a scheduling point before every statement of every function.
func points(fset *token.FileSet, af *ast.File, sync bool) []edit {
	var eds []edit
	pt := "vsched_.P(); "
	if sync {
		pt = "vsched_.S(); "
	}
	var first token.Pos
	add := func(s ast.Stmt) {
		switch s.(type) {
		case *ast.DeclStmt, *ast.EmptyStmt, *ast.LabeledStmt:
			return
		}
		o := fset.Position(s.Pos()).Offset
		eds = append(eds, edit{o, o, pt})
		if first == token.NoPos {
			first = s.Pos()
		}
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			add(s)
		}
	}
	keep := map[string]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			// giving way: another thread goes on
			if q := yields(af, n); q != "" {
				a, b := fset.Position(n.Fun.Pos()).Offset, fset.Position(n.Fun.End()).Offset
				to := "vsched_.Yield"
				if len(n.Args) > 0 {
					to = "vsched_.Sleep"
				}
				eds = append(eds, edit{a, b, to})
				keep[q] = true
			}
		case *ast.BlockStmt:
			isSwitch := len(n.List) > 0
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					isSwitch = false
				}
			}
			if !isSwitch {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(eds) == 0 {
		return nil
	}
	for q := range keep {
		o := fset.Position(af.End()).Offset
		eds = append(eds, edit{o, o, "; var _ = " + q})
	}
	// import, on the line of the package clause
	o := fset.Position(af.Name.End()).Offset
	eds = append(eds, edit{o, o, `; import vsched_ "verifmc/vsched"`})
	return eds
}

// work inserts a count before every statement and at the start of every function and round of a loop, and has
// append, copy and make report how many elements they touch, unless that is what does not build.
func work(fset *token.FileSet, af *ast.File, builtins bool) []edit {
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.LabeledStmt:
				continue
			}
			eds = append(eds, edit{off(s.Pos()), off(s.Pos()), "vwork_.P(); "})
		}
	}
	begin := func(b *ast.BlockStmt) {
		if b != nil {
			eds = append(eds, edit{off(b.Lbrace) + 1, off(b.Lbrace) + 1, " vwork_.P(); "})
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			begin(n.Body)
		case *ast.FuncLit:
			begin(n.Body)
		case *ast.ForStmt:
			begin(n.Body)
		case *ast.RangeStmt:
			begin(n.Body)
		case *ast.CallExpr:
			id, ok := n.Fun.(*ast.Ident)
			if !ok || len(n.Args) == 0 || !builtins {
				return true
			}
			a, b, e := off(n.Fun.Pos()), off(n.Fun.End()), off(n.End())
			switch id.Name {
			case "append":
				eds = append(eds, edit{a, b, "vwork_.Append"})
			case "copy":
				eds = append(eds, edit{a, a, "vwork_.Count("}, edit{e, e, ")"})
			case "make":
				if t, ok := n.Args[0].(*ast.ArrayType); ok && t.Len == nil && len(n.Args) > 1 {
					eds = append(eds, edit{a, a, "vwork_.Made("}, edit{e, e, ")"})
				}
			}
		case *ast.BlockStmt:
			isSwitch := len(n.List) > 0
			for _, s := range n.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					isSwitch = false
				}
			}
			if !isSwitch {
				list(n.List)
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(eds) == 0 {
		return nil
	}
	o := off(af.Name.End())
	z := off(af.End())
	return append(eds, edit{o, o, `; import vwork_ "verifmc/vwork"`}, edit{z, z, "; var _ = vwork_.P"})
}

// yields returns the function if the call is one of runtime.Gosched or time.Sleep.
func yields(af *ast.File, c *ast.CallExpr) string {
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	x, ok := sel.X.(*ast.Ident)
	if !ok {
		return ""
	}
	for _, im := range af.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := path
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == x.Name && (path == "runtime" && sel.Sel.Name == "Gosched" || path == "time" && sel.Sel.Name == "Sleep") {
			return x.Name + "." + sel.Sel.Name
		}
	}
	return ""
}

func apply(src []byte, eds []edit) []byte {
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var out []byte
	at := 0
	for _, e := range eds {
		out = append(out, src[at:e.off]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, src[at:]...)
}
