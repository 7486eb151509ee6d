// rare lists changes that show only under a rare condition, as JSON lines like
// mutate: a statement or a condition is made to depend on a variable in scope
// having a common value. Run it in the repository: rare SEED COUNT FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	File, Kind, Old, New string
	Line, Start, End     int
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	count, _ := strconv.Atoi(os.Args[2])
	r := rand.New(rand.NewSource(seed))
	fs := token.NewFileSet()
	dirs := map[string][]*ast.File{}
	srcs := map[*ast.File][]byte{}
	var order []string
	for _, file := range os.Args[3:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		d := filepath.Dir(file)
		if dirs[d] == nil {
			order = append(order, d)
		}
		dirs[d] = append(dirs[d], f)
		srcs[f] = src
	}
	sort.Strings(order)
	imp := importer.ForCompiler(fs, "source", nil)
	var all []mutant
	for _, d := range order {
		info := &types.Info{Scopes: map[ast.Node]*types.Scope{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		pkg, _ := conf.Check(d, fs, dirs[d], info)
		for _, f := range dirs[d] {
			src := srcs[f]
			var dead [][2]token.Pos // never called, or only with other input
			for _, x := range f.Decls {
				if fd, ok := x.(*ast.FuncDecl); ok && (fd.Name.Name == "unquoteBytes" || fd.Name.Name == "getu4" || fd.Name.Name == "ExistsKey" || strings.HasPrefix(fd.Name.Name, "err") || fd.Name.Name == "Error") {
					dead = append(dead, [2]token.Pos{fd.Pos(), fd.End()})
				}
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			emit := func(kind string, n ast.Node, repl string) {
				for _, x := range dead {
					if n.Pos() >= x[0] && n.Pos() < x[1] {
						return
					}
				}
				all = append(all, mutant{fs.Position(n.Pos()).Filename, kind, text(n), repl, fs.Position(n.Pos()).Line, off(n.Pos()), off(n.End())})
			}
			preds := func(pos token.Pos) []string {
				var out []string
				sc := pkg.Scope().Innermost(pos)
				for ; sc != nil && sc != pkg.Scope() && sc != types.Universe; sc = sc.Parent() {
					for _, name := range sc.Names() {
						v, ok := sc.Lookup(name).(*types.Var)
						if !ok || v.Pos() >= pos || name == "_" {
							continue
						}
						out = append(out, predicates(r, name, v.Type())...)
					}
				}
				return out
			}
			stmts := func(list []ast.Stmt) {
				for _, s := range list {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
					case *ast.AssignStmt:
						if s.Tok == token.DEFINE {
							continue
						}
					case *ast.BranchStmt:
						if s.Tok == token.FALLTHROUGH {
							continue
						}
					default:
						continue
					}
					for _, p := range preds(s.Pos()) {
						emit("rare-delete", s, "if "+p+" {\n"+text(s)+"\n}")
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
				case *ast.IfStmt:
					for _, p := range preds(n.Body.Pos()) {
						emit("rare-cond", n.Cond, "("+text(n.Cond)+") && ("+p+")")
						emit("rare-cond", n.Cond, "("+text(n.Cond)+") || !("+p+")")
					}
				}
				return true
			})
		}
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	out := json.NewEncoder(os.Stdout)
	per := map[string]int{} // a few per place
	for _, m := range all {
		k := fmt.Sprint(m.File, m.Start)
		if per[k] >= 4 || count == 0 {
			continue
		}
		per[k]++
		count--
		out.Encode(m)
	}
}

func predicates(r *rand.Rand, name string, t types.Type) []string {
	k := []int{16, 60, 260, 1000, 5000, 70000}[r.Intn(6)]
	size := fmt.Sprintf("len(%s) < %d", name, k)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String:
			return []string{size, fmt.Sprintf("len(%s) < 2 || %s[1] != %q", name, name, "\x00;\"}:\xffN a"[r.Intn(9)])}
		case u.Info()&types.IsInteger != 0 && u.Kind() != types.Uint8 && u.Kind() != types.Int8:
			p := []string{fmt.Sprintf("%s < %d", name, k), fmt.Sprintf("%s != %d", name, []int{1, 2, 7, 10, 16, 32, 64, 100, 127, 255, 256}[r.Intn(11)])}
			if u.Info()&types.IsUnsigned == 0 && (name == "v" || name == "i" || name == "currentIndex") {
				p = append(p, fmt.Sprintf("%s >= -%d", name, k))
			}
			return p[r.Intn(len(p)):][:1]
		case u.Kind() == types.Uint8:
			return []string{fmt.Sprintf("%s != %d", name, r.Intn(256))}
		case u.Info()&types.IsFloat != 0:
			return []string{fmt.Sprintf("%s < 1e%d", name, 10*r.Intn(30))}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return []string{size, fmt.Sprintf("cap(%s) < %d", name, k)}
		}
		return []string{size}
	}
	kind := 1 + r.Intn(25)
	switch t.String() {
	case "reflect.Value":
		p := []string{fmt.Sprintf("%s.Kind() != %d", name, kind), fmt.Sprintf("!%s.IsValid() || %s.Type().Name() == \"\"", name, name), fmt.Sprintf("!%s.IsValid() || !%s.IsZero()", name, name), fmt.Sprintf("!%s.CanAddr()", name), fmt.Sprintf("!%s.IsValid() || %s.Type().Size() < %d", name, name, k)}
		return p[r.Intn(len(p)):][:1]
	case "reflect.Type":
		p := []string{fmt.Sprintf("%s.Kind() != %d", name, kind), fmt.Sprintf("%s.PkgPath() == \"\"", name), fmt.Sprintf("%s.Size() < %d", name, k), fmt.Sprintf("%s.NumMethod() == 0", name), fmt.Sprintf("len(%s.String()) < %d", name, k)}
		return p[r.Intn(len(p)):][:1]
	}
	if strings.HasSuffix(t.String(), "reflect.StructField") {
		return []string{fmt.Sprintf("%s.Type.Kind() != %d", name, kind), fmt.Sprintf("len(%s.Tag) < %d", name, k), fmt.Sprintf("%s.Offset < %d", name, k)}[r.Intn(3):][:1]
	}
	return nil
}
