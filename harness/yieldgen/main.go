// Command yieldgen writes a build overlay of the repository's current source
// in which a call that may yield the processor precedes every statement. The
// calls do nothing unless enabled by the environment; enabled, they diversify
// the interleavings the monitors observe. They use no synchronisation, so they
// hide nothing from the race detector.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package %s

import (
	zzrand "math/rand/v2"
	zzos "os"
	zzruntime "runtime"
	zzstrconv "strconv"
	zztime "time"
)

var zzVerifN, zzVerifS = zzVerifEnv("VERIF_YIELD"), zzVerifEnv("VERIF_YIELD_SLEEP")

func zzVerifEnv(k string) uint32 {
	n, _ := zzstrconv.Atoi(zzos.Getenv(k))
	return uint32(n)
}

func zzVerifYield() {
	if zzVerifN == 0 {
		return
	}
	r := zzrand.Uint32()
	if r%%zzVerifN != 0 {
		return
	}
	if zzVerifS != 0 && (r>>16)%%zzVerifS == 0 {
		zztime.Sleep(zztime.Duration(r>>8&0xff) * zztime.Microsecond)
		return
	}
	zzruntime.Gosched()
}
`

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	overlay := map[string]string{}
	n := 0
	for _, dir := range []string{".", "httptrace", "sqltrace", "opentracing", "traceapp"} {
		d := filepath.Join(*repo, dir)
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		sort.Strings(files)
		pkg := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, "yieldgen:", err)
				os.Exit(1)
			}
			pkg = af.Name.Name
			var offs []int
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					offs = append(offs, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(af, func(nd ast.Node) bool {
				switch x := nd.(type) {
				case *ast.FuncDecl:
					// Functions that run during package initialisation are left alone.
					if x.Name.Name == "init" && x.Recv == nil {
						return false
					}
				case *ast.SwitchStmt:
					for _, cl := range x.Body.List {
						add(cl.(*ast.CaseClause).Body)
					}
				case *ast.BlockStmt:
					add2 := true
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							add2 = false
						}
					}
					if add2 {
						add(x.List)
					}
				case *ast.TypeSwitchStmt:
					for _, cl := range x.Body.List {
						add(cl.(*ast.CaseClause).Body)
					}
				case *ast.SelectStmt:
					for _, cl := range x.Body.List {
						add(cl.(*ast.CommClause).Body)
					}
				}
				return true
			})
			sort.Ints(offs)
			var b strings.Builder
			last := 0
			for i, o := range offs {
				if i > 0 && offs[i-1] == o {
					continue
				}
				b.Write(src[last:o])
				b.WriteString("zzVerifYield();")
				last = o
				n++
			}
			b.Write(src[last:])
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "_"))
			if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, "yieldgen:", err)
				os.Exit(1)
			}
			overlay[f] = dst
		}
		if pkg != "" {
			dst := filepath.Join(*out, "zz_yield_"+pkg+".go")
			os.WriteFile(dst, []byte(fmt.Sprintf(hook, pkg)), 0o644)
			overlay[filepath.Join(d, "zz_verif_yield.go")] = dst
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": overlay})
	os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644)
	fmt.Println(n)
}
