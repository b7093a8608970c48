package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/scouter-contrib/scouter-agent-golang"

// imports of the repository that are replaced by their stand-ins
var shimOf = map[string]string{
	"os": "os", "net": "net", "time": "time", "math/rand": "rand", "sync": "sync", "sync/atomic": "atomic", "log": "log",
	"io/ioutil": "ioutil", "path/filepath": "filepath", "runtime/pprof": "pprof", "runtime": "runtime", "fmt": "fmt", "context": "context",
	"github.com/magiconair/properties": "properties",
}

type edit struct {
	pos, end int
	text     string
}

// lateArgs makes rewrite leave the arguments of go statements where they are. Set when the usual rewrite, which
// evaluates them before the thread starts, does not compile: untyped constants other than literals, built-ins.
var lateArgs bool

// rewrite makes a source file of the repository use the stand-ins and the cooperative scheduler.
// With preempt every statement is preceded by a point where another thread may run.
func rewrite(name string, src []byte, preempt bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, "\"`")
		if s, ok := shimOf[p]; ok {
			eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), "\"" + vrtPath + s + "\""})
		}
	}
	used := false
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	tmp := 0
	// statement lists
	var stmts func(list []ast.Stmt)
	chanOps := func(s ast.Node, visit func(op string, ch ast.Expr)) {
		ast.Inspect(s, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.SelectStmt, *ast.BlockStmt, *ast.CaseClause:
				return false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					if _, ok := n.X.(*ast.UnaryExpr); ok {
						return true // <-<-c
					}
					visit("BeforeRecv", n.X)
				}
			case *ast.SendStmt:
				visit("BeforeSend", n.Chan)
			}
			return true
		})
	}
	// the text of a channel expression; one that calls something is evaluated once, before the statement
	hoist := func(x ast.Expr, ins *string) string {
		call := false
		ast.Inspect(x, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr:
				call = true
			case *ast.FuncLit:
				return false
			}
			return true
		})
		if !call {
			return text(x)
		}
		tmp++
		v := fmt.Sprintf("zzc%d", tmp)
		*ins += v + " := " + text(x) + "; "
		eds = append(eds, edit{off(x.Pos()), off(x.End()), v})
		return v
	}
	stmts = func(list []ast.Stmt) {
		for _, s := range list {
			ins := ""
			at := s
			if l, ok := s.(*ast.LabeledStmt); ok {
				if _, ok := l.Stmt.(*ast.SelectStmt); ok {
					s = l.Stmt
				}
			}
			switch s.(type) {
			case *ast.CommClause, *ast.CaseClause:
				continue
			}
			if preempt {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.LabeledStmt, *ast.BranchStmt:
				default:
					ins += "zzvrt.Stmt(); "
				}
			}
			chanOps(s, func(op string, ch ast.Expr) {
				h := hoist(ch, &ins)
				ins += "zzvrt." + op + "(" + h + "); "
			})
			if sel, ok := s.(*ast.SelectStmt); ok {
				hasDef := false
				var rc, sc []string
				for _, c := range sel.Body.List {
					cc := c.(*ast.CommClause)
					if cc.Comm == nil {
						hasDef = true
						continue
					}
					ast.Inspect(cc.Comm, func(n ast.Node) bool {
						switch n := n.(type) {
						case *ast.UnaryExpr:
							if n.Op == token.ARROW {
								rc = append(rc, hoist(n.X, &ins))
							}
						case *ast.SendStmt:
							sc = append(sc, hoist(n.Chan, &ins))
						}
						return true
					})
				}
				if hasDef {
					ins += "zzvrt.Yield(); zzvrt.Touch(); "
				} else {
					ins += "zzvrt.BeforeSelect([]interface{}{" + strings.Join(rc, ", ") + "}, []interface{}{" + strings.Join(sc, ", ") + "}); "
				}
			}
			if ins != "" {
				used = true
				eds = append(eds, edit{off(at.Pos()), off(at.Pos()), ins})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(n.Args) == 1 {
				used = true
				eds = append(eds, edit{off(id.Pos()), off(id.End()), "zzvrt.Close"})
			}
		case *ast.GoStmt:
			used = true
			call := n.Call
			if lateArgs {
				eds = append(eds, edit{off(n.Go), off(call.Fun.Pos()), "zzvrt.Go(func() { "})
				eds = append(eds, edit{off(call.Rparen) + 1, off(call.Rparen) + 1, " })"})
				return true
			}
			if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				eds = append(eds, edit{off(n.Go), off(call.Fun.Pos()), "zzvrt.Go("})
				eds = append(eds, edit{off(call.Lparen), off(call.Rparen) + 1, ")"})
				return true
			}
			tmp++
			pre := fmt.Sprintf("zzg%d", tmp)
			// { f, a0, a1 := F, A0, A1; zzvrt.Go(func() { f(a0, a1) }) }
			eds = append(eds, edit{off(n.Go), off(call.Fun.Pos()), "{ " + pre + "f := "})
			args := ""
			last := off(call.Fun.End())
			for i, a := range call.Args {
				sep := "; "
				lit := false
				switch x := a.(type) {
				case *ast.BasicLit:
					lit = true
				case *ast.Ident:
					lit = x.Name == "nil" || x.Name == "true" || x.Name == "false"
				}
				if i > 0 {
					args += ", "
				}
				if lit {
					args += text(a)
					eds = append(eds, edit{last, off(a.End()), ""})
				} else {
					v := fmt.Sprintf("%sa%d", pre, i)
					eds = append(eds, edit{last, off(a.Pos()), sep + v + " := "})
					args += v
				}
				last = off(a.End())
			}
			if call.Ellipsis.IsValid() {
				args += "..."
			}
			eds = append(eds, edit{last, off(call.Rparen) + 1, "; zzvrt.Go(func() { " + pre + "f(" + args + ") }) }"})
		}
		return true
	})
	if used {
		e := off(f.Name.End())
		eds = append(eds, edit{e, e, "; import zzvrt \"" + vrtPath + "vrt\""})
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].pos < eds[j].pos })
	var out []byte
	at := 0
	for _, e := range eds {
		if e.pos < at {
			return nil, fmt.Errorf("%s: overlapping rewrites", name)
		}
		out = append(out, src[at:e.pos]...)
		out = append(out, e.text...)
		at = e.end
	}
	return append(out, src[at:]...), nil
}

// overlay gives the contents of all files that are added or replaced in the repository.
func makeOverlay(repo, verif, area string) (map[string][]byte, []string, error) {
	ov := map[string][]byte{}
	preempt := preemptDirs(filepath.Join(verif, "harness", area))
	err := filepath.Walk(filepath.Join(repo, "scouterx"), func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		r, err := rewrite(path, b, preempt[strings.TrimPrefix(filepath.Dir(path), filepath.Join(repo, "scouterx")+"/")])
		if err != nil {
			return err
		}
		ov[path] = r
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	addDir := func(src, dst string) error {
		es, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range es {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, e.Name()))
			if err != nil {
				return err
			}
			ov[filepath.Join(dst, e.Name())] = b
		}
		return nil
	}
	es, err := os.ReadDir(filepath.Join(verif, "shim"))
	if err != nil {
		return nil, nil, err
	}
	for _, e := range es {
		if err := addDir(filepath.Join(verif, "shim", e.Name()), filepath.Join(repo, "scouterx/zzvrt", e.Name())); err != nil {
			return nil, nil, err
		}
	}
	if d := filepath.Join(verif, "harness", "common"); exists(d) {
		if err := addDir(d, filepath.Join(repo, "scouterx/zzvrt/hcommon")); err != nil {
			return nil, nil, err
		}
		cs, _ := os.ReadDir(d)
		for _, e := range cs {
			if e.IsDir() {
				if err := addDir(filepath.Join(d, e.Name()), filepath.Join(repo, "scouterx/zzvrt", e.Name())); err != nil {
					return nil, nil, err
				}
			}
		}
	}
	hd := filepath.Join(verif, "harness", area)
	if err := addDir(hd, filepath.Join(repo, "scouterx/zzverif", area)); err != nil {
		return nil, nil, err
	}
	// harness functions
	fset := token.NewFileSet()
	var names []string
	hf, _ := filepath.Glob(filepath.Join(hd, "*.go"))
	for _, fn := range hf {
		f, err := parser.ParseFile(fset, fn, nil, 0)
		if err != nil {
			return nil, nil, err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H_") {
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	var m strings.Builder
	m.WriteString("package main\n\nimport (\n\t\"" + vrtPath + "vrt\"\n\th \"" + modulePath + "/scouterx/zzverif/" + area + "\"\n)\n\nfunc main() {\n\tvrt.RunNative(map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&m, "\t\t%q: h.%s,\n", n, n)
	}
	m.WriteString("\t})\n}\n")
	ov[filepath.Join(repo, "scouterx/zzverif", area, "zznative", "main.go")] = []byte(m.String())
	return ov, names, nil
}

// preemptDirs reads the packages named in "//verif:stmt" lines of the harness: there every statement is a possible
// context switch.
func preemptDirs(hd string) map[string]bool {
	out := map[string]bool{}
	hf, _ := filepath.Glob(filepath.Join(hd, "*.go"))
	for _, fn := range hf {
		b, _ := os.ReadFile(fn)
		for _, l := range strings.Split(string(b), "\n") {
			if rest, ok := strings.CutPrefix(l, "//verif:stmt "); ok {
				for _, d := range strings.Fields(rest) {
					out[d] = true
				}
			}
		}
	}
	return out
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// goEnv is the environment of go commands on the repository.
func goEnv(work string) []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOSUMDB", "CGO_ENABLED", "GO111MODULE", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(work, "repo.mod"), "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off")
}

func copyMod(repo, work string) error {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(work, "repo.mod"), b, 0644); err != nil {
		return err
	}
	b, err = os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(work, "repo.sum"), b, 0644)
}

func loadProgram(repo, work, area string, ov map[string][]byte) (*Program, *ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(work), Overlay: ov}
	target := modulePath + "/scouterx/zzverif/" + area
	pkgs, err := packages.Load(cfg, target)
	if err != nil {
		return nil, nil, err
	}
	var bad []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		return nil, nil, fmt.Errorf("the tree with the harness does not type-check:\n%s", strings.Join(bad, "\n"))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, modPath: modulePath, ptrs: map[types.Type]types.Type{}}
	for _, q := range prog.AllPackages() {
		p.pkgs[q.Pkg.Path()] = q
	}
	p.vrt = p.pkgs[vrtPath+"vrt"]
	if p.vrt == nil {
		return nil, nil, fmt.Errorf("harness does not import vrt")
	}
	rt := types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.Typ[types.String], nil)
	p.rtErr = rt
	if q := p.pkgs[vrtPath+"vrt"].Type("RuntimeError"); q != nil {
		p.rtErr = q.Type()
	}
	return p, ps[0], nil
}

// buildNative compiles the harness for native replay.
func buildNative(repo, work, area string, ov map[string][]byte, race bool) (string, error) {
	dir := filepath.Join(work, "src")
	rep := map[string]string{}
	i := 0
	for dst, b := range ov {
		i++
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		if err := os.MkdirAll(dir, 0755); err != nil {
			return "", err
		}
		if err := os.WriteFile(f, b, 0644); err != nil {
			return "", err
		}
		rep[dst] = f
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	oj := filepath.Join(work, "overlay.json")
	if err := os.WriteFile(oj, j, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(work, "native")
	args := []string{"build", "-overlay", oj}
	env := goEnv(work)
	if race {
		bin += "-race"
		// the scheduler and the stand-ins are not instrumented
		args = append(args, "-race", "-gcflags="+vrtPath+"...=-race=false", "-gcflags="+p0(vrtPath)+"zzverif/...=-race=false")
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, "-o", bin, "./scouterx/zzverif/"+area+"/zznative")...)
	cmd.Dir = repo
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

func p0(vrt string) string { return strings.TrimSuffix(vrt, "zzvrt/") }
