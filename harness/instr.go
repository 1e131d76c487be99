package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const vsyncPath = "github.com/ikawaha/kagome/v2/zzvsync"
const vpausePath = "github.com/ikawaha/kagome/v2/zzvpause"

// instrOpt: imports to be replaced besides sync (also in files that are not instrumented).
type instrOpt struct {
	imports map[string]string
	pause   *int // insert numbered pause points instead of scheduling points; counts them
}

// edit inserts (or replaces) text in a source file.
type edit struct {
	at, end int
	text    string
}

// usesAtomic says that a statement contains what may be an atomic operation.
func usesAtomic(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
				name := sel.Sel.Name
				for _, p := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
					if strings.HasPrefix(name, p) {
						found = true
					}
				}
			}
		}
		return !found
	})
	return found
}

// instrumentFile returns the source with a scheduling point before every statement, package sync replaced, and go
// statements handed to the scheduler. ok is false if the file uses blocking channel operations, which the scheduler does
// not control.
func instrumentFile(path string, opt instrOpt) (out []byte, uses map[string]int, ok bool, err error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, false, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, false, err
	}
	uses = map[string]int{}
	ok = true
	var es, imps []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	atomics := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync/atomic" {
			atomics = true
		}
		if p == "sync" {
			t := strconv.Quote(vsyncPath)
			if im.Name == nil {
				t = "sync " + t
			}
			es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), t})
			uses["sync"]++
		} else if r, found := opt.imports[p]; found {
			t := strconv.Quote(r)
			if im.Name == nil {
				t = filepath.Base(p) + " " + t
			}
			imps = append(imps, edit{off(im.Path.Pos()), off(im.Path.End()), t})
		}
	}
	es = append(es, edit{off(f.Name.End()), off(f.Name.End()), "; import zzv " + strconv.Quote(vsyncPath)}, edit{len(src), len(src), "\n\nvar _ = zzv.Point\n"})
	if opt.pause != nil {
		es = []edit{{off(f.Name.End()), off(f.Name.End()), "; import zzv " + strconv.Quote(vpausePath)}, {len(src), len(src), "\n\nvar _ = zzv.At\n"}}
	}
	// every statement of a statement list
	point := func(list []ast.Stmt) {
		for _, s := range list {
			if _, empty := s.(*ast.EmptyStmt); empty {
				continue
			}
			if opt.pause != nil {
				es = append(es, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzv.At(%d); ", *opt.pause)})
				*opt.pause++
				uses["points"]++
				continue
			}
			if atomics && usesAtomic(s) {
				es = append(es, edit{off(s.Pos()), off(s.Pos()), "zzv.SyncPoint(); "})
				uses["atomic"]++
				continue
			}
			es = append(es, edit{off(s.Pos()), off(s.Pos()), "zzv.Point(); "})
			uses["points"]++
		}
	}
	nonblocking := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if opt.pause != nil {
			switch n.(type) {
			case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			default:
				return true
			}
		}
		switch v := n.(type) {
		case *ast.BlockStmt:
			caseBody := false
			for _, s := range v.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					caseBody = true
				}
			}
			if !caseBody {
				point(v.List)
			}
		case *ast.CaseClause:
			point(v.Body)
		case *ast.CommClause:
			point(v.Body)
		case *ast.SelectStmt:
			def := false
			for _, s := range v.Body.List {
				if s.(*ast.CommClause).Comm == nil {
					def = true
				}
			}
			if !def {
				ok = false
				uses["select"]++
			} else {
				for _, s := range v.Body.List {
					if c := s.(*ast.CommClause).Comm; c != nil {
						ast.Inspect(c, func(m ast.Node) bool { nonblocking[m] = true; return true })
					}
				}
			}
		case *ast.SendStmt:
			if !nonblocking[v] {
				ok = false
				uses["send"]++
			}
		case *ast.UnaryExpr:
			if v.Op == token.ARROW && !nonblocking[v] {
				ok = false
				uses["receive"]++
			}
		case *ast.GoStmt:
			uses["go"]++
			call := v.Call
			text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
			if _, lit := call.Fun.(*ast.FuncLit); lit && len(call.Args) == 0 {
				es = append(es, edit{off(v.Go), off(call.Pos()), "zzv.Go("}, edit{off(call.Fun.End()), off(call.End()), ")"})
				return true
			}
			if len(call.Args) == 0 {
				es = append(es, edit{off(v.Go), off(v.End()), "zzv.Go(" + text(call.Fun.Pos(), call.Fun.End()) + ")"})
				return true
			}
			var names, vals, pass []string
			for i, a := range call.Args {
				names = append(names, fmt.Sprint("zza", i))
				vals = append(vals, text(a.Pos(), a.End()))
				pass = append(pass, fmt.Sprint("zza", i))
			}
			if call.Ellipsis.IsValid() {
				pass[len(pass)-1] += "..."
			}
			if _, lit := call.Fun.(*ast.FuncLit); lit {
				// keep the (instrumented) function literal in place
				es = append(es, edit{off(v.Go), off(call.Pos()), "{ " + strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; zzf := "},
					edit{off(call.Fun.End()), off(call.End()), "; zzv.Go(func() { zzf(" + strings.Join(pass, ", ") + ") }) }"})
				return true
			}
			es = append(es, edit{off(v.Go), off(v.End()), "{ zzf, " + strings.Join(names, ", ") + " := " + text(call.Fun.Pos(), call.Fun.End()) + ", " + strings.Join(vals, ", ") +
				"; zzv.Go(func() { zzf(" + strings.Join(pass, ", ") + ") }) }"})
			return false
		}
		return true
	})
	if !ok {
		es = nil
	}
	es = append(es, imps...)
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	var b strings.Builder
	last := 0
	for _, e := range es {
		if e.at < last { // inside replaced text
			continue
		}
		b.Write(src[last:e.at])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	return []byte(b.String()), uses, ok, nil
}

// instrumentDirs writes instrumented copies of all packages below the given directories of the repository and an
// overlay file. Files with blocking channel operations are listed in the result.
func instrumentDirs(repo, out string, dirs []string, extra map[string]string, opt instrOpt) (overlay string, uncontrolled []string, points int, err error) {
	rep := map[string]string{}
	for _, d := range dirs {
		err = filepath.Walk(filepath.Join(repo, d), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/testdata/") {
				return err
			}
			src, uses, ok, err := instrumentFile(p, opt)
			if err != nil {
				return err
			}
			if !ok {
				uncontrolled = append(uncontrolled, p)
			} else {
				points += uses["points"]
			}
			rel, _ := filepath.Rel(repo, p)
			dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			rep[p] = dst
			return os.WriteFile(dst, src, 0o644)
		})
		if err != nil {
			return
		}
	}
	vs := filepath.Join(out, "vsync.go")
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "vsync", "vsync.go.txt"))
	if err != nil {
		return
	}
	if err = os.WriteFile(vs, b, 0o644); err != nil {
		return
	}
	rep[filepath.Join(repo, "zzvsync", "vsync.go")] = vs
	for k, v := range extra {
		rep[filepath.Join(repo, k)] = v
	}
	overlay = filepath.Join(out, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	err = os.WriteFile(overlay, j, 0o644)
	return
}

// genHTTPShim writes a package that re-exports net/http with a Server that does not listen: it hands its handler to the
// harness and waits until it is shut down.
func genHTTPShim(dst string) error {
	pkg, err := build.Default.Import("net/http", "", 0)
	if err != nil {
		return err
	}
	var b strings.Builder
	b.WriteString("package zzvhttp\n\nimport (\n\t\"context\"\n\t\"net\"\n\thttp \"net/http\"\n\t\"sync\"\n\t\"time\"\n)\n\n")
	own := map[string]bool{"Server": true, "ListenAndServe": true, "ListenAndServeTLS": true, "Serve": true, "ServeTLS": true}
	seen := map[string]bool{}
	emit := func(format, n string) {
		if ast.IsExported(n) && !own[n] && !seen[n] {
			seen[n] = true
			fmt.Fprintf(&b, format, n, n)
		}
	}
	for _, f := range pkg.GoFiles {
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, filepath.Join(pkg.Dir, f), nil, 0)
		if err != nil {
			return err
		}
		for _, d := range file.Decls {
			switch v := d.(type) {
			case *ast.FuncDecl:
				if v.Recv == nil && v.Type.TypeParams == nil {
					emit("var %s = http.%s\n", v.Name.Name)
				}
			case *ast.GenDecl:
				for _, sp := range v.Specs {
					switch x := sp.(type) {
					case *ast.TypeSpec:
						if x.TypeParams == nil {
							emit("type %s = http.%s\n", x.Name.Name)
						}
					case *ast.ValueSpec:
						for _, n := range x.Names {
							if v.Tok == token.CONST {
								emit("const %s = http.%s\n", n.Name)
							} else {
								emit("var %s = http.%s\n", n.Name)
							}
						}
					}
				}
			}
		}
	}
	b.WriteString(httpShim)
	return os.WriteFile(dst, []byte(b.String()), 0o644)
}

const httpShim = `
// Handlers receives the handler of every server that is started.
var Handlers = make(chan http.Handler, 16)

// Server stands in for http.Server.
type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration
	MaxHeaderBytes               int
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context
	ConnState                    func(net.Conn, http.ConnState)
	mu                           sync.Mutex
	done                         chan struct{}
	closed                       bool
}

func (s *Server) ch() chan struct{} {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.done == nil {
		s.done = make(chan struct{})
	}
	return s.done
}

func (s *Server) ListenAndServe() error {
	h := s.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	Handlers <- h
	<-s.ch()
	return http.ErrServerClosed
}

func (s *Server) Serve(l net.Listener) error { return s.ListenAndServe() }

func (s *Server) Close() error {
	ch := s.ch()
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		s.closed = true
		close(ch)
	}
	return nil
}

func (s *Server) Shutdown(ctx context.Context) error { return s.Close() }

func (s *Server) RegisterOnShutdown(f func()) {}

func (s *Server) SetKeepAlivesEnabled(v bool) {}

func ListenAndServe(addr string, h http.Handler) error { return (&Server{Addr: addr, Handler: h}).ListenAndServe() }

func Serve(l net.Listener, h http.Handler) error { return (&Server{Handler: h}).ListenAndServe() }
`
