// Command ports type checks the library for other platforms and reports each
// package as an event for TracePorts.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

type pkg struct {
	Dir, ImportPath, Name    string
	GoFiles, SFiles, Imports []string
	ImportMap                map[string]string
	Standard, DepOnly        bool
	Module                   *struct{ Path, GoVersion string }
	Error                    *struct{ Err string }
	checked                  *types.Package
	busy                     bool
}

type event struct {
	Op     string            `json:"op"`
	Port   string            `json:"port"`
	Pkg    string            `json:"pkg"`
	Errors []string          `json:"errors"`
	Asm    bool              `json:"asm"`
	Funcs  map[string]string `json:"funcs"`
	Dir    string            `json:"dir"`
	Files  []string          `json:"files"`
}

type world struct {
	arch  string
	fset  *token.FileSet
	pkgs  map[string]*pkg
	fails []string // problems outside the repository
	evs   map[*pkg]*event
}

func signature(s *types.Signature) string {
	q := func(p *types.Package) string { return p.Name() }
	list := func(t *types.Tuple) string {
		var l []string
		for i := 0; i < t.Len(); i++ {
			l = append(l, types.TypeString(t.At(i).Type(), q))
		}
		return strings.Join(l, ", ")
	}
	r := list(s.Results())
	if r != "" {
		r = " " + r
	}
	return "func(" + list(s.Params()) + ")" + r
}

// check type checks a package; function bodies only in the repository.
func (w *world) check(p *pkg) (*types.Package, error) {
	ev := w.evs[p]
	if p.checked != nil {
		return p.checked, nil
	}
	if p.busy {
		return nil, fmt.Errorf("import cycle through %s", p.ImportPath)
	}
	p.busy = true
	defer func() { p.busy = false }()
	repo := ev != nil
	var files []*ast.File
	var errs []string
	for _, f := range p.GoFiles {
		t, err := parser.ParseFile(w.fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			errs = append(errs, err.Error())
		}
		if t != nil {
			files = append(files, t)
			if repo && len(p.SFiles) == 0 {
				for _, d := range t.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
						errs = append(errs, "missing function body: "+fd.Name.Name)
					}
				}
			}
		}
	}
	conf := types.Config{
		IgnoreFuncBodies: !repo,
		FakeImportC:      true,
		Sizes:            types.SizesFor("gc", w.arch),
		Error:            func(err error) { errs = append(errs, err.Error()) },
		Importer:         w.importer(p),
	}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	t, _ := conf.Check(p.ImportPath, w.fset, files, nil)
	if p.Error != nil {
		errs = append(errs, p.Error.Err)
	}
	if repo {
		ev.Errors = append(ev.Errors, errs...)
		ev.Asm = len(p.SFiles) > 0
		if t != nil {
			for _, n := range t.Scope().Names() {
				if f, ok := t.Scope().Lookup(n).(*types.Func); ok && f.Exported() {
					ev.Funcs[n] = signature(f.Type().(*types.Signature))
				}
			}
		}
	} else if len(errs) > 0 {
		w.fails = append(w.fails, p.ImportPath+": "+errs[0])
	}
	p.checked = t
	return t, nil
}

type importFunc func(path string) (*types.Package, error)

func (f importFunc) Import(path string) (*types.Package, error) { return f(path) }

func (w *world) importer(p *pkg) types.Importer {
	return importFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		d, ok := w.pkgs[path]
		if !ok {
			return nil, fmt.Errorf("no package %s on this port", path)
		}
		return w.check(d)
	})
}

func port(repo, name string) (events []*event, problem string) {
	goos, arch, _ := strings.Cut(name, "/")
	cmd := exec.Command("go", "list", "-e", "-deps", "-json", "./pkg/...")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOOS="+goos, "GOARCH="+arch, "CGO_ENABLED=0", "GOFLAGS=-mod=readonly")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, "go list: " + err.Error() + ": " + stderr.String()
	}
	w := &world{arch: arch, fset: token.NewFileSet(), pkgs: map[string]*pkg{}, evs: map[*pkg]*event{}}
	var roots []*pkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err.Error()
		}
		w.pkgs[p.ImportPath] = p
		if !p.Standard && strings.Contains(p.ImportPath, "streamvbyte-simdgo/pkg") && p.Name != "main" {
			// a package that has only tests is no part of the library
			if len(p.GoFiles) > 0 || len(p.SFiles) > 0 || p.Name == "" || (p.Error != nil && !strings.HasSuffix(p.ImportPath, "/pkg")) {
				roots = append(roots, p)
			}
		}
	}
	for _, p := range roots {
		ev := &event{Op: "package", Port: name, Pkg: p.ImportPath[strings.Index(p.ImportPath, "/pkg/")+5:], Errors: []string{}, Funcs: map[string]string{}, Dir: p.Dir, Files: append(append([]string{}, p.GoFiles...), p.SFiles...)}
		w.evs[p] = ev
		events = append(events, ev)
	}
	for _, p := range roots {
		w.check(p)
	}
	if len(w.fails) > 0 {
		problem = w.fails[0]
	}
	return
}

func main() {
	flags := flag.NewFlagSet("ports", flag.ExitOnError)
	repo := flags.String("repo", "/repo", "")
	list := flags.String("ports", "", "comma separated")
	flags.Parse(os.Args[1:])
	ports := strings.Split(*list, ",")
	res := make([][]*event, len(ports))
	prob := make([]string, len(ports))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := range ports {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			res[i], prob[i] = port(*repo, ports[i])
		}(i)
	}
	wg.Wait()
	enc := json.NewEncoder(os.Stdout)
	for i := range ports {
		if prob[i] != "" {
			fmt.Fprintf(os.Stderr, "%s: %s\n", ports[i], prob[i])
		}
		for _, e := range res[i] {
			enc.Encode(e)
		}
	}
}
