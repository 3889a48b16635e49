// Command instr writes a build overlay for the repository's packages:
//   - make([]byte, n) in the stream writer package goes through an allocator
//     the driver can replace, so result buffers can stand next to guard pages;
//   - every assembly function counts its entries.
//
// Nothing in the repository is changed.  Code this does not recognise is left
// alone (its calls are then not guarded or counted).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "directory for the overlay's files")
	base := flag.String("base", "", "overlay to extend")
	flag.Parse()
	replace := map[string]string{}
	if *base != "" {
		b, err := os.ReadFile(*base)
		fatal(err)
		var o struct{ Replace map[string]string }
		fatal(json.Unmarshal(b, &o))
		replace = o.Replace
	}
	fatal(os.MkdirAll(*out, 0o755))
	n := 0
	put := func(path, text string) {
		n++
		f := filepath.Join(*out, fmt.Sprintf("%d_%s", n, filepath.Base(path)))
		fatal(os.WriteFile(f, []byte(text), 0o644))
		replace[path] = f
	}
	content := func(path string) string {
		if r, ok := replace[path]; ok {
			path = r
		}
		b, err := os.ReadFile(path)
		fatal(err)
		return string(b)
	}

	// allocations of the writers
	wdir := filepath.Join(*repo, "pkg/stream/writer")
	files, _ := filepath.Glob(filepath.Join(wdir, "*.go"))
	allocs := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src := content(f)
		fset := token.NewFileSet()
		t, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			continue
		}
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		ast.Inspect(t, func(nd ast.Node) bool {
			c, ok := nd.(*ast.CallExpr)
			if !ok {
				return true
			}
			id, ok := c.Fun.(*ast.Ident)
			if !ok || id.Name != "make" || len(c.Args) < 2 {
				return true
			}
			at, ok := c.Args[0].(*ast.ArrayType)
			if !ok || at.Len != nil {
				return true
			}
			el, ok := at.Elt.(*ast.Ident)
			if !ok || (el.Name != "byte" && el.Name != "uint8") {
				return true
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			name := "verifMake"
			if len(c.Args) == 3 {
				name = "verifMakeCap"
			}
			edits = append(edits, edit{off(c.Pos()), off(c.Args[1].Pos()), name + "("})
			allocs++
			return true
		})
		if len(edits) == 0 {
			continue
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
		for _, e := range edits {
			src = src[:e.from] + e.text + src[e.to:]
		}
		put(f, src)
	}
	put(filepath.Join(wdir, "zz_verif_alloc.go"), `package writer

// VerifAlloc, when set, allocates the result buffers.
var VerifAlloc func(n int) []byte

func verifMake(n int) []byte {
	if VerifAlloc != nil {
		return VerifAlloc(n)
	}
	return make([]byte, n)
}

func verifMakeCap(n, c int) []byte {
	if VerifAlloc != nil {
		return VerifAlloc(c)[:n]
	}
	return make([]byte, n, c)
}
`)

	// entry counters of the assembly functions
	text := regexp.MustCompile(`(?m)^TEXT[ \t]+·(\w+)\(SB\)[^\n]*\n`)
	kernels := 0
	for _, p := range []string{"encode", "decode"} {
		dir := filepath.Join(*repo, "pkg", p)
		sfiles, _ := filepath.Glob(filepath.Join(dir, "*.s"))
		var vars, names string
		for _, f := range sfiles {
			src := content(f)
			if len(text.FindAllString(src, -1)) == 0 {
				continue
			}
			src = text.ReplaceAllStringFunc(src, func(l string) string {
				kernels++
				k := text.FindStringSubmatch(l)[1]
				vars += "var verifCount" + k + " uint64\n"
				names += fmt.Sprintf("\t%q: &verifCount%s,\n", k, k)
				return l + "\tLOCK\n\tINCQ ·verifCount" + k + "(SB)\n"
			})
			put(f, src)
		}
		put(filepath.Join(dir, "zz_verif_count.go"), "package "+p+"\n\n"+vars+
			"\n// VerifKernels counts entries of assembly functions.\nvar VerifKernels = map[string]*uint64{\n"+names+"}\n")
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	fatal(err)
	fatal(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	fmt.Printf(`{"allocs":%d,"kernels":%d}`+"\n", allocs, kernels)
}
