// Command inject adds an injection point before every statement of a Go file, keeping line
// numbers: inject FILE [PACKAGE [FUNCTION]] < source > instrumented source.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"sort"
	"strings"
)

var pkg, fun = "xpoint", "Gap"

func main() {
	if len(os.Args) > 2 {
		pkg = os.Args[2]
	}
	if len(os.Args) > 3 {
		fun = os.Args[3]
	}
	src, err := io.ReadAll(os.Stdin)
	if err == nil {
		src, err = inject(os.Args[1], src)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Stdout.Write(src)
}

// pins tells whether a function mentions the runtime's pinning of a goroutine to its processor.
func pins(f *ast.FuncDecl) (yes bool) {
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			l := strings.ToLower(id.Name)
			yes = yes || strings.Contains(l, "pin")
		}
		return !yes
	})
	return yes
}

func inject(name string, src []byte) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	at := map[int]bool{}
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			default:
				at[fs.Position(s.Pos()).Offset] = true
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if pins(n) { // must not block
				return false
			}
		case *ast.BlockStmt:
			add(n.List)
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, nil
	}
	var offs []int
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	head := fs.Position(f.Name.End()).Offset
	var b bytes.Buffer
	b.Write(src[:head])
	b.WriteString(`; import xpointgap "vsa/internal/zzverif/` + pkg + `"`)
	last := head
	for _, o := range offs {
		b.Write(src[last:o])
		b.WriteString("xpointgap." + fun + "(); ")
		last = o
	}
	b.Write(src[last:])
	return b.Bytes(), nil
}
