package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// A harness file may say
//
//	//verif:stub dir Type.Func Spec
//
// for a function of the repository whose body is a placeholder (a lookup that is not implemented yet). In a copy laid
// over the source, for the symbolic execution and for the native replay alike, the function then begins with
//
//	if VerifStubs { return Spec(receiver, parameters...) }
//
// Everything else of the file, line numbers included, stays as it is.

var reStub = regexp.MustCompile(`(?m)^//verif:stub (\S+) (\S+) (\S+)`)

var stubDir string

func stubs(src, repo string, ov map[string]string) error {
	for _, m := range reStub.FindAllStringSubmatch(src, -1) {
		if err := stub(filepath.Join(repo, m[1]), m[2], m[3], ov); err != nil {
			return err
		}
	}
	return nil
}

func stub(dir, name, spec string, ov map[string]string) error {
	typ, fun, ok := strings.Cut(name, ".")
	if !ok {
		typ, fun = "", name
	}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		from := f
		if o := ov[f]; o != "" {
			from = o
		}
		src, err := os.ReadFile(from)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != fun || fd.Body == nil || recvType(fd) != typ {
				continue
			}
			type edit struct {
				at   int
				drop int
				text string
			}
			var edits []edit
			var args []string
			field := func(l *ast.FieldList) {
				if l == nil {
					return
				}
				for _, p := range l.List {
					if len(p.Names) == 0 {
						n := fmt.Sprintf("verifArg%d", len(args))
						args = append(args, n)
						edits = append(edits, edit{fset.Position(p.Type.Pos()).Offset, 0, n + " "})
					}
					for _, id := range p.Names {
						n := id.Name
						if n == "_" {
							n = fmt.Sprintf("verifArg%d", len(args))
							edits = append(edits, edit{fset.Position(id.Pos()).Offset, 1, n})
						}
						if _, ok := p.Type.(*ast.Ellipsis); ok {
							n += "..."
						}
						args = append(args, n)
					}
				}
			}
			field(fd.Recv)
			field(fd.Type.Params)
			edits = append(edits, edit{fset.Position(fd.Body.Lbrace).Offset + 1, 0,
				" if VerifStubs { return " + spec + "(" + strings.Join(args, ", ") + ") };"})
			var out bytes.Buffer
			at := 0
			for _, e := range edits {
				out.Write(src[at:e.at])
				out.WriteString(e.text)
				at = e.at + e.drop
			}
			out.Write(src[at:])
			if stubDir == "" {
				if stubDir, err = os.MkdirTemp("", "gosym-stub"); err != nil {
					return err
				}
			}
			to := filepath.Join(stubDir, strings.ReplaceAll(f, "/", "_"))
			ov[f] = to
			return os.WriteFile(to, out.Bytes(), 0644)
		}
	}
	return fmt.Errorf("no function %s to stand in for in %s", name, dir)
}

func recvType(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return ""
	}
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return "?"
}
