// Reads names of directories, one per line, each with one Go package; answers
// each with one line of JSON: the errors of the compiler's front end, and the
// shape of the type Root with all named types written out.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

type Answer struct {
	Errors []string `json:"errors"`
	Shape  string   `json:"shape"`
}

const styxPath = "github.com/bearcove/styx/implementations/styx-go"

type imports struct {
	std  types.Importer
	fset *token.FileSet
	styx *types.Package
}

func (i *imports) Import(path string) (*types.Package, error) {
	if path != styxPath {
		return i.std.Import(path)
	}
	if i.styx == nil {
		files, errs := parse(i.fset, os.Getenv("STYX_GO"))
		if len(errs) > 0 {
			return nil, fmt.Errorf("%s", errs[0])
		}
		conf := types.Config{Importer: i.std}
		p, err := conf.Check(path, i.fset, files, nil)
		if err != nil {
			return nil, err
		}
		i.styx = p
	}
	return i.styx, nil
}

func parse(fset *token.FileSet, dir string) (files []*ast.File, errs []string) {
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		files = append(files, f)
	}
	return
}

func main() {
	fset := token.NewFileSet()
	imp := &imports{std: importer.ForCompiler(fset, "source", nil), fset: fset}
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		b, err := json.Marshal(check(imp, in.Text()))
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func check(imp *imports, dir string) (a Answer) {
	fset := token.NewFileSet()
	files, errs := parse(fset, dir)
	a.Errors = errs
	if len(errs) > 0 {
		return
	}
	conf := types.Config{Importer: imp, Error: func(err error) { a.Errors = append(a.Errors, err.Error()) }}
	pkg, _ := conf.Check("gen", fset, files, nil)
	if len(a.Errors) > 0 {
		return
	}
	root := pkg.Scope().Lookup("Root")
	if root == nil {
		a.Shape = "none"
		return
	}
	a.Shape = shape(pkg, root.Type(), nil)
	return
}

// quote writes a string so that the caller can write the same.
func quote(s string) string {
	o := "'"
	for _, r := range s {
		if r < 128 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
			o += string(r)
		} else {
			o += fmt.Sprintf("<%x>", r)
		}
	}
	return o + "'"
}

// shape writes a type with the names of types taken out.
func shape(pkg *types.Package, t types.Type, path []types.Type) string {
	for i, p := range path {
		if p == t {
			return fmt.Sprintf("^%d", len(path)-i)
		}
	}
	switch t := t.(type) {
	case *types.Named:
		path = append(append([]types.Type{}, path...), t)
		var consts []string
		for _, n := range pkg.Scope().Names() {
			if c, ok := pkg.Scope().Lookup(n).(*types.Const); ok && c.Type() == types.Type(t) {
				consts = append(consts, quote(constant.StringVal(c.Val())))
			}
		}
		s := shape(pkg, t.Underlying(), path)
		if consts != nil {
			sort.Strings(consts)
			s = "enum(" + strings.Join(consts, ",") + ")"
		}
		return s
	case *types.Pointer:
		return "?" + shape(pkg, t.Elem(), path)
	case *types.Slice:
		return "[]" + shape(pkg, t.Elem(), path)
	case *types.Map:
		return "map[" + shape(pkg, t.Key(), path) + "]" + shape(pkg, t.Elem(), path)
	case *types.Struct:
		var fields []string
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			tag := reflect.StructTag(t.Tag(i))
			styx, json := tag.Get("styx"), tag.Get("json")
			j, jo := strings.CutSuffix(json, ",omitempty")
			s, so := strings.CutSuffix(styx, ",optional")
			if j != s || jo != so || !f.Exported() {
				s = fmt.Sprintf("!%s %s %s", f.Name(), json, styx)
			}
			o := ""
			if so {
				o = "?"
			}
			fields = append(fields, fmt.Sprintf("%s%s:%s", quote(s), o, shape(pkg, f.Type(), path)))
		}
		sort.Strings(fields)
		return "{" + strings.Join(fields, ",") + "}"
	case *types.Interface:
		if t.Empty() {
			return "any"
		}
	}
	return t.String()
}
