// ssadump translates the Go packages of a source tree into SSA form
// (golang.org/x/tools/go/ssa) and writes the SSA as JSON for the condition
// generator. Nothing is abstracted here: every instruction of every function
// of the packages under verification is written out; of the standard library
// only the packages named in -inline are given bodies, all other standard
// library functions stay external.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "gitlab.cs.fau.de/since/radolan"

type loader struct {
	root   string
	fset   *token.FileSet
	std    types.Importer
	inline map[string]bool
	pkgs   map[string]*types.Package
	files  map[string][]*ast.File
	infos  map[string]*types.Info
	order  []string
}

func (l *loader) Import(path string) (*types.Package, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	dir := ""
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		dir = filepath.Join(l.root, strings.TrimPrefix(path, modPath))
	} else if l.inline[path] {
		dir = filepath.Join(build.Default.GOROOT, "src", path)
	} else {
		p, err := l.std.Import(path)
		if err == nil {
			l.pkgs[path] = p
		}
		return p, err
	}
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		a, err := parser.ParseFile(l.fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: l, Sizes: types.SizesFor("gc", "amd64")}
	p, err := conf.Check(path, l.fset, files, info)
	if err != nil {
		return nil, err
	}
	l.pkgs[path], l.files[path], l.infos[path] = p, files, info
	l.order = append(l.order, path)
	return p, nil
}

// ---- types

var typeTab = map[string]any{}

func qual(p *types.Package) string { return p.Path() }

func typ(t types.Type) string {
	key := types.TypeString(t, qual)
	if _, ok := typeTab[key]; ok {
		return key
	}
	typeTab[key] = nil // recursion guard
	d := map[string]any{}
	switch u := t.(type) {
	case *types.Named:
		d["k"] = "named"
		d["u"] = typ(u.Underlying())
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		d["methods"] = ms
	case *types.Alias:
		d["k"] = "alias"
		d["u"] = typ(types.Unalias(u))
	case *types.Basic:
		d["k"] = "basic"
		d["name"] = u.Name()
	case *types.Pointer:
		d["k"] = "ptr"
		d["e"] = typ(u.Elem())
	case *types.Slice:
		d["k"] = "slice"
		d["e"] = typ(u.Elem())
	case *types.Array:
		d["k"] = "array"
		d["e"] = typ(u.Elem())
		d["n"] = u.Len()
	case *types.Map:
		d["k"] = "map"
		d["key"] = typ(u.Key())
		d["e"] = typ(u.Elem())
	case *types.Chan:
		d["k"] = "chan"
	case *types.Struct:
		d["k"] = "struct"
		var fs []any
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, []any{u.Field(i).Name(), typ(u.Field(i).Type())})
		}
		d["f"] = fs
	case *types.Tuple:
		d["k"] = "tuple"
		es := []string{}
		for i := 0; i < u.Len(); i++ {
			es = append(es, typ(u.At(i).Type()))
		}
		d["es"] = es
	case *types.Signature:
		d["k"] = "func"
		ps := []string{}
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, typ(u.Params().At(i).Type()))
		}
		rs := []string{}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, typ(u.Results().At(i).Type()))
		}
		d["params"], d["results"] = ps, rs
	case *types.Interface:
		d["k"] = "iface"
	case *types.TypeParam:
		d["k"] = "tparam"
	default:
		d["k"] = "other"
	}
	typeTab[key] = d
	return key
}

// ---- values

func constVal(c *ssa.Const) map[string]any {
	m := map[string]any{"v": "const", "t": typ(c.Type())}
	if c.Value == nil {
		m["zero"] = true
		return m
	}
	switch c.Value.Kind() {
	case constant.Bool:
		m["c"] = "bool"
		m["x"] = constant.BoolVal(c.Value)
	case constant.String:
		m["c"] = "string"
		var bs []int
		for _, b := range []byte(constant.StringVal(c.Value)) {
			bs = append(bs, int(b))
		}
		m["x"] = bs
	case constant.Int:
		m["c"] = "num"
		m["x"] = c.Value.ExactString()
	case constant.Float:
		m["c"] = "num"
		m["x"] = exactFloat(c.Value)
	default:
		m["c"] = "other"
	}
	return m
}

func exactFloat(v constant.Value) string {
	n, d := constant.Num(v), constant.Denom(v)
	if n.Kind() == constant.Int && d.Kind() == constant.Int {
		return n.ExactString() + "/" + d.ExactString()
	}
	return v.ExactString()
}

func ref(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return map[string]any{"v": "global", "n": x.Pkg.Pkg.Path() + "." + x.Name(), "t": typ(x.Type())}
	case *ssa.Function:
		need(x)
		return map[string]any{"v": "func", "n": fname(x), "t": typ(x.Type())}
	case *ssa.Builtin:
		return map[string]any{"v": "builtin", "n": x.Name()}
	default:
		return map[string]any{"v": "reg", "n": v.Name(), "t": typ(v.Type())}
	}
}

func refs(vs []ssa.Value) []any {
	out := []any{}
	for _, v := range vs {
		out = append(out, ref(v))
	}
	return out
}

var work []*ssa.Function
var seen = map[*ssa.Function]bool{}

func need(f *ssa.Function) {
	if !seen[f] {
		seen[f] = true
		work = append(work, f)
	}
}

func fname(f *ssa.Function) string { return f.String() }

func call(c *ssa.CallCommon) map[string]any {
	m := map[string]any{"args": refs(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = ref(c.Value)
		m["recvt"] = typ(c.Value.Type())
	} else {
		m["fn"] = ref(c.Value)
	}
	m["sig"] = typ(c.Signature())
	return m
}

func instr(fset *token.FileSet, in ssa.Instruction) map[string]any {
	m := map[string]any{"op": strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa.")}
	if v, ok := in.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = typ(v.Type())
	}
	if p := fset.Position(in.Pos()); p.IsValid() {
		m["pos"] = fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
	}
	switch i := in.(type) {
	case *ssa.Alloc:
		m["heap"] = i.Heap
		m["comment"] = i.Comment
	case *ssa.BinOp:
		m["tok"], m["x"], m["y"] = i.Op.String(), ref(i.X), ref(i.Y)
	case *ssa.UnOp:
		m["tok"], m["x"], m["commaok"] = i.Op.String(), ref(i.X), i.CommaOk
	case *ssa.Call:
		m["call"] = call(i.Common())
	case *ssa.Defer:
		m["call"] = call(i.Common())
	case *ssa.Go:
		m["call"] = call(i.Common())
	case *ssa.ChangeInterface:
		m["x"] = ref(i.X)
	case *ssa.ChangeType:
		m["x"] = ref(i.X)
	case *ssa.Convert:
		m["x"] = ref(i.X)
	case *ssa.MultiConvert:
		m["x"] = ref(i.X)
	case *ssa.SliceToArrayPointer:
		m["x"] = ref(i.X)
	case *ssa.Extract:
		m["x"], m["i"] = ref(i.Tuple), i.Index
	case *ssa.Field:
		m["x"], m["i"] = ref(i.X), i.Field
	case *ssa.FieldAddr:
		m["x"], m["i"] = ref(i.X), i.Field
	case *ssa.If:
		m["x"] = ref(i.Cond)
	case *ssa.Index:
		m["x"], m["y"] = ref(i.X), ref(i.Index)
	case *ssa.IndexAddr:
		m["x"], m["y"] = ref(i.X), ref(i.Index)
	case *ssa.Lookup:
		m["x"], m["y"], m["commaok"] = ref(i.X), ref(i.Index), i.CommaOk
	case *ssa.MakeClosure:
		m["fn"], m["bind"] = ref(i.Fn), refs(i.Bindings)
	case *ssa.MakeInterface:
		m["x"] = ref(i.X)
	case *ssa.MakeMap:
	case *ssa.MakeSlice:
		m["len"], m["cap"] = ref(i.Len), ref(i.Cap)
	case *ssa.MapUpdate:
		m["m"], m["key"], m["val"] = ref(i.Map), ref(i.Key), ref(i.Value)
	case *ssa.Next:
		m["x"], m["isstring"] = ref(i.Iter), i.IsString
	case *ssa.Panic:
		m["x"] = ref(i.X)
	case *ssa.Phi:
		m["edges"], m["comment"] = refs(i.Edges), i.Comment
	case *ssa.Range:
		m["x"] = ref(i.X)
	case *ssa.Return:
		m["res"] = refs(i.Results)
	case *ssa.Slice:
		m["x"], m["lo"], m["hi"], m["max"] = ref(i.X), ref(i.Low), ref(i.High), ref(i.Max)
	case *ssa.Store:
		m["addr"], m["val"] = ref(i.Addr), ref(i.Val)
	case *ssa.TypeAssert:
		m["x"], m["asserted"], m["commaok"] = ref(i.X), typ(i.AssertedType), i.CommaOk
	}
	return m
}

func function(fset *token.FileSet, f *ssa.Function) map[string]any {
	m := map[string]any{"name": fname(f), "sig": typ(f.Signature)}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	if p := fset.Position(f.Pos()); p.IsValid() {
		m["pos"] = fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
	}
	if f.Synthetic != "" {
		m["synthetic"] = f.Synthetic
	}
	ps, fv := []any{}, []any{}
	for _, p := range f.Params {
		ps = append(ps, []any{p.Name(), typ(p.Type())})
	}
	for _, p := range f.FreeVars {
		fv = append(fv, []any{p.Name(), typ(p.Type())})
	}
	rs := []any{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		r := f.Signature.Results().At(i)
		rs = append(rs, []any{r.Name(), typ(r.Type())})
	}
	m["params"], m["freevars"], m["results"] = ps, fv, rs
	if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
		m["generic"] = true
		return m
	}
	bs := []any{}
	for _, b := range f.Blocks {
		ins := []any{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ins = append(ins, instr(fset, in))
		}
		su, pr := []int{}, []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bs = append(bs, map[string]any{"i": ins, "succ": su, "pred": pr, "comment": b.Comment})
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	return m
}

func main() {
	root := flag.String("root", "/repo", "source tree")
	inline := flag.String("inline", "", "standard library packages to give bodies")
	skip := flag.String("skipinit", "", "packages whose variable initialisers are left out (their variables are then arbitrary)")
	flag.Parse()
	skipInit := map[string]bool{}
	for _, p := range strings.Split(*skip, ",") {
		skipInit[p] = true
	}
	build.Default.CgoEnabled = false
	build.Default.GOARCH, build.Default.GOOS = "amd64", "linux"
	fset := token.NewFileSet()
	l := &loader{root: *root, fset: fset, std: importer.ForCompiler(fset, "source", nil),
		inline: map[string]bool{}, pkgs: map[string]*types.Package{"unsafe": types.Unsafe},
		files: map[string][]*ast.File{}, infos: map[string]*types.Info{}}
	for _, p := range strings.Split(*inline, ",") {
		if p != "" {
			l.inline[p] = true
		}
	}
	var local []string
	for _, sub := range []string{"", "/radolan2png/vis", "/radolan2png"} {
		if _, err := os.Stat(filepath.Join(*root, sub)); err == nil {
			local = append(local, modPath+sub)
		}
	}
	// further packages a change may have added
	filepath.Walk(*root, func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			if bp, err := build.Default.ImportDir(path, 0); err == nil && len(bp.GoFiles) > 0 {
				rel, _ := filepath.Rel(*root, path)
				ip := modPath
				if rel != "." {
					ip += "/" + filepath.ToSlash(rel)
				}
				have := false
				for _, x := range local {
					have = have || x == ip
				}
				if !have {
					local = append(local, ip)
				}
			}
		}
		return nil
	})
	for _, p := range local {
		if _, err := l.Import(p); err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			os.Exit(3)
		}
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var createAll func(p *types.Package)
	var spkgs []*ssa.Package
	createAll = func(p *types.Package) {
		if created[p] {
			return
		}
		created[p] = true
		for _, q := range p.Imports() {
			createAll(q)
		}
		if files, ok := l.files[p.Path()]; ok {
			spkgs = append(spkgs, prog.CreatePackage(p, files, l.infos[p.Path()], true))
		} else {
			prog.CreatePackage(p, nil, nil, true)
		}
	}
	for _, p := range local {
		createAll(l.pkgs[p])
	}
	// ssa needs "runtime" errors etc. only at link time; build bodies now
	for _, sp := range spkgs {
		sp.Build()
	}
	globals := []any{}
	consts := []any{}
	for _, sp := range spkgs {
		isLocal := false
		for _, p := range local {
			isLocal = isLocal || sp.Pkg.Path() == p
		}
		if !isLocal {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				need(m)
			case *ssa.NamedConst:
				if v, ok := m.Value.Value, true; ok && v != nil && v.Kind() != constant.Unknown && v.Kind() != constant.Complex {
					consts = append(consts, []any{sp.Pkg.Path() + "." + n, typ(m.Type()), v.Kind().String(), v.ExactString()})
				}
			case *ssa.Global:
				globals = append(globals, []any{sp.Pkg.Path() + "." + n, typ(m.Type())})
			case *ssa.Type:
				t := m.Type()
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							need(f)
						}
					}
				}
			}
		}
	}
	funcs := []any{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, a := range f.AnonFuncs {
			need(a)
		}
		if f.Pkg != nil && f.Name() == "init" && skipInit[f.Pkg.Pkg.Path()] {
			continue
		}
		funcs = append(funcs, function(fset, f))
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"types": typeTab, "funcs": funcs, "globals": globals, "consts": consts, "local": local})
}
