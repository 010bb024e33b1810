// gossa loads the packages of /repo, builds go/ssa for them and writes every
// function of the module as JSON: the mechanical extraction the verifier works on.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typeIDs   = map[string]int{}
	typeTable = []M{}
	fset      *token.FileSet
	modpath   = "github.com/pojntfx/stfs"
)

func tid(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if _, ok := t.(*types.TypeParam); ok {
		key = fmt.Sprintf("typeparam:%p:%s", t, key)
	}
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTable)
	typeIDs[key] = id
	m := M{"s": key}
	typeTable = append(typeTable, m)
	switch u := t.(type) {
	case *types.Named:
		m["k"] = "named"
		m["u"] = tid(u.Underlying())
	case *types.Basic:
		m["k"] = "basic"
		m["n"] = u.Name()
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			m["b"] = "bool"
		case i&types.IsInteger != 0:
			m["b"] = "int"
			m["unsigned"] = i&types.IsUnsigned != 0
		case i&types.IsFloat != 0:
			m["b"] = "float"
		case i&types.IsString != 0:
			m["b"] = "string"
		default:
			m["b"] = "other"
		}
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = tid(u.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = tid(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = tid(u.Elem())
		m["n"] = u.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = tid(u.Key())
		m["e"] = tid(u.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = tid(u.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": tid(f.Type()), "emb": f.Embedded()})
		}
		m["f"] = fs
	case *types.Interface:
		m["k"] = "iface"
		ms := []string{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		m["m"] = ms
	case *types.Signature:
		m["k"] = "func"
		ps := []int{}
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, tid(u.Params().At(i).Type()))
		}
		rs := []int{}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, tid(u.Results().At(i).Type()))
		}
		m["p"] = ps
		m["r"] = rs
	case *types.Tuple:
		m["k"] = "tuple"
		es := []int{}
		for i := 0; i < u.Len(); i++ {
			es = append(es, tid(u.At(i).Type()))
		}
		m["f"] = es
	default:
		m["k"] = "other"
	}
	return id
}

func constOf(c *ssa.Const) M {
	m := M{"k": "const", "t": tid(c.Type())}
	if c.Value == nil {
		m["nil"] = true
		return m
	}
	switch c.Value.Kind() {
	case constant.Bool:
		m["v"] = constant.BoolVal(c.Value)
	case constant.String:
		m["v"] = constant.StringVal(c.Value)
	case constant.Int:
		m["v"] = c.Value.ExactString()
		m["int"] = true
	case constant.Float:
		m["v"] = c.Value.ExactString()
		m["float"] = true
	default:
		m["v"] = c.Value.ExactString()
	}
	return m
}

func val(v ssa.Value) M {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constOf(x)
	case *ssa.Global:
		return M{"k": "global", "n": x.String(), "t": tid(x.Type())}
	case *ssa.Function:
		return M{"k": "func", "n": x.String(), "t": tid(x.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": x.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "n": x.Name(), "t": tid(x.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": x.Name(), "t": tid(x.Type())}
	default:
		return M{"k": "reg", "n": "%" + v.Name(), "t": tid(v.Type())}
	}
}

func vals(vs []ssa.Value) []M {
	r := []M{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func call(c *ssa.CallCommon) M {
	m := M{"args": vals(c.Args)}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["mfull"] = c.Method.FullName()
	} else {
		m["fn"] = val(c.Value)
		if s := c.StaticCallee(); s != nil {
			m["static"] = s.String()
		}
	}
	sig := c.Signature()
	m["sig"] = tid(sig)
	m["variadic"] = sig.Variadic()
	return m
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

var repo = "/repo"

func dumpFn(f *ssa.Function) M {
	m := M{"name": f.String(), "pos": pos(f.Pos()), "synthetic": f.Synthetic}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": tid(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": tid(p.Type())})
	}
	m["freevars"] = fv
	rs := []int{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, tid(f.Signature.Results().At(i).Type()))
	}
	m["results"] = rs
	if f.Signature.Recv() != nil {
		m["recv"] = true
	}
	if f.Parent() != nil {
		m["parent"] = f.Parent().String()
	}
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	blocks := []M{}
	for _, b := range f.Blocks {
		bm := M{"i": b.Index, "c": b.Comment}
		ins := []M{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ins = append(ins, instr(in))
		}
		bm["ins"] = ins
		su := []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		bm["succs"] = su
		pr := []int{}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bm["preds"] = pr
		blocks = append(blocks, bm)
	}
	m["blocks"] = blocks
	return m
}

func instr(in ssa.Instruction) M {
	m := M{"pos": pos(in.Pos())}
	if v, ok := in.(ssa.Value); ok {
		m["r"] = "%" + v.Name()
		m["t"] = tid(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "alloc"
		m["heap"] = x.Heap
		m["c"] = x.Comment
	case *ssa.Phi:
		m["op"] = "phi"
		m["edges"] = vals(x.Edges)
		m["c"] = x.Comment
	case *ssa.Call:
		m["op"] = "call"
		m["call"] = call(&x.Call)
	case *ssa.BinOp:
		m["op"] = "binop"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["y"] = val(x.Y)
	case *ssa.UnOp:
		m["op"] = "unop"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["commaok"] = x.CommaOk
	case *ssa.ChangeType:
		m["op"] = "changetype"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["op"] = "convert"
		m["x"] = val(x.X)
	case *ssa.MultiConvert:
		m["op"] = "convert"
		m["x"] = val(x.X)
	case *ssa.ChangeInterface:
		m["op"] = "changeiface"
		m["x"] = val(x.X)
	case *ssa.SliceToArrayPointer:
		m["op"] = "unsupported"
		m["what"] = "SliceToArrayPointer"
	case *ssa.MakeInterface:
		m["op"] = "makeiface"
		m["x"] = val(x.X)
	case *ssa.MakeClosure:
		m["op"] = "makeclosure"
		m["fn"] = x.Fn.String()
		m["b"] = vals(x.Bindings)
	case *ssa.MakeMap:
		m["op"] = "makemap"
	case *ssa.MakeChan:
		m["op"] = "makechan"
	case *ssa.MakeSlice:
		m["op"] = "makeslice"
		m["len"] = val(x.Len)
		m["cap"] = val(x.Cap)
	case *ssa.Slice:
		m["op"] = "slice"
		m["x"] = val(x.X)
		m["lo"] = val(x.Low)
		m["hi"] = val(x.High)
		m["max"] = val(x.Max)
	case *ssa.FieldAddr:
		m["op"] = "fieldaddr"
		m["x"] = val(x.X)
		m["i"] = x.Field
	case *ssa.Field:
		m["op"] = "field"
		m["x"] = val(x.X)
		m["i"] = x.Field
	case *ssa.IndexAddr:
		m["op"] = "indexaddr"
		m["x"] = val(x.X)
		m["y"] = val(x.Index)
	case *ssa.Index:
		m["op"] = "index"
		m["x"] = val(x.X)
		m["y"] = val(x.Index)
	case *ssa.Lookup:
		m["op"] = "lookup"
		m["x"] = val(x.X)
		m["y"] = val(x.Index)
		m["commaok"] = x.CommaOk
	case *ssa.Range:
		m["op"] = "range"
		m["x"] = val(x.X)
	case *ssa.Next:
		m["op"] = "next"
		m["x"] = val(x.Iter)
		m["str"] = x.IsString
	case *ssa.TypeAssert:
		m["op"] = "typeassert"
		m["x"] = val(x.X)
		m["at"] = tid(x.AssertedType)
		m["commaok"] = x.CommaOk
	case *ssa.Extract:
		m["op"] = "extract"
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.If:
		m["op"] = "if"
		m["x"] = val(x.Cond)
	case *ssa.Return:
		m["op"] = "return"
		m["rs"] = vals(x.Results)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.Panic:
		m["op"] = "panic"
		m["x"] = val(x.X)
	case *ssa.Go:
		m["op"] = "go"
		m["call"] = call(&x.Call)
	case *ssa.Defer:
		m["op"] = "defer"
		m["call"] = call(&x.Call)
	case *ssa.Send:
		m["op"] = "send"
		m["x"] = val(x.X)
		m["ch"] = val(x.Chan)
	case *ssa.Store:
		m["op"] = "store"
		m["a"] = val(x.Addr)
		m["x"] = val(x.Val)
	case *ssa.MapUpdate:
		m["op"] = "mapupdate"
		m["m"] = val(x.Map)
		m["key"] = val(x.Key)
		m["x"] = val(x.Value)
	case *ssa.Select:
		m["op"] = "unsupported"
		m["what"] = "select"
	default:
		m["op"] = "unsupported"
		m["what"] = fmt.Sprintf("%T", in)
	}
	return m
}

// constStruct returns the fields of a struct literal which has got constants only
func constStruct(v ssa.Value) M {
	l, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	a, ok := l.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := M{}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, r := range *x.Referrers() {
				s, ok := r.(*ssa.Store)
				if !ok {
					return nil
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok || s.Addr != ssa.Value(x) {
					return nil
				}
				m[fmt.Sprint(x.Field)] = constOf(c)
			}
		default:
			return nil
		}
	}
	return m
}

func main() {
	if len(os.Args) > 2 {
		repo = os.Args[2]
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedDeps,
		Dir: repo,
	}
	// Only the module's own packages are loaded from source: dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	pats := []string{"./pkg/...", "./internal/...", "./cmd/..."}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, p.PkgPath, e)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	own := map[*ssa.Package]bool{}
	for _, s := range spkgs {
		if s != nil {
			own[s] = true
		}
	}
	fns := []M{}
	all := ssautil.AllFunctions(prog)
	names := []*ssa.Function{}
	for f := range all {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if f.Blocks == nil {
			continue
		}
		if root.Pkg != nil && own[root.Pkg] || root.Pkg == nil && strings.Contains(f.String(), modpath) {
			names = append(names, f)
		}
	}
	// promoted-method wrappers, thunks and every declared method
	sort.Slice(names, func(i, j int) bool { return names[i].String() < names[j].String() })
	for _, f := range names {
		if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/internal/db/sqlite/models") {
			continue
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		fns = append(fns, dumpFn(f))
	}
	// Package variables whose fields are initialized with constants and which nothing writes afterwards
	consts := map[*ssa.Global]M{}
	written := map[*ssa.Global]bool{}
	for _, f := range names {
		init := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.FieldAddr:
						for _, r := range *x.Referrers() {
							switch y := r.(type) {
							case *ssa.UnOp:
							case *ssa.DebugRef:
							case *ssa.Store:
								c, isconst := y.Val.(*ssa.Const)
								if init && isconst && y.Addr == ssa.Value(x) {
									if consts[g] == nil {
										consts[g] = M{}
									}
									consts[g][fmt.Sprint(x.Field)] = constOf(c)
								} else {
									written[g] = true
								}
							default:
								written[g] = true
							}
						}
					case *ssa.Store:
						c := constStruct(x.Val)
						if !init || x.Addr != ssa.Value(g) || c == nil || consts[g] != nil {
							written[g] = true
						}
						consts[g] = c
					default:
						written[g] = true
					}
				}
			}
		}
	}
	globals := []M{}
	msets := M{}
	for _, s := range spkgs {
		if s == nil {
			continue
		}
		for _, mem := range s.Members {
			if g, ok := mem.(*ssa.Global); ok {
				m := M{"n": g.String(), "t": tid(g.Type())}
				if c, ok := consts[g]; ok && !written[g] {
					m["fields"] = c
				}
				globals = append(globals, m)
			}
			if t, ok := mem.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if types.IsInterface(ty) {
						continue
					}
					ms := prog.MethodSets.MethodSet(ty)
					mm := M{}
					for i := 0; i < ms.Len(); i++ {
						sel := ms.At(i)
						if fn := prog.MethodValue(sel); fn != nil {
							mm[sel.Obj().Name()] = fn.String()
						}
					}
					if len(mm) > 0 {
						msets[types.TypeString(ty, nil)] = mm
					}
				}
			}
		}
	}
	out, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(M{"types": typeTable, "funcs": fns, "globals": globals, "methods": msets}); err != nil {
		panic(err)
	}
	out.Close()
	fmt.Fprintf(os.Stderr, "gossa: %d functions, %d types\n", len(fns), len(typeTable))
}
