package main

// Mapping of Go types and constants to the ghost types of the verifier.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
)

const modPath = "github.com/CAU-CPSS/logument/internal/"

type transErr struct{ msg string }

func fail(format string, args ...any) { panic(transErr{fmt.Sprintf(format, args...)}) }

func namedKey(t types.Type) string {
	n, ok := unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Name() + "." + o.Name()
}

func leafKind(t types.Type) string {
	n, ok := unalias(t).(*types.Named)
	if !ok || namedKey(t) != "tson.Leaf" || n.TypeArgs().Len() != 1 {
		return ""
	}
	if b, ok := n.TypeArgs().At(0).(*types.Basic); ok {
		switch b.Kind() {
		case types.String:
			return "S"
		case types.Float64:
			return "F"
		case types.Bool:
			return "B"
		}
	}
	return ""
}

// structs that are part of the fixed prelude vocabulary
var structTypes = map[string]bool{"tsonpatch.Operation": true, "logument.Logument": true, "tson.Parser": true, "vssgen.VssJson": true}

func isErr(t types.Type) bool {
	n, ok := unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isAny(t types.Type) bool {
	i, ok := unalias(t).Underlying().(*types.Interface)
	return ok && i.Empty()
}

func isValue(t types.Type) bool { return namedKey(t) == "tson.Value" }

func isIface(t types.Type) bool {
	_, ok := unalias(t).Underlying().(*types.Interface)
	return ok
}

func derefType(t types.Type) (types.Type, bool) {
	if p, ok := unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

func vtype(t types.Type) string {
	t = unalias(t)
	if isErr(t) {
		return "Err"
	}
	if isValue(t) {
		return "Val"
	}
	if isAny(t) {
		return "Any"
	}
	if k := leafKind(t); k != "" {
		return "Leaf" + k
	}
	switch k := namedKey(t); k {
	case "Disk":
		return "Disk"
	case "strings.Builder", "bytes.Buffer", "bytes.Reader":
		return "Str"
	case "json.Decoder":
		return "JDec"
	case "reflect.Type", "fs.FileInfo", "progressbar.ProgressBar":
		return "int"
	default:
		if structTypes[k] {
			return k[strings.Index(k, ".")+1:]
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.UntypedInt:
			return "int"
		case types.Int64:
			return "i64"
		case types.Uint64:
			return "u64"
		case types.Uint8:
			return "u8"
		case types.Int32, types.UntypedRune:
			return "i32"
		case types.String, types.UntypedString:
			return "Str"
		case types.Bool, types.UntypedBool:
			return "bool"
		case types.Float64, types.UntypedFloat:
			return "F64"
		}
	case *types.Slice:
		if e := vtype(u.Elem()); e != "u8" {
			return "Seq<" + e + ">"
		}
		return "Str"
	case *types.Map:
		return "Map<" + vtype(u.Key()) + ", " + vtype(u.Elem()) + ">"
	case *types.Pointer:
		return vtype(u.Elem())
	case *types.Struct:
	}
	fail("type %s is outside the supported subset", t)
	return ""
}

// diskType is the type of the state of the file system.
var diskType = types.NewNamed(types.NewTypeName(0, nil, "Disk", nil), types.NewStruct(nil, nil), nil)

func zero(t types.Type) string {
	t = unalias(t)
	v := vtype(t)
	switch v {
	case "Err":
		return "Err::Nil"
	case "Val":
		return "Val::Nil"
	case "Any":
		return "Any::Nil"
	case "LeafS":
		return "LeafS { Value: Seq::<u8>::empty(), Timestamp: 0i64 }"
	case "LeafF":
		return "LeafF { Value: f64_zero(), Timestamp: 0i64 }"
	case "LeafB":
		return "LeafB { Value: false, Timestamp: 0i64 }"
	case "int", "i64", "u64", "u8", "i32":
		return "0" + v
	case "Str":
		return "Seq::<u8>::empty()"
	case "bool":
		return "false"
	case "F64":
		return "f64_zero()"
	}
	if strings.HasPrefix(v, "Seq<") {
		return "Seq::" + v[3:] + "::empty()"
	}
	if strings.HasPrefix(v, "Map<") {
		return "Map::" + v[3:] + "::empty()"
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		var fs []string
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, s.Field(i).Name()+": "+zero(s.Field(i).Type()))
		}
		return v + " { " + strings.Join(fs, ", ") + " }"
	}
	fail("no zero value for %s", t)
	return ""
}

// anyVariant gives the variant of the universal enum that holds a value of the
// concrete type t, and a function wrapping an expression of that type.
func anyVariant(t types.Type) (variant string, wrap, unwrap func(string) string) {
	t = unalias(t)
	v := func(name string) (string, func(string) string, func(string) string) {
		return name, func(e string) string { return "Any::" + name + "(" + e + ")" },
			func(e string) string { return "(" + e + ")->" + name + "_0" }
	}
	if k := leafKind(t); k != "" {
		return "V:L" + k, func(e string) string { return "Any::V(Val::L" + k + "(" + e + "))" },
			func(e string) string { return "((" + e + ")->V_0)->L" + k + "_0" }
	}
	switch namedKey(t) {
	case "tson.Object":
		return "V:Obj", func(e string) string { return "Any::V(Val::Obj(" + e + "))" },
			func(e string) string { return "((" + e + ")->V_0)->Obj_0" }
	case "tson.Array":
		return "V:Arr", func(e string) string { return "Any::V(Val::Arr(" + e + "))" },
			func(e string) string { return "((" + e + ")->V_0)->Arr_0" }
	case "json.Number":
		return v("Num")
	case "tsonpatch.Operation":
		return "Op", func(e string) string { return "Any::Op(seq![" + e + "])" },
			func(e string) string { return "((" + e + ")->Op_0)[0]" }
	case "tsonpatch.Patch":
		return v("Patch")
	case "tsonpatch.OpType":
		return v("Kind")
	}
	if _, named := t.(*types.Named); !named {
		switch u := t.(type) {
		case *types.Basic:
			switch u.Kind() {
			case types.String, types.UntypedString:
				return v("Str")
			case types.Float64, types.UntypedFloat:
				return v("F")
			case types.Bool, types.UntypedBool:
				return v("B")
			case types.Int, types.UntypedInt:
				return v("Int")
			case types.Int64:
				return v("I64")
			case types.Uint64:
				return v("U64")
			case types.Uint:
				return v("Uint")
			}
		case *types.Map:
			if b, ok := u.Key().(*types.Basic); ok && b.Kind() == types.String && isAny(u.Elem()) {
				return v("M")
			}
		case *types.Slice:
			switch {
			case isAny(u.Elem()):
				return v("S")
			case namedKey(u.Elem()) == "tsonpatch.Operation":
				return v("Ops")
			case namedKey(u.Elem()) == "tsonpatch.Patch":
				return v("Patches")
			}
			if b, ok := u.Elem().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return v("Bytes")
			}
		}
	}
	fail("type %s inside an interface is outside the supported subset", t)
	return
}

// ifaceTest gives the condition that interface expression e (static type st)
// dynamically holds a value of type t, and the extracted value.
func ifaceTest(e string, st, t types.Type) (test, val string) {
	t = unalias(t)
	if isValue(st) {
		if k := leafKind(t); k != "" {
			return "(" + e + " is L" + k + ")", "(" + e + ")->L" + k + "_0"
		}
		switch namedKey(t) {
		case "tson.Object":
			return "(" + e + " is Obj)", "(" + e + ")->Obj_0"
		case "tson.Array":
			return "(" + e + " is Arr)", "(" + e + ")->Arr_0"
		}
		fail("type test %s on tson.Value", t)
	}
	if !isAny(st) {
		fail("type test on %s", st)
	}
	if isValue(t) {
		return "(" + e + " is V)", "(" + e + ")->V_0"
	}
	variant, _, unwrap := anyVariant(t)
	if strings.HasPrefix(variant, "V:") {
		return "(" + e + " is V && (" + e + ")->V_0 is " + variant[2:] + ")", unwrap(e)
	}
	return "(" + e + " is " + variant + ")", unwrap(e)
}

// convTo converts expression e of Go type from to Go type to (assignability).
func convTo(e string, from, to types.Type) string {
	from, to = unalias(from), unalias(to)
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zero(to)
	}
	if !isIface(to) || isErr(to) || namedKey(to) == "reflect.Type" {
		return e
	}
	if isValue(to) {
		if isValue(from) {
			return e
		}
		if k := leafKind(from); k != "" {
			return "Val::L" + k + "(" + e + ")"
		}
		switch namedKey(from) {
		case "tson.Object":
			return "Val::Obj(" + e + ")"
		case "tson.Array":
			return "Val::Arr(" + e + ")"
		}
		fail("conversion of %s to tson.Value", from)
	}
	if isAny(to) {
		if isAny(from) {
			return e
		}
		if isValue(from) {
			return "any_of_val(" + e + ")"
		}
		_, wrap, _ := anyVariant(from)
		return wrap(e)
	}
	fail("conversion of %s to interface %s", from, to)
	return ""
}

func constExpr(t *Tr, v constant.Value, typ types.Type) string {
	if vtype(typ) == "F64" && (v.Kind() == constant.Float || v.Kind() == constant.Int) {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
		} else {
			x, _ := constant.Float64Val(v)
			return fmt.Sprintf("f64_of_bits(%du64)", math.Float64bits(x))
		}
	}
	switch v.Kind() {
	case constant.Bool:
		return v.String()
	case constant.String:
		return t.lit(constant.StringVal(v))
	case constant.Int:
		vt := vtype(typ)
		if vt == "F64" {
			n, ok := constant.Int64Val(v)
			if !ok {
				fail("float constant %s", v)
			}
			if n == 0 {
				return "f64_zero()"
			}
			return fmt.Sprintf("f64_of_int(%dint)", n)
		}
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			b, _ := new(big.Int).SetString(s, 10)
			if vt == "i64" && b.Cmp(big.NewInt(-1<<63)) == 0 {
				return "i64::MIN"
			}
			return "(" + s + vt + ")"
		}
		return s + vt
	}
	fail("constant %s of type %s", v, typ)
	return ""
}

// lit returns the name of the spec function that denotes a string literal.
func (t *Tr) lit(s string) string {
	if s == "" {
		return "Seq::<u8>::empty()"
	}
	n := "lit_" + fmt.Sprintf("%x", s)
	t.lits[s] = n
	return n + "()"
}

func (t *Tr) litDefs() string {
	var keys []string
	for k := range t.lits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		var bs []string
		for i := 0; i < len(k); i++ {
			bs = append(bs, fmt.Sprintf("%du8", k[i]))
		}
		fmt.Fprintf(&b, "pub open spec fn %s() -> Str { seq![%s] } // %q\n", t.lits[k], strings.Join(bs, ", "), k)
	}
	b.WriteString("pub proof fn lemma_lits()\n    ensures\n")
	for _, k := range keys {
		fmt.Fprintf(&b, "        %s().len() == %d,\n", t.lits[k], len(k))
	}
	var ne []string
	for i, k := range keys {
		for _, l := range keys[i+1:] {
			if len(k) == len(l) {
				j := 0
				for k[j] == l[j] {
					j++
				}
				fmt.Fprintf(&b, "        %s() != %s(),\n", t.lits[k], t.lits[l])
				ne = append(ne, fmt.Sprintf("    assert(%s()[%d] != %s()[%d]);\n", t.lits[k], j, t.lits[l], j))
			}
		}
	}
	b.WriteString("        true,\n{\n" + strings.Join(ne, "") + "}\n")
	return b.String()
}

// tsubst gives the types the type parameters of the generic function being
// translated in place stand for.
var tsubst = map[*types.TypeParam]types.Type{}

func unalias(t types.Type) types.Type { return types.Unalias(sub(t)) }

func sub(t types.Type) types.Type {
	if len(tsubst) == 0 || t == nil {
		return t
	}
	switch u := types.Unalias(t).(type) {
	case *types.TypeParam:
		if r, ok := tsubst[u]; ok {
			return r
		}
	case *types.Slice:
		if e := sub(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Pointer:
		if e := sub(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Map:
		k, e := sub(u.Key()), sub(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Tuple:
		var vs []*types.Var
		changed := false
		for i := 0; i < u.Len(); i++ {
			e := sub(u.At(i).Type())
			changed = changed || e != u.At(i).Type()
			vs = append(vs, types.NewVar(u.At(i).Pos(), u.At(i).Pkg(), u.At(i).Name(), e))
		}
		if changed {
			return types.NewTuple(vs...)
		}
	case *types.Named:
		if a := u.TypeArgs(); a.Len() > 0 {
			var as []types.Type
			changed := false
			for i := 0; i < a.Len(); i++ {
				e := sub(a.At(i))
				changed = changed || e != a.At(i)
				as = append(as, e)
			}
			if changed {
				if r, err := types.Instantiate(nil, u.Origin(), as, false); err == nil {
					return r
				}
			}
		}
	}
	return t
}

// instance gives the substitution for a call of a generic function.
func instance(p *Pkg, c *ast.CallExpr, sig *types.Signature) map[*types.TypeParam]types.Type {
	m := map[*types.TypeParam]types.Type{}
	tps := sig.TypeParams()
	if tps.Len() == 0 {
		return m
	}
	ast.Inspect(c.Fun, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && len(m) == 0 {
			if in, ok := p.Info.Instances[id]; ok && in.TypeArgs.Len() == tps.Len() {
				for i := 0; i < tps.Len(); i++ {
					m[tps.At(i)] = sub(in.TypeArgs.At(i))
				}
			}
		}
		return true
	})
	if len(m) == 0 {
		fail("generic call")
	}
	return m
}

func with(m map[*types.TypeParam]types.Type, fn func()) {
	saved := tsubst
	tsubst = m
	defer func() { tsubst = saved }()
	fn()
}
