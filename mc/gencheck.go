package main

// C21 and C22: the Go generator.

import (
	"bytes"
	"errors"
	"fmt"
	goast "go/ast"
	goconst "go/constant"
	"go/importer"
	goparser "go/parser"
	gotoken "go/token"
	gotypes "go/types"
	"io"
	"log"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"

	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
)

// generate runs the generator on an accepted source; a panic counts as a reported failure.
func generate(in []byte, pkg string, w io.Writer) (accepted bool, err error) {
	_, accepted, err = newGenerated(in, pkg, w)
	return
}

func newGenerated(in []byte, pkg string, w io.Writer) (g *gogen.Generator, accepted bool, err error) {
	tree, errs := parse(in)
	if len(errs) > 0 || tree == nil {
		return nil, false, nil
	}
	accepted = true
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	g = gogen.NewGenerator(pkg)
	g.Visit(tree)
	return g, true, g.String(w)
}

var noLog = func() bool { log.SetOutput(io.Discard); return true }()

// opC21: package name, NUL, source.
func opC21(in []byte) (bool, *Fail) {
	pkg, src, ok := strings.Cut(string(in), "\x00")
	if !ok {
		return false, nil
	}
	var b bytes.Buffer
	g, acc, err := newGenerated([]byte(src), pkg, &b)
	if !acc {
		return false, nil
	}
	if err != nil {
		return true, nil
	}
	if g.Package() != pkg {
		return true, failf("source %q: the generator of package %s calls it %s", src, pkg, g.Package())
	}
	var again bytes.Buffer
	if err := g.String(&again); err != nil || !bytes.Equal(again.Bytes(), b.Bytes()) {
		return true, failf("source %q: rendered again, the file differs (%v):\n%s\nfirst:\n%s", src, err, again.String(), b.String())
	}
	f, perr := goparser.ParseFile(gotoken.NewFileSet(), "", b.Bytes(), goparser.SkipObjectResolution)
	if perr != nil {
		return true, failf("source %q: generation reports success but the output is not valid Go: %v\n%s", src, perr, b.String())
	}
	if f.Name.Name != pkg {
		return true, failf("source %q: package %s requested, package %s written", src, pkg, f.Name.Name)
	}
	return true, nil
}

type shortWriter struct {
	left int
	hit  bool
	b    bytes.Buffer
}

var errFull = errors.New("no space")

func (w *shortWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.b.Write(p[:n])
		w.left, w.hit = 0, true
		return n, errFull
	}
	w.left -= len(p)
	return w.b.Write(p)
}

// opC21short: the output writer fails after every possible number of bytes.
func opC21short(in []byte) (bool, *Fail) {
	var b bytes.Buffer
	acc, err := generate(in, "lib", &b)
	if !acc || err != nil {
		return false, nil
	}
	for n := 0; n < b.Len(); n++ {
		if b.Len() > 3000 && n > 8 && n < b.Len()-4 && n%4096 > 1 && n%4096 != 4095 && n%509 != 0 {
			continue
		}
		w := &shortWriter{left: n}
		g, _, err := newGenerated(in, "lib", w)
		if err == nil {
			return true, failf("source %q: the writer failed after %d of %d bytes but generation reports success", in, n, b.Len())
		}
		if n%7 == 3 && g != nil {
			var again bytes.Buffer
			if err := g.String(&again); err != nil || !bytes.Equal(again.Bytes(), b.Bytes()) {
				return true, failf("source %q: rendered again after the writer failed behind %d bytes, the file differs (%v):\n%s", in, n, err, again.String())
			}
		}
	}
	return true, nil
}

// ---- C22 ----

// G is a schema value of the documented generator subset.
type G struct {
	K   string // prim lit ref group array
	V   string // CDDL spelling
	S   string // spelling of the size of a prim
	T   string // Go type of prim
	Val any    // value of lit
	E   []gEntry
}

type gEntry struct {
	key   string // "" for an embedded name
	opt   bool
	val   *G
	embed string
}

type gRule struct {
	name string
	val  *G
}

func (g *G) src(b *strings.Builder) {
	switch g.K {
	case "group", "array":
		o, c := "(", ")"
		if g.K == "array" {
			o, c = "[", "]"
		}
		b.WriteString(o)
		for i, e := range g.E {
			if i > 0 {
				b.WriteString(", ")
			}
			if e.opt {
				b.WriteString("? ")
			}
			if e.key == "" {
				b.WriteString(e.embed)
				continue
			}
			b.WriteString(e.key + ": ")
			e.val.src(b)
		}
		b.WriteString(c)
	default:
		b.WriteString(g.V)
		if g.S != "" {
			b.WriteString(" .size " + g.S)
		}
	}
}

// camel is the exported name of a schema name made of lower-case words.
func camel(s string) string {
	if n, err := strconv.ParseInt(s, 0, 64); err == nil { // a whole-number key
		return "IntKey_" + strconv.FormatInt(n, 10)
	}
	if s[0] == '$' { // sockets and plugs keep their spelling
		return strings.TrimLeft(s, "$")
	}
	up := true
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '-' || r == '_' || r == '.':
			up = true
		case up:
			b.WriteString(strings.ToUpper(string(r)))
			up = false
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// camelSafe: no run of capitals, which camel-case conversion may take for an acronym.
func camelSafe(s string) bool {
	for i := 1; i < len(s); i++ {
		if s[i] < 'a' && s[i] >= 'A' && s[i-1] < 'a' && s[i-1] >= 'A' {
			return false
		}
	}
	return true
}

var sizable = map[string]bool{"uint": true, "tstr": true, "text": true, "bstr": true, "bytes": true}

var goTypes = map[string]string{"int": "int", "uint": "uint", "nint": "int", "float": "float64", "float16": "float32", "float32": "float32", "float64": "float64",
	"tstr": "string", "text": "string", "bstr": "[]byte", "bytes": "[]byte", "bool": "bool", "null": "struct{}", "nil": "struct{}"}

// want describes the Go type a value maps to.
func (g *G) want() string {
	switch g.K {
	case "prim":
		return goTypes[g.V]
	case "ref":
		return camel(g.V)
	}
	var fs []string
	if g.K == "array" {
		fs = append(fs, "_ struct{} [toarray]")
	}
	for _, e := range g.E {
		tag := ""
		if e.opt {
			tag = " [omitempty]"
		}
		if e.key == "" {
			fs = append(fs, "embedded "+camel(e.embed)+tag)
			continue
		}
		fs = append(fs, camel(e.key)+" "+e.val.want()+tag)
	}
	return "struct{" + strings.Join(fs, "; ") + "}"
}

// describe writes a checked Go type in the same notation.
func describe(t gotypes.Type) string {
	switch v := t.(type) {
	case *gotypes.Basic:
		if v.Kind() == gotypes.Uint8 {
			return "byte"
		}
		return v.Name()
	case *gotypes.Slice:
		return "[]" + describe(v.Elem())
	case *gotypes.Named:
		return v.Obj().Name()
	case *gotypes.Alias:
		return v.Obj().Name()
	case *gotypes.Struct:
		var fs []string
		for i := 0; i < v.NumFields(); i++ {
			f := v.Field(i)
			s := f.Name() + " " + describe(f.Type())
			if f.Embedded() {
				s = "embedded " + describe(f.Type())
			}
			if c := reflect.StructTag(v.Tag(i)).Get("cbor"); c != "" {
				s += " [" + strings.Join(strings.Split(c, ",")[1:], ",") + "]"
			}
			fs = append(fs, s)
		}
		return "struct{" + strings.Join(fs, "; ") + "}"
	}
	return t.String()
}

// checkGo judges the generated file of the rules.
func checkGo(out []byte, pkg string, rules []gRule) *Fail {
	fset := gotoken.NewFileSet()
	f, err := goparser.ParseFile(fset, "x.go", out, goparser.SkipObjectResolution)
	if err != nil {
		return failf("not valid Go: %v", err)
	}
	info := &gotypes.Info{Defs: map[*goast.Ident]gotypes.Object{}, Uses: map[*goast.Ident]gotypes.Object{}, Types: map[goast.Expr]gotypes.TypeAndValue{}}
	p, err := (&gotypes.Config{Importer: exports{}}).Check(pkg, fset, []*goast.File{f}, info)
	if err != nil {
		return failf("does not type-check: %v", err)
	}
	if p.Name() != pkg {
		return failf("package %s, want %s", p.Name(), pkg)
	}
	type decl struct {
		name string
		kind string
		val  goast.Expr
	}
	var ds []decl
	for _, d := range f.Decls {
		g, ok := d.(*goast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			switch v := s.(type) {
			case *goast.TypeSpec:
				ds = append(ds, decl{v.Name.Name, "type", nil})
			case *goast.ValueSpec:
				for i, n := range v.Names {
					if i < len(v.Values) {
						ds = append(ds, decl{n.Name, "var", v.Values[i]})
					} else {
						ds = append(ds, decl{n.Name, "var", nil})
					}
				}
			}
		}
	}
	var got, want []string
	for _, d := range ds {
		got = append(got, d.kind+" "+d.name)
	}
	for _, r := range rules {
		k := "type "
		if r.val.K == "lit" {
			k = "var "
		}
		want = append(want, k+camel(r.name))
	}
	if strings.Join(got, ", ") != strings.Join(want, ", ") {
		return failf("declares %s; want %s", strings.Join(got, ", "), strings.Join(want, ", "))
	}
	for i, r := range rules {
		o := p.Scope().Lookup(ds[i].name)
		if r.val.K == "lit" {
			tv, ok := info.Types[ds[i].val]
			if !ok || tv.Value == nil {
				return failf("variable %s has no constant value", ds[i].name)
			}
			wantT := "string"
			same := false
			switch v := r.val.Val.(type) {
			case int64:
				wantT = "int"
				x, exact := goconst.Int64Val(goconst.ToInt(tv.Value))
				same = exact && x == v
			case float64:
				wantT = "float64"
				x, _ := goconst.Float64Val(goconst.ToFloat(tv.Value))
				same = math.Float64bits(x) == math.Float64bits(v)
			case bool:
				wantT = "bool"
				same = tv.Value.Kind() == goconst.Bool && goconst.BoolVal(tv.Value) == v
			case string:
				same = tv.Value.Kind() == goconst.String && goconst.StringVal(tv.Value) == v
			}
			if !same {
				return failf("variable %s is %s, want %v", ds[i].name, tv.Value.ExactString(), r.val.Val)
			}
			if t := o.Type().String(); t != wantT {
				return failf("variable %s has type %s, want %s", ds[i].name, t, wantT)
			}
			continue
		}
		n, ok := o.Type().(*gotypes.Named)
		var def string
		if ok {
			// the declared type, not its underlying one, so that names of other rules stay visible
			for _, d := range f.Decls {
				if g, ok := d.(*goast.GenDecl); ok {
					for _, s := range g.Specs {
						if ts, ok := s.(*goast.TypeSpec); ok && ts.Name.Name == ds[i].name {
							def = describe(info.Types[ts.Type].Type)
						}
					}
				}
			}
		}
		if w := r.val.want(); def != w {
			return failf("type %s is declared as %s, want %s", ds[i].name, def, w)
		}
		found := false
		for k := 0; k < n.NumMethods(); k++ {
			m := n.Method(k)
			if s := m.Type().(*gotypes.Signature); m.Name() == "Valid" && s.Params().Len() == 0 && s.Results().Len() == 1 && s.Results().At(0).Type().String() == "error" {
				found = true
			}
		}
		if !found {
			return failf("type %s has no method Valid() error", ds[i].name)
		}
		if r.val.S != "" {
			size, _ := strconv.ParseUint(r.val.S, 0, 64)
			if !checksSize(f, info, ds[i].name, size) {
				return failf("the Valid method of %s does not apply the size check to %d", ds[i].name, size)
			}
		}
	}
	return nil
}

// checksSize: the Valid method of the type calls the size check of the runtime with the bound.
func checksSize(f *goast.File, info *gotypes.Info, typ string, size uint64) bool {
	found := false
	for _, d := range f.Decls {
		fn, ok := d.(*goast.FuncDecl)
		if !ok || fn.Name.Name != "Valid" || fn.Recv == nil || fn.Body == nil {
			continue
		}
		t := info.Types[fn.Recv.List[0].Type].Type
		if p, ok := t.(*gotypes.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*gotypes.Named); !ok || n.Obj().Name() != typ {
			continue
		}
		goast.Inspect(fn.Body, func(n goast.Node) bool {
			call, ok := n.(*goast.CallExpr)
			if !ok {
				return true
			}
			sel, ok := call.Fun.(*goast.SelectorExpr)
			if !ok {
				return true
			}
			if o := info.Uses[sel.Sel]; o == nil || o.Pkg() == nil || o.Pkg().Path() != gogen.VALIDATOR_PKG || o.Name() != "CheckSize" {
				return true
			}
			for _, a := range call.Args {
				if v := info.Types[a].Value; v != nil && v.Kind() == goconst.Int {
					if x, exact := goconst.Uint64Val(v); exact && x == size {
						found = true
					}
				}
			}
			return true
		})
	}
	return found
}

// exports imports compiled packages from the files that run.sh lists in MC_EXPORTS.
type exports struct{}

var (
	exportsMu   sync.Mutex
	exportsImp  gotypes.Importer
	exportsDone = map[string]*gotypes.Package{}
)

func (exports) Import(path string) (*gotypes.Package, error) {
	exportsMu.Lock()
	defer exportsMu.Unlock()
	if p := exportsDone[path]; p != nil {
		return p, nil
	}
	if exportsImp == nil {
		files := map[string]string{}
		b, err := os.ReadFile(os.Getenv("MC_EXPORTS"))
		if err != nil {
			panic(err)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if k, v, ok := strings.Cut(l, " "); ok {
				files[k] = v
			}
		}
		exportsImp = importer.ForCompiler(gotoken.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
			if files[path] == "" {
				return nil, fmt.Errorf("no package %s", path)
			}
			return os.Open(files[path])
		})
	}
	p, err := exportsImp.Import(path)
	if err == nil {
		exportsDone[path] = p
	}
	return p, err
}

func ruleSrc(rs []gRule, sep string) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(r.name + " = ")
		r.val.src(&b)
		b.WriteString(sep)
	}
	return b.String()
}

// opC22 gets the schema source; the model is recovered by an independent reader of the tiny subset.
func opC22(in []byte) (bool, *Fail) {
	rs, ok := readSubset(string(in))
	if !ok {
		return false, nil
	}
	var out bytes.Buffer
	acc, err := generate(in, "lib", &out)
	if !acc {
		return false, nil // C10's concern
	}
	if err != nil {
		return true, failf("schema %q: generation failed: %v", in, err)
	}
	if f := checkGo(out.Bytes(), "lib", rs); f != nil {
		return true, failf("schema %q: %s\n%s", in, f.Msg, out.String())
	}
	return true, nil
}

// readSubset reads schemas of the generator subset (written with single layout by ruleSrc).
func readSubset(s string) (rs []gRule, ok bool) {
	toks := refLex([]byte(s))
	var t []rtok
	for _, x := range toks {
		if x.illegal || x.unclosed {
			return nil, false
		}
		if !(len(x.kinds) == 1 && x.kinds[0].String() == "Comment") && s[x.off:min(len(s), x.off+1)] != ";" {
			t = append(t, x)
		}
	}
	i := 0
	lit := func() string {
		if i < len(t) {
			return t[i].lit
		}
		return ""
	}
	isText := func() bool { return i < len(t) && t[i].off < len(s) && s[t[i].off] == '"' }
	good := true
	var value func() *G
	value = func() *G {
		l := lit()
		txt := isText()
		i++
		switch {
		case txt:
			return &G{K: "lit", V: `"` + l + `"`, Val: l}
		case l == "(" || l == "[":
			g := &G{K: "group"}
			c := ")"
			if l == "[" {
				g.K, c = "array", "]"
			}
			for i < len(t) && lit() != c {
				var e gEntry
				if lit() == "?" {
					e.opt = true
					i++
				}
				n := lit()
				i++
				if lit() == ":" {
					i++
					e.key, e.val = n, value()
					if e.val == nil || e.val.K == "lit" {
						good = false
					}
				} else {
					e.embed = n
					good = good && n != "" && (n[0] < '0' || n[0] > '9')
				}
				g.E = append(g.E, e)
				if lit() == "," {
					i++
				}
			}
			i++
			return g
		case l == "true" || l == "false":
			return &G{K: "lit", V: l, Val: l == "true"}
		case goTypes[l] != "":
			p := &G{K: "prim", V: l}
			if sizable[l] && lit() == ".size" {
				i++
				p.S = lit()
				i++
				if _, err := strconv.ParseUint(p.S, 0, 63); err != nil {
					good = false
				}
			}
			return p
		case l != "" && l[0] >= '0' && l[0] <= '9':
			if v, err := strconv.ParseInt(l, 0, 64); err == nil {
				return &G{K: "lit", V: l, Val: v}
			}
			v, err := strconv.ParseFloat(l, 64)
			if err != nil {
				good = false
			}
			return &G{K: "lit", V: l, Val: v}
		case l == "":
			good = false
			return nil
		}
		return &G{K: "ref", V: l}
	}
	for i < len(t) && t[i].lit != "" {
		n := lit()
		i++
		if lit() != "=" {
			return nil, false
		}
		i++
		v := value()
		if v == nil {
			return nil, false
		}
		rs = append(rs, gRule{n, v})
	}
	return rs, good && len(rs) > 0
}

// subset generator: all values of exactly size n.
type subGen struct {
	prims []string
	refs  []string
	keys  []string
	emb   []string
	memo  map[int][]*G
}

func (g *subGen) vals(n int) []*G {
	if r, ok := g.memo[n]; ok {
		return r
	}
	var r []*G
	if n == 1 {
		for _, p := range g.prims {
			r = append(r, &G{K: "prim", V: p})
		}
		for _, p := range g.refs {
			r = append(r, &G{K: "ref", V: p})
		}
	}
	for _, b := range []string{"group", "array"} {
		for _, body := range g.bodies(n-1, 0, 0) {
			r = append(r, &G{K: b, E: body})
		}
	}
	g.memo[n] = r
	return r
}

func (g *subGen) bodies(n, ki, ei int) [][]gEntry {
	if n == 0 {
		return [][]gEntry{nil}
	}
	var r [][]gEntry
	if ei < len(g.emb) && n >= 1 {
		for _, rest := range g.bodies(n-1, ki, ei+1) {
			r = append(r, append([]gEntry{{embed: g.emb[ei]}}, rest...))
		}
	}
	if ki < len(g.keys) {
		for k := 1; k <= n-1; k++ {
			for _, v := range g.vals(k) {
				for _, opt := range []bool{false, true} {
					for _, rest := range g.bodies(n-1-k, ki+1, ei) {
						r = append(r, append([]gEntry{{key: g.keys[ki], opt: opt, val: v}}, rest...))
					}
				}
			}
		}
	}
	return r
}

var subSupport = []gRule{
	{"px", &G{K: "prim", V: "int"}},
	{"some-group", &G{K: "group", E: []gEntry{{key: "zz", val: &G{K: "prim", V: "tstr"}}}}},
	{"arr_two", &G{K: "array", E: []gEntry{{key: "yy", opt: true, val: &G{K: "prim", V: "bytes"}}, {embed: "px"}}}},
	{"alias", &G{K: "ref", V: "some-group"}},
}

func litVals() []*G {
	var l []*G
	for _, s := range []string{"0", "1", "7", "00", "255", "0x1F", "0xffff", "0b101", "0o17", "2147483648", "9223372036854775807", "true", "false", "0.0", "1.5", "2.0", "100.0", "0.1", "3.14159265358979", "123456789.125", "1000000000000000000000.0", "0.000001", "0.00000000000000000001", "179769313486231570000000000000000.0",
		`""`, `"a"`, `"a b"`, `"\"`, `"\n"`, `"x\\"`, "\"`\"", `"'"`, "\"é\"", "\"\t\"", "\"世界\"", `"%d"`, `"// no"`, `"/*"`, `"*/"`, "\"\x01\"", "\"\u2028\"", "\"\ufeff\""} {
		if s == "00" {
			continue
		}
		l = append(l, &G{K: "lit", V: s})
	}
	return l
}

func init() {
	short := reg("C21.writer", opC21short)
	n21 := reg("C21.generate", opC21)
	addCheck("C21", "exploration", "all accepted lexeme sequences and generated schemas of the stated bounds, all names, texts and numbers of the stated alphabets in every position, generated by the real generator; output that is reported as success is parsed by go/parser; output writers failing at every byte; non-trivial: the schema was accepted and generation ran", func(c *Ctx) {
		for k := 0; k <= c.tier(3, 4); k++ {
			for _, x := range synCtxs {
				syms := synCore
				if k == 4 || k == 3 && !c.Thorough {
					syms = synMini
				}
				c.Words(fmt.Sprintf("all %d-lexeme sequences (of %d) in %q..%q", k, len(syms), x.pre, x.post), n21, syms, k, "lib\x00"+x.pre, " ", x.post)
			}
		}
		c.eachSchema(n21, func(p *printed, b []byte, _ int) []byte { return append(append(b, "lib\x00"...), p.src()...) }, 1, func(s genSet) int {
			return min(s.depth, c.tier(4, 6))
		})
		var l []string
		for _, s := range goodSchemas() {
			l = append(l, s)
		}
		for _, p := range rich() {
			l = append(l, p.src())
			for g := range p.toks {
				if !p.gaps[g] {
					l = append(l, joinLay(p.toks, p.gaps, true, map[int]string{g: " ; a */ b\n"}))
				}
			}
			for _, t := range editToks(p.toks[:min(len(p.toks), c.tier(8, 24))], synCore) {
				l = append(l, strings.Join(t, " "))
			}
		}
		var lp []string
		for _, s := range l {
			lp = append(lp, "lib\x00"+s)
		}
		c.List("one schema per construct with comments and one-edit neighbours", n21, lp)
		// names
		al := []string{"a", "B", "é", "_", "-", ".", "@", "$", "1", "世", "ǆ", "ß", "ı"}
		ctxs := []string{"%s = int", "a = %s", "a = (%s: int)", "a = [%s: int]", "a = (? %s: int)", "a = (%s)", "a = [%s, b: int]", "a = (k: %s)", "%s = (b: int)\nq = %s", "a = (k: (%s: tstr))", "%s = 5", "a = uint .size %s", "%s = tstr .size 5", "a = (* %s)", "a = (k: [* %s])"}
		word := func(k int) []string {
			n := 1
			for i := 0; i < k; i++ {
				n *= len(al)
			}
			var ws []string
			for i := 0; i < n; i++ {
				w, x := "", i
				for j := 0; j < k; j++ {
					w += al[x%len(al)]
					x /= len(al)
				}
				ws = append(ws, w)
			}
			return ws
		}
		var ws []string
		for k := 1; k <= c.tier(3, 4); k++ {
			ws = append(ws, word(k)...)
		}
		for t := gotoken.ILLEGAL; t < 120; t++ {
			if t.IsKeyword() {
				ws = append(ws, t.String(), "$"+t.String(), "$$"+t.String(), strings.ToUpper(t.String()))
			}
		}
		for _, b := range []string{"init", "main", "self", "error", "string", "int8", "len", "append", "iota", "any", "Valid", "valid", "validators", "_", "nil2", "IntKey_1"} {
			ws = append(ws, b, "$"+b, "$$"+b)
		}
		fill := func(what string, ws []string, ctxs []string) {
			c.Enum(what, n21, int64(len(ws)*len(ctxs)), func(i int64, b []byte) []byte {
				x := ctxs[int(i)%len(ctxs)]
				return append(b, "lib\x00"+strings.ReplaceAll(x, "%s", ws[int(i)/len(ctxs)])...)
			})
		}
		fill(fmt.Sprintf("all names up to %d characters (of %d) and Go keywords and builtins, in %d positions", c.tier(3, 4), len(al), len(ctxs)), ws, ctxs)
		// texts: all bytes and pairs of bytes
		var ts []string
		for a := 0; a < 256; a++ {
			ts = append(ts, `"`+string(rune(a))+`"`, `"`+string([]byte{byte(a)})+`"`)
			for _, d := range []int{'\\', '"', '`', '\'', 'n', 'x', 'u', '0', '/', '*', 0xc3, 0xa9, 0xe2, 0x80} {
				ts = append(ts, "\""+string([]byte{byte(a), byte(d)})+"\"", "\""+string([]byte{byte(d), byte(a)})+"\"")
			}
		}
		tctx := []string{"a = %s", "a = (k: %s)", "a = tstr .regexp %s", "a = (%s: int)", "a = [%s]"}
		fill("all one-byte and selected two-byte texts", ts, tctx)
		var nums []string
		for _, s := range litVals() {
			nums = append(nums, s.V)
		}
		nums = append(nums, "18446744073709551615", "9223372036854775808", "1"+strings.Repeat("0", 300)+".5", "0."+strings.Repeat("0", 330)+"1", strings.Repeat("9", 309)+".0")
		fill("literals", nums, append(tctx, "a = uint .size %s", "a = (%s*%s b)\nb = int", "a = #6.1(%s)", "a = %s..%s", "a = (%s*3 int)"))
		// what Go cannot express, among many rules and many entries
		var odd []string
		for _, x := range append(ctxs, tctx...) {
			for _, w := range []string{"é", "@a", "$", "$$x", "ß", "_", "func", "$type", "a1", "\"\\x\"", "\"`\"", "1" + strings.Repeat("0", 300) + ".5"} {
				odd = append(odd, strings.ReplaceAll(x, "%s", w))
			}
		}
		fillers := []string{"f%d = int\n", "f%d = (k: tstr, ? l: [int])\n", "f%d = 5\n", "; c%d\n", "f%d = tstr .size 4\n"}
		sizes := []int{1, 15, 31, 63, 64, 100, 130, 257, 520, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 32, 33, 50}
		if c.Thorough {
			sizes = append(sizes, 1030, 4100)
		}
		no, nf, nz := int64(len(odd)), int64(len(fillers)), int64(len(sizes))
		big := func(i int64, b []byte) []byte {
			o := odd[i%no]
			i /= no
			f := fillers[i%nf]
			i /= nf
			n := sizes[i%nz]
			at := []int{0, n / 2, n}[i/nz]
			for k := 0; k <= n; k++ {
				if k == at {
					b = append(append(b, o...), '\n')
				}
				if k < n {
					b = fmt.Appendf(b, f, k)
				}
			}
			return b
		}
		c.Enum(fmt.Sprintf("%d constructs among up to %d rules of %d kinds, 3 places", no, sizes[nz-1], nf), n21, no*nf*nz*3, func(i int64, b []byte) []byte {
			if z := i / no / nf % nz; (z > 3 && z < 9 || z > 12) && i%no%5 != 0 && !c.Thorough {
				return nil
			}
			return big(i, append(b, "lib\x00"...))
		})
		c.Enum("one of the constructs as an entry among many", n21, no*nz*3, func(i int64, b []byte) []byte {
			o := odd[i%no]
			_, o, _ = strings.Cut(o, "= ")
			i /= no
			n := sizes[i%nz]
			at := []int{0, n / 2, n}[i/nz]
			b = append(b, "lib\x00zz = (x0: int"...)
			for k := 0; k <= n; k++ {
				if k == at {
					b = fmt.Appendf(b, ", y: %s", o)
				}
				b = fmt.Appendf(b, ", k%d: tstr", k)
			}
			return append(b, ")\nb = int\nk = int"...)
		})
		var pk []string
		for _, p := range append(append([]string{"lib", "dist", "a_b", "x1", "1x", "", "a b", "a-b", "a.b", "lib;x", "é", "lib//", "main"}, ws[:200]...), "func", "type", "package", "_") {
			for _, s := range []string{"", "a = int", "a = 5", "a = (b: int)\nb = tstr .size 4", "a = [x: int, ? y: a]"} {
				pk = append(pk, p+"\x00"+s)
			}
		}
		c.List("requested package names", n21, pk)
		var large []string
		for _, f := range fillers {
			for _, n := range []int{20, 60, 300} {
				s := ""
				for k := 0; k < n; k++ {
					s += fmt.Sprintf(f, k)
				}
				large = append(large, s+"z = int\n")
			}
		}
		c.List("writer failing within large output: first and last bytes, around multiples of 4096, and every 509th", short, large)
		c.List("writer failing at every byte", short, append([]string{"", "a = int", "a = uint .size 4", "a = (b: int)\nc = \"x\"\n"}, l[:min(len(l), 40)]...))
	})

	n22 := reg("C22.mirror", opC22)
	addCheck("C22", "exploration", "every schema of the generator's subset up to the stated number of nodes, in every rule order, generated and judged by go/types against the declarations the schema states; non-trivial: the schema was accepted and its Go file judged", func(c *Ctx) {
		var allp []string
		for _, p := range allTypes {
			allp = append(allp, p)
		}
		wide := &subGen{allp, []string{"px", "some-group", "arr_two", "alias"}, []string{"foo", "bar-baz", "a_b", "k1", "d.e", "camelCase"}, []string{"some-group", "px", "alias"}, map[int][]*G{}}
		narrow := &subGen{[]string{"int"}, []string{"some-group"}, []string{"foo", "bar-baz", "a_b", "k1", "d.e", "camelCase"}, []string{"some-group", "px", "alias"}, map[int][]*G{}}
		tiny := &subGen{[]string{"bytes"}, nil, []string{"foo", "b", "c", "d", "e", "f", "g"}, []string{"px"}, map[int][]*G{}}
		place := func(v *G, at int) []gRule {
			var rs []gRule
			for i, s := range subSupport {
				if i == at {
					rs = append(rs, gRule{"main-rule", v})
				}
				rs = append(rs, s)
			}
			if at >= len(subSupport) {
				rs = append(rs, gRule{"main-rule", v})
			}
			return rs
		}
		run := func(what string, vs []*G) {
			c.Enum(what, n22, int64(len(vs)), func(i int64, b []byte) []byte { return append(b, ruleSrc(place(vs[i], int(i)%5), "\n")...) })
		}
		for n := 1; n <= c.tier(5, 6); n++ {
			run(fmt.Sprintf("all types, values of %d nodes", n), wide.vals(n))
		}
		for n := 1; n <= c.tier(8, 9); n++ {
			run(fmt.Sprintf("narrow alphabet, values of %d nodes", n), narrow.vals(n))
		}
		for n := 1; n <= c.tier(10, 12); n++ {
			run(fmt.Sprintf("one type, values of %d nodes", n), tiny.vals(n))
		}
		// literals as rules, in every rule position, with neighbours; several rules in every order
		var l []string
		lits := litVals()
		for _, v := range lits {
			for at := 0; at <= 4; at++ {
				l = append(l, ruleSrc(place(v, at), "\n"), ruleSrc(place(v, at), " ; c\n"))
			}
			for _, w := range lits {
				l = append(l, ruleSrc([]gRule{{"a", v}, {"b", w}}, "\n"))
			}
		}
		c.List("literal rules", n22, l)
		l = nil
		// sized types as rules and fields, every number of them
		var sized []*G
		for _, p := range allp {
			if sizable[p] {
				for _, s := range []string{"0", "1", "4", "8", "16", "255", "256", "65536", "0x10", "0b11", "0o7", "4294967295", "4294967296", "9223372036854775807"} {
					sized = append(sized, &G{K: "prim", V: p, S: s})
				}
			}
		}
		int1 := &G{K: "prim", V: "int"}
		for _, v := range sized {
			for at := 0; at <= 4; at++ {
				l = append(l, ruleSrc(place(v, at), "\n"), ruleSrc(place(v, at), " ; c\n"))
			}
			for _, w := range sized {
				l = append(l, ruleSrc([]gRule{{"a", v}, {"b", w}}, "\n"), ruleSrc([]gRule{{"a", v}, {"m", int1}, {"b", w}, {"c", v}}, "\n"))
			}
			for k := 0; k < 16; k++ { // fields, with and without a sized rule beside them
				g := &G{K: "group", E: []gEntry{{key: "foo", opt: k&1 != 0, val: v}}}
				if k&2 != 0 {
					g.K = "array"
				}
				if k&4 != 0 {
					g = &G{K: "group", E: []gEntry{{key: "outer", val: g}, {key: "last", val: int1}}}
				}
				rs := []gRule{{"main-rule", g}}
				if k&8 != 0 {
					rs = append(rs, gRule{"sized", v})
				}
				l = append(l, ruleSrc(rs, "\n"))
			}
		}
		for _, n := range append(upTo(c.tier(40, 200))[1:], 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300, 512, 600, 1025, 1100, 2100) {
			for k := 0; k < 4; k++ {
				var rs []gRule
				for i := 0; i < n; i++ {
					v := sized[(i*15+k)%len(sized)]
					if k == 1 && i != n/2 || k == 2 && i != n-1 || k == 3 && i%2 == 0 {
						v = int1
					}
					rs = append(rs, gRule{fmt.Sprint("rule", i), v})
				}
				l = append(l, ruleSrc(rs, "\n"))
			}
		}
		c.List("sized types: as rules in every place, pairs of them, fields, and up to the stated number of rules", n22, l)
		l = nil
		small := append(append([]*G{}, wide.vals(1)...), wide.vals(2)...)
		small = append(small, narrow.vals(3)...)
		for _, v := range small {
			for _, w := range append(append([]*G{}, small...), lits[:12]...) {
				l = append(l, ruleSrc([]gRule{{"first", v}, subSupport[0], {"second-rule", w}, subSupport[3], subSupport[1], subSupport[2]}, "\n"))
			}
		}
		c.List("all pairs of small rules", n22, l)
		l = nil
		perm(len(subSupport), func(o []int) {
			var rs []gRule
			for _, i := range o {
				rs = append(rs, subSupport[i])
			}
			for _, v := range append(append([]*G{}, small...), lits...) {
				for at := 0; at <= len(rs); at++ {
					x := append(append(append([]gRule{}, rs[:at]...), gRule{"main-rule", v}), rs[at:]...)
					l = append(l, ruleSrc(x, "\n"))
				}
			}
		})
		c.List("all orders of the rules", n22, l)
		l = nil
		for _, v := range narrow.vals(5) { // comments and layouts
			s := ruleSrc(place(v, 2), "\n")
			p := strings.Fields(s)
			l = append(l, strings.Join(p, "\n"), strings.Join(p, " ; c\n"), "; head\n"+s+"; tail")
		}
		c.List("comments and layouts", n22, l)
		// names: every lower-case word shape as rule, key, reference and embedded name
		var ws []string
		parts := []string{"a", "bc", "d2", "e-f", "x_y", "p.q", "longName", "Upper"}
		for _, a := range parts {
			ws = append(ws, a)
			for _, s := range []string{"-", "_", "."} {
				for _, b := range parts {
					if b != "d2" {
						ws = append(ws, a+s+b)
					}
				}
			}
		}
		l = nil
		for _, w := range ws {
			for _, t := range []string{"%s = int", "%s = 5", "%s = (m: tstr)", "z = (%s: tstr)", "z = [? %s: tstr]", "%s = int\nz = %s", "%s = (m: tstr)\nz = (%s, n: int)", "z = [%s, n: %s]\n%s = bytes"} {
				l = append(l, strings.ReplaceAll(t, "%s", w)+"\n")
			}
		}
		c.List("name shapes", n22, l)
		// whole-number keys, sockets and plugs
		l = nil
		var iks []string
		for i := 0; i <= c.tier(130, 1030); i++ {
			iks = append(iks, strconv.Itoa(i))
		}
		iks = append(iks, "255", "256", "1000", "1001", "2147483648", "9223372036854775807", "100000000000000000", "0x10", "0xff", "0b101", "0o17", "0x0")
		for i, k := range iks {
			o := iks[(i+1)%len(iks)]
			if a, _ := strconv.ParseInt(k, 0, 64); strconv.FormatInt(a, 10) == o {
				continue
			}
			for _, v := range []string{"int", "tstr .size 4", "px", "(m: bool)", "[1: int, 2: (3: tstr)]"} {
				l = append(l, "px = int\nzz = ("+k+": "+v+")\n", "px = int\nzz = [? "+k+": "+v+", "+o+": tstr, foo: int]\n", "zz = (foo: int, "+o+": (bar: ["+k+": "+v+"]), ? "+k+": bytes)\npx = tstr\n")
			}
		}
		for _, w := range []string{"s", "sock", "sockName", "S", "Sock", "a1", "x_y", "_s", "plug", "k", "intKey", "d", "dd"} {
			for _, d := range []string{"$", "$$"} {
				n := d + w
				for _, t := range []string{"% = int", "% = 5", "% = \"t\"", "% = (m: tstr)", "% = tstr .size 4", "% = int\nq0 = %", "q0 = %\n% = bytes", "% = (m: tstr)\nq0 = (%, ? n: int)", "q0 = [n: %, ? o: %]\n% = [m: bool]", "% = (% : int)", "q0 = (%: int, 1: %)\n% = uint", "% = int\n$q = %\n$$r = (m: $q, n: %)", "q0 = (k: [l: (m: %)])\n% = bool"} {
					if t == "% = (% : int)" && w == "_s" {
						continue
					}
					l = append(l, strings.ReplaceAll(t, "%", n)+"\n")
				}
			}
		}
		c.List("whole-number keys, sockets and plugs", n22, l)
		// many entries, many rules, deep nesting, long literals
		var sizes []int
		for n := 1; n <= 70; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 512, 513)
		if c.Thorough {
			sizes = append(sizes, 1000, 1024, 1025, 2000, 4097)
		}
		prims := []string{"int", "tstr", "bool", "bytes", "float32", "uint"}
		vals := []func(i int) string{
			func(i int) string { return prims[i%6] }, func(i int) string { return []string{"rr", "int", "qq"}[i%3] }, func(i int) string { return []string{"(y: int)", "[z: bool, ? w: tstr]", "int"}[i%3] },
		}
		nz := int64(len(sizes))
		c.Enum(fmt.Sprintf("groups and arrays of up to %d entries, optional or not, of 3 kinds of values, alone or nested", sizes[nz-1]), n22, nz*3*8*2, func(i int64, b []byte) []byte {
			n := sizes[i%nz]
			i /= nz
			v := vals[i%3]
			i /= 3
			opt := i / 2 % 4
			op, cl := "(", ")"
			if i%2 == 1 {
				op, cl = "[", "]"
			}
			b = append(b, "zz = "...)
			if i/8 == 1 {
				b = append(b, "(first: int, inner: "...)
			}
			b = append(b, op...)
			for k := 0; k < n; k++ {
				if k > 0 {
					b = append(b, ", "...)
				}
				if opt == 1 || opt == 2 && k%2 == 0 || opt == 3 && k == n-1 {
					b = append(b, "? "...)
				}
				b = fmt.Appendf(b, "key%d: %s", k, v(k))
			}
			b = append(b, cl...)
			if i/8 == 1 {
				b = append(b, ", last: tstr)"...)
			}
			return append(b, "\nrr = tstr\nqq = [ a: rr ]\n"...)
		})
		c.Enum(fmt.Sprintf("schemas of up to %d rules of 6 kinds", sizes[nz-1]), n22, nz*6, func(i int64, b []byte) []byte {
			n := sizes[i%nz]
			for k := 0; k < n; k++ {
				switch i / nz {
				case 0:
					b = fmt.Appendf(b, "rule%d = %s\n", k, prims[k%6])
				case 1:
					b = fmt.Appendf(b, "rule%d = (a: int, ? b: tstr)\n", k)
				case 2:
					b = fmt.Appendf(b, "rule%d = %d\n", k, k*k)
				case 3: // each names the next
					nx := fmt.Sprint("rule", k+1)
					if k == n-1 {
						nx = "int"
					}
					b = fmt.Appendf(b, "rule%d = %s\n", k, nx)
				case 4: // each embeds the previous
					if k == 0 {
						b = append(b, "rule0 = (m0: int)\n"...)
					} else {
						b = fmt.Appendf(b, "rule%d = (rule%d, m%d: int)\n", k, k-1, k)
					}
				default:
					b = fmt.Appendf(b, []string{"rule%d = int ; c\n", "rule%d = [x: tstr]\n", "rule%d = \"t\"\n", "rule%d = 1.5\n; d\n"}[k%4], k)
				}
			}
			return b
		})
		c.Enum("groups nested up to 40 deep, 3 arrangements", n22, 40*3, func(i int64, b []byte) []byte {
			n := int(i%40) + 1
			b = append(b, "zz = "...)
			for k := 0; k < n; k++ {
				switch i / 40 {
				case 0:
					b = append(b, "(k: "...)
				case 1:
					b = append(b, "[k: "...)
				default:
					b = fmt.Appendf(b, "(a%d: int, ? k%d: ", k, k)
				}
			}
			b = append(b, "tstr"...)
			for k := 0; k < n; k++ {
				b = append(b, []string{")", "]", ")"}[i/40]...)
			}
			return append(b, '\n')
		})
		l = nil
		for _, n := range sizes {
			l = append(l, "z = \""+strings.Repeat("x", n)+"\"\n", "z = \""+strings.Repeat("é", n)+"\"\ny = int\n", "z = \""+strings.Repeat("\\", n)+"\"\n", "z = int ; "+strings.Repeat("c", n)+"\n")
			if n < 19 {
				l = append(l, "z = "+strings.Repeat("1", n)+"\n", "z = "+strings.Repeat("1", n)+"."+strings.Repeat("2", n)+"\n", "z = 0x7"+strings.Repeat("f", n%15)+"\n")
			}
		}
		c.List("long literals and comments", n22, l)
		// names that differ in little, one after another in the same process
		sim := []string{}
		for _, w := range []string{"fooBar", "a-bc", "ab_cd", "q.rs"} {
			for m := 0; m < 1<<len(w); m++ {
				b := []byte(strings.ToLower(w))
				for i := range b {
					if m>>i&1 != 0 && b[i] >= 'a' && b[i] <= 'z' {
						b[i] -= 32
					}
				}
				if s := string(b); isName(s) && camelSafe(s) {
					sim = append(sim, s)
				}
			}
		}
		for _, n := range []int{8, 13, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 300} {
			w := strings.Repeat("abcdefgh-i", n/10+1)[:n-1] + "z"
			sim = append(sim, w, w+"z")
			for i := 0; i < n; i++ {
				if w[i] != '-' && (i < 6 || i > n-6 || i%8 == 3) {
					sim = append(sim, w[:i]+"q"+w[i+1:])
				}
			}
		}
		l = nil
		for _, w := range sim {
			for _, t := range []string{"%s = int", "z = (%s: tstr)", "z = (%s, n: int)\n%s = (m: tstr)", "%s = 5"} {
				l = append(l, strings.ReplaceAll(t, "%s", w)+"\n")
			}
		}
		var ln []string
		for n := 1; n <= c.tier(130, 600); n++ {
			for _, u := range []string{"x", "abcdefgh-i", "ab", "aB", "k_"} {
				w := strings.TrimRight(strings.Repeat(u, n)[:n], "-_")
				if w == "" || !isName(w) || !camelSafe(w) {
					continue
				}
				for _, t := range []string{"%s = int", "z = (%s: tstr, ? %s-q: int)", "z = [%s, n: int]\n%s = (m: tstr)", "%s = 5"} {
					ln = append(ln, strings.ReplaceAll(t, "%s", w)+"\n")
				}
			}
		}
		c.List("names of every length", n22, ln)
		c.List(fmt.Sprintf("%d similar names in 4 schemas", len(sim)), n22, l)
	})
}

func perm(n int, f func([]int)) {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(o)
			return
		}
		for i := k; i < n; i++ {
			o[k], o[i] = o[i], o[k]
			rec(k + 1)
			o[k], o[i] = o[i], o[k]
		}
	}
	rec(0)
}
