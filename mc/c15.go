package main

// C15: operand kinds of ranges and control operators, complete matrices in every context.

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// opC15: "A" (must be accepted), "R" (must be reported) or "N" (marked lines must be reported), session NUL source.
func opC15(in []byte) (bool, *Fail) {
	if len(in) < 1 {
		return false, nil
	}
	parts := bytes.Split(in[1:], []byte{0})
	e := newEnv()
	for _, s := range parts[:len(parts)-1] {
		parseWith(s, e)
	}
	src := parts[len(parts)-1]
	_, errs := parseWith(src, e)
	if in[0] == 'A' && len(errs) > 0 {
		return true, failf("well-typed operands reported: %q (session %q): %s", src, parts[:len(parts)-1], errString(errs))
	}
	if in[0] == 'N' { // every line that ends with a comment holds an ill-typed expression
		told := map[int]bool{}
		for _, d := range errs {
			told[d.Start().Line] = true
		}
		n := 0
		for i, l := range bytes.Split(src, []byte("\n")) {
			if bytes.HasSuffix(l, []byte(";bad")) {
				if n++; !told[i+1] {
					return true, failf("the ill-typed expression %d, %q in line %d, is not reported; %d diagnostics in all", n, l, i+1, len(errs))
				}
			} else if told[i+1] {
				return true, failf("a well-typed line %d, %q, is reported", i+1, l)
			}
		}
		return true, nil
	}
	if in[0] == 'R' && len(errs) == 0 {
		return true, failf("ill-typed operands accepted: %q (session %q)", src, parts[:len(parts)-1])
	}
	return true, nil
}

type operand struct{ src, kind, def string }

func c15operands() []operand {
	l := []operand{
		{"3", "int", ""}, {"0x1F", "int", ""}, {"0", "int", ""}, {"0b11", "int", ""}, {"9223372036854775807", "int", ""},
		{"2.5", "float", ""}, {"0.0", "float", ""}, {"1.0", "float", ""},
		{"ni", "name:int", "ni = 4"}, {"nf", "name:float", "nf = 4.5"}, {"nj", "name:int", "nj /= 7"}, {"ng", "name:float", "ng /= 7.0"},
		{`"t"`, "text", ""}, {`""`, "text", ""}, {"nt", "name:text", `nt = "x"`}, {"nn", "name:type", "nn = int"},
		{"true", "bool", ""}, {"false", "bool", ""}, {"( int )", "box", ""}, {"[ 1 ]", "box", ""}, {"{ a : 1 }", "box", ""}, {"[ ]", "box", ""}, {"{ }", "box", ""}, {"( )", "box", ""},
		{"#6.1( int )", "tag", ""}, {"& gr", "enum", "gr = ( a : 1 )"}, {"~ gr", "unwrap", "gr = ( a : 1 )"},
	}
	for _, t := range allTypes {
		l = append(l, operand{t, "type:" + t, ""})
	}
	return l
}

// verdictRange: "A", "R" or "" (the statement does not say)
func verdictRange(a, b operand) string {
	num := func(k string) string {
		switch k {
		case "int", "name:int":
			return "int"
		case "float", "name:float":
			return "float"
		case "name:text", "name:type":
			return "?"
		}
		return "no"
	}
	x, y := num(a.kind), num(b.kind)
	switch {
	case x == "no" || y == "no":
		return "R"
	case x == "?" || y == "?":
		return ""
	case x == y:
		return "A"
	}
	return "R"
}

func verdictCtl(op string, a, b operand) string {
	isName := func(o operand) bool { return len(o.kind) > 5 && o.kind[:5] == "name:" }
	switch op {
	case ".size":
		argOK := b.kind == "int" || b.kind == "name:int"
		switch a.kind {
		case "type:tstr", "type:text", "type:bstr", "type:bytes", "type:uint":
			if argOK {
				return "A"
			}
			return "" // kinds of size arguments are not part of the statement
		}
		return "R"
	case ".regexp":
		if a.kind != "type:tstr" && a.kind != "type:text" {
			return "R"
		}
		if b.kind == "text" || isName(b) {
			return "A"
		}
		return "R"
	}
	switch a.kind { // comparison
	case "type:int", "type:uint", "type:float":
	case "type:float16", "type:float32", "type:float64", "type:nint":
		return ""
	default:
		return "R"
	}
	if b.kind == "int" || b.kind == "float" || isName(b) {
		return "A"
	}
	return "R"
}

var c15ctxs = []struct{ pre, post string }{
	{"r = ", ""}, {"r /= ", ""}, {"r = [ ", " ]"}, {"r = ( ", " )"}, {"r = { k : ", " }"}, {"r = { 1 => ", " , z : int }"}, {"r = [ k : int , ", " , tstr ]"}, {"r = [ ? ", " ]"}, {"r = [ 1*2 ", " ]"}, {"r = [ * k : ", " ]"},
	{"r = tstr / ", ""}, {"r = ", " / tstr"}, {"r = tstr / ", " / null"}, {"r = tstr // ", ""}, {"r = #6.2( ", " )"}, {"r = tstr .size ( ", " )"}, {"r = & ( a : ", " )"}, {"r = ( a : int // b : ", " )"}, {"o = tstr r = ", " p = int"}, {"r = [ [ { a : [ ", " ] } ] ]"}, {"; c\nr = ", " ; d\n"},
}

func init() {
	name := reg("C15.operands", opC15)
	addCheck("C15", "exploration", "every pair of operand kinds for every range and control operator in every context with every placement of the definitions; non-trivial: the statement settles the verdict and the source was judged", func(c *Ctx) {
		ops := c15operands()
		n := int64(len(ops))
		nc := int64(len(c15ctxs))
		operators := []string{"..", "...", ".size", ".regexp", ".lt", ".le", ".gt", ".ge", ".eq", ".ne"}
		no := int64(len(operators))
		c.Enum(fmt.Sprintf("%d x %d operands, %d operators, %d contexts, 4 definition placements, 4 layouts of the operator", n, n, no, nc), name, n*n*no*nc*16, func(i int64, b []byte) []byte {
			lay := []string{" % ", " %\n", "\n\n%\n  ", "\n; c\n %  ; d\n\n"}[i&3]
			i >>= 2
			x, y := ops[i%n], ops[i/n%n]
			i /= n * n
			op := operators[i%no]
			i /= no
			cx := c15ctxs[i%nc]
			i /= nc
			if i > 0 && x.def == "" && y.def == "" {
				return nil
			}
			v := ""
			if op[:2] == ".." {
				v = verdictRange(x, y)
			} else {
				v = verdictCtl(op, x, y)
			}
			if v == "" {
				return nil
			}
			if x.kind == "tag" || x.kind == "enum" || x.kind == "unwrap" {
				// the operator belongs to the operand inside the prefix only when that is a bare name
				if x.kind != "tag" && op[:2] == ".." {
					v = "R"
				}
			}
			d1, d2 := x.def, y.def
			if d1 == d2 {
				d2 = ""
			}
			b = append(b, v...)
			ex := cx.pre + x.src + strings.Replace(lay, "%", op, 1) + y.src + cx.post
			switch i {
			case 0: // definitions after
				b = append(b, ex+" "+d1+" "+d2...)
			case 1: // before
				b = append(b, d1+" "+d2+" "+ex...)
			case 2: // around
				b = append(b, d2+" "+ex+" "+d1...)
			case 3: // in the session
				b = append(b, d1+" "+d2+"\x00"+ex...)
			}
			return b
		})
		// two operator expressions in one schema: each verdict is independent of the other
		type ex struct{ src, v string }
		var exs []ex
		for _, x := range ops {
			if x.def != "" && x.kind != "name:int" && x.kind != "name:float" || len(x.src) > 8 {
				continue
			}
			for _, y := range []operand{ops[0], ops[5], ops[8], ops[9], ops[12]} {
				for _, op := range []string{"..", ".size", ".regexp", ".lt"} {
					v := verdictCtl(op, x, y)
					if op == ".." {
						v = verdictRange(x, y)
					}
					if v != "" {
						exs = append(exs, ex{x.src + " " + op + " " + y.src, v})
					}
				}
			}
		}
		defs := " ni = 4 nf = 4.5 nj /= 7 ng /= 7.0"
		m := int64(len(exs))
		c.Enum(fmt.Sprintf("all pairs of %d operator expressions in 4 arrangements", m), name, m*m*4, func(i int64, b []byte) []byte {
			x, y := exs[i%m], exs[i/m%m]
			i /= m * m
			v := "A"
			if x.v == "R" || y.v == "R" {
				v = "R"
			}
			b = append(b, v...)
			switch i {
			case 0:
				b = append(b, "r = "+x.src+" s = "+y.src...)
			case 1:
				b = append(b, "r = [ "+x.src+" , k : "+y.src+" ]"...)
			case 2:
				b = append(b, "r = "+x.src+" / "+y.src...)
			case 3:
				b = append(b, "r = { ? k : "+x.src+" , * l : "+y.src+" }"...)
			}
			return append(b, defs...)
		})
		// one ill-typed expression among many well-typed ones
		var good, bad []string
		for k, e := range exs {
			if e.v == "A" {
				good = append(good, e.src)
			} else if k%7 == 0 {
				bad = append(bad, e.src)
			}
		}
		var named []string
		for _, g := range good {
			if f := strings.Fields(g); len(f[0]) == 2 && f[0][0] == 'n' || len(f[2]) == 2 && f[2][0] == 'n' {
				named = append(named, g)
			}
		}
		var badNamed []string
		for _, e := range exs {
			if f := strings.Fields(e.src); e.v == "R" && f[1] == ".." && (len(f[0]) == 2 && f[0][0] == 'n' || len(f[2]) == 2 && f[2][0] == 'n') && len(badNamed) < 10 {
				badNamed = append(badNamed, e.src)
			}
		}
		// many ill-typed expressions in one file
		mn := append(upTo(c.tier(40, 130))[1:], 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1025, 4097, 8200)
		many := append(append([]string{}, badNamed...), bad...)
		c.Enum(fmt.Sprintf("up to %d times each of %d ill-typed expressions, or all in turn, with and without well-typed ones between", mn[len(mn)-1], len(many)), name, int64(len(mn)*(len(many)+1))*2, func(i int64, b []byte) []byte {
			mixed := i&1 != 0
			i >>= 1
			n, k := mn[i%int64(len(mn))], int(i/int64(len(mn)))
			if n > 600 && k > 3 && k < len(many) {
				return nil
			}
			b = append(b, 'N')
			for j := 0; j < n; j++ {
				x := many[k%len(many)]
				if k == len(many) {
					x = many[j%len(many)]
				}
				b = append(b, fmt.Sprintf("q%d = %s ;bad\n", j, x)...)
				if mixed {
					b = append(b, fmt.Sprintf("p%d = %s\n", j, good[j%len(good)])...)
				}
			}
			return append(b, strings.TrimSpace(defs)...)
		})
		counts := append(upTo(c.tier(34, 130))[1:], 65, 129, 257, 513, 1025, 4097, 8200)
		if c.Thorough {
			counts = append(counts, 16400, 33000, 66000, 132000)
		}
		nb, nk := int64(len(bad)), int64(len(counts))
		c.Enum(fmt.Sprintf("one of %d ill-typed expressions (or none) among up to %d well-typed ones, 3 places, 2 arrangements", nb, counts[nk-1]), name, (nb+1)*nk*6, func(i int64, b []byte) []byte {
			k := i % (nb + 1)
			i /= nb + 1
			n := counts[i%nk]
			i /= nk
			good, bad := good, bad
			if n > 600 { // those that name a number
				if k < nb && k >= int64(len(badNamed)) || k == nb && i > 0 {
					return nil
				}
				good, bad = named, badNamed
			}
			at, arr := []int{0, n / 2, n - 1}[i%3], i/3
			if k == nb {
				at = -1
				b = append(b, 'A')
			} else {
				b = append(b, 'R')
			}
			if arr == 1 {
				b = append(b, "zz = [ "...)
			}
			for j := 0; j < n; j++ {
				e := good[j%len(good)]
				if j == at {
					e = bad[k]
				}
				if arr == 1 {
					b = append(b, e+" , "...)
				} else {
					b = append(fmt.Appendf(b, "r%d = ", j), e+"\n"...)
				}
			}
			if arr == 1 {
				b = append(b, "int ]"...)
			}
			return append(b, defs...)
		})
		// spellings of numbers and of the names defined as numbers
		var nums []string
		for _, s := range famNums() {
			if _, err := strconv.ParseInt(s, 0, 64); err == nil || strings.Contains(s, ".") {
				nums = append(nums, s)
			}
		}
		kind := func(s string) string {
			if strings.Contains(s, ".") {
				return "float"
			}
			return "int"
		}
		nn := int64(len(nums))
		others := []operand{{"3", "int", ""}, {"0x1F", "int", ""}, {"2.5", "float", ""}, {"1000.0", "float", ""}, {"ni", "name:int", "ni = 4"}, {"nf", "name:float", "nf = 4.5"}, {`"t"`, "text", ""}, {"int", "type:int", ""}, {"true", "bool", ""}}
		no = int64(len(others))
		c.Enum(fmt.Sprintf("%d spellings of numbers against %d operands, both sides, 2 contexts, written or defined as a name", nn, no), name, nn*no*8, func(i int64, b []byte) []byte {
			x := operand{nums[i%nn], kind(nums[i%nn]), ""}
			i /= nn
			y := others[i%no]
			i /= no
			if i&1 != 0 {
				x.def, x.src, x.kind = "nm = "+x.src, "nm", "name:"+x.kind
			}
			if i&2 != 0 {
				x, y = y, x
			}
			v := verdictRange(x, y)
			if v == "" {
				return nil
			}
			pre, post := "zz = ", ""
			if i&4 != 0 {
				pre, post = "zz = [ ? ", " ]"
			}
			return append(b, v+pre+x.src+" .. "+y.src+post+"\n"+x.def+" "+y.def...)
		})
		sn := simNames(c.Thorough)
		ns := int64(len(sn))
		c.Enum(fmt.Sprintf("%d spellings of a name defined as a number against 3 operands, both sides, in the file or the session, next to a name defined otherwise", ns), name, ns*3*24, func(i int64, b []byte) []byte {
			nm := sn[i%ns]
			i /= ns
			if nm == "zz" || nm == "ni" {
				return nil
			}
			y := others[[]int{0, 2, 4}[i%3]]
			i /= 3
			x := operand{nm, "name:int", nm + " = 7"}
			if i&1 != 0 {
				x.kind, x.def = "name:float", nm+" = 7.5"
			}
			i >>= 1
			if i&1 != 0 {
				x, y = y, x
			}
			i >>= 1
			v := verdictRange(x, y)
			other := sn[(indexOf(sn, nm)+1)%len(sn)]
			if other == "ni" || other == nm {
				other = "other"
			}
			defs := x.def + " " + y.def
			switch i / 2 {
			case 1:
				defs += " " + other + " = tstr"
			case 2:
				defs = other + " = 1.5 " + defs
			}
			b = append(b, v...)
			if i&1 != 0 {
				return append(b, defs+"\x00zz = "+x.src+" .. "+y.src...)
			}
			return append(b, "zz = "+x.src+" .. "+y.src+"\n"+defs...)
		})
	})
}

func indexOf(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return 0
}
