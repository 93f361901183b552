package main

// C20, families of similar inputs: every member is run in one process in one order and in another
// process in the opposite order, so each pair of members is met with either of them first; the result of
// a member must be the same in both. What an implementation remembers between runs under a key that two
// members share (a case-folded name, a prefix, a length, a hash of some bytes) shows as a difference.

import (
	"encoding/binary"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
)

// simNames lists names that differ in little: in case, in separators, in one byte at any place.
func simNames(thorough bool) []string {
	var l []string
	cases := func(w string) {
		for m := 0; m < 1<<len(w); m++ {
			b := []byte(w)
			for i := range b {
				if m>>i&1 != 0 && b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				}
			}
			l = append(l, string(b))
		}
	}
	cases("foobar")
	cases("a-b_c")
	seps := []string{"", "-", "_", ".", "--", "$", "@"}
	for _, a := range seps {
		for _, b := range seps {
			l = append(l, "foo"+a+"bar"+b+"baz", "x"+a+"y"+b+"z", "n1"+a+"n2"+b+"n3", "foo"+a+"Bar"+b+"Baz")
		}
	}
	lens := []int{8, 13, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 130}
	if thorough {
		lens = append(lens, 255, 256, 257, 300, 1024, 1025)
		cases("abcdefghij")
	}
	for _, n := range lens {
		w := strings.Repeat("abcdefg-hi", n/10+1)[:n-1] + "z"
		l = append(l, w, w+"z", w[1:])
		for i := 0; i < n; i++ {
			if thorough || i < 8 || i > n-8 || i%8 == 3 {
				l = append(l, w[:i]+"q"+w[i+1:], w[:i]+"Q"+w[i+1:], w[:i]+"5"+w[i+1:])
			}
		}
	}
	l = append(l, shortNames(2)...)
	l = append(l, wordNames()...)
	seen := map[string]bool{}
	o := l[:0]
	for _, s := range l {
		if isName(s) && !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	return o
}

// famCtx holds the sources a name is put in.
var famCtx = func() []string {
	c, d := "; "+strings.Repeat("c", 300)+"\n", "\n; "+strings.Repeat("d", 300)
	l := []string{"% = int", "x = (%: tstr)", "x = [? %: [int], * %]", "x = \"%\"", "; %\nx = int", "% = 5\ny = %", "x = tstr .regexp \"%\"", "% = (x: tstr)\ny = (%, z: int)", "x = {% => %}", "x = 1..%", "% //= 7", "x = &(%: 1)",
		c + "% = int" + d, "a = int\nb = %\n" + strings.Repeat("c = tstr\n", 12), "% = int ! %"}
	return l
}()

var famKinds = []string{"lex", "parse", "buf", "gen", "fmt"}

var famBuf = make([]byte, 0, 4096)

// famNums: literals that differ in little.
func famNums() []string {
	var l []string
	for k := 1; k <= 18; k++ {
		z := strings.Repeat("0", k)
		l = append(l, "1"+z, "1"+z+".5", "2"+z, "0."+z+"1", "1."+z, "1."+z+"1", "0x1"+z, "0b1"+z, "7"+z[1:]+"7", "1"+z[1:]+"9", "0"+z, "0"+z+"1")
	}
	for k := 0; k < 300; k++ {
		l = append(l, strconv.Itoa(k), strconv.Itoa(1<<40+k), strconv.Itoa(k)+".5", "0x"+strconv.FormatInt(int64(k), 16), "0.1000000000000000"+strconv.Itoa(k))
	}
	return l
}

func famSrcs(fam string, thorough bool) []string {
	var l []string
	k, _ := strconv.Atoi(fam)
	if k < len(famCtx) {
		for _, n := range simNames(thorough) {
			l = append(l, strings.ReplaceAll(famCtx[k], "%", n))
		}
		return l
	}
	for _, n := range famNums() {
		l = append(l, strings.ReplaceAll([]string{"x = %", "x = 0..%", "x = #6.%(int)", "x = [%*% int]", "x = {% : %}", "x = int .lt %"}[k-len(famCtx)], "%", n))
	}
	return l
}

const famCount = 15 + 6

func famRun(kind, src string) string {
	switch kind {
	case "lex":
		return c20lex(src)
	case "buf": // the sources one after the other in the same buffer
		for len(famBuf) < len(src) {
			famBuf = append(famBuf[:cap(famBuf)], 0)
		}
		copy(famBuf, src)
		tree, errs := parse(famBuf[:len(src)])
		return dumpTree(tree) + "\n" + dumpTree(errs)
	case "parse":
		return c20parse(src)
	}
	t, _ := parse([]byte(src))
	if t == nil {
		t = &ast.CDDL{}
	}
	if kind == "gen" {
		return c20gen(t, "p")
	}
	return astutils.Format(t)
}

// famMain ARGS: family kind order tier; writes the hash of every member's result in member order.
func famMain(a []string) {
	srcs := famSrcs(a[0], a[3] == "thorough")
	n := len(srcs)
	out := make([]byte, 8*n)
	for q := 0; q < n; q++ {
		i := q
		switch a[2] {
		case "rev":
			i = n - 1 - q
		}
		s := func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprintf("panic: %v", r)
				}
			}()
			return famRun(a[1], srcs[i])
		}()
		h, _ := strconv.ParseUint(c20hash(s), 16, 64)
		binary.LittleEndian.PutUint64(out[8*i:], h)
	}
	os.Stdout.Write(out)
	os.Exit(0)
}

// opC20fam: "family kind tier".
func opC20fam(in []byte) (bool, *Fail) {
	f := strings.Fields(string(in))
	if len(f) != 3 {
		return false, nil
	}
	srcs := famSrcs(f[0], f[2] == "thorough")
	var res [2]string
	for k, o := range []string{"fwd", "rev"} {
		out, bad, ok := c20exec(c20exe(), "c20fam", f[0], f[1], o, f[2])
		if !ok {
			return false, nil
		}
		if bad != "" {
			return true, failf("family %s of %d sources like %q, order %s: %s", f[0], len(srcs), srcs[0], o, bad)
		}
		res[k] = out
	}
	if len(res[0]) != 8*len(srcs) || len(res[1]) != len(res[0]) {
		return false, nil
	}
	for i := range srcs {
		if res[0][8*i:8*i+8] != res[1][8*i:8*i+8] {
			return true, failf("%s of %q gives different results after the %d sources before it in the family and after the %d behind it (first %q, last %q)", f[1], srcs[i], i, len(srcs)-1-i, srcs[0], srcs[len(srcs)-1])
		}
	}
	c20count.Lock()
	c20count.n += int64(2 * len(srcs))
	c20count.Unlock()
	return true, nil
}

func init() {
	reg("C20.fam", opC20fam)
	subs["c20fam"] = famMain
}
