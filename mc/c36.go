package main

// C36: the options of the generator.

import (
	"fmt"
	"strings"

	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
)

// opC36: option values asked one after another, each a byte of flags and a conversion, separated by NUL.
func opC36(in []byte) (bool, *Fail) {
	valid := 0
	for i, q := range strings.Split(string(in), "\x00") {
		if q == "" {
			return false, nil
		}
		conv := q[1:]
		o := gogen.Options{EmitIdent: q[0]&1 != 0, CaseConversion: conv, GeneratePlugStub: q[0]&2 != 0}
		err := o.Valid()
		want := conv == "camelcase" || conv == "snakecase"
		if (err == nil) != want {
			return true, failf("options %d of %q: case conversion %q, valid %v, error %v", i, in, conv, want, err)
		}
		if err != nil && !strings.Contains(err.Error(), conv) {
			return true, failf("the error for the case conversion %q reads %q", conv, err)
		}
		if o.CaseConversion != conv || o.EmitIdent != (q[0]&1 != 0) || o.GeneratePlugStub != (q[0]&2 != 0) {
			return true, failf("asking for validity changes the options %q to %+v", q, o)
		}
		if want {
			valid++
		}
	}
	return valid > 0, nil
}

func init() {
	op := reg("C36.options", opC36)
	addCheck("C36", "exploration", "every text of up to three symbols of the stated alphabets, the known conversions with all their one-edit neighbours and case variants, with every value of the other options; every sequence of up to four (thorough: six) questions; non-trivial: a valid conversion", func(c *Ctx) {
		all := make([]string, 0, 255)
		for i := 1; i < 256; i++ {
			all = append(all, string([]byte{byte(i)}))
		}
		for k := 0; k <= 2; k++ {
			c.Words(fmt.Sprintf("all texts of %d bytes", k), op, all, k, "0", "", "")
		}
		low := strings.Split("abcdefghijklmnopqrstuvwxyz_- .", "")
		for k := 3; k <= c.tier(4, 5); k++ {
			c.Words(fmt.Sprintf("texts of %d letters", k), op, low, k, "0", "", "")
		}
		parts := []string{"camel", "snake", "case", "Camel", "Snake", "Case", "kebab", "pascal", "_", "-", " ", "\n", "none"}
		for k := 0; k <= c.tier(4, 5); k++ {
			c.Words(fmt.Sprintf("%d parts of conversions", k), op, parts, k, "3", "", "")
		}
		var l []string
		known := []string{"camelcase", "snakecase"}
		for _, s := range append([]string{"kebabcase", "pascalcase", "lowercase", "uppercase", "camel", "snake", ""}, known...) {
			for f := 0; f < 4; f++ {
				p := string([]byte{'0' + byte(f)})
				l = append(l, p+s, p+strings.ToUpper(s), p+strings.Title(s), p+s+s, p+" "+s, p+s+" ", p+strings.Repeat(s, 30))
				for i := 0; i <= len(s); i++ {
					l = append(l, p+s[:i], p+s[i:])
					for b := 1; b < 256; b++ {
						x := string([]byte{byte(b)})
						l = append(l, p+s[:i]+x+s[i:])
						if i < len(s) {
							l = append(l, p+s[:i]+x+s[i+1:])
						}
					}
				}
				for m := 0; m < 1<<len(s) && len(s) < 11; m++ {
					b := []byte(s)
					for i := range b {
						if m>>i&1 != 0 {
							b[i] -= 32
						}
					}
					l = append(l, p+string(b))
				}
			}
		}
		c.List("known conversions, their one-edit neighbours and case variants, with every value of the other options", op, l)
		sy := []string{"0camelcase", "1snakecase", "2", "3other", "2camelcase", "0snakecase", "1CamelCase"}
		for k := 1; k <= c.tier(4, 6); k++ {
			c.Words(fmt.Sprintf("sequences of %d questions", k), op, sy, k, "", "\x00", "")
		}
	})
}
