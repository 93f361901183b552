package main

// C17: diagnostics of the library and their rendering by the command line.

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// opC17cli: the parse command shows every diagnostic with its source line and a marker.
func opC17cli(in []byte) (bool, *Fail) {
	w := newWorld()
	defer w.close()
	w.put("s.cddl", string(in))
	_, errs := parse(in)
	r := w.run("", "", "parse", "s.cddl")
	if r.crashed() {
		return true, failf("parse of %q crashed: %s", in, r)
	}
	if len(errs) == 0 {
		return false, nil
	}
	if f := checkRendering(in, r.err); f != nil {
		f.Msg = "parse command: " + f.Msg
		return true, f
	}
	w.put("cddlc.yaml", yamlConfig([]wbuild{{"p", ".", "out"}}))
	r = w.run("", "", "generate")
	if r.crashed() {
		return true, failf("generate of %q crashed: %s", in, r)
	}
	if f := checkRendering(in, r.err); f != nil {
		f.Msg = "generate command: " + f.Msg
		return true, f
	}
	return true, nil
}

// checkRendering looks for message, source line and marker of every diagnostic, in order.
func checkRendering(src []byte, shown string) *Fail {
	_, errs := parse(src)
	lines := bytes.Split(src, []byte{'\n'})
	rest := strings.Split(shown, "\n")
	for i, e := range errs {
		p := e.Start()
		msg := e.Error()
		k := 0
		for k < len(rest) && !strings.Contains(rest[k], msg) {
			k++
		}
		if k+2 >= len(rest) {
			return failf("source %q\ndiagnostic %d (%s) with line and marker is not shown: %q", src, i, msg, shown)
		}
		text, mark := rest[k+1], rest[k+2]
		want := string(lines[p.Line-1])
		if !strings.HasSuffix(text, want) && !strings.HasSuffix(text, strings.TrimSuffix(want, "\r")) {
			return failf("source %q\ndiagnostic %d (%s) is at line %d %q but shown with %q", src, i, msg, p.Line, want, text)
		}
		prefix := strings.TrimSuffix(text, want)
		if !strings.Contains(prefix, strconv.Itoa(p.Line)) || len(want) > 0 && !strings.HasSuffix(text, want) {
			return failf("source %q\ndiagnostic %d (%s) is at line %d but shown as %q", src, i, msg, p.Line, text)
		}
		col := len(mark) - len(strings.TrimLeft(mark, " "))
		if strings.TrimSpace(mark) == "" || col != len(prefix)+p.Column-1 {
			return failf("source %q\ndiagnostic %d (%s) is at column %d but its marker is at column %d of the shown line:\n%s\n%s", src, i, msg, p.Column, col-len(prefix)+1, text, mark)
		}
		rest = rest[k+3:]
	}
	return nil
}

func init() {
	lib := reg("C17.source", opC17)
	cli := reg("C17.cli", opC17cli)
	addCheck("C17", "exploration", "library: all lexeme sequences up to the stated length in each context and the one-edit neighbourhood of a schema per construct in several layouts, every diagnostic compared with the token positions of a reference scanner; command line: the rejected sources of the stated list rendered by the real binary; non-trivial: at least one diagnostic was judged", func(c *Ctx) {
		exploreTokens(c, lib)
		exploreLexErrors(c, lib)
		var multi []string
		for _, p := range rich() {
			t := p.toks[:min(len(p.toks), 16)]
			for k, e := range editToks(t, append(synCore, `"u`, "é", ".foo", "!")) {
				lay := layoutSep(2 + k%3)
				var b strings.Builder
				for i, x := range e {
					b.WriteString(lay(i))
					b.WriteString(x)
				}
				multi = append(multi, b.String())
			}
		}
		c.List("one-edit neighbours in multi-line layouts", lib, multi)
		var sess []string
		for _, l := range []string{"a = b", "a = 1\na = 2", "a = 1\n\n\ta = tstr\nc = [d, e,\n f]", "x = 1..y", "\n\n  x = 2.5 .. 1", "a = tstr .size", "a = (\n", "a = [ int,\n\n", "a = \"open\nb = c", "é = 1 a = ¡", "a = { k : b, l : c }\n", "\"\"é\" b = int\na =", "a = 12345678901234567890", "a = #6.(int)", "; c\na = ; d\n", "a = int .lt tstr", "\ta =\t\tz ; zzz"} {
			for _, pre := range []string{"", "\n", " \t", ";c\n", "q = int\r\n", strings.Repeat("\n", 9), strings.Repeat("\n", 10), strings.Repeat("\n", 99), strings.Repeat(" ", 200), "w = \"éééé\" "} {
				for _, post := range []string{"", "\n", "\n\nz9 = int"} {
					sess = append(sess, pre+l+post)
				}
			}
		}
		c.List("hand-picked rejected sources with shifted lines and columns", lib, sess)
		// what stands before the marked place on its line
		var ind []string
		for _, u := range []string{"\t", " ", "\t ", "  \t", "é", "\r", "a = int ", "; x\n"} {
			for _, n := range append(upTo(c.tier(24, 130)), 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 1000) {
				x := strings.Repeat(u, n)
				if u == "é" {
					x = "w" + fmt.Sprint(n) + " = \"" + x + "\" "
				}
				if u == "a = int " {
					x = strings.Repeat("zz9 /= int ", n)
				}
				for _, l := range []string{"r = nowhere", "r = 1 .. 2.5", "!", "r = [ int, nowhere ]"} {
					ind = append(ind, x+l, "q = int\n"+x+l+"\n"+x, "r9 = "+strings.ReplaceAll(x, "zz9 /= int", "int /")+"nowhere"+x+"\n"+x+l)
				}
			}
		}
		c.List("texts of every length before the marked place, library", lib, ind)
		c.List("texts of every length before the marked place, command line", cli, ind)
		// many diagnostics of every kind, on one line and on lines of their own
		var many []string
		for _, n := range append(upTo(c.tier(20, 60)), 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025) {
			for _, u := range []string{"a%d = zz", "a = int", "x%d = 1 .. 2.5", "y%d = (", "b%d = zz%d", "c%d = #6.(int)", "d = \"é", "e%d = %d .. nn", "!", "f%d = tstr .lt zz"} {
				for _, sep := range []string{" ", "\n", "\n\t"} {
					if n > 300 && sep != "\n" {
						continue
					}
					var b strings.Builder
					for j := 0; j < n; j++ {
						b.WriteString(strings.ReplaceAll(u, "%d", strconv.Itoa(j)) + sep)
					}
					many = append(many, b.String())
				}
			}
		}
		c.List("many diagnostics", lib, many)
		c.List("command line: many diagnostics", cli, many)
		step := c.tier(12, 1)
		var l []string
		for i, s := range multi {
			if i%step == 0 {
				l = append(l, s)
			}
		}
		c.List("command line: shifted sources", cli, sess)
		c.List("command line: every one-edit neighbour (quick: every 12th) in multi-line layouts", cli, l)
	})
}
