package main

// C25, C26, C27: the generate command in scratch worlds.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/HannesKimara/cddlc/config"
)

// wfile is a path of a world: a trailing slash makes a directory, L a symbolic link.
type wfile struct {
	N string `json:"n"`
	C string `json:"c,omitempty"`
	M string `json:"m,omitempty"` // octal mode
	L string `json:"l,omitempty"`
	T int    `json:"t,omitempty"` // time of the last change: so many hours after a fixed time in the past
}

type wbuild struct {
	Package string `json:"package"`
	Src     string `json:"src"`
	Out     string `json:"output"`
}

// gworld is one generate run.
type gworld struct {
	Cfg    string   `json:"cfg"` // "", json, yaml
	Builds []wbuild `json:"builds"`
	Files  []wfile  `json:"files"`
	Cwd    string   `json:"cwd,omitempty"`
	Limit  *int64   `json:"limit,omitempty"` // bytes a file may grow to
	Args   []string `json:"args,omitempty"`  // the command and its arguments, when not "generate"
}

func (g *gworld) enc() string { b, _ := json.Marshal(g); return string(b) }

func needsPriv(fs []wfile) bool {
	for _, f := range fs {
		if f.M != "" {
			return true
		}
	}
	return false
}

func (w *world) putAll(fs []wfile) {
	for _, f := range fs {
		if f.L != "" {
			w.put(filepath.Dir(f.N)+"/", "")
			os.Symlink(f.L, w.path(f.N))
			continue
		}
		w.put(f.N, f.C)
	}
	for _, f := range fs { // times do not depend on when the world was made
		if f.L == "" {
			t := time.Unix(1700000000+3600*int64(f.T), 0)
			os.Chtimes(w.path(f.N), t, t)
		}
	}
	filepath.Walk(w.root, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			t := time.Unix(1700000000, 0)
			os.Chtimes(p, t, t)
		}
		return nil
	})
	for _, f := range fs { // modes last
		if f.M != "" {
			m, _ := strconv.ParseUint(f.M, 8, 32)
			os.Chmod(w.path(f.N), os.FileMode(m))
		}
	}
}

func yamlConfig(bs []wbuild) string {
	s := "version: \"1\"\nplugins: []\nbuilds:\n"
	if len(bs) == 0 {
		s = "version: \"1\"\nbuilds: []\n"
	}
	q := func(x string) string { b, _ := json.Marshal(x); return string(b) }
	for _, b := range bs {
		s += "  - package: " + q(b.Package) + "\n    src: " + q(b.Src) + "\n    output: " + q(b.Out) + "\n"
	}
	return s
}

func jsonConfig(bs []wbuild) string {
	if bs == nil {
		bs = []wbuild{}
	}
	b, _ := json.MarshalIndent(map[string]any{"version": "1", "plugins": []any{}, "builds": bs}, "", "\t")
	return string(b) + "\n"
}

// genLib is the text the generator gives for one schema; ok is false when it reports failure.
func genLib(src, pkg string) (string, bool) {
	var b bytes.Buffer
	acc, err := generate([]byte(src), pkg, &b)
	return b.String(), acc && err == nil
}

// headerThen says that out is a comment followed by body.
func headerThen(out, body string) bool {
	if !strings.HasSuffix(out, body) {
		return false
	}
	h := strings.TrimSpace(strings.TrimSuffix(out, body))
	if h == "" {
		return true
	}
	if strings.HasPrefix(h, "/*") {
		return strings.Index(h[2:], "*/") == len(h)-4
	}
	for _, l := range strings.Split(h, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "//") {
			return false
		}
	}
	return true
}

// expectation of a generate run
type gexpect struct {
	ok    bool                       // every schema can be generated
	why   string                     // the first obstacle
	final map[string]map[string]bool // path -> acceptable generated bodies (package and schema)
	last  map[string]string          // path -> body after complete success
	dirs  map[string]bool            // directories that may appear
}

// expect predicts the run from the world on disk, before it.
func (w *world) expect(cwd string, builds []wbuild) gexpect {
	e := gexpect{ok: true, final: map[string]map[string]bool{}, last: map[string]string{}, dirs: map[string]bool{}}
	bad := func(f string, a ...any) {
		if e.ok {
			e.ok, e.why = false, fmt.Sprintf(f, a...)
		}
	}
	abs := func(p string) string {
		if !filepath.IsAbs(p) {
			p = filepath.Join(w.root, cwd, p)
		}
		rest := "" // links in the existing part are followed
		for d := filepath.Clean(p); len(d) > 1; d = filepath.Dir(d) {
			if t, err := filepath.EvalSymlinks(d); err == nil {
				return filepath.Join(t, rest)
			}
			rest = filepath.Join(filepath.Base(d), rest)
		}
		return p
	}
	rel := func(p string) string { r, _ := filepath.Rel(w.root, p); return r }
	mayRead := func(p string, bit os.FileMode) bool {
		i, err := os.Stat(p)
		return err == nil && i.Mode().Perm()&bit != 0
	}
	for _, b := range builds { // an output directory may be made before the failure shows
		if m, _ := filepath.Glob(filepath.Join(abs(b.Src), "*.cddl")); len(m) == 0 && !strings.ContainsAny(b.Src, "*?[\\") {
			continue // nothing is to be written there
		}
		for d := abs(b.Out); !exists(d); d = filepath.Dir(d) {
			e.dirs[rel(d)] = true
		}
		for i, ch := range b.Out + "/" { // also the directories passed through on the way, as written
			if ch == '/' && i > 0 && !exists(abs(b.Out[:i])) {
				e.dirs[rel(abs(b.Out[:i]))] = true
			}
		}
	}
	for _, b := range builds {
		src, out := abs(b.Src), abs(b.Out)
		if b.Src == "" {
			bad("empty source directory")
			return e
		}
		st, err := os.Stat(src)
		if err != nil || !st.IsDir() || st.Mode().Perm()&0500 != 0500 {
			bad("source directory %s", b.Src)
			return e
		}
		ents, err := os.ReadDir(src)
		if err != nil {
			bad("source directory %s", b.Src)
			return e
		}
		var names []string
		for _, x := range ents {
			if strings.HasSuffix(x.Name(), ".cddl") {
				names = append(names, x.Name())
			}
		}
		sort.Strings(names)
		for _, n := range names {
			text, err := os.ReadFile(filepath.Join(src, n))
			if err != nil || !mayRead(filepath.Join(src, n), 0400) {
				bad("schema %s/%s is unreadable", b.Src, n)
				return e
			}
			body, ok := genLib(string(text), b.Package)
			if !ok {
				bad("schema %s/%s cannot be generated", b.Src, n)
				return e
			}
			// the output place
			path := filepath.Join(out, strings.TrimSuffix(n, ".cddl")+".go")
			var up []string
			d := out
			for {
				i, err := os.Stat(d)
				if err == nil {
					if !i.IsDir() {
						bad("%s is not a directory", rel(d))
						return e
					}
					if i.Mode().Perm()&0300 != 0300 && (len(up) > 0 || !exists(path)) {
						bad("%s is not writable", rel(d))
						return e
					}
					break
				}
				up = append(up, d)
				d = filepath.Dir(d)
			}
			if i, err := os.Stat(path); err == nil && (i.IsDir() || i.Mode().Perm()&0200 == 0) {
				bad("%s is not writable", rel(path))
				return e
			}
			// a link is written through
			if t, err := filepath.EvalSymlinks(path); err == nil {
				path = t
			}
			if path == "/dev/full" {
				bad("%s is full", n)
				return e
			}
			r := rel(path)
			if e.final[r] == nil {
				e.final[r] = map[string]bool{}
			}
			e.final[r][body] = true
			e.last[r] = body
		}
	}
	return e
}

func exists(p string) bool { _, err := os.Lstat(p); return err == nil }

// opGen: one world, one run.
func opGen(in []byte) (bool, *Fail) {
	var g gworld
	if json.Unmarshal(in, &g) != nil {
		return false, nil
	}
	if needsPriv(g.Files) && !canDrop() {
		return false, nil
	}
	w := newWorld()
	defer w.close()
	return runGen(w, &g)
}

func runGen(w *world, g *gworld) (bool, *Fail) {
	cwd := g.Cwd
	if cwd != "" {
		w.put(cwd+"/", "")
	}
	w.putAll(g.Files)
	builds := append([]wbuild{}, g.Builds...)
	for i := range builds { // absolute paths
		builds[i].Src = strings.ReplaceAll(builds[i].Src, "@ROOT@", w.root)
		builds[i].Out = strings.ReplaceAll(builds[i].Out, "@ROOT@", w.root)
	}
	switch g.Cfg {
	case "json":
		w.put(filepath.Join(cwd, "cddlc.json"), jsonConfig(builds))
	case "yaml":
		w.put(filepath.Join(cwd, "cddlc.yaml"), yamlConfig(builds))
	case "":
		builds = []wbuild{{"dist", ".", "dist/"}}
	}
	before := w.snap()
	exp := w.expect(cwd, builds)
	limit := int64(-1)
	if g.Limit != nil {
		limit = *g.Limit
	}
	var r cliResult
	if limit >= 0 {
		r = w.runLimited(limit, cwd, "", "generate")
	} else if len(g.Args) > 0 {
		r = w.run(cwd, "", g.Args...)
	} else {
		r = w.run(cwd, "", "generate")
	}
	after := w.snap()
	f := judgeGen(before, after, exp, r, limit >= 0)
	if f != nil {
		f.Msg = fmt.Sprintf("%s\nexpected success: %v %s\nworld: %s\nrun: %s", f.Msg, exp.ok, exp.why, g.enc(), r)
	}
	return true, f
}

func judgeGen(before, after map[string]string, exp gexpect, r cliResult, limited bool) *Fail {
	if r.crashed() {
		return failf("generate crashed")
	}
	if r.code != 0 && strings.TrimSpace(r.err+r.out) == "" {
		return failf("generate failed without a message")
	}
	if r.code == 0 && !exp.ok {
		return failf("generate reports success although %s", exp.why)
	}
	if r.code != 0 && exp.ok && !limited {
		return failf("generate failed although every schema can be generated")
	}
	if r.code == 0 {
		for p, body := range exp.last {
			got, ok := after[p]
			if !ok {
				return failf("success but %s was not written", p)
			}
			if !headerThen(strings.TrimPrefix(got, "file "), body) {
				return failf("success but %s is not the generated file:\n%s\nwant\n%s", p, got, body)
			}
		}
	}
	for p, old := range before {
		now, ok := after[p]
		if !ok {
			return failf("%s was removed", p)
		}
		if now == old || old == "dir" {
			continue
		}
		if exp.final[p] == nil {
			return failf("%s was changed (%.200q to %.200q)", p, old, now)
		}
		if !limited && !anyBody(now, exp.final[p]) {
			return failf("%s was changed to something else than the generated file: %.400q", p, now)
		}
	}
	for p, now := range after {
		if _, ok := before[p]; ok {
			continue
		}
		if now == "dir" && exp.dirs[p] {
			continue
		}
		if exp.final[p] == nil {
			return failf("%s was added (%.200q)", p, now)
		}
		if !limited && !anyBody(now, exp.final[p]) {
			return failf("%s was written with something else than the generated file: %.400q", p, now)
		}
	}
	return nil
}

func anyBody(now string, bodies map[string]bool) bool {
	for b := range bodies {
		if headerThen(strings.TrimPrefix(now, "file "), b) {
			return true
		}
	}
	return false
}

// schema kinds for the worlds
var (
	okSchemas  = []string{"a = int\n", "person = (name: tstr, ? age: uint)\nid = uint .size 4\n", "", "; only a comment\n", "arr = [x: bytes, y: nint]\nk = \"v\"\n"}
	rejSchemas = []string{"a = \n", "a = zzz\n", "a = \"open\n", "a = int\na = tstr\n", "b = (k: int", "\xff = int\n", "a = 1..2.5\n", "a = int .foo 3\n", "a = int ¡\n"}
	hardSchema = []string{"m = {k: int}\n", "c = int / tstr\n", "r = 1..5\n", "t = #6.1(tstr)\n", "e = &(a: 1)\n", "g = (k: 5)\n", "k = (? g)\ng = (a: int)\n", "u = ~g\ng = (a: int)\n", "a = (int)\n", "l = [* int]\n", "@ = int\n"}
)

// sizeWorlds: schemas, diagnostics, files and builds in numbers around the usual limits.
func sizeWorlds(thorough bool) []gworld {
	var out []gworld
	one := func(s string) {
		cf := []string{"json", "yaml"}[len(out)%2]
		out = append(out, gworld{Cfg: cf, Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/m.cddl", C: s}}})
	}
	for _, n := range append(upTo(70), 99, 100, 101, 127, 128, 129, 255, 256, 257) { // diagnostics
		for _, e := range []string{"r%d = zz%d\n", "r%d = 1..2.%d\n", "r = int ; %d %d\n", "r%d = [zz, %d]\n"} {
			s := ""
			for i := 0; i < n; i++ {
				s += fmt.Sprintf(e, i, i)
			}
			one(s)
		}
		one("a = !" + strings.Repeat(" !", n))
		one("a = [ " + strings.Repeat("q, ", n) + "int ]")
		one("a = " + strings.Repeat("zz / ", n) + "int")
		one(strings.Repeat("[", n) + "a")
	}
	sizes := []int{511, 512, 513, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 70000}
	if thorough {
		sizes = append(sizes, 1<<17, 1<<18, 1<<20, 1<<20+1, 1<<21)
	}
	for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 2<<20 + 3} {
		for _, tail := range []string{"\nz = int\n", "\nz = ( int", "\n!"} {
			one("a = int ;" + strings.Repeat("c", n-9-len(tail)) + tail)
		}
		one("t = \"" + strings.Repeat("t", n-6) + "\"\n")
	}
	for _, n := range sizes {
		var b strings.Builder
		for i := 0; b.Len() < n-40; i++ {
			fmt.Fprintf(&b, "r%d = tstr\n", i)
		}
		pad := func(k int) string { return b.String() + ";" + strings.Repeat("x", max(0, k-b.Len()-2)) + "\n" }
		rules := pad(n)
		cm := ";" + strings.Repeat("c", n-2) + "\n"
		text := "t = \"" + strings.Repeat("t", n-7) + "\"\n"
		for _, s := range []string{rules, cm, text, strings.Repeat("\n", n)} {
			one(s)
			one(s + "z = int\n")
			one(s + "z = (\n")
			one(s + "z = zz\n")
			one("b = zz\n" + s)
		}
	}
	for _, n := range append(upTo(33)[1:], 50, 64, 65, 100, 130) { // files
		for _, k := range []int{-1, 0, n / 2, n - 1} {
			g := gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}}
			for i := 0; i < n; i++ {
				f := wfile{N: fmt.Sprintf("s/f%d.cddl", i), C: fmt.Sprintf("a%d = int\n", i)}
				if i == k {
					f.C = rejSchemas[i%len(rejSchemas)]
				}
				g.Files = append(g.Files, f)
			}
			out = append(out, g)
			h := gworld{Cfg: "yaml"}
			for i := 0; i < n; i++ {
				d := fmt.Sprintf("s%d", i)
				f := wfile{N: d + "/f.cddl", C: fmt.Sprintf("a%d = int\n", i)}
				if i == k {
					f.C = hardSchema[i%len(hardSchema)]
				}
				h.Files = append(h.Files, f)
				h.Builds = append(h.Builds, wbuild{fmt.Sprintf("p%d", i), d, "out/" + d})
			}
			out = append(out, h)
		}
	}
	return out
}

func init() {
	n25 := reg("C25.generate", opGen)
	nh := reg("C25.history", opGenHist)
	addCheck("C25", "exploration", "every combination of the stated kinds of schema files, source and output directories and configurations, run with the real binary in a scratch directory; the exit status and every file of the world compared with a prediction from the world and the library; non-trivial: the command ran", func(c *Ctx) {
		var l []string
		add := func(g gworld) { l = append(l, g.enc()) }
		conf := []string{"", "json", "yaml"}
		kinds := map[string]wfile{"ok": {C: okSchemas[0]}, "ok2": {C: okSchemas[1]}, "empty": {C: ""}, "rej": {C: rejSchemas[1]}, "hard": {C: hardSchema[0]}, "noread": {C: okSchemas[0], M: "000"}, "link": {L: "../other.txt"}, "gone": {L: "nowhere"}, "dir": {N: "/"}}
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		other := []wfile{{N: "other.txt", C: "z = (q: bool)\n"}, {N: "s/readme.md", C: "x"}, {N: "s/b.cddl.bak", C: "bad ("}, {N: "s/CDDL", C: "bad ("}, {N: "keep/x.go", C: "package keep\n"}}
		// up to 3 schema files of every kind, in order
		files := func(dir string, kk []string) []wfile {
			var fs []wfile
			for i, k := range kk {
				f := kinds[k]
				f.N = dir + string(rune('a'+i)) + ".cddl" + f.N
				fs = append(fs, f)
			}
			return fs
		}
		var seqs [][]string
		var rec func(p []string, n int)
		rec = func(p []string, n int) {
			seqs = append(seqs, append([]string{}, p...))
			if n == 0 {
				return
			}
			for _, k := range ks {
				rec(append(p, k), n-1)
			}
		}
		rec(nil, c.tier(3, 4))
		for _, s := range seqs {
			for _, cf := range conf {
				b := []wbuild{{"lib", "s", "out"}}
				dir := "s/"
				if cf == "" {
					b, dir = nil, ""
				}
				fs := append(append([]wfile{}, other...), files(dir, s)...)
				if cf == "" {
					for i := range fs {
						if fs[i].L == "../other.txt" {
							fs[i].L = "other.txt"
						}
					}
				}
				add(gworld{Cfg: cf, Builds: b, Files: fs})
				if len(s) > 0 { // earlier outputs
					e := append([]wfile{}, fs...)
					o := "out/"
					if cf == "" {
						o = "dist/"
					}
					e = append(e, wfile{N: o + "a.go", C: "package old\n// " + strings.Repeat("long ", 400)}, wfile{N: o + "zz.go", C: "package keep"}, wfile{N: o + "a.cddl", C: "not in src"})
					add(gworld{Cfg: cf, Builds: b, Files: e})
				}
			}
		}
		c.List(fmt.Sprintf("sequences of up to %d schema files of %d kinds, 3 configurations, fresh and earlier output", c.tier(3, 4), len(ks)), n25, l)
		// every schema of the lists alone and behind a good one
		l = nil
		for _, s := range append(append(append(append([]string{}, okSchemas...), rejSchemas...), hardSchema...), goodSchemas()...) {
			for k, cf := range conf[1:] {
				add(gworld{Cfg: cf, Builds: []wbuild{{"lib", "s", "o/p"}}, Files: []wfile{{N: "s/m.cddl", C: s}}})
				if k == 0 {
					add(gworld{Cfg: cf, Builds: []wbuild{{"lib", ".", "."}}, Files: []wfile{{N: "a.cddl", C: okSchemas[4]}, {N: "m.cddl", C: s}, {N: "z.cddl", C: okSchemas[1]}}})
				}
			}
		}
		c.List("every schema of the lists, alone and between good ones", n25, l)
		l = nil
		var vs []*M
		for _, v := range append(shapeVals(), richModels()...) {
			vs = append(vs, v)
			for _, w := range chainWraps() {
				vs = append(vs, w.f(v))
			}
		}
		for _, n := range []*M{id("x"), txt("t"), flt("1.5", "1.5"), typ("int"), mk("group", "", num("4")), mk("range", "..", num("1"), num("4")), num("4"), hexn("0x10", "16")} {
			for _, t := range []string{"uint", "tstr", "bstr", "bytes"} {
				v := mk("ctl", ".size", typ(t), n)
				vs = append(vs, v, mk("group", "", mk("entry", ":", id("k"), v)), mk("array", "", mk("opt", "", mk("entry", ":", id("k"), v))))
			}
		}
		for i, v := range vs {
			s := printFile(fileOf(v, "="), 0).src() + "\n"
			add(gworld{Cfg: conf[1+i%2], Builds: []wbuild{{"lib", "s", "o"}}, Files: []wfile{{N: "s/m.cddl", C: s}}})
		}
		c.List(fmt.Sprintf("every construct inside every other (%d schemas)", len(vs)), n25, l)
		// schema files that are links of every kind, in every position among good ones, and named by outputs
		l = nil
		links := []string{"gone", "../gone", "x.cddl", "loop", "dir", "../other.txt", "/nonexistent/x", "b.cddl", "gone.cddl", "../s/b.cddl", "bad.txt", "empty.txt", "/dev/null", "chain"}
		for _, t := range links {
			for _, n := range []string{"a", "b", "x", "z"} {
				if t == n+".cddl" && n == "b" {
					continue
				}
				for k, cf := range conf {
					for _, good := range []bool{true, false} {
						for _, old := range []bool{true, false} {
							b := [][]wbuild{nil, {{"lib", "s", "out"}}, {{"lib", "s", "dist"}, {"lib", "s", "out"}}}[k]
							dir, o := "s/", "out/"
							if cf == "" {
								dir, o = "", "dist/"
							}
							fs := []wfile{{N: "other.txt", C: okSchemas[4]}, {N: dir + "bad.txt", C: rejSchemas[0]}, {N: dir + "empty.txt"}, {N: dir + "dir/"}, {N: dir + "loop", L: "loop"}, {N: dir + "chain", L: "chain2"}, {N: dir + "chain2", L: "empty.txt"}}
							if good {
								fs = append(fs, wfile{N: dir + "m.cddl", C: okSchemas[0]})
								if n != "b" {
									fs = append(fs, wfile{N: dir + "b.cddl", C: okSchemas[1]})
								}
							}
							if old {
								for _, x := range []string{n, "m", "zz"} {
									fs = append(fs, wfile{N: o + x + ".go", C: "package old"}, wfile{N: "dist/" + x + ".go", C: "package old"})
								}
							}
							add(gworld{Cfg: cf, Builds: b, Files: append(fs, wfile{N: dir + n + ".cddl", L: t})})
						}
					}
				}
			}
		}
		c.List("schema files that are links", n25, l)
		// file names
		l = nil
		for _, n := range []string{"a", "a.b", ".hidden", "", "a.cddl", "A B", "é", "a-b_c", "x.go", "-x", "cddl", "%s", "a.CDDL/../b"} {
			if strings.Contains(n, "/") {
				continue
			}
			for _, o := range []string{"out", "s", "./out/", "deep/er/out", "s/sub"} {
				add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", o}}, Files: []wfile{{N: "s/" + n + ".cddl", C: okSchemas[1]}, {N: "s/q.cddl", C: okSchemas[0]}, {N: "s/" + n + ".CDDL", C: "bad ("}, {N: "s/" + n + "cddl", C: "bad ("}}})
			}
		}
		c.List("file names and output paths", n25, l)
		// what else stands in the source directory
		l = nil
		for n := 0; n <= c.tier(40, 130); n++ {
			for m := 0; m < 16; m++ { // schemas, sub-directories, an output directory, several builds
				g := gworld{Cfg: conf[1+n%2], Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/"}}}
				for i := 0; i < n; i++ {
					w := wfile{N: fmt.Sprintf("s/%c%d%s", 'a'+i%26, i, []string{".txt", ".cddl.txt", "", ".go", ".json"}[i%5]), C: "x"}
					if m&2 != 0 && i%2 == 0 {
						w = wfile{N: w.N + "/"}
					}
					g.Files = append(g.Files, w)
				}
				if m&1 != 0 {
					g.Files = append(g.Files, wfile{N: "s/mm.cddl", C: okSchemas[n%len(okSchemas)]})
				}
				if m&4 != 0 {
					g.Files = append(g.Files, wfile{N: "out/"})
				}
				if m&8 != 0 {
					g.Builds = append(g.Builds, wbuild{"two", "t", "t"})
					g.Files = append(g.Files, wfile{N: "t/f.cddl", C: okSchemas[1]})
				}
				add(g)
			}
		}
		for x := 33; x < 127; x++ { // every way an entry may be called, between two schemas
			if x == '/' {
				continue
			}
			for _, n := range []string{string(rune(x)), string(rune(x)) + "x", "x" + string(rune(x)), "x" + string(rune(x)) + "y", "x.cddl" + string(rune(x)), "x." + string(rune(x)) + "cddl"} {
				if n == "." || strings.HasSuffix(n, ".cddl") {
					continue
				}
				for k := 0; k < 4; k++ {
					g := gworld{Cfg: conf[1+k%2], Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/!.cddl", C: okSchemas[1]}, {N: "s/Zy.cddl", C: okSchemas[0]}, {N: "s/~~.cddl", C: okSchemas[4]}}}
					w := []wfile{{N: "s/" + n, C: "bad ("}, {N: "s/" + n + "/"}, {N: "s/" + n + "/n.cddl", C: "bad ("}, {N: "s/" + n, L: "nowhere"}}[k]
					g.Files = append(g.Files, w)
					add(g)
				}
			}
		}
		c.List("other files, directories and links of every number and name among the schemas", n25, l)
		// spellings of directories
		l = nil
		dirs := []string{"d", " d", "d ", "\td", ".d", "d.", "-d", "--d", "D", "d e", "é", "~", "~d", "$HOME", "%s", "*", "?", "[d]", "d//e", "d/./e", "d/../e", "d/e/", "./d", ".//d", "../@W@/d", "@ROOT@/d", "@ROOT@/d/e/", "\"d\"", "'d'", "d\\e", "d:e", "#d", "d#e", "true", "null", "1", "0x10", "{d}", "!d", "&d", "d,e", "d\ne", "d\u00a0", strings.Repeat("d", 200), strings.Repeat("d/", 60), "C:\\d", "file://d", "@d", "=d", "|", ">", "d.cddl", "d.go", "con"}
		for _, d := range dirs {
			if strings.Contains(d, "@W@") {
				continue
			}
			sd := strings.ReplaceAll(d, "@ROOT@", ".")
			for k, cf := range conf[1:] {
				for _, old := range []bool{false, true} {
					var fs []wfile
					if old {
						fs = append(fs, wfile{N: sd + "/a.go", C: "package old\n"}, wfile{N: sd + "/k.go", C: "package keep\n"})
					}
					fs = append(fs, wfile{N: strings.TrimSpace(sd) + "/"})
					if !old && k == 0 || sd != strings.TrimSpace(sd) && k == 0 {
						fs = nil // nothing there yet
					}
					add(gworld{Cfg: cf, Builds: []wbuild{{"lib", "s", d}}, Files: append([]wfile{{N: "s/a.cddl", C: okSchemas[1]}, {N: "s/b.cddl", C: okSchemas[0]}}, fs...)})
					add(gworld{Cfg: cf, Builds: []wbuild{{"lib", d, "out"}}, Files: append([]wfile{{N: sd + "/a.cddl", C: okSchemas[1]}, {N: "d/c.cddl", C: okSchemas[0]}}, fs...)})
					add(gworld{Cfg: cf, Builds: []wbuild{{"lib", d, d}}, Files: append([]wfile{{N: sd + "/a.cddl", C: okSchemas[1]}, {N: sd + "/bad.cddl", C: rejSchemas[0]}}, fs...)})
				}
			}
		}
		c.List("spellings of the source and output directories", n25, l)
		// sizes: long schemas, many schemas, many builds; good, and with an error in every third
		l = nil
		for _, g := range sizeWorlds(c.Thorough) {
			add(g)
		}
		c.List("sizes of schemas, numbers of schemas and builds", n25, l)
		// times of sources and outputs, and repeated runs
		l = nil
		times := []int{0, 1, 2, 3, 24 * 365, 24 * 365 * 30}
		earlier := []string{"package old\n", "", "package lib\n", "\x00"}
		for _, st := range times {
			for _, ot := range times {
				for k, o := range earlier {
					for j, src := range []string{okSchemas[0], okSchemas[1], rejSchemas[0], ""} {
						for _, two := range []bool{false, true} {
							cf, dir, od, b := conf[(k+j)%3], "s/", "out/", []wbuild{{"lib", "s", "out"}}
							if cf == "" {
								dir, od, b = "", "dist/", nil
							}
							fs := []wfile{{N: dir + "a.cddl", C: src, T: st}, {N: od + "a.go", C: o, T: ot}}
							if two {
								fs = append(fs, wfile{N: dir + "b.cddl", C: okSchemas[1], T: ot}, wfile{N: od + "b.go", C: o, T: st}, wfile{N: od + "c.go", C: o, T: st})
							}
							add(gworld{Cfg: cf, Builds: b, Files: fs})
						}
					}
				}
			}
		}
		c.List("times of schemas and earlier outputs", n25, l)
		l = nil
		for k := 1; k <= c.tier(3, 4); k++ {
			tot := 1
			for i := 0; i < k; i++ {
				tot *= len(ghSteps)
			}
			for i := 0; i < tot; i++ {
				h := ghist{}
				x := i
				for q := 0; q < k; q++ {
					h.Steps = append(h.Steps, ghSteps[x%len(ghSteps)])
					x /= len(ghSteps)
				}
				h.Cfg = conf[i%3]
				b, _ := json.Marshal(&h)
				l = append(l, string(b))
			}
		}
		c.List(fmt.Sprintf("histories of up to %d edits with a run after each", c.tier(3, 4)), nh, l)
		// arguments end up in the header comment
		l = nil
		as := []string{"x", "*/", "/*", "*", "/", "\n", "*/ package x", "//", "`", "a.cddl", "**/", "*//", "\\*/", "é", "\xff", "*/*/", "", " ", "*\n/", "//go:build x", "\r"}
		for _, cmd := range []string{"generate", "gen"} {
			add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/a.cddl", C: okSchemas[1]}}, Args: []string{cmd}})
			for _, a := range as {
				add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/a.cddl", C: okSchemas[1]}}, Args: []string{cmd, a}})
				for _, b := range as {
					add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/a.cddl", C: okSchemas[1]}}, Args: []string{cmd, a, b}})
				}
			}
		}
		c.List("arguments", n25, l)
		// output obstacles
		l = nil
		obst := [][]wfile{{}, {{N: "out/", M: "555"}}, {{N: "out/", M: "000"}}, {{N: "out", C: "a file"}}, {{N: "out/a.go/"}}, {{N: "out/a.go", C: "old", M: "444"}}, {{N: "out/a.go", L: "/dev/full"}}, {{N: "out/a.go", L: "../target.go"}, {N: "target.go", C: "old"}}, {{N: "out/a.go", C: strings.Repeat("x", 5000)}}, {{N: "out/a.go", C: ""}}, {{N: "out/b.go/"}}, {{N: "out/b.go", C: "old", M: "444"}}, {{N: "out/b.go", L: "/dev/full"}}, {{N: "s/", M: "000"}}, {{N: "s/", M: "555"}}, {{N: "s/", M: "600"}}, {{N: "elsewhere/"}, {N: "out", L: "elsewhere"}}, {{N: "out/", M: "333"}}}
		for _, o := range obst {
			for _, cf := range conf[1:] {
				for _, out := range []string{"out", "out/x", "./out/"} {
					for _, x := range []string{"a", "b"} {
						fs := append([]wfile{{N: "s/" + x + ".cddl", C: okSchemas[1]}, {N: "s/c.cddl", C: okSchemas[0]}}, o...)
						add(gworld{Cfg: cf, Builds: []wbuild{{"lib", "s", out}}, Files: fs})
					}
				}
			}
		}
		for _, src := range []string{"", "missing", "s/a.cddl", "s/", "./s", "s/../s", "link", "nolink"} {
			for _, cf := range conf[1:] {
				add(gworld{Cfg: cf, Builds: []wbuild{{"lib", src, "out"}}, Files: []wfile{{N: "s/a.cddl", C: okSchemas[1]}, {N: "link", L: "s"}, {N: "nolink", L: "gone"}}})
			}
		}
		c.List("obstacles at the output and the source", n25, l)
		// several builds in order
		l = nil
		bs := []wbuild{{"one", "s", "out"}, {"two", "t", "out"}, {"three", "s", "out2"}, {"four", "empty", "out3"}, {"five", "bad", "out4"}, {"six", "missing", "out5"}, {"seven", "s", "s"}, {"bad name", "s", "out6"}, {"eight", "hard", "out"}, {"type", "t", "out7"}, {"", "t", "out8"}, {"one", "s", "out9"}, {"one", "./s/", "out"}, {"one", "t", "out2"}, {"one", "s", "out"}, {"one", "t", "out"}, {"one", "./t", "./out/"}}
		wfs := []wfile{{N: "s/a.cddl", C: okSchemas[0]}, {N: "s/b.cddl", C: okSchemas[1]}, {N: "t/a.cddl", C: okSchemas[4]}, {N: "empty/"}, {N: "bad/a.cddl", C: rejSchemas[0]}, {N: "hard/a.cddl", C: hardSchema[0]}, {N: "out/a.go", C: "package earlier\n"}}
		add(gworld{Cfg: "json", Builds: []wbuild{}, Files: wfs})
		add(gworld{Cfg: "yaml", Builds: []wbuild{}, Files: wfs})
		n := 0
		for i := range bs {
			add(gworld{Cfg: "json", Builds: []wbuild{bs[i]}, Files: wfs})
			for j := range bs {
				n++
				add(gworld{Cfg: conf[1+n%2], Builds: []wbuild{bs[i], bs[j]}, Files: wfs})
				if c.Thorough || (i+j)%2 == 0 {
					for k := range bs {
						n++
						add(gworld{Cfg: conf[1+n%2], Builds: []wbuild{bs[i], bs[j], bs[k]}, Files: wfs})
					}
				}
			}
		}
		c.List("sequences of builds", n25, l)
		// rejected schemas are shown with their diagnostics
		c.res.Extra["unprivileged_user"] = canDrop()
	})

	n26 := reg("C26.keep", opGen)
	addCheck("C26", "fault_enumeration", "every failing schema of the lists and of all short lexeme sequences with every kind of earlier output; every schema with its writing failing after every number of bytes, in every file position; exit status and every file compared; non-trivial: the command ran", func(c *Ctx) {
		var l []string
		add := func(g gworld) { l = append(l, g.enc()) }
		var prev []string
		for _, s := range append([]string{okSchemas[0], okSchemas[1], okSchemas[4]}, "") {
			b, _ := genLib(s, "lib")
			prev = append(prev, "/*\n  File generated using `cddlc generate`. DO NOT EDIT\n*/\n\n"+b)
		}
		prev = append(prev, "", "package old\n", "not go at all \xff\x00", strings.Repeat("x", 100000), "\n")
		bad := append(append([]string{}, rejSchemas...), hardSchema...)
		for _, s := range bad {
			for _, p := range prev {
				add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/m.cddl", C: s}, {N: "out/m.go", C: p}}})
			}
			for _, at := range []string{"a", "z"} { // before or after the good ones
				add(gworld{Cfg: "", Files: []wfile{{N: "m.cddl", C: okSchemas[0]}, {N: at + ".cddl", C: s}, {N: "n.cddl", C: okSchemas[1]}, {N: "dist/" + at + ".go", C: prev[0]}, {N: "dist/m.go", C: prev[0]}, {N: "dist/n.go", C: prev[1]}, {N: "dist/other.go", C: prev[2]}}})
			}
			for _, o := range []string{"out/m.go", "s/m.go"} { // read-only or linked earlier output
				d := filepath.Dir(o)
				add(gworld{Cfg: "yaml", Builds: []wbuild{{"lib", "s", d}}, Files: []wfile{{N: "s/m.cddl", C: s}, {N: o, C: prev[1], M: "444"}}})
				add(gworld{Cfg: "yaml", Builds: []wbuild{{"lib", "s", d}}, Files: []wfile{{N: "s/m.cddl", C: s}, {N: "t.go", C: prev[1]}, {N: o, L: "../t.go"}}})
			}
		}
		for _, p := range prev {
			add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/m.cddl", C: okSchemas[0], M: "000"}, {N: "out/m.go", C: p}}})
			add(gworld{Cfg: "json", Builds: []wbuild{{"bad name", "s", "out"}}, Files: []wfile{{N: "s/m.cddl", C: okSchemas[0]}, {N: "out/m.go", C: p}}})
			add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/m.cddl", L: "gone"}, {N: "out/m.go", C: p}}})
			add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/m.cddl", L: "m.cddl"}, {N: "out/m.go", C: p}}})
		}
		for _, st := range []int{-1, 0, 1, 24 * 365 * 20} {
			for _, ot := range []int{-1, 0, 1, 24 * 365 * 20} {
				for k, s := range bad {
					if k < 8 || k%5 == 0 {
						add(gworld{Cfg: []string{"", "json", "yaml"}[k%3], Builds: []wbuild{{"lib", ".", "dist"}}, Files: []wfile{{N: "m.cddl", C: s, T: st}, {N: "dist/m.go", C: prev[k%len(prev)], T: ot}, {N: "dist/n.go", C: prev[0], T: st}}})
					}
				}
			}
		}
		c.List("failing schemas with earlier output", n26, l)
		l = nil
		for _, g := range sizeWorlds(c.Thorough) {
			for i := range g.Builds {
				for _, f := range g.Files {
					if strings.HasSuffix(f.N, ".cddl") {
						n := strings.TrimSuffix(filepath.Base(f.N), ".cddl") + ".go"
						g.Files = append(g.Files, wfile{N: g.Builds[i].Out + "/" + n, C: "package old // " + n})
					}
				}
			}
			add(g)
		}
		for _, n := range []string{"a.b", ".hidden", "", "a.cddl", "A B", "é", "-x", "%s", "x.go", " a", "a ", "#a", "~a", ".#a", "a~", "_a", "a_test"} {
			for k, s := range bad[:12] {
				add(gworld{Cfg: []string{"", "json", "yaml"}[k%3], Builds: []wbuild{{"lib", ".", "dist"}}, Files: []wfile{{N: n + ".cddl", C: s}, {N: "dist/" + n + ".go", C: prev[k%4]}, {N: "dist/m.go", C: "package m"}}})
			}
		}
		c.List("numbers of diagnostics, sizes and numbers of schemas, file names, with earlier output", n26, l)
		// every kind of source in every configuration, with earlier outputs everywhere an output could be
		l = nil
		for _, k := range []wfile{{L: "gone"}, {L: "x.cddl"}, {L: "dir"}, {N: "/"}, {M: "000"}, {C: rejSchemas[0]}, {C: hardSchema[0]}, {L: "../outside"}, {L: "/dev/null"}} {
			for _, cf := range []string{"", "json", "yaml"} {
				for _, b := range [][]wbuild{{{"lib", "s", "dist"}}, {{"lib", "s", "dist/"}}, {{"dist", "s", "s"}}, {{"lib", ".", "."}}, {{"lib", ".", "out"}}, {{"lib", "s", "dist/deep"}}, {{"lib", "s", "out"}, {"lib", "s", "dist"}}} {
					for _, n := range []string{"x", "m", "a"} {
						var fs []wfile
						for _, d := range []string{"", "s/", "dist/", "out/", "dist/deep/", "s/dist/"} {
							fs = append(fs, wfile{N: d + "x.go", C: prev[1]}, wfile{N: d + "a.go", C: "package old"}, wfile{N: d + n + ".go", C: prev[0]}, wfile{N: d + "keep.go", C: "package keep"})
						}
						for _, d := range []string{"", "s/"} {
							f := k
							f.N = d + n + ".cddl" + f.N
							fs = append(fs, f, wfile{N: d + "k.cddl", C: okSchemas[0]}, wfile{N: d + "dir/"})
						}
						add(gworld{Cfg: cf, Builds: b, Files: fs})
					}
				}
			}
		}
		c.List("every kind of source, outputs of every place", n26, l)
		// all short lexeme sequences that fail
		syms := []string{"a", "b", "=", "int", "5", "\"x\"", "(", ")", "[", "]", ":", ",", "..", "/", "?", ".size", "#6.1"}
		k := c.tier(2, 3)
		tot := int64(1)
		for i := 0; i < k; i++ {
			tot *= int64(len(syms))
		}
		for _, pre := range []string{"a = ", "a = int\nb = (k: "} {
			pre := pre
			c.Enum(fmt.Sprintf("all %d-lexeme sequences after %q with earlier output", k, pre), n26, tot, func(i int64, b []byte) []byte {
				s := pre
				for j := 0; j < k; j++ {
					s += " " + syms[i%int64(len(syms))]
					i /= int64(len(syms))
				}
				g := gworld{Cfg: "json", Builds: []wbuild{{"lib", ".", "."}}, Files: []wfile{{N: "m.cddl", C: s + "\n"}, {N: "m.go", C: prev[1]}}}
				return append(b, g.enc()...)
			})
		}
		// writing fails after n bytes
		l = nil
		hdr := int64(len("/*\n  File generated using `cddlc generate`. DO NOT EDIT\n*/\n\n"))
		for _, s := range []string{okSchemas[0], okSchemas[1], ""} {
			body, _ := genLib(s, "lib")
			size := hdr + int64(len(body)) + 4
			step := int64(1)
			if !c.Thorough && size > 200 {
				step = 5
			}
			for n := int64(0); n <= size; n += step {
				n := n
				add(gworld{Cfg: "", Files: []wfile{{N: "m.cddl", C: s}}, Limit: &n})
				if n%3 == 0 || c.Thorough {
					add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/a.cddl", C: ""}, {N: "s/m.cddl", C: s}, {N: "out/m.go", C: "package old\n"}}, Limit: &n})
				}
			}
			for n := size - 8; n <= size; n++ {
				n := n
				add(gworld{Cfg: "", Files: []wfile{{N: "m.cddl", C: s}}, Limit: &n})
			}
		}
		c.List("writing fails after every number of bytes (quick: every 5th for long files, and the last 8)", n26, l)
		l = nil
		for _, s := range append(append([]string{}, okSchemas...), goodSchemas()...) {
			for _, o := range []string{"a", "b", "c"} {
				add(gworld{Cfg: "json", Builds: []wbuild{{"lib", "s", "out"}}, Files: []wfile{{N: "s/a.cddl", C: okSchemas[0]}, {N: "s/b.cddl", C: s}, {N: "s/c.cddl", C: okSchemas[1]}, {N: "out/" + o + ".go", L: "/dev/full"}}})
			}
		}
		c.List("output device is full", n26, l)
		c.res.Extra["unprivileged_user"] = canDrop()
	})
	initC27()
}

// ghist is a history: before each run of generate one step changes the world.
type ghist struct {
	Cfg   string   `json:"cfg"`
	Steps []string `json:"steps"`
}

// ghSteps: the path of a file, what becomes of it, and whether its time is kept.
var ghSteps = func() []string {
	l := []string{"run", "a rm", "a bad", "b ok1", "b bad", "b rm", "out rm", "a.go rm", "a.go other", "a.go empty", "outdir rm"}
	for _, s := range []string{"a ok0", "a ok1", "a empty", "a samesize"} {
		l = append(l, s, s+" keep")
	}
	return l
}()

func opGenHist(in []byte) (bool, *Fail) {
	var h ghist
	if json.Unmarshal(in, &h) != nil {
		return false, nil
	}
	w := newWorld()
	defer w.close()
	dir, out := "s/", "out"
	builds := []wbuild{{"lib", "s", "out"}}
	switch h.Cfg {
	case "json":
		w.put("cddlc.json", jsonConfig(builds))
	case "yaml":
		w.put("cddlc.yaml", yamlConfig(builds))
	default:
		dir, out, builds = "", "dist", []wbuild{{"dist", ".", "dist/"}}
	}
	w.put(dir+"a.cddl", "a = int\n")
	w.put(dir+"z.cddl", okSchemas[0])
	then := time.Unix(1700000000, 0)
	os.Chtimes(w.path(dir+"a.cddl"), then, then)
	text := map[string]string{"ok0": okSchemas[0], "ok1": okSchemas[1], "bad": rejSchemas[1], "empty": "", "samesize": "b = int\n", "other": "package other\n"}
	for k, s := range append([]string{"run"}, h.Steps...) {
		f := strings.Fields(s)
		p := dir + f[0] + ".cddl"
		switch f[0] {
		case "run":
			p = ""
		case "a.go":
			p = out + "/a.go"
		case "out", "outdir":
			os.RemoveAll(w.path(out))
			p = ""
		}
		if p != "" && f[1] == "rm" {
			os.Remove(w.path(p))
		} else if p != "" {
			w.put(p, text[f[1]])
			if len(f) > 2 {
				os.Chtimes(w.path(p), then, then)
			}
		}
		before := w.snap()
		exp := w.expect("", builds)
		r := w.run("", "", "generate")
		if f := judgeGen(before, w.snap(), exp, r, false); f != nil {
			f.Msg = fmt.Sprintf("%s\nrun %d of the history %s\nexpected success: %v %s\nrun: %s", f.Msg, k+1, in, exp.ok, exp.why, r)
			return true, f
		}
	}
	return true, nil
}

// ---- C27 ----

// cworld: the configuration files of a directory; each schema run reveals which one was read.
type cworld struct {
	JSON, YAML string // kind: "", ok, bad, noread, dir (a directory), none (no builds), big (long), link (to a good one)
	Other      []string
	Up         bool // configurations in the parent directory
	BadN       int
}

var badConfigs = map[string][]string{
	"json": {"{\"builds\": [null]}", "{\"builds\": [{\"package\": \"j\", \"src\": \".\", \"output\": \"jout\"}, null]}", "{\"version\": \"1\", \"builds\": []} x", "{\"builds\": []} {", "{\"builds\": [{\"package\": \"j\", \"src\": \".\", \"output\": \"jout\"}]}]", "{\"builds\": []}\n\x00", "", "{", "[]", "nonsense", "{\"builds\": 5}", "{\"builds\": [{\"package\": 7}]}", "\x00", "builds:\n  - package: y\n", "{\"builds\" [", "\"x\"", "{'builds': []}", "{\"version\": \"1\", \"builds\": [{\"package\": \"j\", \"src\": \".\", \"output\": \"jout\"}"},
	"yaml": {"builds:\n- \n", "builds: [null]\n", "builds: [{package: y, src: ., output: yout}, ~]\n", "builds: []\n---\nx: [\n", "builds: []\n}", "builds: []\n...\nx: {\n---\n", "builds: [", "builds: 5\n", "- a\n- b\n", "\tbuilds: []", "builds:\n - package: [1]\n", "x: y: z", "\"x\"", "builds: {a: b}\n", "\x00", "{\"builds\": [{\"package\": \"y\", \"src\": \".\""},
}

// cut off anywhere, and followed by something else
func init() {
	j := jsonConfig([]wbuild{{"jpkg", ".", "jout"}})
	for i := range strings.TrimSpace(j) {
		if i > 0 {
			badConfigs["json"] = append(badConfigs["json"], j[:i])
		}
	}
	for _, t := range []string{"null", "{}", "[]", "0", "\"\"", "true", ",", ":", ";", "}", "]", "//", "# c", "/* c */", "\x00", "\ufeff", "null null", "---", "..."} {
		for _, s := range []string{"", " ", "\n", "\n\n" + strings.Repeat(" ", 5000)} {
			badConfigs["json"] = append(badConfigs["json"], j+s+t, j+s+t+"\n")
		}
	}
	y := yamlConfig([]wbuild{{"ypkg", ".", "yout"}})
	for _, t := range []string{"null", "{}", "[]", "0", "\"\"", "x: 1", "builds: []", "- a", "~"} {
		badConfigs["yaml"] = append(badConfigs["yaml"], y+"---\n"+t+"\n", y+"---\n"+t, y+"...\n---\n"+t+"\n", y+"--- "+t+"\n", y+strings.Repeat("\n", 5000)+"---\n"+t+"\n", y+"---\n"+t+"\n---\n"+t+"\n")
	}
}

// configurations without builds: nothing is to be generated
var noBuilds = map[string][]string{
	"json": {"{}", "{\"builds\": null}", "{\"builds\": []}", "{\"version\": \"1\"}", "null", " {\"plugins\": null, \"options\": null} \n", "{\"build\": [{\"package\": \"p\", \"src\": \".\", \"output\": \"pout\"}]}", "{\"Version\": \"1\"}"},
	"yaml": {"{}\n", "builds:\n", "builds: []\n", "version: \"1\"\n", "null\n", "plugins:\noptions:\n", "build:\n- package: p\n  src: .\n  output: pout\n", "x: 1\n"},
}

var bigSizes = []int{100, 500, 1000, 3900, 4000, 4090, 8000, 8190, 16000, 32000, 65000, 65536, 100000, 1000000, 1048576, 3000000}

var otherNames = []string{"cddlc.yml", "cddlc.json.bak", "aaa.json", "cddl.json", ".cddlc.json", "cddlc.yaml~", "zzz.yaml", "conf/cddlc.json", "sub/cddlc.yaml", "Cddlc.json", "cddlc.toml", "cddlc", "cddlc.json5", "0cddlc.json", "cddlc.jsonx", "package.json", "many"}

func opC27(in []byte) (bool, *Fail) {
	var x cworld
	if json.Unmarshal(in, &x) != nil {
		return false, nil
	}
	if (x.JSON == "noread" || x.YAML == "noread") && !canDrop() {
		return false, nil
	}
	w := newWorld()
	defer w.close()
	w.put("p/d/", "")
	w.put("p/d/s.cddl", "a = int\n")
	jb, yb := []wbuild{{"jpkg", ".", "jout"}}, []wbuild{{"ypkg", ".", "yout"}}
	put := func(kind, name, ok string, bad []string) {
		switch kind {
		case "dir":
			w.put("p/d/"+name+"/", "")
			w.put("p/d/"+name+"/"+name, ok)
		case "none":
			w.put("p/d/"+name, noBuilds[strings.TrimPrefix(name, "cddlc.")][x.BadN%len(noBuilds["json"])])
		case "link":
			w.put("conf.txt", "")
			w.put("p/e/"+name, ok)
			os.Symlink("../e/"+name, w.path("p/d/"+name))
		case "big":
			pad := strings.Repeat("x", bigSizes[x.BadN%len(bigSizes)])
			if strings.HasPrefix(ok, "{") {
				w.put("p/d/"+name, "{\"options\": {\"pad\": \""+pad+"\"},"+strings.TrimPrefix(ok, "{"))
			} else {
				w.put("p/d/"+name, "options:\n  pad: \""+pad+"\"\n"+ok)
			}
		case "ok", "noread":
			w.put("p/d/"+name, ok)
		case "bad":
			w.put("p/d/"+name, bad[x.BadN%len(bad)])
		}
		if kind == "noread" {
			os.Chmod(w.path("p/d/"+name), 0)
		}
	}
	put(x.JSON, "cddlc.json", jsonConfig(jb), badConfigs["json"])
	put(x.YAML, "cddlc.yaml", yamlConfig(yb), badConfigs["yaml"])
	for _, o := range x.Other {
		if o == "many" {
			for i := 0; i < 40; i++ {
				w.put(fmt.Sprintf("p/d/a%02d.txt", i), "x")
			}
			continue
		}
		w.put("p/d/"+o, jsonConfig([]wbuild{{"other", ".", "oout"}}))
	}
	if x.Up {
		for _, d := range []string{"", "p/"} {
			w.put(d+"cddlc.json", jsonConfig([]wbuild{{"up", ".", "uout"}}))
			w.put(d+"cddlc.yaml", yamlConfig([]wbuild{{"up", ".", "uout"}}))
		}
	}
	var want []wbuild
	switch {
	case x.JSON == "ok" || x.JSON == "big" || x.JSON == "link":
		want = jb
	case x.JSON == "none":
		want = []wbuild{}
	case x.JSON != "":
	case x.YAML == "ok" || x.YAML == "big" || x.YAML == "link":
		want = yb
	case x.YAML == "none":
		want = []wbuild{}
	case x.YAML != "":
	default:
		want = []wbuild{{"dist", ".", "dist"}}
	}
	before := w.snap()
	r := w.run("p/d", "", "generate")
	after := w.snap()
	say := func(f string, a ...any) (bool, *Fail) {
		return true, failf("%s\nworld: %s\nrun: %s\nchanges: %v", fmt.Sprintf(f, a...), in, r, snapDiff(before, after))
	}
	if r.crashed() {
		return say("crashed")
	}
	if want == nil {
		if r.code == 0 {
			return say("the configuration cannot be read but generate reports success")
		}
		if d := snapDiff(before, after); len(d) > 0 {
			return say("the configuration cannot be read but files changed")
		}
		if strings.TrimSpace(r.err) == "" {
			return say("no message")
		}
		return true, nil
	}
	if r.code != 0 {
		return say("generate failed; expected builds %v", want)
	}
	if len(want) == 0 {
		if d := snapDiff(before, after); len(d) > 0 {
			return say("the configuration holds no build but files changed")
		}
		return true, nil
	}
	body, _ := genLib("a = int\n", want[0].Package)
	exp := []string{"added p/d/" + want[0].Out, "added p/d/" + want[0].Out + "/s.go"}
	if d := snapDiff(before, after); strings.Join(d, ",") != strings.Join(exp, ",") {
		return say("expected %v", exp)
	}
	if got := after["p/d/"+want[0].Out+"/s.go"]; !headerThen(strings.TrimPrefix(got, "file "), body) {
		return say("generated file is %q, want package %s", got, want[0].Package)
	}
	return true, nil
}

// opC27eq: a configuration (as JSON) written in both formats and several styles loads the same.
func opC27eq(in []byte) (bool, *Fail) {
	var v map[string]any
	d := json.NewDecoder(bytes.NewReader(in))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return false, nil
	}
	w := newWorld()
	defer w.close()
	w.put("j/cddlc.json", string(in))
	a, err := config.LoadConfig(w.path("j/cddlc.json"))
	if err != nil {
		return true, failf("JSON configuration %s: %v", in, err)
	}
	ind, _ := json.MarshalIndent(v, "", "\t")
	w.put("k/cddlc.json", string(ind)+"\n")
	b, err := config.LoadConfig(w.path("k/cddlc.json"))
	if err != nil || confString(b) != confString(a) {
		return true, failf("indented JSON configuration %s: %s, %v, want %s", in, confString(b), err, confString(a))
	}
	for style := 0; style < 3; style++ {
		y := yamlOf(v, style)
		w.put("y/cddlc.yaml", y)
		b, err := config.LoadConfig(w.path("y/cddlc.yaml"))
		if err != nil {
			return true, failf("the YAML configuration\n%s\nis not read: %v", y, err)
		}
		if confString(a) != confString(b) {
			return true, failf("JSON %s\n gives %s\nYAML\n%s\n gives %s", in, confString(a), y, confString(b))
		}
	}
	// and what the settings say
	if bs, ok := v["builds"].([]any); ok {
		if len(a.Builds) != len(bs) {
			return true, failf("%s: %d builds loaded", in, len(a.Builds))
		}
		for i, x := range bs {
			m := x.(map[string]any)
			s := func(k string) string { t, _ := m[k].(string); return t }
			if a.Builds[i].Package != s("package") || a.Builds[i].SourceDir != s("src") || a.Builds[i].OutDir != s("output") {
				return true, failf("%s: build %d loaded as %+v", in, i, *a.Builds[i])
			}
		}
	}
	if s, _ := v["version"].(string); a.Version != s {
		return true, failf("%s: version %q", in, a.Version)
	}
	return true, nil
}

// confString writes a configuration with numbers and nested maps normalised.
func confString(c *config.Config) string {
	if c == nil {
		return "<nil>"
	}
	var norm func(v any) string
	norm = func(v any) string {
		switch x := v.(type) {
		case map[string]any:
			var l []string
			for k, e := range x {
				l = append(l, strconv.Quote(k)+":"+norm(e))
			}
			sort.Strings(l)
			return "{" + strings.Join(l, ",") + "}"
		case map[any]any:
			m := map[string]any{}
			for k, e := range x {
				m[fmt.Sprint(k)] = e
			}
			return norm(m)
		case []any:
			var l []string
			for _, e := range x {
				l = append(l, norm(e))
			}
			return "[" + strings.Join(l, ",") + "]"
		case string:
			return strconv.Quote(x)
		case int:
			return strconv.FormatFloat(float64(x), 'g', -1, 64)
		case float64:
			return strconv.FormatFloat(x, 'g', -1, 64)
		}
		return fmt.Sprintf("%v", v)
	}
	s := "version=" + strconv.Quote(c.Version)
	for _, b := range c.Builds {
		if b == nil {
			s += " build=nil"
			continue
		}
		s += fmt.Sprintf(" build=%+q", []string{b.Package, b.SourceDir, b.OutDir})
	}
	for _, p := range c.Plugins {
		if p == nil {
			s += " plugin=nil"
			continue
		}
		s += fmt.Sprintf(" plugin=%+q", []string{p.Name, p.Remote.URL, p.Local.Path})
	}
	var o any = c.Options
	if c.Options == nil {
		return s + " options={}"
	}
	return s + " options=" + norm(map[string]any(o.(map[string]interface{})))
}

// yamlOf writes settings as YAML: 0 block with quoted strings, 1 flow, 2 block with plain strings where they are safe.
func yamlOf(v any, style int) string {
	q := func(s string) string {
		plain := style == 2 && s != ""
		for _, r := range s {
			if !(r >= 'a' && r <= 'z' || r == '/' || r == '_') {
				plain = false
			}
		}
		switch s {
		case "null", "true", "false", "yes", "no", "on", "off", "y", "n", "_":
			plain = false
		}
		if plain {
			return s
		}
		b, _ := json.Marshal(s)
		return string(b)
	}
	if style == 1 {
		b, _ := json.Marshal(v)
		return string(b) + "\n"
	}
	var blk func(v any, in string) string
	blk = func(v any, in string) string {
		switch x := v.(type) {
		case map[string]any:
			if len(x) == 0 {
				return " {}\n"
			}
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Sort(sort.Reverse(sort.StringSlice(ks)))
			s := "\n"
			for _, k := range ks {
				s += in + k + ":" + blk(x[k], in+"  ")
			}
			return s
		case []any:
			if len(x) == 0 {
				return " []\n"
			}
			s := "\n"
			for _, e := range x {
				t := blk(e, in+"  ")
				if strings.HasPrefix(t, "\n"+in+"  ") {
					t = " " + strings.TrimPrefix(t, "\n"+in+"  ")
				}
				s += in + "-" + t
			}
			return s
		case string:
			return " " + q(x) + "\n"
		case nil:
			return " null\n"
		}
		return fmt.Sprintf(" %v\n", v)
	}
	return strings.TrimPrefix(blk(v, ""), "\n")
}

// opC27yaml: the same builds as JSON and as YAML give the same output tree.
func opC27run(in []byte) (bool, *Fail) {
	var bs []wbuild
	if json.Unmarshal(in, &bs) != nil {
		return false, nil
	}
	var res [2]string
	for i, cf := range []string{"json", "yaml"} {
		w := newWorld()
		w.put("s/a.cddl", okSchemas[1])
		w.put("s/b.cddl", okSchemas[0])
		w.put("t/c.cddl", okSchemas[4])
		if cf == "json" {
			w.put("cddlc.json", jsonConfig(bs))
		} else {
			w.put("cddlc.yaml", yamlConfig(bs))
		}
		before := w.snap()
		r := w.run("", "", "generate")
		after := w.snap()
		w.close()
		s := fmt.Sprintf("exit %d crashed %v:", r.code, r.crashed())
		for _, d := range snapDiff(before, after) {
			s += " " + d + "=" + after[strings.TrimPrefix(strings.TrimPrefix(d, "added "), "changed ")]
		}
		res[i] = s
	}
	if res[0] != res[1] {
		return true, failf("builds %s\nas JSON: %s\nas YAML: %s", in, res[0], res[1])
	}
	return true, nil
}

func initC27() {
	n := reg("C27.find", opC27)
	ne := reg("C27.same", opC27eq)
	nr := reg("C27.run", opC27run)
	addCheck("C27", "exploration", "every state of cddlc.json and cddlc.yaml (absent, good, each kind of broken, unreadable) with every subset of up to the stated number of other files, the parent directory configured or not; all settings of the stated alphabets in JSON and three YAML styles; non-trivial: the command ran or the configuration was loaded", func(c *Ctx) {
		var l []string
		kinds := []string{"", "ok", "bad", "noread"}
		enc := func(x cworld) { b, _ := json.Marshal(x); l = append(l, string(b)) }
		var subs [][]string
		subs = append(subs, nil)
		for i, a := range otherNames {
			subs = append(subs, []string{a})
			for _, b := range otherNames[:i] {
				if c.Thorough || i < 11 {
					subs = append(subs, []string{a, b})
				}
			}
		}
		subs = append(subs, otherNames)
		for _, j := range kinds {
			for _, y := range kinds {
				for _, o := range subs {
					for _, up := range []bool{false, true} {
						if len(o) > 1 && up && !c.Thorough {
							continue
						}
						enc(cworld{JSON: j, YAML: y, Other: o, Up: up, BadN: 1})
					}
				}
			}
		}
		c.List("states of the configuration files and other files", n, l)
		l = nil
		for i := range badConfigs["json"] {
			for _, y := range kinds[:3] {
				enc(cworld{JSON: "bad", YAML: y, BadN: i})
			}
		}
		for i := range badConfigs["yaml"] {
			enc(cworld{JSON: "", YAML: "bad", BadN: i})
			enc(cworld{JSON: "ok", YAML: "bad", BadN: i})
		}
		c.List("broken configurations", n, l)
		l = nil
		all := []string{"", "ok", "bad", "noread", "dir", "none", "big", "link"}
		for _, j := range all {
			for _, y := range all {
				for k := 0; k < len(bigSizes); k++ {
					if k == 0 || j == "big" && y != "big" || y == "big" && j == "" || k < 8 && (j == "none" || y == "none" && j == "") {
						enc(cworld{JSON: j, YAML: y, BadN: k})
						enc(cworld{JSON: j, YAML: y, BadN: k, Up: true, Other: otherNames[:3]})
					}
				}
			}
		}
		c.List("directories, links, long configurations and configurations without builds in the place of either file", n, l)
		l = nil
		strs := []string{"a", "dist", "", " ", "./x", "a b", "é", "null", "true", "1", "1.5", "~", "- x", "a: b", "#c", "'q'", "\"d\"", "\\", "\n", "\t", "{}", "[]", "%x", "@", "`", "*a", "&a", "!x", "|", ">", "yes", "0x1F", "1e3", "2001-01-01", "…", "C:\\x", "<&>"}
		js := func(s string) string { b, _ := json.Marshal(s); return string(b) }
		for _, a := range strs {
			for _, b := range strs {
				l = append(l, fmt.Sprintf(`{"version":"1","builds":[{"package":%s,"src":%s,"output":"o"}],"plugins":[]}`, js(a), js(b)), fmt.Sprintf(`{"builds":[{"package":"p","src":"s","output":%s}],"version":%s}`, js(a), js(b)))
			}
			l = append(l, fmt.Sprintf(`{"plugins":[{"name":%s,"remote":{"url":%s},"local":{"path":%s}}]}`, js(a), js(a), js(a)), fmt.Sprintf(`{"options":{%s:%s}}`, js("k"), js(a)), fmt.Sprintf(`{"options":{"k":[%s,{"z":%s}]}}`, js(a), js(a)))
		}
		// every subset of keys, zero to three builds
		for m := 0; m < 8; m++ {
			var p []string
			for i, k := range []string{`"package":"pk"`, `"src":"sr"`, `"output":"ou"`} {
				if m>>i&1 == 1 {
					p = append(p, k)
				}
			}
			b := "{" + strings.Join(p, ",") + "}"
			for n := 0; n <= 3; n++ {
				x := strings.TrimSuffix(strings.Repeat(b+",", n), ",")
				for _, rest := range []string{"", `,"version":"1"`, `,"plugins":[{"name":"n"}]`, `,"options":{}`, `,"options":{"a":1,"b":2.5,"c":true,"d":null,"e":[1,2],"f":{"g":"h"}}`, `,"extra":5`} {
					l = append(l, `{"builds":[`+x+`]`+rest+`}`)
				}
			}
		}
		l = append(l, `{}`, `{"builds":null}`, `{"version":null}`)
		for _, n := range append(upTo(c.tier(40, 300)), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025) {
			var bs, ps []string
			for i := 0; i < n; i++ {
				bs = append(bs, fmt.Sprintf(`{"package":"p%d","src":"s%d","output":"o%d"}`, i, i, i))
				ps = append(ps, fmt.Sprintf(`{"name":"n%d","remote":{"url":"u%d"},"local":{"path":"l%d"}}`, i, i, i))
			}
			l = append(l, `{"builds":[`+strings.Join(bs, ",")+`],"version":"1"}`, `{"plugins":[`+strings.Join(ps, ",")+`],"builds":[`+bs[n-1]+`]}`)
		}
		for _, n := range bigSizes {
			x := js(strings.Repeat("abcdefgh", n/8+1)[:n])
			l = append(l, `{"version":`+x+`,"builds":[]}`, `{"builds":[{"package":`+x+`,"src":"a","output":"b"}]}`, `{"builds":[{"package":"p","src":`+x+`,"output":"b"},{"package":"q","src":"a","output":`+x+`}]}`, `{"plugins":[{"name":`+x+`}],"version":"2"}`)
		}
		c.List("settings in both formats", ne, l)
		l = nil
		dirs := []string{"s", "t", ".", "./s", "missing", "s/"}
		outs := []string{"o", ".", "s", "d/e", "o/"}
		pk := []string{"lib", "bad name", "é", "type"}
		var one []wbuild
		for _, d := range dirs {
			for _, o := range outs {
				for _, p := range pk {
					one = append(one, wbuild{p, d, o})
				}
			}
		}
		for i, b := range one {
			x, _ := json.Marshal([]wbuild{b})
			l = append(l, string(x))
			for j := i % 7; j < len(one); j += c.tier(29, 7) {
				x, _ := json.Marshal([]wbuild{b, one[j]})
				l = append(l, string(x))
			}
		}
		c.List("builds run from both formats", nr, l)
		c.res.Extra["unprivileged_user"] = canDrop()
	})
}
