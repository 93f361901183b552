package main

// Running the real cddlc binary in scratch directories, as an unprivileged user.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const nobody = 65534

var dropPriv = func() bool {
	if os.Getuid() != 0 {
		return false
	}
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	return cmd.Run() == nil
}

// canDrop says whether processes can be started as the unprivileged user.
var canDrop = sync.OnceValue(dropPriv)

// world is one scratch directory.
type world struct{ root string }

func newWorld() *world {
	base := os.Getenv("MC_TMP")
	if base == "" {
		base = os.TempDir()
	} else {
		os.Chmod(base, 0755)
	}
	d, err := os.MkdirTemp(base, "w-")
	if err != nil {
		panic(err)
	}
	os.Chmod(d, 0777)
	w := &world{d}
	if canDrop() {
		os.Chown(d, nobody, nobody)
	}
	return w
}

func (w *world) close() {
	filepath.Walk(w.root, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			os.Chmod(p, 0777)
		}
		return nil
	})
	os.RemoveAll(w.root)
}

// put writes a file (or, with a trailing slash, makes a directory) owned by the unprivileged user.
func (w *world) put(name, content string) {
	p := filepath.Join(w.root, name)
	mk := func(d string) {
		var todo []string
		for x := d; len(x) > len(w.root); x = filepath.Dir(x) {
			todo = append(todo, x)
		}
		for i := len(todo) - 1; i >= 0; i-- {
			if os.Mkdir(todo[i], 0755) == nil && canDrop() {
				os.Chown(todo[i], nobody, nobody)
			}
		}
	}
	if strings.HasSuffix(name, "/") {
		mk(p)
		return
	}
	mk(filepath.Dir(p))
	if err := os.WriteFile(p, []byte(content), 0644); err != nil {
		panic(err)
	}
	if canDrop() {
		os.Chown(p, nobody, nobody)
	}
}

func (w *world) path(name string) string { return filepath.Join(w.root, name) }

func (w *world) read(name string) (string, bool) {
	b, err := os.ReadFile(w.path(name))
	return string(b), err == nil
}

// snap lists every path with its kind and content.
func (w *world) snap() map[string]string {
	m := map[string]string{}
	filepath.Walk(w.root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			m[p] = "error " + err.Error()
			return nil
		}
		r, _ := filepath.Rel(w.root, p)
		if r == "." {
			return nil
		}
		switch {
		case i.IsDir():
			m[r] = "dir"
		case i.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[r] = "link " + l
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			m[r] = "file " + string(b)
		default:
			m[r] = i.Mode().Type().String()
		}
		return nil
	})
	return m
}

func snapDiff(a, b map[string]string) []string {
	var l []string
	for k, v := range a {
		if x, ok := b[k]; !ok {
			l = append(l, "removed "+k)
		} else if x != v {
			l = append(l, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, "added "+k)
		}
	}
	sort.Strings(l)
	return l
}

type cliResult struct {
	out, err string
	code     int // -1: killed or no answer
	why      string
}

func (r cliResult) String() string {
	return fmt.Sprintf("exit %d%s stdout=%.600q stderr=%.600q", r.code, r.why, r.out, r.err)
}

// crashed says the process died of a Go panic or fatal error.
func (r cliResult) crashed() bool {
	return r.code == -1 || strings.Contains(r.err, "\ngoroutine ") || strings.HasPrefix(r.err, "panic:") || strings.HasPrefix(r.err, "fatal error:")
}

func (w *world) run(sub, stdin string, args ...string) cliResult {
	return w.runLimited(-1, sub, stdin, args...)
}

// runLimited runs cddlc in a subdirectory; writes beyond limit bytes of any file fail when limit >= 0.
func (w *world) runLimited(limit int64, sub, stdin string, args ...string) cliResult {
	bin := os.Getenv("MC_CLI")
	if bin == "" {
		panic("MC_CLI not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	if limit >= 0 {
		exe, _ := os.Executable()
		cmd = exec.CommandContext(ctx, exe, append([]string{"sub", "limit", strconv.FormatInt(limit, 10), bin}, args...)...)
	} else {
		// code that reads without end must not take the memory of the sandbox
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", "ulimit -v 3000000; exec \"$0\" \"$@\"", bin}, args...)...)
	}
	cmd.Dir = filepath.Join(w.root, sub)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + w.root, "TMPDIR=" + w.root, "GOMAXPROCS=2"}
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if canDrop() {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	err := cmd.Run()
	r := cliResult{out: o.String(), err: e.String()}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				r.code, r.why = -1, " ("+ws.Signal().String()+")"
			} else {
				r.code = ws.ExitStatus()
			}
		} else {
			panic(err)
		}
	}
	return r
}

func init() {
	subs["limit"] = func(a []string) {
		n, _ := strconv.ParseUint(a[0], 10, 64)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(99)
		}
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
		err := syscall.Exec(a[1], a[1:], os.Environ())
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
}
