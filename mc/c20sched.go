//go:build sched

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/verifsched"
)

func init() {
	subs["c20steps"] = func(a []string) {
		f := c20task(a[0], nil)
		steps, _ := verifsched.Run([]func(){func() { f() }}, nil)
		fmt.Println(steps[0])
		os.Exit(0)
	}
	subs["c20sched"] = func(a []string) {
		i, _ := strconv.Atoi(strings.TrimRight(a[2], "!*~"))
		if a[2] == "*" {
			i = 1
		}
		var ans c20answer
		run := func(j int) []int {
			trees := map[string]*ast.CDDL{}
			fa, fb := c20task(a[0], trees), c20task(a[1], trees)
			var res [2]string
			segs := []int{i}
			if strings.HasSuffix(a[2], "~") { // in turns all the way
				segs = make([]int, 4<<20/i)
				for k := range segs {
					segs[k] = i
				}
			}
			if j > 0 {
				segs = append(segs, j)
			}
			steps, dead := verifsched.Run([]func(){func() { res[0] = fa() }, func() { res[1] = fb() }}, segs)
			ans.N++
			for k := 0; k < 2; k++ {
				if !dead && c20hash(res[k]) != a[3+k] && ans.Fail == "" {
					ans.Fail = fmt.Sprintf("%s gives a different result when %s runs beside it (schedule %d: %s for %d scheduling points, %s for %d, then each to its end; 0 = to its end):\n%s", a[k], a[1-k], ans.N, a[0], i, a[1], j, res[k])
				}
			}
			return steps
		}
		st := run(0) // in the fresh process
		n := st[1]
		if strings.HasSuffix(a[2], "!") || strings.HasSuffix(a[2], "~") {
			n = 0
		}
		if a[2] == "*" {
			n = 0
			for i = 2; i <= st[0] && ans.Fail == ""; i++ {
				run(0)
			}
		}
		for j := 1; j <= n && ans.Fail == ""; j++ {
			run(j)
		}
		json.NewEncoder(os.Stdout).Encode(ans)
		os.Exit(0)
	}
}
