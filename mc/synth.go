package main

// Trees assembled from the node types, independent of the parser.

import (
	"fmt"
	"reflect"

	"github.com/HannesKimara/cddlc/ast"
)

var nodeKinds = []reflect.Type{}

func init() {
	for _, n := range []ast.Node{&ast.Array{}, &ast.BadNode{}, &ast.Bits{}, &ast.BooleanType{}, &ast.BooleanLiteral{}, &ast.BytesType{}, &ast.BstrType{}, &ast.CDDL{}, &ast.Comment{}, &ast.CommentGroup{}, &ast.ComparatorOpControl{}, &ast.Regexp{}, &ast.SizeOperatorControl{}, &ast.Entry{}, &ast.Enumeration{}, &ast.FloatType{}, &ast.FloatLiteral{}, &ast.Group{}, &ast.GroupChoice{}, &ast.Identifier{}, &ast.IntegerType{}, &ast.NegativeIntegerType{}, &ast.IntegerLiteral{}, &ast.Map{}, &ast.NullType{}, &ast.Optional{}, &ast.NMOccurrence{}, &ast.Range{}, &ast.Rule{}, &ast.Tag{}, &ast.TextLiteral{}, &ast.TstrType{}, &ast.TypeChoice{}, &ast.UintType{}, &ast.UintLiteral{}, &ast.Unwrap{}} {
		nodeKinds = append(nodeKinds, reflect.TypeOf(n))
	}
}

// a slot is a field that holds nodes.
type slot struct {
	field int
	many  bool
	elem  reflect.Type
}

func slotsOf(t reflect.Type) (l []slot) {
	s := t.Elem()
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		ft, many := f.Type, false
		if ft.Kind() == reflect.Slice {
			ft, many = ft.Elem(), true
		}
		if f.IsExported() && (ft.Kind() == reflect.Interface || ft.Kind() == reflect.Ptr) && ft.Implements(nodeType) {
			l = append(l, slot{i, many, ft})
		}
	}
	return
}

// fits lists the kinds a slot can hold.
func (s slot) fits() (l []int) {
	for i, k := range nodeKinds {
		if k.AssignableTo(s.elem) {
			l = append(l, i)
		}
	}
	return
}

// buildSynth reads a tree: kind, then for each slot the number of its nodes and the nodes.
func buildSynth(in *[]byte) (n ast.Node, ok bool) {
	next := func() (int, bool) {
		if len(*in) == 0 {
			return 0, false
		}
		b := int((*in)[0])
		*in = (*in)[1:]
		return b, true
	}
	k, ok := next()
	if !ok || k >= len(nodeKinds) {
		return nil, false
	}
	p := reflect.New(nodeKinds[k].Elem())
	for _, s := range slotsOf(nodeKinds[k]) {
		c, ok := next()
		if !ok || c > 1 && !s.many {
			return nil, false
		}
		f := p.Elem().Field(s.field)
		for i := 0; i < c; i++ {
			kid, ok := buildSynth(in)
			if !ok || !reflect.TypeOf(kid).AssignableTo(s.elem) {
				return nil, false
			}
			if s.many {
				f.Set(reflect.Append(f, reflect.ValueOf(kid)))
			} else {
				f.Set(reflect.ValueOf(kid))
			}
		}
	}
	return p.Interface().(ast.Node), true
}

func opC19synth(in []byte) (bool, *Fail) {
	if len(in) == 0 {
		return false, nil
	}
	b := in[1:]
	n, ok := buildSynth(&b)
	if !ok || len(b) > 0 {
		return false, nil
	}
	nt, f := judgeWalk(n, fmt.Sprintf("assembled %s", dumpTree(n)), false, in[0] == 1)
	return nt, f
}

// bare is a kind with all slots empty.
func bare(k int) []byte { return append([]byte{byte(k)}, make([]byte, len(slotsOf(nodeKinds[k])))...) }

// fillings of a kind: every slot empty or holding one of the given trees (slices: up to three of them).
func fillings(k int, kids func(s slot) [][]byte) [][]byte {
	out := [][]byte{{byte(k)}}
	for _, s := range slotsOf(nodeKinds[k]) {
		var opts [][]byte
		opts = append(opts, []byte{0})
		ks := kids(s)
		for _, x := range ks {
			opts = append(opts, append([]byte{1}, x...))
		}
		if s.many {
			for i, x := range ks {
				y, z := ks[(i+1)%len(ks)], ks[(i+len(ks)/2)%len(ks)]
				opts = append(opts, append(append([]byte{2}, x...), y...), append(append([]byte{2}, y...), x...), append(append(append([]byte{3}, x...), z...), y...))
			}
		}
		var next [][]byte
		for _, o := range out {
			for _, p := range opts {
				next = append(next, append(append([]byte{}, o...), p...))
			}
		}
		out = next
	}
	return out
}

// full is a kind with every slot filled by leaves.
func full(k int) []byte {
	b := []byte{byte(k)}
	for _, s := range slotsOf(nodeKinds[k]) {
		f := s.fits()
		b = append(append(b, 1), bare(f[len(f)-1])...)
	}
	return b
}

func synthTrees(thorough bool) (l [][]byte) {
	add := func(p byte, t []byte) { l = append(l, append([]byte{p}, t...)) }
	for k := range nodeKinds {
		// every slot empty or holding any kind without parts
		for _, t := range fillings(k, func(s slot) (r [][]byte) {
			for _, f := range s.fits() {
				r = append(r, bare(f))
			}
			return
		}) {
			add(1, t)
		}
		// every slot empty, or holding a small or a complete part of any kind
		for _, t := range fillings(k, func(s slot) (r [][]byte) {
			fs := s.fits()
			for i, f := range fs {
				if len(slotsOf(nodeKinds[f])) > 0 && (thorough || len(slotsOf(nodeKinds[k])) < 3 || i%4 == 0) {
					r = append(r, full(f))
				}
			}
			if len(r) == 0 {
				r = append(r, bare(fs[0]))
			}
			return
		}) {
			add(0, t)
		}
		// any filling of any kind in each slot, the other slots full
		ss := slotsOf(nodeKinds[k])
		for i, s := range ss {
			for _, f := range s.fits() {
				for _, t := range fillings(f, func(s slot) (r [][]byte) {
					fs := s.fits()
					r = append(r, bare(fs[0]))
					if len(fs) > 1 {
						r = append(r, full(fs[len(fs)-1]), full(fs[len(fs)/2]))
					}
					return
				}) {
					b := []byte{byte(k)}
					for j, o := range ss {
						b = append(b, 1)
						if i == j {
							b = append(b, t...)
						} else {
							g := o.fits()
							b = append(b, bare(g[0])...)
						}
					}
					add(0, b)
				}
			}
		}
		// long lists and deep towers of one kind
		for i, s := range ss {
			fs := s.fits()
			if s.many {
				for _, n := range []int{4, 17, 64, 65, 128, 200, 255} {
					b := []byte{byte(k)}
					for j := range ss {
						if i != j {
							b = append(b, 0)
							continue
						}
						b = append(b, byte(n))
						for x := 0; x < n; x++ {
							b = append(b, bare(fs[x%len(fs)])...)
						}
					}
					add(0, b)
				}
			}
			fit := false
			for _, f := range fs {
				fit = fit || f == k
			}
			if fit {
				for _, n := range []int{3, 10, 65, 129, 300} {
					t := full(k)
					for x := 0; x < n; x++ {
						b := []byte{byte(k)}
						for j, o := range ss {
							b = append(b, 1)
							if i == j {
								b = append(b, t...)
							} else {
								g := o.fits()
								b = append(b, bare(g[0])...)
							}
						}
						t = b
					}
					add(0, t)
				}
			}
		}
	}
	return
}
