package main

// Spellings of names: every short identifier over the character classes of the lexical rules, and
// the neighbourhood of the keywords.

import (
	"strings"

	"github.com/HannesKimara/cddlc/token"
)

func isName(s string) bool {
	r := refLex([]byte(s))
	return len(r) == 2 && r[0].kinds != nil && len(r[0].kinds) == 1 && r[0].kinds[0] == token.IDENT && r[0].lit == s
}

// shortNames lists all identifiers of up to k characters over the alphabet.
func shortNames(k int) []string {
	al := []string{"a", "A", "b", "i", "0", "$", "@", "_", "-", "."}
	var out []string
	cur := []string{""}
	for n := 1; n <= k; n++ {
		var next []string
		for _, c := range cur {
			for _, a := range al {
				next = append(next, c+a)
			}
		}
		for _, s := range next {
			if isName(s) {
				out = append(out, s)
			}
		}
		cur = next
	}
	return out
}

// wordNames: spellings next to the keywords and to common names.
func wordNames() []string {
	var out []string
	add := func(s string) {
		if isName(s) {
			out = append(out, s)
		}
	}
	for k := range refKeywords {
		for _, s := range []string{strings.ToUpper(k), strings.Title(k), k + "s", k + "8", k + "-x", k + ".x", k + "_", k + "$", "x" + k, "$" + k, "@" + k, "_" + k, k[:len(k)-1], k + k, k + "0"} {
			add(s)
		}
	}
	for _, s := range []string{"person", "Person", "PERSON", "person-name", "person_name", "person.name", "personname", "header_map", "int8", "uint16", "tdate", "biguint", "number", "integer", "decfrac", "encoded-cbor", "$$ext", "$$ext-1", "$ext", "$", "$$", "@", "_", "_1", "a1", "a10", "aa", "type", "func", "range", "map", "interface", "string", "error", "package", "select", "size", "regexp", "bits", "lt", "eq", "within", "Valid", "self", "validators", "init", "main", "IntKey_1", "IntKey-1", "b64", "x-y-z", "x.y.z", "x__y", "x--y", "x..y", "a_1-b.2", "ee", strings.Repeat("n", 15), strings.Repeat("n", 16), strings.Repeat("n", 17), strings.Repeat("n", 31), strings.Repeat("n", 32), strings.Repeat("n", 33), strings.Repeat("n", 63), strings.Repeat("n", 127), strings.Repeat("n", 128), strings.Repeat("n", 129), strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 257), strings.Repeat("ab-", 50), strings.Repeat("x.", 40) + "x", strings.Repeat("n", 64), strings.Repeat("n", 65), strings.Repeat("n", 300), strings.Repeat("n", 300) + "x"} {
		add(s)
	}
	sortStrings(out)
	return out
}

// editNames: pairs of a name and another one edit away from it: a character dropped, added, replaced,
// doubled, swapped or in the other case, prefixes and suffixes, and affixes.
func editNames(thorough bool) [][2]string {
	var out [][2]string
	al := "aAzZ019$@_-."
	bases := []string{"a", "ab", "abcd", "a.b", "a-b", "foo-bar.baz", "n1.2x", "$s", "$$p", "@at", "_u", "person_name", "abcdefghijklmnopq", "a1b2c3d4e5f6g7h8i9j0k1l2m3n4o5p6", strings.Repeat("long-name.", 7) + "x"}
	if thorough {
		bases = append(bases, strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("xyz.", 100)+"q")
	}
	for _, w := range bases {
		seen := map[string]bool{w: true}
		add := func(s string) {
			if !seen[s] && isName(s) {
				seen[s] = true
				out = append(out, [2]string{w, s})
			}
		}
		for i := 0; i <= len(w); i++ {
			add(w[:i])
			add(w[i:])
			for j := range al {
				add(w[:i] + al[j:j+1] + w[i:])
				if i < len(w) {
					add(w[:i] + al[j:j+1] + w[i+1:])
				}
			}
			if i < len(w) {
				add(w[:i] + w[i+1:])
				add(w[:i] + w[i:i+1] + w[i:])
				add(w[:i] + string(w[i]^32) + w[i+1:])
			}
			if i+1 < len(w) {
				add(w[:i] + string(w[i+1]) + string(w[i]) + w[i+2:])
			}
		}
		for _, x := range al {
			for _, y := range al {
				t := string(x) + string(y)
				add(w + t)
				add(t + w)
				for _, z := range "a1.-" {
					add(w + t + string(z))
				}
			}
		}
		for _, sep := range []string{".", "-", "_", "$", "@"} {
			for _, o := range []string{w, "x", "int", "type", "abc"} {
				add(w + sep + o)
				add(o + sep + w)
			}
		}
		add(w + w)
		add(strings.ToUpper(w))
		add(strings.Title(w))
	}
	return out
}
