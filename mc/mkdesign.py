import json,glob,os,subprocess
head='''# cddlc under exhaustive bounded exploration

cddlc is a compiler front end (bytes, tokens, tree, Go file) with a command line around it. The
technique studied is model checking. It is applied to the *real code*: every member of a finite,
explicitly described space (byte strings, lexeme sequences, schema trees, operation histories,
worlds of files, write-failure points, thread schedules) is executed on the implementation, and
every observable result is compared with an independent reference model. Nothing is sampled and no
seed changes what is covered; a phase that cannot be finished within the time limit is reported as
`exhaustive: false` in the evidence, it is never silently cut.

## Machinery

* `mc/` is one Go program, built by `run.sh ID TIER` against /repo's working tree (a `replace` in
  `mc/go.mod`). `run.sh replay FILE` runs one recorded case again.
* `core.go`, `main.go`: a supervising parent and an exploring child process with 8 workers. Each
  worker announces its case in shared memory before running it, so that a crash, an endless loop
  or a memory explosion of the code under test is attributed to an input; the parent runs the case
  again alone before it reports a violation. Phases are index spaces (`Enum`), words over an alphabet
  (`Words`) or explicit lists (`List`); each counts cases, its total, and non-trivial cases (by
  the rule stated in the evidence). A case that fails only after the cases before it is
  recorded as a violation with its history.
* `reflex.go` reference scanner; `schema.go`, `chains.go` schema grammar as a generator of models
  that print themselves (3 comma styles, any layout) and know their tree and the position of every
  token; `tree.go` canonical form of real trees (reflection over exported fields, so a new node
  kind is noticed); `gencheck.go` reference generator of Go declarations; `cli.go`, `cligen.go`,
  `clisess.go` worlds of files run against the real binary, as an unprivileged user in scratch
  directories, compared with a file-system model before/after.
* `instr/` rewrites a copy of /repo's sources (never the tree itself, through `-overlay`) so that
  every statement is a scheduling point; `sched/` is a cooperative scheduler with a shim for `sync`
  and `os`. Hand-overs are invisible to the race detector (channel operations in a package built without
  race instrumentation), so that two accesses ordered only by our scheduler are still races. No hook
  in /repo is needed.
* Model and code are bound by construction: the models generate inputs, the real code produces the
  outputs, every generated trace is replayed on the implementation (it *is* the exploration).

Bounds common to the schema checks ("schemas"): all rule values of size 1-2 (thorough 3) over 27
leaves, 37 operand phrases, 7 occurrence forms, 2 separators, 2 tags, 3 brackets; size 4 / 5-6 / 6-8
over the mid, small and tiny alphabets; every palette value (20 integers, 7 floats, 15 texts, 14
names, 121 occurrence bounds, 15 tag heads, all pairs of range bounds) at every literal of every
construct; every nesting of up to 4 (thorough 5) of 26 enclosing constructs; all pairs and triples
of neighbouring entries; pumped depths (520), widths (4200), lengths (70000), rule counts.
"bracket edits": every bracket of every nesting of 1-3 constructs replaced by each other bracket, dropped
or doubled, every token of it dropped or doubled, every truncation.
"lexeme sequences": all sequences of up to 3 of 50 (4 of 27, 5 of 18 in thorough) lexemes in each of 28
contexts, plus all one-token insertions, deletions, substitutions, swaps and truncations of a schema
per construct.

## Properties

| | space enumerated (quick; thorough is deeper) | oracle | why tests cannot |
|---|---|---|---|
'''
rows={
'C01':('all byte strings of length 1-2 (3), all words of 4 of 57 / 5 of 18 / 6 of 10 symbols (5-8), all lexeme pairs x 9 joiners and triples, layouts, every symbol and lexeme repeated up to 4 KiB (64 KiB), sources around size thresholds (65537; 1 Mi); code points at every boundary of UTF-8','end-of-file within len+1 tokens, sticky','all byte strings; looping inputs'),
'C02':('as C01','tiling of the source by tokens and blanks','as C01'),
'C03':('as C01','reference scanner: kinds, literals, longest match','one example per token in tests'),
'C04':('as C01','offset from the tiling, line and column recomputed','columns are checked for few tokens'),
'C05':('all interleavings of New/Scan of 2-3 scanners on one buffer (adjacent, overlapping), buffer reuse after every token, guard bytes in the spare capacity, parsers fed by hand-made scanners; a buffer filled again while a scanner reads it','solo traces; guard bytes','never two scanners in tests'),
'C06':('lexeme sequences; all 2-byte sources and rule values, all 3-symbol words; 28 constructs nested up to 100001 levels, closed or cut, 4 (8) of them millions of levels; bracket edits','no crash/hang, tree or diagnostics; Start/End/Format/Walk on every node','rejected inputs are not tested'),
'C07':('lexeme sequences; 14 kinds of lexical error at every gap of a schema per construct; open texts with every last two bytes; errors in long files','reference scanner says which sources have one',''),
'C08':('lexeme sequences, schemas, bracket edits; lists and choices of many entries, many constructs inside each other','bracket matcher on reference tokens; no nil/placeholder in the tree',''),
'C09':('lexeme sequences, schemas, bracket edits','linearised tree = linearised reference tokens',''),
'C10':('schemas, including some 600 whole numbers, 260 floats and 700 texts in every place beside a name; all files of three rules; 14 constructs nested up to 40000 levels; every construct 100200 times in a list and as a rule; all names of a pattern, twins beside each other, aligned rules','the generating model',''),
'C11':('all unparenthesised operator expressions up to 7 (8) operands, in 14 contexts, 3 comma styles; 90 prefixed operands; every literal, keyword, atom and bracket as operand; controls on prefixed operands','the grouping of the grammar','two chains in tests'),
'C12':('all values of a grid (boundaries of 2^k, all radixes, digit strings up to a length) in all contexts; 20k texts','exact arithmetic (math/big)','wrap-around only at extremes'),
'C13':('41 use positions x 11 names x definition kinds/places; 101 definition kinds among up to 64 rules; every short spelling; all files of 3 (4) rules; nestings; every schema with all, some or none of its names defined; names one edit apart; every kind and many values of literals beside a missing name; layouts; 70000 references; nestings closed and open','reference resolver',''),
'C14':('symbol table: complete reachable state space, every transition replayed, all histories of 3/6 operations; sessions of 1-5 (6) definitions in every split into sources; pairs of spellings and of names one edit apart; every kind of rule redefined by every kind; up to 4100 repeated definitions; 66000 definitions of one name; parsers given no environment; up to 20000 names of every form, one defined again','a map; first accepted definition','history dependent'),
'C15':('40x40 operand kinds x 10 operators x 21 contexts x 4 definition placements; 4 layouts of the operator; all pairs of expressions; up to 8200 ill-typed expressions in a file, each reported','verdict table from the statement','4+3 cases in tests'),
'C16':('25 fillers (blanks, comments) at every gap and pairs of gaps of the schemas, accepted and rejected (ill-typed); sequences of empty comments, every byte in a comment; whole-file layouts; many values of every literal; every construct 100200 times with comments; deep nestings with comments; comments at the joints of two phrases; aligned rules','tree without filler',''),
'C17':('lexeme sequences, lexical errors, multi-line layouts; parse and generate through the binary; many diagnostics; texts of every length, with tabs or not, before the marked place','token starts of the reference scanner; line and marker recomputed',''),
'C18':('schemas in 3 (5) layouts','positions the printer recorded',''),
'C19':('trees of schemas and of accepted and rejected lexeme sequences, trees assembled from every node type in every field, every single (for rich ones every pair) declining decision','reflective traversal','no tests of astutils'),
'C20':('schedules: 30 task pairs (scan, parse, generate, walk, format; separate inputs and one shared tree), every pair of preemption points (a point before every statement), race detector; wide tasks (everything the library offers, on some 3350 sources) one after another and beside each other in turns of 1-7 scheduling points; histories of up to 300 runs','result of the run alone in a fresh process; race detector silent','schedules'),
'C21':('schemas, sources of the lists, package names, all short lexeme sequences; writer failing at every byte','go/parser, package clause',''),
'C22':('all schemas of the generator subset up to a size; names (sockets, plugs); keys (whole numbers); field combinations; sized rules, up to 2100','reference declarations compared through go/types; Valid evaluated',''),
'C23':('fillers in every gap, pairs of gaps and all assignments of hand-picked schemas; schemas; nestings; repeated and neighbouring constructs; literals; many comments; twins','reference attachment',''),
'C24':('all 8-bit triples (16-bit pairs), boundary values of every width, float exponents, NaN and infinities; all regular expressions of size 1-4 (5) over 364 texts; size check of every fixed-width type; Must helpers; arrays of every element in the size check','exact comparison; regexp/syntax independent matcher',''),
'C25':('sequences of up to 3 (4) schema files of 9 kinds x 3 configurations x old outputs; links, names, directories, arguments, obstacles, sequences of builds (same or other source and package), sizes; other entries and odd names among the schemas; every construct inside every other','prediction from the world and the library: status and every file',''),
'C26':('failing schemas of the lists, all 2 (3)-lexeme sequences, every kind of source with outputs everywhere; RLIMIT_FSIZE at every byte; full device','as C25','crash points'),
'C27':('every state of the two files x other files x parents; bad documents; every truncation; configurations in both formats, long ones and ones without builds; documents cut short, followed by another','choice table; equality of loaded values',''),
'C28':('every state of cddlc.json and the directory; every write limit; 2 (3) concurrent inits under the scheduler with every pair (triple) of preemption points; superfluous words','file-system model','schedules'),
'C29':('all sessions of 3 (4) of 15 lines, 4 (6) of 6; every byte and lexeme sequence as a line; lines of many rules, long sessions, command words everywhere; every kind of value defined, extended and redefined','library parses in one scope; definedness of, and redefinition against, the first accepted definition','histories'),
'C30':('every byte, lexeme pair, schema and one-edit neighbour; counts of illegal tokens 1-270 (1100); BOMs; sizes; arguments','library, reference scanner, tree as JSON',''),
'C31':('lexeme sequences, schemas, layouts','spans against the tokens of the reference scanner','ends are never tested'),
'C32':('kind numbers -1000..2000 and extremes, each against every kind; all texts of up to 3 symbols, every spelling and all its one-edit neighbours','table of spellings, classes and strengths of the notation',''),
'C33':('grids of positions, distances and diagnostics; all lists of up to 3 diagnostics and long ones; lexeme sequences and schemas; groups of comments assembled by hand; the same diagnostic several times','texts are read back and compared',''),
'C34':('all vectors of up to 3 (4) arguments of 17 in 3 directories; all one-edit neighbours of the command words; many arguments; every word of one or two letters, other command words, options','state of the directory before and after, exit status',''),
'C35':('all lists of up to 3 (4) plugins over 19 kinds of paths; lists of up to 40 (130) with one invalid plugin at every place; plugins without name or remote; all histories of up to 4 (5) changes of the place of a plugin','table of the paths',''),
'C36':('all texts of up to 4 (5) symbols, the known conversions with all one-edit neighbours and case variants; all sequences of 4 (6) questions','the two documented words','the validity of options is never tested'),
}
out=head
for k,(a,b,c) in rows.items(): out+=f'| {k} | {a} | {b} | {c} |\n'
res={}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d)); res.setdefault(m['property'],[]).append((i,m.get('needs','')))
out+='''
No property is out of reach of the technique; none is listed under `not_applicable`.

## Decided readings

* Tests of the repository pin some readings, which the models follow: a backslash is no escape in
  a text; `/` chains nest to the right; controls bind like ranges; a name may contain dots, so `x..y` is one name and
  `1..` before a letter is illegal.
* `any`, `.cbor`, `.within` and other undocumented controls are outside of "documented constructs".
* The upper bound of an occurrence is adjacent to its indicator (`1*2 x`); `1* 2` repeats the literal 2.
* `n..m` with n > m is accepted (nothing in the repository says otherwise).
* A control operator on the sized floats and nint, the argument kind of `.size`, and names defined
  as something else than a number used as a bound are unspecified in C15.
* Where the accepted meaning of malformed text is unclear (`0x` without digits, two points in a
  number, a point before a non-ASCII letter) C03 does not judge.
* C22 is restricted to what the generator supports: maps, choices, ranges, tags and keyed groups of
  values make it fail, which C21 and C25 accept as a reported failure. `CheckSize` is judged only for
  fixed-width numbers and arrays of them (its comment: width below the bound).
* `gogen.Options.Valid` always fails (an unused API), not judged. `astutils.Format` prints only some node
  kinds in detail; C33 judges those, for the others only the kind.
* C31 does not judge where exactly a compound node or a float, text or byte string ends (tests pin some
  ends inside the text), only that the spans nest.
* The rendering of diagnostics repeats the source line for each one, so one line with very many
  errors is slow (quadratic); bounds of C30 and C17 avoid that, it is not a violation of a property.
* encoding/json refuses to write trees deeper than 10000 levels (a choice of more than 5000 types); C30 stays below.

## Defects found

Every `fixed:` line of known_findings.txt is a defect the checks found and a `fix:` commit repaired.
One defect is recorded and not repaired: in a group with alternatives of several entries
(`(a: int, b: int // c: int)`) `//` joins only its neighbours. Its repair would change the shape of
the tree for every group choice (the parser has no notion of an alternative of several entries),
which is no small patch. The nine `finding:` lines name the exact sources; anything else still alarms.

False alarms met while building and corrected in the machinery: position of an unclosed text (it is
reported at the end of its line by design); a JSON configuration with unknown keys (ignored in both
formats); the `End()` of literals inside diagnostics (pinned by a test); output directories passed
through on the way (`d/../e`) are created by MkdirAll; very deep trees and JSON.

## Planted changes

`seeded/` holds changes written from the property texts. Each was confirmed to build, pass the tests
and fail its demonstration. The quick check of its property reports each of them:

| property | planted changes (what they need) |
|---|---|
'''
for p in sorted(res):
    out+=f'| {p} | '+'; '.join(f'{i}: {n}' for i,n in res[p])+' |\n'
out+='''
Changes that an earlier version of a check missed, and what was added: C04-c/d (more than 65535
lines or columns: size thresholds), C06-a (operands missing in /= and //=: contexts), C11-b (prefix
chains before a control), C13-d (kind of definition x number of names), C16/C18/C23 nesting depth
(chains), C17-c (rendering by generate), C19-c (equal occurrence bounds: scalar palettes), C20-b (all
constructs in one task pair), C25-a/c/e (links, same source twice, spellings of directories), C26-b/c/d
(every kind of source with outputs everywhere, numbers of diagnostics, sizes), C29-a/d (lines of
many rules, command words anywhere), C30-a/c/d (numbers of illegal tokens, first bytes of files, long tokens).

## Cost

A quick check takes 1-30 s on 8 cores (all thirty-five: about six minutes), a thorough one up to some
minutes to an hour. The time limits inside a check end it with `exhaustive: false` and exit 0.
'''
open('/verif/DESIGN.md','w').write(out)
