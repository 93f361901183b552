import json
lib="The verdicts are exact for every case enumerated; nothing is claimed beyond the stated bounds. Trusted: the reference model in /verif/mc, the Go toolchain."
cli=" The real binary is run in scratch directories, as an unprivileged user where that is possible."
T={
"C01":"bounded exhaustive enumeration of byte strings on the real scanner",
"C02":"bounded exhaustive enumeration of byte strings, tiling oracle",
"C03":"bounded exhaustive enumeration of character strings and lexeme sequences against a reference scanner",
"C04":"bounded exhaustive enumeration of byte strings, positions recomputed from the source",
"C05":"explicit-state exploration of all interleavings of two or three scanners",
"C06":"bounded exhaustive enumeration of lexeme sequences and edits on the real parser",
"C07":"bounded exhaustive enumeration of sources with lexical errors",
"C08":"bounded exhaustive enumeration of lexeme sequences, tree completeness oracle",
"C09":"bounded exhaustive enumeration of lexeme sequences, content accounting oracle",
"C10":"exhaustive enumeration of schema trees up to a size, tree comparison",
"C11":"exhaustive enumeration of operator expressions, binding-strength reference",
"C12":"exhaustive enumeration of literals and contexts, exact arithmetic reference",
"C13":"exhaustive enumeration of rule sets and reference sites, reference resolver",
"C14":"explicit-state exploration of a write-once map model, every trace replayed on the code",
"C15":"exhaustive enumeration of operand kinds, operators, contexts and definitions",
"C16":"exhaustive enumeration of gaps and fillers over a bounded set of schemas",
"C17":"bounded exhaustive enumeration of rejected sources, reference positions and rendering",
"C18":"exhaustive enumeration of schemas and layouts, position model",
"C19":"exhaustive enumeration of trees and pruning decisions, reflective reference",
"C20":"systematic schedule exploration of the instrumented code under a controlled scheduler, bounded preemptions",
"C21":"bounded exhaustive enumeration of accepted schemas and write failures on the real generator",
"C22":"exhaustive enumeration of schemas of the generator subset, go/types oracle",
"C23":"exhaustive enumeration of comment placements over a bounded set of schemas",
"C24":"exhaustive enumeration of value tuples and regular expressions",
"C25":"exhaustive enumeration of file-system and configuration states, run on the real binary",
"C26":"fault enumeration: every failing schema kind and every write-failure byte, on the real binary",
"C27":"exhaustive enumeration of configuration states and settings",
"C28":"exhaustive enumeration of directory states, write failures and schedules of concurrent inits",
"C29":"exhaustive enumeration of REPL sessions up to a length against a model of the scope",
"C30":"bounded exhaustive enumeration of files through the real commands",
"C31":"bounded exhaustive enumeration of sources, span model over the reference tokens",
"C32":"exhaustive enumeration of kind numbers and short words against a table",
"C33":"exhaustive enumeration of positions, diagnostics, lists and sources, texts read back",
"C34":"exhaustive enumeration of argument vectors, run on the real binary",
"C35":"exhaustive enumeration of lists of plugins over states of their paths",
"C36":"exhaustive enumeration of texts for the case conversion and of sequences of questions",
}
lvl={"C05":"model_checking","C14":"model_checking","C26":"fault_enumeration"}
checks=[]
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)["id"]
    n=lib
    if i in("C17","C25","C26","C27","C28","C29","C30","C34"): n+=cli
    if i=="C20": n="Every schedule with the stated preemptions at statement granularity of the stated task pairs; finer interleavings only as far as the race detector orders them (it sees no scheduler hand-over). Trusted: the instrumenter, the scheduler, the race detector."
    if i in("C05","C14"): n="Every state and transition of the model within the bounds is replayed on the implementation. "+n
    checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",technique=T[i],level=lvl.get(i,"exploration"),level_note=n))
m=dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=[],notes="No hooks are committed in /repo: C20 and C28 instrument a copy of the sources through go build -overlay.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
