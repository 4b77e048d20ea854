#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after changing the list of checks."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {}  # id -> (technique, level, note)
def add(i, technique, note, level="exploration"):
    T[i] = (technique, level, note)

add("C01", "crash, hang and error-type monitor around the real parser over byte soup, token soup, mutations and truncations",
    "Runs the real parser in supervised worker processes; a crash, a hang or runaway memory is attributed to the input it happened on. Inputs are sampled, short ones enumerated.")
add("C02", "position oracle: a known bad token or cut is planted in generated DDL and the reported line, column, EOF flag, excerpt and file are compared with it",
    "The place of the error is known by construction and computed independently. Texts are sampled from a generator of the whole dialect; every gap of one text with every construct is enumerated.")
add("C03", "model oracle: DDL is rendered from an abstract schema and the parsed model is compared with it, field by field",
    "The expected model comes from the generator, not from the parser. The dialect table (types, attributes, options) is the trusted part.")
add("C04", "metamorphic monitor: respellings of one abstract schema must parse to equal models and format to equal bytes",
    "Spellings are drawn at random for every lexeme and gap; single-gap sweeps cover every place of one text with every construct.")
add("C05", "counting oracle over scripts of known statements with ignored statements and hostile literals between them",
    "Scripts are composed, so the list of tables is known by construction.")
add("C06", "oracle comparison of Normalize with an independent normal form, idempotence and receiver-unchanged monitors",
    "The canonical form is implemented again in the harness from the documented rules.")
add("C07", "round trip monitor: format, parse, compare, format again",
    "Over generated, mutated and API-built models; each statement is formatted on its own, because the separator of lists is pinned by existing tests.")
add("C08", "byte oracle on string and identifier contents through format, lint and diff, with an independent SQL lexer",
    "Contents are hostile by construction; the output is read back by the harness's own lexer.")
add("C09", "output oracle for the linter: independent rendering, empty diff both ways, byte-stable second run, indentation",
    "Output is compared with statements formatted one by one, read back with the harness's own SQL reader.")
add("C10", "metamorphic monitor: equivalent schemas must give empty diffs",
    "Equivalences are generated from the abstract schema, whose normal form the harness knows.")
add("C11", "execution monitor: the diff is executed by an independent DDL interpreter on the old schema and the outcome compared with the new one",
    "The interpreter is the oracle; its notion of ALTER TABLE is the trusted part. Table options, flags and column order are outside the property.")
add("C12", "execution monitor: every printed statement is checked for executability at its place by an independent DDL interpreter",
    "As C11; a statement that refers to something missing or adds something present is an alarm.")
add("C13", "minimality monitor over the printed statements: objects touched versus objects that differ",
    "The objects that differ are computed from the abstract schemas; single edits have exactly one known object.")
add("C14", "repetition monitor: outputs of repeated, parallel and separate-process runs are compared byte by byte",
    "Processes differ in GOMAXPROCS and map seeds; a dependence on them that shows in none of the repetitions is not seen.")
add("C15", "agreement monitor between diff.Strings, Files, Sources and Statements with and without transaction",
    "All entry points on the same contents, valid and invalid, with a recording writer.")
add("C16", "Go race detector plus answer comparison under concurrent parsing, formatting, diffing, linting and lookups",
    "The race detector sees only the interleavings that happened; workloads share parser and statements on purpose.")
add("C17", "leak monitor: goroutine stacks, file descriptors, child processes and server-side connections after each call",
    "Goroutines are recognised by frames of the package under test; a settling time is allowed before judging.")
add("C18", "byte oracle for source reads from scratch directories, git repositories, readers and a fake server",
    "Reads happen under scratch directories only; git is the installed one.")
add("C19", "fault enumeration on a fake MySQL server: cut, error or malformed packet at every point of the exchange",
    "The server speaks the wire protocol itself; the schema is known to it, so that the output can be compared byte by byte.", "fault_enumeration")
add("C20", "fault enumeration: the writer fails at every byte offset of the output, in every way the io.Writer contract allows",
    "Only writers that keep the io.Writer contract are used.", "fault_enumeration")
add("C21", "process monitor: the real commands are run and stdout, exit status and files compared with the library",
    "The commands are built from the working tree; what they should print comes from the library in the same tree.")
add("C22", "identity oracle: identifiers of pairs of definitions are equal iff the definitions are; lookups against a list",
    "Pairs differ in one field, or are hostile collisions of concatenated fields.")
add("C23", "state-machine monitor of model.Table against a reference list, under the race detector",
    "Random sequences of operations, sequential and concurrent, compared with a plain list.")
add("C24", "configuration oracle for DSNs and TLS with generated certificates, and a fake server that sees what is sent",
    "DSNs are generated from known settings; certificates are made on the spot.")
add("C25", "a second, independent reader of the dialect judges every near miss of the grammar and says what an accepted text must mean",
    "All single edits of short texts of every construct; random edits of random schemas; clauses of one text inside another. The second reader abstains where the dialect is open (see the assumptions in the evidence).")
add("C26", "twin monitor: a program built with regenerated files answers the same questions as one built with the committed files; generators are run repeatedly and their bytes compared",
    "Generated code is judged by what it does, so that its layout does not matter. Every token and type number, every word in every place of the grammar, random and mutated schemas.")

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if not os.path.exists(os.path.join(HERE, "harness", p.lower() + ".go")):
        na.append({"property": p, "reason": "the check is not built yet"})
        continue
    tech, level, note = T[p]
    checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor works through the public API, the commands, the file system, git, sockets and the race detector. run.sh builds the harness against the working tree of /repo and removes what it built."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
