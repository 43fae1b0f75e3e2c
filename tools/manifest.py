#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, subprocess
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
props = [json.loads(l) for l in open("properties.jsonl")]
T = "property-based testing (proptest): "
NOTES = {
"P01": ("random and mutated texts, no-panic oracle", "Token soups, token- and character-mutated statements, all prefixes and single-token edits of generated statements, and every keyword after 66 statement beginnings, under random options and both entry points, with overflow checks and debug assertions on. Deep nesting (hundreds of levels and more) overflows the stack: a known finding, outside the generated inputs."),
"P02": ("random, repeated and nested texts against linear CPU, allocation and output bounds", "CPU time of the parsing thread, bytes requested from the allocator, issues and statements against bounds linear in the input size, with wide margins (about ten times what the unchanged tree needs); a case that does not end is decided by CPU time in a process of its own."),
"P03": ("random texts, issues checked against the source and an independent rendering", "Every issue and fragment of malformed and lint-triggering texts; the display is compared with an independent rendering."),
"P04": ("mutated statements; no error implies a complete tree, and metamorphic single-token edits", "Silence is taken to mean: one statement, no placeholder node, lexically whole text, nothing unrecorded outside the statement, and no single-token edit goes unnoticed except listed synonyms and optional words."),
"P05": ("operator sequences against a precedence-climbing reference", "All triples of operators exhaustively and random sequences; the precedence table is written down independently from the MariaDB documentation."),
"P06": ("literals and names against an independent decoder", "Arbitrary Unicode contents; the decoding rules were fixed from the documentation of the string escapes and the tests."),
"P07": ("calls and special forms built together with their trees", "All built-in names exhaustively per dialect, letter case and arity; the table of names is a copy of the documented set."),
"P08": ("queries built together with their trees", "Constructive oracle: the generator emits the text and the expected syntax tree."),
"P09": ("FROM clauses built together with their trees", "Constructive oracle, every join kind, in SELECT, UPDATE and DELETE."),
"P10": ("data-changing statements built together with their trees", "Constructive oracle per dialect."),
"P11": ("CREATE TABLE built together with the tree", "Constructive oracle; what the tree does not record (contents of FOREIGN KEY definitions) is not compared."),
"P12": ("CREATE statements built together with their trees", "Constructive oracle per dialect; dollar-quoted bodies and operator classes are not recorded by the tree."),
"P13": ("ALTER TABLE built together with the tree", "Constructive oracle over every alteration kind."),
"P14": ("DROP and administrative statements built together with their trees", "Constructive oracle per dialect."),
"P15": ("scripts of nested compound statements built together with their trees", "Constructive oracle over whole scripts, so statements following a compound one are compared too."),
"P16": ("spans of generated scripts against bounds, nesting, extent and re-parse relations", "Every span that parsed trees expose is checked (bounds, character boundaries, inside the parent, covers its children, does not overlap its siblings); the extent of statements and expressions is compared with where the generator wrote them."),
"P17": ("metamorphic: random white space, comments and letter case against the plain spelling", "Generated statements are written again with other white space, comments and keyword case; tree, issues and statement extents must be the same up to positions."),
"P18": ("statements with argument placeholders against an independent count, per style", "Constructive oracle for the numbers; all styles, including the wrong one for the text."),
"P19": ("metamorphic: every combination of lint options over the same texts", "Trees do not change, errors do not change, warnings appear only with their option and at written positions; the keyword-case lint is claimed for a list of words only."),
"P20": ("scripts against their statements parsed one by one", "Metamorphic: concatenation of generated statements against each alone, with delimiters, empty statements and both entry points."),
"P21": ("broken statement among good ones; neighbours against the script without it", "Metamorphic over generated neighbours and mutated middles; a compound statement cut open under the plain delimiter is outside the property."),
"P22": ("COPY blocks with arbitrary data against the bytes written", "Constructive: arbitrary rows, terminators and following statements."),
"P23": ("the same construct in every dialect against a table of gates", "Tables of constructs and the dialects documented to have them, placed in generated statements; portable statements in every dialect; generated single-dialect statements in the others."),
"P24": ("every word of every dialect as a name, bare and quoted, in every position", "Exhaustive over the words; the reserved set is a copy of the documented one and positions are written by hand."),
"P25": ("random values and call sequences against plain strings, ranges and last-value-wins models", "Model-based: string slices for names, the smallest enclosing range for joins, the last value per option for option sequences judged by what the options make of probe texts."),
"P26": ("metamorphic: the same call repeated, interleaved, on used issue lists, other memory, other threads and in a fresh process", "Histories are short (a few calls between two parses of one text); the concurrent part runs three threads."),
"P27": ("damage at a known place of generated statements; metamorphic: other continuations behind the first error", "The place of the first error against the place of the damage, and first errors against those of texts that agree up to the token after them."),
"P28": ("metamorphic: the same construct in other places of the grammar", "Expressions, queries, block statements, column definitions, types, table references and ORDER BY elements, random and damaged, read in one place and put into eight of 170 others; pieces whose end depends on what follows are left out."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T + t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo. The harness is /verif/harness (path dependency on /repo); every check rebuilds it. Findings: known_findings.txt."},
    open("MANIFEST.json", "w"), indent=1)
