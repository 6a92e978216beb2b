#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json
CHECKS = {
 'C01': ('abstract interpretation of the generated matchers in product with the grammar file', 'Every generated matcher is simulated step by step against the rule of grammar.peg it stands for, over character classes.'),
 'C02': ('abstract interpretation of go/ssa with trace partitioning; effects of commands compared with their prescription', 'Every partition of InputToCommand and Execute for each of the 25 operations the grammar can produce.'),
 'C03': ('abstract interpretation of go/ssa; inverse effects of Execute and Undo as terms', 'Every partition of Execute, Undo and a repeated Execute and Undo of each operation.'),
 'C04': ('abstract interpretation of go/ssa with trace partitioning; cursor terms', 'Every partition of exec, undo, redo, the reports and the constructor is compared with the prescribed term; writers elsewhere are excluded.'),
 'C05': ('abstract interpretation of go/ssa; effect analysis', 'Every effect (store, map or set change, call that changes its object) on every partition of every query.'),
 'C06': ('abstract interpretation of go/ssa; forest invariant by induction over the operations of the tree', 'Induction: every operation that touches the tree is shown to keep the forest, and every query to answer from it; structural writes anywhere else are excluded.'),
 'C07': ('abstract interpretation of go/ssa; per-key case analysis of map contents', 'Induction over the operations of World: keys of Items, Rels and the tree after each partition of each operation.'),
 'C08': ('abstract interpretation of go/ssa; views compared with the tables they show', 'After every partition, what lookups, listings, parents and components answer is compared as terms with the changed contents.'),
 'C14': ('abstract interpretation of go/ssa; answers compared with prescribed membership formulas', 'Every partition of each query, by a generic element of the collection it runs over.'),
 'C15': ('abstract interpretation of go/ssa; order taint of map and set listings until a total sort', 'Every partition of every operation that leads to a listing of a map or a set; comparisons of sorts shown total; sources of chance excluded.'),
 'C16': ('abstract interpretation of go/ssa; list length and prefix terms', 'Every partition of each limited query; only the library meaning of slicing and min is assumed.'),
 'C18': ('nilness as a greatest fixed point over all writes (go/ssa); abstract interpretation with linear inequalities for bounds', 'Every use of what can be nil, every index, part, length, divisor, assertion and panicking call in the hand-written functions and the actions of the grammar.'),
 'C19': ('abstract interpretation of go/ssa; tracker fields per partition', 'The three tracker fields after every partition of every operation.'),
 'C20': ('abstract interpretation of go/ssa; effects on failing partitions', 'No effect on the world on any partition that reports failure.'),
 'C21': ('abstract interpretation of go/ssa; boolean answers as formulas over corresponding fields and elements', 'Every partition of the four comparisons: an answer of equal must rest on the equality of every declared field and of every part, an answer of unequal on a difference of one; storage order is covered by the order taint of C15.'),
 'C22': ('abstract interpretation of go/ssa; fields of derived errors as terms, array sharing of appends', 'Every partition of every function of the errors package: fields of the result, writes to what existed before, appends to shared arrays.'),
 'C23': ('abstract interpretation of go/ssa; ownership of storage (fresh, held, shared), uses of package variables', 'Every package variable and every use of it; every constructor: what it gives is made in the call; every exported operation: lists returned are copies and parameters are not kept. Known finding: the shared empty tree that the parent of a root is.'),
 'C24': ('abstract interpretation of go/ssa; field-by-field terms', 'The stored record after every partition of every update, field by field.'),
 'C26': ('abstract interpretation of go/ssa; every fallible call followed to a report', 'Every call that returns an error, and every operation of a world that can fail, on every trace partition of every function that makes one.'),
 'C09': ('abstract interpretation of printer, generated parser and reader on texts of unknown content', 'The printed text of an item and of a relationship, as a row of known characters and unknown stretches, is followed through the grammar, the actions of the parser and the reader, case by case over character classes; what is read is compared with what was printed.'),
 'C10': ('abstract interpretation of printer, generated parser and reader on worlds of known shape and unknown content', 'Worlds of every small shape (items, nesting, relationships, missing attributes), with unknown attribute texts, are printed, parsed and read back, and the operations of the reader compared with the world; broken variants must be rejected.'),
 'C11': ('abstract interpretation of go/ssa; file paths as terms', 'Every file operation of saving, loading and listing, on every partition, with the path it touches.'),
 'C12': ('abstract interpretation of go/ssa; order of file effects', 'Every partition of a save: what is written, where, in which order, and what follows after a failure.'),
 'C17': ('abstract interpretation of App.Exec, the error printer, the generated parser and the printers of results', 'Every partition of App.Exec; every error reply is parsed symbolically as a status, and a reply of success is parsed for every kind of result in every small shape.'),
 'C25': ('abstract interpretation of the type tables, the printer, the generated parser and the operations of World', 'Every declared type, every word the grammar accepts for a type, and every partition of creating and setting an item.'),
 'C27': ('abstract interpretation of cmd/wasm (type-checked for js/wasm); fields of the handed-over record as terms', 'Every partition of main and of topolithSend for one argument; the JSON names and values of the record against the parsed reply. web/src is not analysed.'),
 'C28': ('enumeration of the grammar file, abstract interpretation of completion, generated parser, dispatch and executor', 'Every text the completion can offer and every row of the README table of verbs; every partition of the executor of the console. Four suggestions are known findings.'),
 'C13': ('abstract interpretation of go/ssa; saved text and its verification', 'Every partition of saving and loading.'),
 'C31': ('abstract interpretation of the TypeScript syntax trees under web/src (closures, promises and their order, exceptions) over unknown lines and replies', 'Every way from a key pressed on an unknown line to the last effect of the handler, for two lines after each other; what is shown, sent and kept is compared with what is prescribed. Also trusted: the TypeScript compiler as parser, the documented meaning of four React hooks, the terminal widget.'),
 'C30': ('simulation of the generated matchers by the grammar file; left recursion, empty repetitions and ambiguous going-back computed on the grammar', 'The steps of the shipped matcher are those of the grammar (obligations of C01); on the grammar: the relation of rules applied before anything is consumed has no cycle, no repetition has a body that can be empty, and in recursive rules no two ways that can begin alike lead back into the recursion. The degree of the bound is not computed.'),
 'C29': ('induction over the session from the per-step obligations (abstract interpretation of go/ssa; inverse effects, cursor terms, effect analysis, order taint)', 'Every obligation of C03, C04, C05 and C20 and those of C15 on texts and effects is generated and decided anew; together they are the step of an induction over the length of the session.'),
}
NA = {
}
TRUST = ' Trusted: go/types and go/ssa of x/tools, the models of library functions in tool/calls.go, and the rule itself.'
m = {"version": 1, "setup_cmd": "bash ./build.sh",
     "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
                 "technique": "static analysis: " + t, "level": "other", "level_note": n + TRUST} for k, (t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
import os
ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
for i in ids:
    if i not in CHECKS and i not in NA:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
