#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {
 "C10": ("model-based property test: generated graphs of Go values of registered struct types and the scripts that make their records; the Go value by every conversion compared with the graph including shared objects, the record from Go methods compared with the Go value, one planted mistake must be reported",
  "12,000 graphs over ten harness and eleven demo struct types: embedding to three levels, pointers, slices, arrays, maps, interfaces, all scalar kinds, hidden fields, sharing and cycles; togo, SexpToGoStructs, arguments and receivers of methods; 12,000 graphs with one wrong value or unknown field; times that come back from Go are a known finding"),
 "C20": ("metamorphic property test: every generated program run again in fresh interpreters, in another order after other interpreters, and in a fresh process; value, output and error text compared",
  "every builtin and special form with two arguments of every kind, some 20,000 programs of every other property's generators and some aimed at hashes, records and conversions, the test corpus; five runs each; an order drawn rarely may not show"),
 "C08": ("fuzzing with canaries: every name the source mentions and generated programs that combine them, in sandboxed interpreters and the sandboxed tool; the oracle is inotify on the canaries, the environment, children, exits and canary text",
  "every string of the Go source that could be a name x 49 argument shapes x 8 routes x 4 configurations, plus 30,000 generated programs through 47 kinds of indirection, plus the tool by -c, script and standard input; effects outside the canary directory, the environment, children and the process's own end would go unseen"),
 "C18": ("model-based property test: generated packages, nested packages, aliases and hashes; every member path by every read and write route from every place, against the access rule and the members' state before",
  "28,000 histories over packages nested to three levels with public and private data, functions and hashes, reached directly, by alias, import-like binding, argument and closure; some 40 read and 20 write routes; inside access through public functions; capability aliasing"),
 "C17": ("stateful model-based property test: histories of declarations, constructions and writes by every route, all live instances judged against the declaration each was made by and compared with their state before",
  "68,000 histories of 5 to 60 steps over three struct names with redeclaration, fields of base, slice, pointer and struct types, some 60 write routes with values of every kind, pointer overwrites, JSON and msgpack records"),
 "C06": ("differential property test: generated token sequences against a reference parser that splits at the weakest operator, blocks against their prefix forms, slices against Go",
  "exhaustive over all sequences of up to 3 of 19 binary operators (4 in the thorough tier) with decorated operands and two spacings; random blocks with if, for, nested blocks, selectors and comments; programs evaluated in 24 contexts next to their prefix forms, with trace and variables compared"),
 "C01": ("fuzzing: generated and mutated texts, programs, builtin calls, deep, nested and endless inputs in limited interpreters and the CLI; the oracle is that the host gets a value or an error and that the interpreter works afterwards",
  "token soups, surface programs and mutations of them, every builtin and special form with random and cyclic arguments, nesting to hundreds of thousands, endless recursion by 20 routes, decoders on random bytes, the CLI as a process; a death of the worker process is a violation; running out of memory by results that are large, and blocking channel operations, are left out"),
 "C07": ("exhaustive boundary grid and random property test against math/big",
  "exhaustive over all ordered pairs of ~115 boundary values, random 64-bit patterns beyond that, through seven call routes; trusts math/big and Go float64"),
 "C02": ("differential property test: generated core programs in the interpreter against a direct reference evaluator (value, error, trace of effects)",
  "random, mostly well-typed programs up to 8 top-level forms and ~150 expressions: nested functions, loops with labelled exits, scopes, short circuits, data; with and without planted mistakes; an undetermined outcome (append aliasing, break inside call arguments) is skipped and counted"),
 "C03": ("differential property test: programs over three to five names with escaping closures against a reference evaluator with linked scopes",
  "random programs in which nearly every binding shadows another, closures escaping as values, in data, through arguments and as nested defns, makers used twice, names out of reach, code made by eval and func; evaluated whole and form by form"),
 "C09": ("differential property test of self-recursive functions against a reference evaluator, with stack high-water marks compared between depths",
  "random self-recursive functions with the self call at the end of nests of cond, begin, let, letseq, newScope, and, or; small depths compared with the reference, stack high-water marks at depths 24 and up to 288, some to depth 150000, live heap over 4800 iterations"),
 "C11": ("round-trip property test over generated records, JSON text judged by encoding/json, differential against the value itself",
  "random scalars, arrays, hashes and declared records to depth 5 through json/unjson, msgpack/unmsgpack, json2 and the exported Go functions; JSON-style source literals with string keys"),
 "C12": ("round-trip property test over generated data values; literals against math/big and the runes written",
  "every Unicode code point as char and string; random values to depth 5; random numerals of every notation in 19 contexts against exact rationals"),
 "C13": ("metamorphic property test: text in pieces against whole text in a fresh parser; independent completeness scanner; known-data layouts",
  "all pairs of ~110 tokens with every cut, random token soups, well-formed texts and corpus fragments with random cuts; every reply compared with a fresh parser's reply to the text so far; parse histories"),
 "C14": ("stateful model-based testing: operation histories against an ordered-map model",
  "exhaustive short operation sequences and random histories over all key types against an ordered-map model; every observer compared after every step"),
 "C19": ("stateful model-based testing: symbol-making histories over a family of duplicates and clones against name equality",
  "exhaustive short histories (original and one duplicate or clone, each way of making a symbol), random histories up to 26 operations over up to 6 interpreters; names aimed at the next generated ones"),
 "C16": ("differential property test: generated lazy functions, call routes and force patterns against a reference evaluator with explicit promises",
  "random functions mixing lazy, strict and variadic parameters called by name, alias, parameter, computed callee, apply, map, from loops, tail calls and recursion; argument expressions with effects and errors; forced zero to many times, also after the caller returned; substitute"),
 "C15": ("differential property test: generated templates and macros against plain substitution and a reference evaluator of the expansion",
  "random templates to depth 4 (lists, arrays, dotted lists, hashes, infix blocks, quoted forms) evaluated with changing bindings and after earlier results were changed; random macros (templates, computed, recursive, quoting, defining) called at top level, in functions, loops, arguments, tail position and lazily; expansion as data; failing expansions"),
 "C04": ("stateful and metamorphic property test: stack sizes at rest after every form, forms one at a time against together, empty input, size of the interpreter over repetitions",
  "random core programs against a reference evaluator; random surface programs (struct, func, method, interface, var, package, range, infix loops and blocks, builders, macros) evaluated one form at a time, together and in a begin; objects reachable from the interpreter counted over 15 repetitions"),
 "C05": ("fault injection property test: every k-th host call failing or panicking inside generated programs, against a reference evaluator and an interpreter that did not see the failure",
  "random core, lazy and macro programs with the k-th effect failing (all k when at most 6) by error or panic, failures forgiven by host functions that call back; surface programs failing in a host call, at any VM instruction, by a mistake, or by text that ends early, then follow-ups compared with a twin; size of the interpreter over repeated failures"),
}
LEVEL = {}
PENDING = ["C%02d" % i for i in range(1, 21)]
hooks = ["552039e"]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif (Go build tag)", "enable": "go build -tags verif", "source_commits": hooks},
     "checks": [], "not_applicable": [],
     "notes": "Each check builds /verif/harness into /repo's module through go build -overlay. known-findings.txt lists findings and fixes."}
for p in PENDING:
    if p in T:
        m["checks"].append({"property": p, "quick_cmd": "./check %s --tier quick" % p,
                            "thorough_cmd": "./check %s --tier thorough" % p,
                            "technique": T[p][0], "level": LEVEL.get(p, "exploration"), "level_note": T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
