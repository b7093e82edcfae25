#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "grammar-based random queries (rapid, shrinking)"
T = {
 "P01": ("random and mutated texts, invariant and repeat-parse oracle", "Every generated text is parsed twice; panics, hangs (30 s per text), neither/both results and unequal outcomes are violations. Nesting to about 60 levels."),
 "P02": (GEN + ", comparison with the generated AST", "Written clauses are known by construction and compared one by one at every query level."),
 "P03": (GEN + ", truth-table comparison with the written condition tree", "All assignments of up to 12 comparisons, sampled above; comparisons are compared operand by operand."),
 "P04": (GEN + ", truth-table comparison under NOT", "As P03 for trees with NOT; inversion parity is computed from the tree."),
 "P05": ("generated literals with independently computed values (math/big, own calendar)", "Values are known by construction; each literal is placed at every kind of position."),
 "P06": ("metamorphic: one query in two layouts", "Same AST rendered twice (white space, comments, case, parentheses); also mutated token sequences, which must be rejected in both layouts."),
 "P07": ("metamorphic respelling and renaming, plus a reference resolver", "References are re-spelled in equivalent ways; the absolute path is also predicted by a model."),
 "P08": (GEN + ", graph invariants and model object set", "The closed object set is predicted by a model; order, parent links and view ids are checked as invariants."),
 "P09": (GEN + ", invariants over all references paired with the AST", "References are paired with the written ones by position; equal ids iff equal field."),
 "P10": (GEN + ", reference model of the projection", "The expected field list is computed by a model."),
 "P11": (GEN + ", reference model of the projection per object", "Per-object fields, orders and clauses are recomputed from the whole query."),
 "P12": (GEN + ", truth-table comparison of split and written filter", "All assignments of up to 12 comparisons, sampled above."),
 "P13": (GEN + ", reference model of alias completion", "Aliases are drawn to collide with generated names and with one another."),
 "P14": (GEN + ", metamorphic permutation of items and rule oracle", "Rules are injected as single violations into valid queries; acceptance must not depend on item order."),
 "P15": (GEN + ", resolver model and injected scope violations", "Scope rules are checked by a resolver model and by injecting forbidden references."),
 "P16": (GEN + ", reconstruction of the graphs from the result tree", "The graphs are recomputed from the AST and the result."),
 "P17": (GEN + ", sets collected from the AST", "Exact equality of the three sets."),
 "P18": (GEN + ", JSON round trip", "Every JSON field is compared by reflection. NaN and infinities are a known finding (KF1)."),
 "P19": ("values built by a random tape, JSON round trip", "Values of the public types are built directly, not by the parser."),
 "P20": ("random histories of calls with concurrency and overwritten results, under the race detector; differential against a new process", "Schedules are those the Go scheduler produces; the race detector sees unsynchronised access on executed paths."),
 "P21": ("mutated texts, differential against a hand-written recognizer", "The recognizer is independent of the grammar's code and also counts items, comparisons and keys."),
 "P22": ("mutated texts, position invariants and metamorphic layout shifts", "Positions are mapped to words and compared between layouts."),
 "P23": ("random histories of calls, differential between the WebAssembly build in node and the library", "The js/wasm build runs in node with Go's own wasm_exec.js."),
 "P24": ("generated families of texts, bounded growth of allocations under doubling", "Cost is measured as allocations and allocated bytes, which are deterministic; doubling may cost at most a factor of 12."),
 "P25": (GEN + ", rule oracle for order keys", "Orderings are respelled and single violations injected."),
 "P26": (GEN + ", metamorphic: a subquery embedded, replaced and on its own", "Results are compared completely by reflection, ids up to a one-to-one renumbering."),
 "P27": (GEN + ", metamorphic: one-to-one renaming and exchange of literals, also of mutated texts", "Results are compared completely by reflection after applying the renaming."),
}
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
  "property": p,
  "quick_cmd": f"bash run.sh {p}",
  "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
  "technique": t,
  "level": "exploration",
  "level_note": n + " Assurance is that of the explored cases; see DESIGN.md for the excluded inputs.",
 } for p, (t, n) in sorted(T.items())],
 "not_applicable": [],
 "notes": "Property-based testing with pgregory.net/rapid; the harness is /verif/harness, built by run.sh against /repo's working tree. A saved failure is replayed with: bash run.sh <id> -mode replay -file <replay>.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert sorted(ids) == sorted(T), set(ids) ^ set(T)
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
