#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and harnesses.PROPERTIES."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from harnesses import PROPERTIES  # noqa: E402

S = "strictpp/"


def M(name, where):
    return {"name": name, "where": S + where}


P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [S + f for f in files], "mechanism": mech}
    if state:
        a["state"] = [{"name": state, "where": S + files[0]}]
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "A failed allocation changes nothing and leaks nothing",
     "If any memory allocation made during a constructor or a size-changing, copying or reading operation on "
     "Array1D/Array2D fails, the operation reports it by an exception (bad_alloc, or StrictException from stream "
     "reading), every array keeps the size, shape and contents it had before the call, and no memory is leaked. "
     "It never reports success with an incomplete result, and the same call succeeds once memory is available again.",
     ["fault_sequences", "histories"],
     "every operation that builds, copies, resizes, removes from, inserts into, resizes-and-assigns or reads into an "
     "array, every array state reachable by a history, every allocation inside it failing, once or from then on",
     "The tests never make an allocation fail; the number of (state, operation, failing allocation) triples is unbounded.",
     ["array_base1D.hpp", "array_base2D.hpp", "ArrayCommon/index_helper.hpp", "array_IO.hpp", "array_ops.hpp"],
     [M("build a temporary, then swap", "array_base1D.hpp: resize, insert, remove, resize_and_assign"),
      M("build a temporary, then swap", "array_base2D.hpp: resize, insert_rows/cols, remove_rows/cols")],
     "size/rows/cols and elements of all arrays", "after every failed call")
prop("C02", "A rejected invalid call has no effect",
     "A call that violates a documented precondition (index or count out of range, negative or half-zero size, "
     "mismatched operand size, unordered removal indexes, ragged or wrongly sized list, integer division by a zero scalar) is "
     "rejected by StrictException, and afterwards every array holds exactly what it held before and no memory is "
     "leaked. This also holds while memory is exhausted, when bad_alloc may be reported instead.",
     ["histories", "fault_sequences"],
     "every kind of invalid call on every array state reachable by a history, with and without failing allocations",
     "Tests probe a few fixed invalid calls and check only that they throw, not the state left behind in other states.",
     ["array_base1D.hpp", "array_base2D.hpp", "derived1D.hpp", "derived2D.hpp", "slice.hpp", "ArrayCommon/valid.hpp",
      "ArrayCommon/index_helper.hpp", "StrictCommon/error.hpp"],
     [M("ASSERT_STRICT_* before the first write", "array_base1D.hpp, array_base2D.hpp, derived1D.hpp, derived2D.hpp"),
      M("validity predicates", "ArrayCommon/valid.hpp")],
     "size/rows/cols and elements of all arrays", "after every rejected call")
prop("C03", "An operand that throws midway never corrupts its target",
     "If evaluating an operand throws after any number of elements (a callback, or an integer division by zero or a "
     "negative shift met at some element), the exception reaches the caller unchanged, no array changes its size or shape and nothing is leaked. A constructor, insertion or resize-and-assign has no effect "
     "at all; an element-wise assignment leaves each element either old or new, and the same operation completes later.",
     ["fault_sequences", "histories"],
     "every operation that takes an expression operand, every array state reachable by a history, the operand throwing "
     "at every element",
     "No test uses a throwing operand; the states and interruption points are unbounded.",
     ["array_base1D.hpp", "array_base2D.hpp", "ArrayCommon/algorithm.hpp", "derived_base.hpp", "Expr/types.hpp"],
     [M("evaluate into a temporary, then swap", "array_base2D.hpp: insert_row, insert_col, insert_rows, insert_cols"),
      M("element-wise copy", "ArrayCommon/algorithm.hpp: copy, copyn")],
     "size/rows/cols and elements of all arrays", "after every interrupted call")
prop("C04", "1-D arrays behave as a sequence through every history, faults included",
     "After any sequence of constructions, element and slice writes, assignments, resizes, insertions, removals, sorts, "
     "moves, swaps and reads, each 1-D array holds exactly the sequence that the same calls produce on a plain "
     "sequence model, seen identically through every access path. Calls that failed because of an allocation failure "
     "or a throwing operand count as not having happened.",
     ["histories", "fault_sequences"],
     "every finite history of calls on several interacting arrays, with faults at arbitrary points",
     "Tests check single operations from fixed states; errors that need a preceding resize, move, failure or empty "
     "state are not reachable by samples.",
     ["array_base1D.hpp", "derived1D.hpp", "slice.hpp", "slicearray_base1D.hpp", "attach1D.hpp", "iterator.hpp",
      "fixed_array_base1D.hpp", "array_ops.hpp", "Expr/special.hpp"],
     [M("resize/insert/remove", "array_base1D.hpp"), M("slices", "slicearray_base1D.hpp, slice.hpp"),
      M("complement index vector", "ArrayCommon/index_helper.hpp")],
     "size and elements", "after every call, through un, [], at, iterators and data")
prop("C05", "2-D arrays keep a consistent shape and row-major contents through every history",
     "After any sequence of constructions, writes, assignments, resizes, row and column insertions and removals, block "
     "and transposed operations, moves, swaps and reads, each 2-D array holds exactly the matrix that the same calls "
     "produce on a plain matrix model, rows()*cols()==size(), and rows() is 0 exactly when cols() is 0. Calls that "
     "failed because of an allocation failure or a throwing operand count as not having happened.",
     ["histories", "fault_sequences"],
     "every finite history of calls on several interacting arrays, with faults at arbitrary points",
     "Tests check single operations from fixed states; errors that need a preceding resize, move, failure or empty "
     "state are not reachable by samples.",
     ["array_base2D.hpp", "derived2D.hpp", "slicearray_base2D.hpp", "attach2D.hpp", "fixed_array_base2D.hpp",
      "Expr/special.hpp"],
     [M("resize/insert/remove rows and columns", "array_base2D.hpp"), M("dims_ and data1D_ kept in step", "array_base2D.hpp"),
      M("index mapping", "ArrayCommon/index_helper.hpp")],
     "rows, cols, size and elements", "after every call, through un, (), at, iterators and data")
prop("C06", "Every block is freed once, as it was allocated, on every path",
     "Through any history of calls, failed allocations, throwing operands and rejected calls, every block of memory is "
     "released exactly once by the matching form of delete and with the size and alignment it was obtained with, no "
     "access leaves the storage, and nothing remains when the last array is gone. Non-empty storage of Aligned arrays "
     "is 64-byte aligned.",
     ["histories", "fault_sequences"],
     "every history of calls on arrays and views, with faults at arbitrary points",
     "Tests run without an allocator that checks discipline and never take the failure paths.",
     ["array_base1D.hpp", "array_base2D.hpp", "ArrayCommon/alignment.hpp", "ArrayCommon/array_auxiliary.hpp"],
     [M("allocation and deallocation of storage", "array_base1D.hpp"), M("alignment", "ArrayCommon/alignment.hpp")],
     "allocator state", "after every call and at the end of the run")
prop("C07", "Moves, swaps and steals never allocate and never fail",
     "Move construction, move assignment between equal sizes (also to itself), swap and resize_and_assign from an "
     "rvalue transfer the exact contents without allocating, so they succeed even when no memory is left. Both "
     "arrays remain valid and usable; a moved-from array is empty, and a self-move keeps the contents.",
     ["histories", "fault_sequences"],
     "every array state reachable by a history, with all allocations failing during the call",
     "Tests never exhaust memory during a move and rarely use the moved-from array again.",
     ["array_base1D.hpp", "array_base2D.hpp", "fixed_array_base1D.hpp", "fixed_array_base2D.hpp"],
     [M("move and swap", "array_base1D.hpp"), M("move and swap of dims_ and data1D_", "array_base2D.hpp")],
     "contents and shape of both arrays, allocations made", "after every move, swap and steal")
prop("C08", "Deferred views and expressions always show the current array contents",
     "A slice, view or expression that is kept shows, whenever it is evaluated and by whatever access path, the value "
     "computed from the contents its arrays have at that moment, however it was composed from temporaries, and "
     "evaluating it changes nothing. Writing through a mutable view changes exactly the denoted element, and an "
     "evaluation aborted by a fault does not affect later ones.",
     ["histories", "fault_sequences"],
     "every composition of slices, views and expressions, kept across every history of writes to live arrays of "
     "unchanged shape",
     "Tests evaluate expressions at once, while the temporaries are still alive and the arrays unchanged.",
     ["slicearray_base1D.hpp", "slicearray_base2D.hpp", "attach1D.hpp", "attach2D.hpp", "Expr/types.hpp",
      "Expr/special.hpp", "ArrayCommon/array_traits.hpp", "iterator.hpp"],
     [M("arrays by reference, expressions by copy", "ArrayCommon/array_traits.hpp: CopyOrReferenceExpr"),
      M("capturing lambdas", "Expr/special.hpp: transpose, merge, exclude")],
     "values shown by the view", "at every evaluation")
exec(open(os.path.join(ROOT, "tools", "props_more.py")).read())

NA = [
    ("C30", "Strict types admit no implicit conversions",
     "compile-time overload and concept resolution: nothing executes, so there is no schedule, fault or history to simulate"),
    ("C36", "Constant evaluation gives the same results as run time",
     "decided by the compiler; nothing executes under the simulator"),
    ("C38", "Eigen-backed matrix products are numerically correct",
     "numerical behaviour of a third-party library on pure inputs; its failure behaviour is simulated in C01"),
]


def main():
    have = [p for p in P if p["id"] in PROPERTIES]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps(p) + "\n")
        for i, t, why in NA:
            f.write(json.dumps(NA_FULL[i] | {"id": i, "title": t}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": PROPERTIES[p["id"]].get("technique", "deterministic simulation with fault injection"),
            "level": PROPERTIES[p["id"]]["level"],
            "level_note": NOTES.get(p["id"], "Seeded search over histories and fault sequences; samples the space, "
                                    "does not exhaust it. Assumptions: see DESIGN.md and the evidence file."),
        } for p in have],
        "not_applicable": [{"property": i, "reason": why[0].upper() + why[1:] + "."} for i, _, why in NA],
        "notes": "No hooks in /repo: every seam is an existing interface, an interposed symbol or a type parameter. "
                 "Genuine defects found were repaired by fix: commits, listed in known_findings.txt.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
