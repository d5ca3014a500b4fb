#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
T = "tensor/"
P = []
def prop(id, title, statement, over, text, why, files, mech, claimed=True, note="", reason="", state=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claimed=claimed, note=note, reason=reason, level=level, state=state or []))

prop("C01", "Row-major indexing is a bijection between coordinates and flat positions",
     "For every shape, the strides and size computed from it map each in-range coordinate vector to a distinct flat position below the size, and mapping a flat position back to coordinates and forth again returns it unchanged. Coordinates out of range, or of the wrong number, are rejected with an error and never mapped. Two shapes compare equal exactly when they have the same dimensions.",
     ["inputs"], "all shapes (any rank, any dimensions whose product fits the machine word) and all coordinate vectors and flat positions",
     "The tests sample a few 1-4 dimensional shapes; the bijection is a statement about every shape and index, including non-square, unit and zero dimensions.",
     ["tools/tools.go"], [("stride computation", "tools.GetIndexMul"), ("bounds-checked index", "tools.GetIndex"), ("reverse index", "tools.ReverseIndex")])
prop("C02", "Element access, bulk load and copy are exact and independent",
     "Setting an element changes exactly that element and reading any element returns the last value stored there, loading a flat list stores the values in row-major order, and invalid coordinates or lists of the wrong length are rejected leaving the tensor unchanged. Shape, stride and data accessors and tensor copies return independent copies: later writes to either side never show on the other.",
     ["inputs", "histories"], "all well-formed tensors, coordinates, data lists and sequences of these calls",
     "Tests check single reads after construction; aliasing between copies and the frame (nothing else changes) are properties of every call sequence.",
     [T+"tensor_mat.go", "tools/tools.go"], [("bounds-checked operand lookup", "TensorMat.GetOperand"), ("copying accessors", "TensorMat.GetShape/GetData/Copy")])
prop("C03", "Constructors build well-formed tensors with the stated values",
     "Every constructor returns a tensor of exactly the requested shape in which each element has its own storage, holding zeros, ones, or the given values in row-major order (missing values are zero, surplus values are ignored). Building from a value list copies the values, so later changes of the list do not show.",
     ["inputs"], "all shapes and value lists",
     "Tests construct a handful of shapes; well-formedness (size, strides, distinct storage) is assumed by every other operation for every shape.",
     [T+"constructor.go", "tools/tools.go"], [("element allocation loops", "tensor.NewZeros/NewOnes/NewFromValues/NewRand")])
prop("C04", "Direct element-wise arithmetic is exact at every position",
     "Adding, subtracting, multiplying or dividing two tensors of equal shape, or a tensor and a scalar, and negating, taking absolute values or applying a function, gives a new tensor of the same shape whose every element is that operation on the elements at the same position. Operands of different shape are rejected with an error; the inputs are never modified and the result shares no storage with them.",
     ["inputs"], "all well-formed tensors of any rank and size, all element types, all scalars and pure functions",
     "Tests use one or two fixed small tensors per operation.",
     [T+"oper2.go", T+"oper_scalar.go", T+"neg.go", T+"abs.go", T+"activate.go"], [("element loops", "TensorMat.Add/Sub/Mul/Div, *Scalar, Neg, Abs, Activate")])
prop("C05", "Direct reductions combine exactly the right elements",
     "Whole-tensor sum, average, maximum and minimum give a one-element tensor holding that reduction of all elements; reductions at a dimension keep the dimensions up to and including it and reduce, for each of their positions, exactly the elements below it. A dimension out of range is rejected, and inputs are not modified.",
     ["inputs"], "all non-empty well-formed tensors, all dimensions, all element types",
     "Tests use single fixed tensors; which elements fall in which group is a statement over every shape and dimension.",
     [T+"dim_math.go", T+"tensor_math.go", "tools/math.go"], [("group slicing by stride", "TensorMat.DSum/DAvg/DMax/DMin")])
prop("C06", "Direct structural operations move every element to the right place",
     "Transposing reverses the coordinates of every element (so transposing twice is the identity), reshaping keeps the row-major order, truncating or zero-filling, slicing along a dimension takes exactly the requested range (optionally filling beyond the end), and concatenating along a dimension places the second tensor after the first. Invalid dimensions, ranges and incompatible shapes are rejected with an error rather than a wrong result or a crash, and inputs are not modified.",
     ["inputs"], "all well-formed tensors, shapes, dimensions and ranges",
     "Tests check a few shapes; the coordinate mapping must hold for every rank, dimension, range and shape pair.",
     [T+"transpose.go", T+"reshape.go", T+"sub_tensor.go", T+"concat.go"], [("coordinate remapping through reverse index", "TensorMat.Transpose/SubTensor/Concat")])

TECH = "contract-based deductive verification of the real Go code (go/ssa to SMT, z3/cvc5)"
LEVEL_NOTE = "Every function the property rests on has a machine-checked contract; all obligations generated from /repo's current source are discharged for all inputs, loops by inferred and proved invariants. Assumes: no integer overflow, arithmetic of the element type as an uninterpreted number domain, partial correctness, the verifier itself. A bounded replay against an independent oracle accompanies it and is not counted as proof."

def main():
    with open("/verif/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[])
    for p in P:
        if p["claimed"]:
            m["checks"].append(dict(property=p["id"], quick_cmd="bash /verif/check.sh " + p["id"],
                thorough_cmd="VERIF_TIER=thorough bash /verif/check.sh " + p["id"],
                evidence_file="evidence/%s.json" % p["id"], technique=TECH if p["level"] == "proof" else TECH + " of its helpers; bounded replay of the function out of reach", level=p["level"],
                level_note=(p["note"] + " " if p["note"] else "") + (LEVEL_NOTE if p["level"] == "proof" else "")))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
    m["notes"] = "No hooks: the verifier reads /repo's source as it is. See DESIGN.md."
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
    open("/verif/MANIFEST.json", "a").write("\n")

exec(open("/verif/mkprops_more.py").read()) if __import__("os").path.exists("/verif/mkprops_more.py") else None
if __name__ == "__main__":
    main()
