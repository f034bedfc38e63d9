#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""

import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
S = "src/mqt/qecc/"
P = []


def prop(id, title, statement, over, q, why, files, mech, observe=(), level_note="", technique="property-based testing"):
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
        "_note": level_note, "_tech": technique,
    })  # fmt: skip


prop("P01", "Code objects of the decoders: checks, syndromes, stabilizers, rejection",
     "A code object built from matrices or files keeps its X and Z checks exactly, its syndromes are the products of its checks with the error, and it reports a vector as stabilizer exactly when it lies in the span of the checks of that type. Arguments of wrong sizes, and codes lacking needed checks, are answered by an exception and never by a crash. Random errors are drawn from the requested distribution.",
     ["inputs", "histories"], "all pairs of check matrices, all vectors, all orders of construction and query calls",
     "The tests use the Steane code and one or two vectors; the claim is about every matrix, including redundant, empty and one-sided ones.",
     ["include/Code.hpp", "src/Utils.cpp", "src/GF2.cpp", "include/GF2.hpp", "src/python/bindings.cpp"],
     [("Code", "include/Code.hpp"), ("linear algebra", "src/Utils.cpp, src/GF2.cpp")], ["pyqecc.Code", "probe of Utils/GF2"],
     "Random and structured codes with up to 10 qubits against independent GF(2) arithmetic; the C++ sources are compiled anew for the check.")
prop("P02", "Union-find decoder: the estimate explains the syndrome",
     "For every code and every syndrome of an error, decoding ends with an estimate whose syndrome is the given one, for every growth strategy and for one- and two-sided codes, and the estimate vector, index list and status agree. A syndrome that no error causes is refused with an exception.",
     ["inputs", "configurations"], "all codes, errors and growth strategies",
     "Tests decode a few single-qubit errors on the Steane code; cluster growth, merging and peeling depend on the whole structure of code and error.",
     ["src/UFDecoder.cpp", "include/UFDecoder.hpp"], [("cluster growth and erasure decoding", "src/UFDecoder.cpp")], ["Decoder.result"],
     "Random codes, structured families (repetition, toric, surface, permuted) and errors of every weight, against syndromes computed independently.")
prop("P03", "Union-find heuristic: terminates, well-formed, exact for small errors",
     "The heuristic union-find decoder always terminates with well-formed results, and it corrects, up to stabilizers, every error of low weight on the codes it is made for.",
     ["inputs", "configurations"], "all syndromes and growth strategies; every error up to the stated weight on the listed code families",
     "Tests try a handful of single-qubit errors.", ["src/UFHeuristic.cpp", "include/UFHeuristic.hpp", "include/TreeNode.hpp"],
     [("growth, validity check and decoding of clusters", "src/UFHeuristic.cpp")], ["Decoder.result"],
     "Exactness is asserted only for code families and weights where the algorithm guarantees it; elsewhere only termination and consistency.")
prop("P04", "Decoders are reusable and report what they did",
     "Decoding a syndrome gives the same result whatever was decoded before, after resets, code changes or growth changes, and the reported run information describes exactly that run.",
     ["histories"], "all sequences of set-code, set-growth, decode, reset and read operations",
     "Tests use each decoder once; stale state only shows over histories.", ["src/UFDecoder.cpp", "src/UFHeuristic.cpp", "include/Decoder.hpp", "include/DecodingRunInformation.hpp"],
     [("reset and per-decode state", "src/UFDecoder.cpp, src/UFHeuristic.cpp")], ["Decoder.decode / reset / result"],
     "Stateful random histories compared with fresh decoder objects.")
prop("P05", "Decoding simulators count and write exactly what was decoded",
     "The word-error-rate and runtime simulations write valid result files whose rates, counts and settings equal what an independent count over the same decoder and error model allows.",
     ["configurations"], "all rate ranges, run counts, decoders and codes",
     "Tests only check that simulations run.", ["src/DecodingSimulator.cpp", "include/DecodingSimulator.hpp"],
     [("simulateWER, simulateAverageRuntime", "src/DecodingSimulator.cpp")], ["result files"],
     "Degenerate rates are exact; other rates are compared statistically with wide bounds (failure probability < 1e-9 per case).")
prop("P06", "Encoded circuits have the outcomes of the original circuit",
     "For every supported code and circuit of supported gates, executing the encoded circuit without errors gives classical outcomes with the distribution of the original circuit in the original classical bits, for every correction frequency and placement of measurements.",
     ["programs", "configurations"], "all circuits over the supported gates of each code, all correction frequencies and measurement orders",
     "Tests encode a few fixed circuits, mostly without looking at what they compute.",
     ["src/ecc/", "include/ecc/", "src/python/bindings.cpp"], [("gate mapping, encoding, correction and decoding", "src/ecc/*.cpp")], ["apply_ecc"],
     "The emitted text is executed by an independent simulator. Two regions with recorded findings are left out (gates after a measurement in four codes; Hadamards with periodic correction in Q18Surface).")
prop("P07", "A single Pauli error per correction round is corrected",
     "A Pauli error on any one data qubit of an encoded logical qubit, at any position between operations of the original circuit, does not change the outcomes; with a correction after every operation this holds for one error per logical qubit and operation.",
     ["fault_sequences", "programs"], "all codes, circuits (bit-flip code: without superpositions), positions, data qubits and Paulis",
     "Tests inject no errors at all.", ["src/ecc/", "include/ecc/"], [("syndrome measurement and correction", "src/ecc/*.cpp")], ["apply_ecc"],
     "All data qubits and Paulis are enumerated per circuit position; errors inside a correction round are not covered.")
prop("P08", "Encoding keeps registers and rejects what it cannot encode",
     "The encoded circuit starts with the classical registers of the original circuit in their order, has the number of qubits the code needs, and does not depend on whether the circuit is given as object or file. Every operation is either encoded faithfully or rejected with an error, and unknown codes are rejected.",
     ["programs", "inputs"], "all register layouts and names, all operations of the circuit library",
     "Tests use one register of each kind and two unsupported gates.", ["src/ecc/Ecc.cpp", "src/ecc/", "src/python/bindings.cpp"],
     [("circuit import and register set-up", "src/ecc/Ecc.cpp, src/python/bindings.cpp"), ("gate rejection", "src/ecc/*.cpp")], ["apply_ecc"],
     "22 kinds of operations outside the common set are tried on every code; faithful means: no outcome of ideal probability zero.")
prop("P09", "Stabilizer codes: parameters, syndromes, equality, rejection",
     "A stabilizer code has n minus the rank of its generators logical qubits, its syndromes are the (anti)commutations with its generators, two codes are equal (with equal hashes) exactly when they have the same signed stabilizer group, and two Paulis are equivalent exactly when their product is a stabilizer up to its sign. Generators that do not commute or generate -1, and logical operators that are not a paired set commuting with the stabilizers, are rejected.",
     ["inputs"], "all generator sets, signs, presentations and Pauli operators",
     "Tests use two or three codes, one error each, and never compare different presentations.",
     [S + "codes/stabilizer_code.py"], [("binary representation", S + "codes/stabilizer_code.py")], ["StabilizerCode"],
     "Random Clifford images of up to 6 qubits, mixed generating sets; oracle: group enumeration with stim Pauli products.")
prop("P10", "CSS codes: parameters, logicals, syndromes, cosets",
     "For every orthogonal pair of check matrices the CSS code has n minus both ranks logical qubits and that many independent logical operators of each type commuting with the checks; syndromes, stabilizer membership, logical-error and coset queries and self-duality are those of the spanned spaces, whatever rows represent them. Matrices that are not orthogonal or do not match, and inconsistent distances, are rejected.",
     ["inputs"], "all pairs of check matrices (also one-sided, empty, redundant), all errors",
     "Tests look at the Steane code and a small repetition code.", [S + "codes/css_code.py"], [("CSSCode", S + "codes/css_code.py")], ["CSSCode"],
     "Random pairs with up to 10 qubits against independent GF(2) arithmetic on integers.")
prop("P11", "Predefined code families have their documented parameters",
     "Every predefined code (named codes, bivariate bicycle codes, hexagonal and square-octagon color codes of every odd distance) has the documented number of qubits, logical qubits and distance, and its lattice description agrees with its checks. Unknown names and sizes are rejected.",
     ["configurations"], "all named codes, all bicycle sizes, all odd distances",
     "Tests check n and orthogonality, not k or the distance.", [S + "codes/"],
     [("families", S + "codes/css_code.py, bb_codes.py, hexagonal_color_code.py, square_octagon_color_code.py")], ["CSSCode.from_code_name", "construct_bb_code", "HexagonalColorCode", "SquareOctagonColorCode"],
     "Distances are exact (all logical operators enumerated) for the named codes and color codes up to distance 7; above, and for bicycle codes, a randomised search looks for lighter logical operators.")


def main():
    extra = V / "tools" / "meta_more.py"
    if extra.exists():
        exec(extra.read_text(), globals())
    props, checks, na = [], [], []
    for p in sorted(P, key=lambda p: p["id"]):
        note, tech = p.pop("_note"), p.pop("_tech")
        props.append(json.dumps(p))
        i = p["id"]
        if (V / "checks" / f"{i}.py").exists():
            checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
        else:
            na.append({"property": i, "reason": "no check built yet"})
    (V / "properties.jsonl").write_text("\n".join(props) + "\n")
    man = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "no hooks: every check works on the public interface of the current working tree; the C++ part is compiled from the working tree into /verif/.build (ignored by git)"}
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


main()
