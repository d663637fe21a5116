#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist in tools/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": "TLC explores every wire assignment and every phase error of the gate machine (Circuit) for small registers; circuits generated from it and all truth tables run on the real gates at eight levels, every recorded phase judged by CircuitTrace.",
 "C02": "TLC explores every interleaving of batch workers over the evaluator pool (BatchPool); generated batch histories, concurrent callers and scheduler settings run on the real code and are judged by BatchTrace.",
 "C03": "TLC checks the frame condition of the object model (Heap); generated call sequences over the public API run with all live objects fingerprinted and are judged by HeapTrace.",
 "C04": "TLC explores all histories of the buffer ring model (Ring); generated histories run on real evaluators with every live result read back, judged by RingTrace.",
 "C05": "TLC checks blind rotation of generated tables for every function, message and admissible error at toy size (PBS); functions chosen by the specification run at real size, judged by PBSTrace.",
 "C06": "TLC checks the table layout for every function and rotation at toy size (LutGen); tables of the real generator at real size are judged coefficient by coefficient by LutTrace.",
 "C07": "TLC checks encode/decode for every message, modulus and noise at toy size (Message); boundary phases and encryptions of the real code are judged by MessageTrace.",
 "C08": "TLC checks the phase homomorphism over all small ciphertexts (Linear); components of real results are recomputed in 32-bit limb arithmetic by LinearTrace.",
 "C09": "TLC checks digit decomposition and switching over all small masks (KeySwitch); phases of every real key entry and of switched ciphertexts are judged by KeyTrace.",
 "C10": "TLC explores all level histories of the cache model (LevelSwitch); generated histories run on the real code and are judged by LevelTrace.",
 "C11": "TLC explores delegation histories (Reenc); generated histories with real keys, exact zero-noise runs and noise statistics are judged by ReencTrace.",
 "C12": "TLC explores interleavings of evaluators with private and shared buffers (Concur); concurrent runs of the real code, also under the race detector, are judged by ConcurTrace.",
 "C13": "TLC checks freshness of the draw machine (Fresh); masks, keys and noise statistics of the real code are judged by FreshTrace.",
 "C14": "TLC checks the ring laws over all small polynomials (Nega); real products, transforms and rotations are recomputed by NegaTrace.",
 "C15": "TLC checks extraction, decomposition, external product and rotation over all small ciphertexts (RingOps); real phases are judged by RingOpsTrace.",
 "C16": "TLC checks bit conversion and the ripple-carry adder for all small integers (Bits); real conversions and encrypted adders are judged by BitsTrace.",
 "C17": "TLC checks consistency and noise margins of the published tables (Params) and all level-change histories; accessors of the real code are judged by ParamsTrace.",
 "C18": "TLC checks that the error bound is an invariant of every bootstrap history (Noise); phase error statistics of the real code along chains are judged by NoiseTrace.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "tools", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "technique": "TLA+ model checked with TLC, conformance by generated behaviours and trace validation",
                       "level": "model_checking", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
