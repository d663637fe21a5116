#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Homomorphic gates compute their truth tables in every circuit",
  "Decrypting the output wire of any circuit built from the boolean gates (two-input gates, multiplexer, negation, copy, constants), in any order and depth and at every supported security level, gives the value of the same circuit on the plaintext bits. This includes circuits that feed one ciphertext to several inputs of a gate, that keep old wires alive for arbitrarily long, and that use any valid encryption of a bit (fresh, constant, or the output of another gate, whatever its mask and body).",
  ["programs", "inputs", "configurations"], "all gate sequences over all wire assignments, all bit values, all valid ciphertexts of a bit, all supported levels",
  "The tests run single gates on a few fresh encryptions at the default level; NOR, ANDNY, ORYN and the like are each sampled once, with no reuse of wires, no deep circuits and no unusual masks or bodies.",
  ["gates/gates.go", "evaluator/gates_helper.go", "evaluator/evaluator.go", "trgsw/keyswitch.go"],
  [("linear combination plus offset per gate", "gates/gates.go, evaluator/gates_helper.go"), ("sign bootstrap to +-1/8", "evaluator/evaluator.go BootstrapAssign"), ("result copied out of the shared evaluator", "gates/gates.go bootstrap")],
  [("wire", "ciphertext holding +-1/8 under the level-0 key", "tlwe.TLWELv0")], ["decryption and phase of every wire after every gate"])

p("C02", "Batch gates equal the element-wise gates, for every size and schedule",
  "A batch gate on a list of pairs returns a list of the same length whose i-th ciphertext decrypts to the gate applied to the i-th pair, for every batch size including zero, every pattern of repeated operands and every goroutine schedule. Batches that run at the same time in different goroutines do not disturb each other, and the results of a batch (and of a batched blind rotation) keep their value while later batches run.",
  ["schedules", "inputs", "histories"], "all batch sizes and operand patterns, all interleavings of the worker goroutines of one or several batches",
  "The tests run batches of at most a handful of pairs, one at a time, and the race window between worker goroutines sharing pooled evaluators depends on scheduling that a test cannot enumerate; one batch gate is not tested at all.",
  ["gates/gates.go", "trgsw/trgsw.go"],
  [("one goroutine per element with a pooled evaluator", "trgsw/trgsw.go BatchBlindRotate"), ("parallel sample extraction and key switching", "gates/gates.go Batch*")],
  [("evaluator pool", "scratch evaluators shared by all batches", "trgsw/trgsw.go evaluatorPool")], ["decryption of every element after the call and again after later calls"])

p("C03", "Operations leave their operands, keys and all other objects untouched",
  "Every operation writes only to the object it returns or to its explicit output argument: operands, secret and cloud keys, lookup tables, re-encryption keys and every previously returned value keep their contents. The value a function returns as a new object shares no memory with its operands, with the keys or with previously returned new objects.",
  ["programs", "histories"], "all sequences of public operations over all objects alive, including operands that are the same object",
  "The tests check the result of one call and never look at what else changed; aliasing only shows when an old value is read again after a later operation.",
  ["tlwe/tlwe.go", "gates/gates.go", "evaluator/evaluator.go", "evaluator/programmable_bootstrap.go", "trlwe/trlwe.go", "trgsw/trgsw.go", "lut/lut.go", "lut/generator.go", "proxyreenc/proxyreenc.go", "poly/poly_mul.go", "poly/fourier_transform.go"],
  [("functions allocate their result", "tlwe/tlwe.go, gates/gates.go, proxyreenc/proxyreenc.go"), ("scratch buffers private to an evaluator", "evaluator/buffers.go, poly/poly_evaluator.go")],
  None, ["contents and memory ranges of all live objects after every call"])

p("C04", "Result buffers stay valid exactly as long as the evaluator promises",
  "A result that an evaluator hands out from its internal buffers keeps its value until four more such results have been requested from the same evaluator, and a result documented as a copy keeps it for ever. Calls that write to a caller-supplied output do not consume or disturb those results, work when the output is the input or an earlier result, and ignore what the output held before; resetting the evaluator never makes later results wrong. The same holds for the rotation and ring-ciphertext scratch buffers handed out by the polynomial evaluator and the buffer manager.",
  ["histories", "programs"], "all sequences of buffered, copying, in-place and resetting calls on one or several evaluators, with inputs that are themselves buffered results",
  "The tests use each result at once and then drop it; buffer reuse shows only for particular distances between producing and reading a result.",
  ["evaluator/evaluator.go", "evaluator/buffers.go", "evaluator/programmable_bootstrap.go", "poly/buffer_methods.go", "poly/buffer_manager.go"],
  [("round-robin of four result buffers", "evaluator/buffers.go GetNextResult"), ("copy on return", "evaluator/programmable_bootstrap.go BootstrapLUT"), ("rotation and TRLWE pools", "poly/buffer_methods.go")],
  [("result ring", "four buffers and the next index", "evaluator/buffers.go ResultPool")], ["decryption of every still-valid result after every call"])

p("C05", "Programmable bootstrapping evaluates every function on every message",
  "Programmable bootstrapping of an encryption of message x with function f and message modulus m yields an encryption of f(x) modulo m, for every function f from messages to integers, every x and every modulus the selected parameter level supports, through every entry point (function or precomputed table, returning or writing to an output). The output is again a valid input, so any chain of such evaluations computes the composed function, and a precomputed table can be reused any number of times.",
  ["inputs", "programs", "configurations"], "all functions, messages, moduli (also not powers of two) and levels, all entry points, all chains",
  "The tests try a few functions (identity, negation, constants, squares) on a few moduli per level; the space of functions and phases is exponential.",
  ["evaluator/programmable_bootstrap.go", "evaluator/evaluator.go", "lut/generator.go", "lut/encoder.go", "tlwe/programmable_encrypt.go"],
  [("lookup table as blind rotation test vector", "evaluator/programmable_bootstrap.go BootstrapLUTAssign"), ("table layout matched to message encoding", "lut/generator.go GenLookUpTableAssign, tlwe/programmable_encrypt.go")],
  None, ["decrypted message and phase after every bootstrap"])

p("C06", "Lookup tables encode exactly the given function at every rotation",
  "For every message modulus, function, output scale and polynomial degree, the generated table has at every rotation that lies nearest to message x the encoding of f(x), and its negation half a turn further, with a zero mask. All generator variants agree (returning or writing into an existing table whatever it held before, integer or raw outputs, custom modulus and scale), a custom generation leaves the generator as it was, and copying or clearing tables copies or clears every coefficient; switching a phase to the table size rounds to the nearest position and stays in range.",
  ["inputs", "configurations", "histories"], "all moduli up to the degree, all functions, all scales, all rotations, all prior contents of the output, all sequences of generator calls",
  "The tests look at a few coefficients for moduli 2 and 4 at one degree.",
  ["lut/generator.go", "lut/encoder.go", "lut/lut.go"],
  [("fill ranges, rotate by half a window, negate the tail", "lut/generator.go GenLookUpTableAssign, GenLookUpTableFullAssign"), ("encoder swap and restore", "lut/generator.go GenLookUpTableCustom"), ("rounding", "lut/generator.go ModSwitch, divRound")],
  None, ["coefficients of the generated tables"])

p("C07", "Encryption and decryption round-trip for every message, modulus and level",
  "Encrypting a bit, an integer message or a real number and decrypting with the same key gives the same value back (integers reduced to the modulus, negative ones too), as long as the noise is below half the distance between messages; with zero noise the encrypted value is the encoding itself. Plain encoding and decoding agree with it for every modulus, message and scale, and adding, subtracting or negating integer encryptions adds, subtracts or negates the messages modulo the modulus. This holds at every parameter level, for level-0, level-1 and ring ciphertexts, and for any previous content of the receiving object.",
  ["inputs", "configurations"], "all messages, moduli, keys, noise values below the threshold, levels and ciphertext kinds",
  "The tests sample a few messages with the default noise; the decision boundary and non power-of-two moduli are never reached.",
  ["tlwe/tlwe.go", "tlwe/programmable_encrypt.go", "trlwe/trlwe.go", "lut/encoder.go", "utils/utils.go"],
  [("torus encoding", "tlwe/programmable_encrypt.go, lut/encoder.go, utils/utils.go"), ("rounding decode", "tlwe/programmable_encrypt.go DecryptLWEMessage, lut/encoder.go Decode")],
  None, ["decrypted value for ciphertexts of every phase near the decision boundaries"])

p("C08", "Linear ciphertext operations are exact modulo 2^32",
  "Sum, difference, negation, component-wise product and sum or difference with a multiple of another ciphertext are computed exactly modulo 2^32 in every component, mask and body alike, for all operands and multipliers. Consequently the phase of the result under any key is the same linear combination of the operands' phases, also when operands and output are the same object.",
  ["inputs", "programs"], "all ciphertexts, multipliers, keys and aliasing patterns of operands and output",
  "The tests add and negate one pair of encryptions of small values and only decrypt the sign.",
  ["tlwe/tlwe.go", "evaluator/gates_helper.go"],
  [("component-wise uint32 arithmetic", "tlwe/tlwe.go Add, AddAssign, Sub, Neg, Mul, AddMul, SubMul"), ("gate input preparation", "evaluator/gates_helper.go")],
  None, ["every component of the result, and its phase"])

p("C09", "Cloud keys encode the secret key and key switching preserves the phase",
  "Every entry of a generated cloud key is an encryption, with the configured noise, of the value the scheme prescribes for its position: digit multiples of each level-1 key bit in the key switching part, gadget multiples of each level-0 key bit in the bootstrapping part, the constant 1/8 test vector and the matching decomposition offset. Switching a level-1 ciphertext with it yields a level-0 ciphertext of the same phase up to the rounding and noise of the decomposition, without bias, for every mask value and through both entry points, whatever the output held before.",
  ["inputs", "configurations"], "all secret keys, key positions, mask values including digit-carry and wrap-around boundaries, all levels",
  "Key material is only exercised through random gates, which tolerate errors up to a sixteenth of the torus, so wrong rare entries or a lost rounding step go unseen.",
  ["cloudkey/cloudkey.go", "trgsw/keyswitch.go", "trgsw/trgsw.go"],
  [("key generation by position", "cloudkey/cloudkey.go genKeySwitchingKey, genBootstrappingKey, genDecompositionOffset, genTestvec"), ("rounded digit decomposition", "trgsw/keyswitch.go, trgsw/trgsw.go IdentityKeySwitching")],
  None, ["phase of every key entry, phase before and after switching"])

p("C10", "Changing the security level at run time never corrupts results",
  "After the security level is changed, keys, encryptions, gates, batch gates, lookup tables and bootstraps work at the new level exactly as in a process that used that level from the start, whatever levels were used before and however often one switches back and forth. Keys and ciphertexts made at a level work again whenever that level is selected.",
  ["histories", "configurations"], "all sequences of level changes interleaved with key generation, encryption, gates, batches and programmable bootstraps",
  "The tests set a level once per test and never run gates or batches after a switch between levels of different dimensions.",
  ["params/params.go", "gates/gates.go", "trgsw/trgsw.go", "evaluator/buffers.go", "lut/generator.go"],
  [("every function reads the current level's parameters", "params/params.go Get*"), ("cached evaluators follow the level", "gates/gates.go, trgsw/trgsw.go evaluatorPool")],
  [("current level", "global parameter selection", "params/params.go CurrentSecurityLevel")], ["decryption of all results at every level along the history"])

p("C11", "Proxy re-encryption moves ciphertexts between keys, preserving plaintexts",
  "A ciphertext under the delegator's key, re-encrypted with a key generated from delegator to delegatee (symmetric or from the delegatee's public key, default or custom decomposition into fewer than 32 bits), has the same phase under the delegatee's key up to the rounding and noise its parameters imply, for every mask value, and chains of re-encryptions compose. The result is not readable with the delegator's key, a re-encryption key does not work in the opposite direction, and public-key encryption decrypts to its plaintext under the matching secret key only.",
  ["inputs", "configurations", "histories"], "all key pairs, plaintexts, mask values, decomposition parameters within 31 bits, levels and chains",
  "The tests tolerate a share of wrong decryptions on a few ciphertexts, so systematic rounding errors or wrong rare digits pass.",
  ["proxyreenc/proxyreenc.go"],
  [("digit-wise key encryptions", "proxyreenc/proxyreenc.go New*Key*WithParams"), ("rounded decomposition of the mask", "proxyreenc/proxyreenc.go ReencryptTLWELv0"), ("random signed combination of zero encryptions", "proxyreenc/proxyreenc.go EncryptF64")],
  None, ["phase under every party's key after each step"])

p("C12", "Independent evaluators may run concurrently and give sequential results",
  "Goroutines that each use their own evaluator (newly created or derived from another one) while sharing keys, tables and input ciphertexts get the results they would get alone, under every schedule and without data races. The same holds for encryption, decryption, key generation and lookup-table generation running at the same time in different goroutines.",
  ["schedules"], "all interleavings of any number of goroutines with private evaluators and shared read-only keys",
  "No test runs two evaluators concurrently, and a test run observes one schedule.",
  ["evaluator/evaluator.go", "evaluator/buffers.go", "poly/poly_evaluator.go", "cloudkey/cloudkey.go", "trgsw/trgsw.go", "tlwe/tlwe.go"],
  [("per-evaluator scratch buffers", "evaluator/buffers.go, poly/poly_evaluator.go"), ("derived evaluators get new buffers", "evaluator/evaluator.go ShallowCopy, poly/poly_evaluator.go ShallowCopy")],
  None, ["results of all goroutines; the race detector's view of their memory accesses"])

p("C13", "Every encryption uses fresh randomness of the configured strength",
  "No two ciphertexts or key entries ever share their mask, even among very many encryptions and when encryptions run concurrently; masks are uniform, secret keys are independent balanced bits, and public-key encryptions are re-randomised each time. The noise added to a ciphertext has zero mean and the requested standard deviation - neither missing nor larger - in every component and for every ciphertext kind.",
  ["histories", "schedules", "inputs"], "all sequences of key generations and encryptions, sequential or concurrent",
  "Tests decrypt what they encrypt and would pass with a constant mask or without noise.",
  ["utils/utils.go", "tlwe/tlwe.go", "trlwe/trlwe.go", "key/key.go", "proxyreenc/proxyreenc.go", "cloudkey/cloudkey.go"],
  [("a random generator per encryption", "tlwe/tlwe.go, trlwe/trlwe.go, key/key.go, proxyreenc/proxyreenc.go"), ("Gaussian sampling", "utils/utils.go")],
  None, ["masks, phases and keys"])

p("C14", "Polynomial arithmetic is that of the negacyclic ring",
  "Products, accumulating products and transform round trips of polynomials agree with exact arithmetic modulo X^N+1 and 2^32 whenever the exact result is within floating-point precision, for every supported degree and every operand, also when the output is an operand. Transform-domain sums, differences, products and scalings correspond to the same ring operations, and multiplying by X^k is the exact signed rotation for every integer k, up to one unit in the last place for negated coefficients.",
  ["inputs", "configurations"], "all degrees, coefficient vectors, exponents k (negative and beyond 2N included) and aliasing of operands and output",
  "The tests multiply a few small or sparse polynomials at one or two degrees.",
  ["poly/poly_mul.go", "poly/fourier_transform.go", "poly/fourier_ops.go", "poly/poly_evaluator.go", "poly/buffer_methods.go", "poly/poly.go"],
  [("folded FFT with unrolled butterflies", "poly/fourier_transform.go"), ("four-way unrolled complex arithmetic", "poly/fourier_ops.go"), ("signed rotation", "poly/buffer_methods.go PolyMulWithXKInPlace")],
  None, ["coefficients of the results"])

p("C15", "Ring ciphertext operations act on the phase as the scheme prescribes",
  "Extracting coefficient k of a ring ciphertext gives a ciphertext whose phase is that coefficient, for every k; gadget decomposition yields balanced digits that recombine to the input within the gadget precision; an external product multiplies the phase polynomial by the encrypted scalar, a controlled selection returns the selected operand's phase, and a blind rotation rotates the test vector by the rounded phase of its input. The two implementations of each of these operations agree within noise, for all inputs and all levels.",
  ["inputs", "configurations"], "all ring ciphertexts, indices, selector values, test vectors, phases including rounding and wrap-around boundaries, all levels",
  "The tests check index 0, one selector value or constant polynomials, and compare signs only.",
  ["trlwe/trlwe.go", "trlwe/trlwe_ops.go", "trgsw/trgsw.go", "evaluator/evaluator.go", "poly/decomposer.go"],
  [("sample extraction", "trlwe/trlwe.go, trlwe/trlwe_ops.go"), ("decomposition", "poly/decomposer.go, trgsw/trgsw.go decompositionInPlace"), ("external product, CMUX, blind rotation", "trgsw/trgsw.go, evaluator/evaluator.go")],
  None, ["phase polynomials of inputs and outputs"])

p("C16", "Integers survive bit conversion, encryption and bitwise circuits",
  "Converting an unsigned integer of any width to bits gives its binary digits least significant first, and converting bits back gives the integer, for every value, every width and bit lists shorter or longer than the width. Encrypting and decrypting bit lists preserves length, order and values, so an adder built from gates over encrypted bits adds the integers.",
  ["inputs", "programs"], "all values, widths and list lengths; all integer pairs for the encrypted adder",
  "The tests convert a few constants.",
  ["bitutils/bitutils.go", "gates/gates.go"],
  [("shift-and-mask conversion", "bitutils/bitutils.go"), ("element-wise encryption", "bitutils/bitutils.go EncryptBits, DecryptBits")],
  None, ["bit lists and integers"])

p("C17", "Parameter profiles are the published ones and mutually consistent",
  "For every security level each accessor returns the published parameter set of that level, whatever level was selected before: dimensions, noise, gadget and key switching decomposition of all ciphertext kinds agree with each other and with the level's description, and key and ciphertext sizes follow them. The parameters leave the noise margin that the level's message space needs, and an unknown level behaves as the documented default.",
  ["configurations", "histories"], "all levels (unknown ones too) and all sequences of level changes",
  "The tests print or compare a few values of a few levels; a wrong noise or decomposition parameter degrades security or reliability without failing a test.",
  ["params/params.go", "tlwe/tlwe.go", "trlwe/trlwe.go", "trgsw/trgsw.go", "key/key.go"],
  [("parameter tables", "params/params.go"), ("accessors switch on the current level", "params/params.go Get*")],
  [("current level", "global parameter selection", "params/params.go CurrentSecurityLevel")], ["returned parameters, sizes of created objects"])

p("C18", "Bootstrapping refreshes noise to a fixed level, at any circuit depth",
  "The noise of a bootstrapped ciphertext depends only on the security level: its spread stays within the level's predicted output noise, with negligible bias, whatever the noise, mask or body of the input (as long as the input is decodable) and however many bootstraps preceded it. Hence noise does not grow with circuit depth, and both gate and programmable bootstraps at every level leave the decision margin intact.",
  ["inputs", "histories", "configurations"], "all decodable inputs, all depths, all levels",
  "The tests decrypt the sign or message after one bootstrap, which tolerates tens of times the nominal noise.",
  ["evaluator/evaluator.go", "trgsw/keyswitch.go", "poly/decomposer.go", "poly/fourier_transform.go", "cloudkey/cloudkey.go"],
  [("blind rotation with small-noise keys", "evaluator/evaluator.go"), ("gadget offset and key switching rounding", "poly/decomposer.go, trgsw/keyswitch.go")],
  None, ["phase error statistics of bootstrapped ciphertexts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
