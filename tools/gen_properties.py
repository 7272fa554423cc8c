#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

JF = ["jindo/prover.go", "jindo/verifier.go", "jindo/encoder.go", "jindo/entities.go", "jindo/params.go", "jindo/rns.go", "jindo/utils.go"]
BF = ["buckler/prover.go", "buckler/verifier.go", "buckler/context.go", "buckler/compile.go", "buckler/constraint.go", "buckler/linear.go", "buckler/encoder.go", "buckler/utils.go"]
ONE = "The tests run one fixed honest flow per parameter set (one random input, one point, one process, no faults)"

prop("J01", "Honest polynomial commitments and evaluation proofs always verify",
 "For every supported field, size and batch, every batch of polynomials of any length from one coefficient up to the rank, and every evaluation point, a prover that follows the protocol returns the true evaluations and a proof that every verifier built from the same parameters and reference string accepts. This stays true when prover and verifier are in different processes, when either is rebuilt from the reference string after a crash, when messages are delayed, duplicated or reordered, and after any history of earlier operations on the same objects.",
 ["inputs", "configurations", "histories", "fault_sequences", "crash_points"],
 "all polynomials, lengths, points, batch sizes, fields, CRS strings, operation histories, crashes/restarts and message schedules",
 ONE + "; completeness over lengths, boundary rows/columns, special points and long histories is not sampled.",
 JF, [("column/row layout with blinded first and last row", "jindo/prover.go genFirstLastRow/commitColTo"), ("linear evaluation of rows and columns", "jindo/utils.go leftVec/rightVec"), ("CRS expansion", "jindo/entities.go NewCommitKey")],
 ["Prover.Commit/Evaluate results", "Verifier.Verify verdict", "reference evaluation by Horner in math/big"])

prop("J02", "Altered, mixed or replayed commitment messages are rejected",
 "If any part of the statement (commitments, their order, evaluation point, claimed values, reference string) or any part of the evaluation proof reaches the verifier changed, swapped with another session's, or replayed for another statement, so that it is no longer the honest proof of that statement, the verifier rejects it. Rewrites of the proof that leave every checked quantity within the published bounds are not covered.",
 ["inputs", "histories", "fault_sequences"],
 "all message corruptions, substitutions, reorderings and replays across sessions, provers and reference strings",
 ONE + "; no test ever shows the verifier a wrong proof.",
 JF, [("norm, consistency, inner/outer commitment and evaluation checks", "jindo/verifier.go Verify"), ("transcript absorbs the statement", "jindo/verifier.go Verify")],
 ["Verifier.Verify verdict"])

prop("J03", "No deviating prover gets a false polynomial evaluation accepted",
 "Whatever messages a prover builds from the published commitment key and the public challenges, the verifier does not accept a claimed evaluation that differs from the evaluation of the polynomial fixed by the commitment. In particular lying about a value, opening to another polynomial, altering or swapping rows, columns or batch members, shifting error between parts of the proof, or adapting one part after the challenges are known is rejected.",
 ["inputs", "fault_sequences", "configurations", "histories"],
 "all Byzantine prover strategies in the catalogue, at every row, column, batch position and parameter set",
 "The tests never run a cheating prover; soundness is a statement about all provers.",
 JF, [("outer commitment check", "jindo/verifier.go verifyOuterCommitment"), ("inner commitment check", "jindo/verifier.go verifyInnerCommitment"), ("consistency check", "jindo/verifier.go verifyConsistency"), ("evaluation check", "jindo/verifier.go verifyEval")],
 ["Verifier.Verify verdict versus the true evaluation"])

prop("J04", "Only short openings are accepted",
 "The verifier accepts an evaluation proof only if the opening it carries is short: the Euclidean norms of the revealed inner commitments with their outer error, and of the revealed response with its inner error, are each below the published bounds. A proof that satisfies every linear check but exceeds a bound is rejected.",
 ["inputs", "fault_sequences", "configurations"],
 "all proofs obtained by scaling, shifting or lengthening openings by any factor, around and beyond each bound",
 "Honest proofs sit far inside the bounds, so the tests never reach them; dropping a term from a norm check changes no test result.",
 ["jindo/verifier.go", "jindo/params.go", "jindo/rns.go"], [("two-norm checks", "jindo/verifier.go verifyNorm"), ("bounds", "jindo/params.go resTwoNm/inComDcmpTwoNm")],
 ["Verifier.Verify verdict versus norms recomputed in math/big"])

prop("J05", "Safe copies of a prover can be used concurrently",
 "Safe copies of a prover, and provers built separately, may commit and evaluate at the same time under any interleaving. They never race on shared memory, none disturbs another, and every result is what it would be had each run alone: true values and proofs that verify.",
 ["schedules", "inputs"],
 "all interleavings of Commit and Evaluate calls on a prover, its safe copies, and provers and verifiers that share parameters",
 "No test uses SafeCopy at all, and none runs two operations at once.",
 ["jindo/prover.go", "jindo/encoder.go", "jindo/rns.go", "math/csprng/gaussian_twin_cdt.go"], [("fresh buffers and samplers per copy", "jindo/prover.go SafeCopy")],
 ["data races under the simulated schedule", "verdicts and evaluations"], hook="yield points, inserted by a build overlay")

prop("J06", "Commitment randomness is fresh across calls, copies, threads and restarts",
 "No two commitments ever share blinding: committing again, to the same or another polynomial, from the same prover, a safe copy, another thread, or a prover rebuilt after a crash, uses randomness independent of all earlier blinding and of the reference string. Within one commitment every blinded row, the mask and every hiding term has its own randomness too.",
 ["histories", "schedules", "crash_points"],
 "all histories of commits over copies, threads and restarts that share one reference string",
 "Reused randomness changes no verdict, so verify-only tests cannot see it.",
 ["jindo/prover.go", "jindo/encoder.go", "math/csprng/uniform.go"], [("samplers seeded from system entropy", "math/csprng/uniform.go NewUniformSampler"), ("random row and mask", "jindo/prover.go genFirstLastRow/commitColTo")],
 ["openings returned by Commit", "entropy requested from the system"], hook="entropy source redirected by a build overlay")

prop("J07", "Commitment challenges depend on everything sent before them",
 "In an evaluation proof, the batching challenges depend on the reference string, every commitment in order, the evaluation point and every claimed value, and the column challenges depend on all of these and on every partial evaluation including the mask. Changing any bit of one of them changes the challenges, and prover and verifier always derive the same ones.",
 ["inputs", "configurations"],
 "every message component, at every batch position and polynomial of it, for every parameter set",
 "An unbound message changes no honest verdict; it only enables forgeries that tests do not attempt.",
 ["jindo/prover.go", "jindo/verifier.go", "jindo/entities.go", "jindo/utils.go"], [("SHAKE128 transcript", "jindo/prover.go Evaluate, jindo/verifier.go Verify")],
 ["outputs of the challenge hash for a message and its single-component variants", "forgeries by a prover that controls unbound components"], hook="hash redirected to a recording wrapper by a build overlay")

prop("B01", "Every satisfied circuit can be proved and the proof verifies",
 "For every circuit built from arithmetic, sum, linear, infinity-norm, two-norm and approximate-norm constraints in any combination, and every assignment that satisfies it, proving succeeds and every verifier compiled from the same circuit accepts the proof given the same public values. This holds for every supported rank, field and bound, and in whatever process, after whatever crash, restart or earlier proofs.",
 ["programs", "inputs", "configurations", "histories", "crash_points", "fault_sequences"],
 "all circuits (constraint kinds, counts, degrees, repeated witnesses, bounds), satisfying assignments, ranks, fields, and histories of proofs and restarts",
 ONE + " of a single circuit shape; most constraint kinds are never exercised.",
 BF, [("constraint compilation", "buckler/context.go"), ("norm decompositions", "buckler/utils.go, buckler/prover.go Prove"), ("PIOP prover/verifier", "buckler/prover.go, buckler/verifier.go")],
 ["Prover.Prove result", "Verifier.Verify verdict", "reference relation model"])

prop("B02", "A violated constraint is never accepted",
 "If the assignment given to a prover that otherwise follows the protocol violates any constraint of the circuit — any arithmetic row, any sum, any linear relation, any norm bound by even one — the verifier rejects the resulting proof, wherever the violation is and even if several violations cancel each other.",
 ["programs", "inputs", "configurations"],
 "all circuits, all single and multiple violations at every row, constraint index and kind, including cancelling ones and bounds exceeded by one",
 "The tests only check satisfying assignments, so a verifier that ignores a constraint passes them.",
 BF, [("batched arithmetic, linear and sum checks", "buckler/verifier.go arithCheck/linCheck/sumCheck"), ("norm constraints compiled to digits", "buckler/context.go")],
 ["Verifier.Verify verdict versus the reference relation model"])

prop("B03", "Altered, mixed or replayed circuit proofs and public inputs are rejected",
 "If any commitment, claimed mask sum, evaluation or evaluation proof of a circuit proof, any entry of the public inputs, the reference string or the circuit reaches the verifier changed, swapped with another session's, or replayed for another statement, so that it is no longer the honest proof of that statement, the verifier rejects. Rewrites of the evaluation proof that leave every checked quantity within the published bounds are not covered.",
 ["inputs", "histories", "fault_sequences"],
 "all corruptions and substitutions of proof components and public inputs across sessions, circuits and reference strings",
 "No test shows the verifier a proof for another statement.",
 BF, [("transcript", "buckler/verifier.go Verify"), ("checks on evaluations", "buckler/verifier.go")],
 ["Verifier.Verify verdict"])

prop("B04", "Circuit-proof challenges depend on the statement and everything sent before",
 "Every challenge of a circuit proof depends on all public inputs and on every commitment and claimed sum sent before it, in order. Changing any entry of the public inputs, or any earlier message, changes every later challenge, so that no prover can choose a message or public value after seeing the challenge it had to precede.",
 ["inputs", "programs", "fault_sequences"],
 "every public input entry and every message of every circuit shape",
 "An unbound message changes no honest verdict; it only enables forgeries that tests do not attempt.",
 BF, [("Fiat-Shamir transcript", "buckler/prover.go Prove, buckler/verifier.go Verify")],
 ["outputs of the transcript hash for a proof and its single-component variants", "adaptive forgeries"], hook="hash redirected to a recording wrapper by a build overlay")

prop("B05", "No deviating prover gets a false statement accepted",
 "Whatever a prover does — commit to other witnesses or digits, use other constraints, claim other mask sums, use a quotient or remainder of too high a degree, or lie about evaluations — the verifier does not accept a proof for public inputs and committed witnesses that violate the circuit.",
 ["programs", "inputs", "fault_sequences"],
 "all Byzantine prover strategies in the catalogue, for every constraint kind and position",
 "The tests never run a cheating prover; soundness is a statement about all provers.",
 BF, [("degree checks of remainders", "buckler/verifier.go linCheck/sumCheck"), ("digit constraints", "buckler/context.go AddInfNorm*/AddSq*/AddApprox*"), ("evaluation proof", "jindo/verifier.go")],
 ["Verifier.Verify verdict versus the reference relation model"], hook="entry hooks on the prover's calls, inserted by a build overlay")

prop("B06", "Proving and verifying do not depend on history or concurrency",
 "A verdict, and whether proving succeeds, depends only on the circuit, the reference string, the assignment and the proof: not on earlier proofs or verifications with the same prover, verifier or shared linear relations, and not on what other provers and verifiers, of this or other circuits, do at the same time. Neither operation changes the assignment or the proof it is given, and a prover and the verifier compiled with it can run at the same time without racing.",
 ["histories", "schedules"],
 "all interleavings of one prover and one verifier of a compiled circuit and of other circuits sharing linear relations, and all histories of satisfied and violated, accepted and rejected operations",
 "Tests make one proof and one verification, in sequence, with fresh objects.",
 BF + ["math/bigpoly/base_op.go"], [("per-proof state", "buckler/prover.go witnessData"), ("pooled buffers", "math/bigpoly/base_op.go")],
 ["verdicts, deep snapshots of arguments, data races under the simulated schedule"], hook="yield points, inserted by a build overlay")

prop("B07", "Malformed proofs and assignments are rejected cleanly",
 "A proof with missing, extra, truncated, empty or wrongly shaped parts is rejected, and an assignment whose type, number or length of values does not match the compiled circuit is reported as an error or rejected. In neither case does the library crash, hang, or accept, and afterwards the same prover and verifier still work.",
 ["inputs", "fault_sequences", "histories"],
 "all truncations, omissions and shape changes of every part of a proof, and all mismatches between an assignment and the circuit",
 "The tests never present malformed input.",
 ["buckler/verifier.go", "buckler/compile.go", "buckler/prover.go", "jindo/verifier.go"], [("shape checks", "buckler/verifier.go, jindo/verifier.go"), ("assignment walk", "buckler/compile.go")],
 ["panics, verdicts and errors"])

prop("B08", "Circuit proofs never reuse or omit blinding",
 "Every proof blinds every committed witness and masks every linear and sum check with fresh randomness. Proving the same assignment twice, concurrently, or again after a restart never repeats a committed blinded witness, a mask, a mask sum or a commitment, and the blinding does not alter the committed values.",
 ["histories", "schedules", "crash_points"],
 "all histories of proofs of equal and different assignments across restarts, for every constraint kind",
 "Missing or repeated blinding changes no verdict, so verify-only tests cannot see it.",
 ["buckler/encoder.go", "buckler/prover.go"], [("randomised encoding", "buckler/encoder.go RandEncodeTo"), ("sum masks", "buckler/prover.go sumCheckMask")],
 ["polynomials handed to the commitment scheme, proofs"], hook="entry hooks on the commitment calls, inserted by a build overlay")

prop("E01", "Failing entropy never yields weakened output",
 "If the system's entropy source fails, or delivers its bytes in short pieces, no sampler, commitment or proof is ever produced from missing or partial randomness: a failure stops the operation with an error or panic, and short deliveries have no effect on the result. Once entropy is available again, new objects work normally.",
 ["fault_sequences", "inputs"],
 "failure or short delivery at every read of the entropy source during set-up, commitment, evaluation and proving",
 "The entropy source never fails in the tests.",
 ["math/csprng/uniform.go", "buckler/internal/zp220/element.go", "jindo/prover.go", "buckler/prover.go"], [("seeding checks the error", "math/csprng/uniform.go NewUniformSampler"), ("field randomness reads in full", "element.go SetRandom")],
 ["return, error or panic of each operation", "comparison with the fault-free run"], hook="entropy source redirected by a build overlay")

prop("M01", "Polynomial evaluators can be shared by concurrent callers",
 "One ring evaluator used by any number of callers at once gives each caller the result of its operation as if alone, never races, and never lets one operation's values leak into another's, whatever earlier operations left in its scratch memory. Inputs are left unchanged unless they are also the output.",
 ["schedules", "histories", "inputs"],
 "all interleavings of ring operations on shared evaluators, with scratch buffers in any state, aliased and distinct outputs",
 "The evaluators have no tests of their own and no concurrent test.",
 ["math/bigpoly/base_op.go", "math/bigpoly/cyclic.go", "math/bigpoly/cyclotomic.go", "math/bigpoly/ntt.go", "math/bigpoly/vec.go"], [("scratch pool", "math/bigpoly/base_op.go pool")],
 ["results versus schoolbook arithmetic in math/big", "data races under the simulated schedule"], hook="yield points and pool control, inserted by a build overlay")

prop("M02", "Seeded samplers are reproducible and independent",
 "A sampler built from a seed produces the same stream in every process and restart, however its reads are split or interleaved with other samplers, and different seeds give different streams. Bounded samples stay within their bound and are uniform, Gaussian samples stay within their tail around the requested centre and follow the requested distribution, unseeded samplers and safe copies never repeat each other's output, and reading overwrites the buffer it is given whatever it held.",
 ["histories", "schedules", "inputs", "crash_points"],
 "all seeds, bounds, centres and deviations, read splits, interleavings and restarts",
 "The samplers have no tests of their own.",
 ["math/csprng/uniform.go", "math/csprng/gaussian_rounded.go", "math/csprng/gaussian_twin_cdt.go", "math/csprng/gaussian_cosac.go"], [("AES-CTR stream keyed by the seed", "math/csprng/uniform.go")],
 ["sample streams versus a reference stream"], hook="entropy source redirected by a build overlay")

prop("V01", "Vector streams survive faulty readers and writers",
 "A vector written to a stream and read back through readers that deliver any chunking is the same vector, in the synchronous and asynchronous form, with exact byte counts. If the stream fails, ends early or carries an out-of-range element, the reader or writer reports an error (the asynchronous one through its return or its channel, which is always closed) and never reports success with wrong contents, whatever the schedule of its workers.",
 ["fault_sequences", "schedules", "inputs", "crash_points"],
 "all chunkings, error and end-of-stream positions, corrupted elements, worker counts and worker schedules",
 "The tests use in-memory buffers that never fail and one real schedule.",
 ["buckler/internal/zp110/vector.go", "buckler/internal/zp220/vector.go", "buckler/internal/zp440/vector.go", "buckler/internal/zp880/vector.go", "jindo/internal/zp/vector.go", "examples/bfv/zp/vector.go", "examples/mult/zp/vector.go"], [("chunked read, parallel conversion, error channel", "vector.go AsyncReadFrom/ReadFrom/WriteTo")],
 ["decoded vector, byte counts, errors, channel closure, data races under the simulated schedule"], hook="goroutines, wait groups and channels redirected by a build overlay")

prop("F01", "Field arithmetic is correct for every element",
 "Every field operation (addition, multiplication, inversion, exponentiation, conversion, comparison) returns the mathematically correct result for every pair of elements, on every code path including assembly.",
 ["inputs"], "all field elements and operations", "The tests sample random and a few boundary elements.",
 ["jindo/internal/zp/element.go", "buckler/internal/zp110/element.go", "buckler/internal/zp220/element.go", "buckler/internal/zp440/element.go", "buckler/internal/zp880/element.go"], [("Montgomery arithmetic", "element.go")])

prop("F02", "Samplers follow their target distributions",
 "Uniform samples are uniform and Gaussian samples follow the discrete Gaussian of the requested centre and deviation to the precision the security proof needs.",
 ["inputs"], "all parameters of all samplers", "A finite sample cannot settle a statistical distance.",
 ["math/csprng/gaussian_twin_cdt.go", "math/csprng/gaussian_cosac.go", "math/csprng/gaussian_rounded.go", "math/csprng/uniform.go"], [("tables and rejection", "math/csprng")])

prop("F03", "Generated parameters reach the claimed security level",
 "For every size, batch and modulus, the generated commitment parameters make the underlying lattice problems hard at the intended security level and make the published bounds wide enough for honest proofs.",
 ["configurations"], "all parameter choices", "Hardness is not observable by running the code.",
 ["jindo/params.go"], [("parameter search", "jindo/params.go NewParameters")])

prop("F04", "The modulus generator writes a suitable, usable field package or fails",
 "Asked for a bit length or a range (whose end is excluded), the modulus generator writes a package for a prime base^exponent + 1 of such a length, with the exponent a power of two, the base at most 2^25 and roots of unity of order 2^31, whenever there is one, and otherwise ends with an error; asked for a base and an exponent, it uses exactly that prime, or ends with an error if it is none. The package is complete, has the name and place that were asked for, and works with the library; nothing is written elsewhere. If a disk operation fails or the process dies at any point, success is never reported for an incomplete package, and running the request again gives the same package as running it once.",
 ["inputs", "configurations", "fault_sequences", "crash_points"],
 "all lengths, ranges, bases, exponents, names and directories, with a failure or crash at every statement and disk operation",
 "The generator has no tests.",
 ["jindo-modulus/main.go"], [("prime search", "jindo-modulus/main.go findModulus"), ("generation and completion of the package", "jindo-modulus/main.go main")],
 ["exit status", "files written", "the generated package, compiled and used by the commitment scheme"], hook="system calls and exit of the command redirected by a build overlay")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
