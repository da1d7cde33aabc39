import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Honest GKR proofs are always accepted",
"For every layered circuit whose consecutive layers agree on their width, every batch of a power-of-two number of instances, every split of the batch into a power-of-two number of chunks and every number of cores, the proof the prover generates from the circuit's own assignment is accepted by the verifier together with that assignment's inputs and outputs. Neither the evaluation, nor the prover, nor the verifier crashes or blocks on such an input.",
["programs","inputs","configurations"],
"all well-formed circuits (any gates, any wiring, several wires sharing a gate or an output, unused outputs), all field inputs, all chunkings 1..2^bN, all core counts >= 1",
"The tests prove three fixed circuits (two 2-layer toys with one instance per chunk, MiMC with 2 chunks) and never a single-chunk verification, a repeated gate, a right operand above 0 with several instances per chunk, a circuit of width 1 or more than 2, or a batch of one.",
["circuit/layers.go","circuit/circuit.go","gkr/prover.go","gkr/verifier.go","sumcheck/par.go","polynomial/chunked.go"],
[("prover: one sumcheck per layer, from outputs to inputs","gkr/prover.go Prove"),("verifier: replays the sumchecks and the layer transitions","gkr/verifier.go Verify")],
[("layer claims","left/right claimed values of a layer at the sumcheck's final point","gkr/prover.go Proof")],
["gkr.Prover.Prove","gkr.Verifier.Verify","circuit.Circuit.Assign"])

p("C02","The GKR verifier accepts only proofs whose every check holds",
"The verifier accepts a proof, an input batch and an output batch only if every round polynomial of every layer sums to the running claim, every layer's last claim is the combination of that layer's wiring, gates and claimed left and right values, and the last left and right values are the inputs' multilinear extension at the final point. Altering any single coefficient or claimed value of an honest proof makes it rejected, at whichever layer and round it sits.",
["inputs","programs","fault_sequences"],
"all circuits, all proofs (honest, altered in one or several places, spliced from several honest proofs, forged so that all checks but one hold), all statements",
"The existing tests only ever verify honest proofs and assert acceptance: no test checks a rejection, and a verifier that skips any one of the checks passes all of them.",
["gkr/verifier.go","sumcheck/verifier.go","polynomial/eq.go","polynomial/chunked.go","circuit/gates.go"],
[("round check P(0)+P(1) = claim","sumcheck/verifier.go Verify"),("layer check against combinator","gkr/verifier.go Verify"),("final check against the inputs","gkr/verifier.go Verify")],
[("claim","running sumcheck claim","gkr/verifier.go"),("qPrime, qL, qR","evaluation point of the next claims","gkr/verifier.go")],
["gkr.Verifier.Verify verdict"])

p("C03","An accepted proof vouches for its own inputs and outputs only",
"A proof accepted for an input batch and an output batch is not accepted for any batch whose outputs or inputs differ in some instance, nor for a batch with more or fewer values.",
["inputs","fault_sequences"],
"all circuits and batches; all alterations of the outputs or inputs accompanying an accepted proof, including alterations chosen with knowledge of the public evaluation points, and batches of another size or chunked unevenly",
"The existing tests never verify a proof against a statement other than its own.",
["gkr/verifier.go","gkr/prover.go","polynomial/chunked.go"],
[("output claim at the initial point","gkr/verifier.go Verify, gkr/prover.go GetInitialQPrimeAndQ"),("input claims at the final point","gkr/verifier.go Verify")],
[("initial point","where the outputs' multilinear extension is evaluated","gkr/prover.go")],
["gkr.Verifier.Verify verdict"])

p("C04","Malformed GKR proofs are rejected without crashing",
"Whatever number of layers, claims, round polynomials or coefficients a proof contains, the verifier answers, and it rejects every proof whose layout differs from what the circuit and the batch size call for, in particular round polynomials of higher degree than the layer's gates allow.",
["inputs","fault_sequences"],
"all proof layouts: missing, extra, empty or nil layers, claims, round polynomials and coefficients, at every layer and round",
"The existing tests only verify proofs made by the prover for the same circuit and batch size.",
["gkr/verifier.go","sumcheck/verifier.go"],
[("layout check before any evaluation","gkr/verifier.go hasExpectedShape")],
None,["gkr.Verifier.Verify verdict or panic"])

p("C05","Circuit evaluation treats each instance independently",
"Evaluating a circuit gives, for every layer, output wire and instance, the sum over the wires feeding that output of the gate applied to that same instance's left and right operands in the previous layer, with 0 for outputs fed by no wire. The result does not depend on how the batch is chunked nor on the number of cores.",
["programs","inputs","configurations","schedules"],
"all circuits, batch sizes, chunkings, core counts, worker interleavings",
"Tests evaluate two toy circuits with one instance per chunk, and MiMC where the right operand is always wire 0.",
["circuit/layers.go","circuit/circuit.go","circuit/gates.go"],
[("indexing operand*N+instance, one worker per chunk","circuit/layers.go Evaluate"),("layers chained","circuit/circuit.go Assign")],
[("assignment","values of each layer, per chunk","circuit/circuit.go Assignment")],
["circuit.Assignment.Values"])

p("C06","The MiMC proving circuit computes the MiMC permutation",
"For every key and state, each instance of the 91-layer MiMC circuit fed with (key, key-shifted state) outputs the MiMC permutation of that state under that key, plus the key. Adding the initial state gives the MiMC hash update, so a batch proved by GKR is a batch of MiMC hashes.",
["inputs","configurations"],
"all keys and states, all batch sizes, chunkings and core counts",
"One random batch of one shape is compared, and only at its first instance.",
["examples/mimc.go","hash/mimc.go","hash/ark.go","circuit/gates.go"],
[("one cipher and one copy wire per round, last round without copy","examples/mimc.go CreateMimcCircuit"),("permutation rounds","hash/mimc.go MimcPermutationInPlace")],
None,["outputs of Assign","hash.MimcUpdateInplace"])

p("C07","The multi-threaded sumcheck prover equals the single-threaded one",
"Whatever the number of chunks, the number of cores and the interleaving of the workers, the multi-threaded sumcheck prover terminates and yields exactly the claim, the round polynomials, the challenges and the final claims of the single-threaded prover on the unchunked tables. A round's challenge is derived only after every chunk has contributed to that round, exactly once.",
["schedules","inputs","configurations"],
"all worker interleavings, chunk counts 1..2^bN, core counts from 1 to beyond the number of chunks, table contents, gate sets",
"One shape (bN = 8, 4 chunks, 1 core) under whatever single schedule the runtime picks.",
["sumcheck/par.go","sumcheck/prover.go","common/semaphore.go"],
[("workers exchange evaluations and challenges over channels","sumcheck/par.go RunForChunk, ConsumeAccumulate, Broadcast"),("folded chunks are merged by index","sumcheck/par.go ConsumeMergeProvers"),("per-worker copies of the static tables","sumcheck/par.go RunForChunk")],
[("evalsChan, rChans, finChan","messages in flight","sumcheck/par.go")],
["sumcheck.MultiThreadedProver.Prove/GetClaim"])

p("C08","Sumcheck round polynomials are the true partial sums",
"For all tables and gates, the claim reported by the sumcheck prover is the sum over the whole hypercube of eq times wiring times gate, and each round polynomial is, as a polynomial, that sum restricted to the challenges so far and summed over the remaining variables, in the order left, right, instance. The final claims are the left, right, eq and wiring tables evaluated at the challenges.",
["inputs","programs","configurations"],
"all table contents (including zero and sparse wiring tables), all sizes, all gate sets up to the supported degree",
"Tests check a 2x2 example with an addition gate by hand, and otherwise only that the verifier's round checks pass.",
["sumcheck/prover.go","sumcheck/evals.go","polynomial/lagrange.go","polynomial/book_keeping.go"],
[("evaluations on HL, HR, HPrime","sumcheck/evals.go"),("folding order","sumcheck/prover.go Prove, FoldHL, FoldHR, FoldHPrime")],
[("vL, vR, eq, staticTables","partially folded tables","sumcheck/prover.go")],
["sumcheck.Proof","final claims","GetClaim"])

p("C09","The sumcheck verifier checks every round",
"The sumcheck verifier accepts a claim and a sequence of round polynomials if and only if the first polynomial's values at 0 and 1 sum to the claim and each later one's sum to its predecessor's value at its predecessor's challenge. On acceptance it returns the challenges split, in order, into left, right and instance points, and the last polynomial's value at the last challenge.",
["inputs","fault_sequences"],
"all claims, numbers of rounds, degrees and coefficients; any round at fault, alone or with compensating faults",
"The existing tests only submit honest transcripts; no rejection is ever asserted.",
["sumcheck/verifier.go","polynomial/lagrange.go","common/challenge.go"],
[("running expected value","sumcheck/verifier.go Verify")],
[("expectedValue, challenges","verifier state","sumcheck/verifier.go")],
["sumcheck.Verifier.Verify results"])

p("C10","Challenges bind the whole message and are common to all parties",
"Every challenge of prover, verifier and in-circuit verifier is the MiMC hash of the complete message it answers: all coefficients of the round polynomial in order, or both claims of a layer. It is a deterministic function of that message alone, and changing, swapping, adding or removing any element of the message changes it.",
["inputs","configurations"],
"all messages of any length, all rounds and layers",
"No test fixes the value of a challenge: prover and verifier changed in the same way still agree, for instance on a challenge that ignores a coefficient.",
["common/challenge.go","hash/mimc.go","sumcheck/verifier.go","sumcheck/par.go","gkr/prover.go","gkr/verifier.go","snark/sumcheck/sumcheck.go"],
[("challenge = MiMC hash","common/challenge.go GetChallenge"),("in-circuit challenge","snark/sumcheck/sumcheck.go AssertValid")],
None,["common.GetChallenge","returned challenges"])

p("C11","Multilinear tables behave as multilinear polynomials",
"For tables of every size and all coordinates, folding a table substitutes its first variable, evaluation gives the multilinear extension of its values, and the eq tables and eq evaluation give the product of the univariate equality polynomials. Evaluating or copying a table never changes it, and operations on a copy never show in the original.",
["inputs","histories"],
"all table sizes, all coordinates in the field (not only 0 and 1), all sequences of copy, fold, evaluate and arithmetic operations, including with shared destination and operands",
"Tests fold one 4-entry table once, check one 4-variable eq table, and use evaluation only on fresh tables.",
["polynomial/book_keeping.go","polynomial/eq.go"],
[("in-place fold","polynomial/book_keeping.go Fold"),("copy before evaluation","polynomial/book_keeping.go Evaluate, DeepCopy"),("eq","polynomial/eq.go EvalEq, GetFoldedEqTable")],
[("heap of tables","values of each live table","polynomial/book_keeping.go Table")],
["BookKeepingTable contents after each operation"])

p("C12","Chunked and parallel table operations equal the plain ones",
"For every table size, chunk count and number of cores, chunked eq tables, chunked evaluation and chunked mixed evaluation give the values of their unchunked counterparts under the interleaved layout, and the parallel table operations give the element-wise result on the whole table. The ranges work is divided into cover each index exactly once, in order.",
["inputs","configurations","schedules"],
"all sizes, below, at, between and above multiples of the minimum chunk size; chunk counts 1..size; core counts",
"Tests use tables of 1024 entries, below the minimum work range of 4096, so that the parallel code only ever runs one range; the range splitter has no test; one chunk is never evaluated.",
["polynomial/chunked.go","polynomial/eq.go","polynomial/book_keeping.go","common/chunks.go","snark/polynomial/multilinear.go"],
[("recombination of chunks from the last variable","polynomial/chunked.go chunkedEvalRecombine"),("range splitting","common/chunks.go IntoChunkRanges"),("workers over ranges","polynomial/book_keeping.go Sub, Mul")],
None,["EvaluateChunked","EvaluateMixedChunked","GetChunkedEqTable","IntoChunkRanges"])

p("C13","Interpolation and evaluation of univariate polynomials are inverse",
"For every number of values up to the largest precomputed domain, interpolating values on 0, 1, 2, ... gives the unique polynomial of lower degree taking those values there, and evaluating a coefficient list gives that polynomial's value at every field element.",
["inputs","configurations"],
"all lengths 1..12, all values, all evaluation points",
"One Lagrange polynomial of one domain size is checked at the domain's points; interpolation of values has no test.",
["polynomial/lagrange.go"],
[("precomputed Lagrange bases","polynomial/lagrange.go LagrangeCoefficient"),("Horner evaluation","polynomial/lagrange.go EvaluatePolynomial")],
None,["InterpolateOnRange","EvaluatePolynomial"])

p("C14","All forms of a gate agree and respect its declared degrees",
"For every gate, the single evaluation, the two batch evaluations and the in-circuit evaluation compute the same function, namely sum, product, copy of the left operand, or left + (right + constant)^7. The declared degrees bound the gate's degree in the left operand, in the right operand and in both together, and gates that compute different functions have different identifiers.",
["inputs","configurations"],
"all operand values, all batch lengths, all round constants, all gates",
"The gates are only run inside larger tests, with the vL/vR patterns these produce; the in-circuit form of the gates is never run.",
["circuit/gates.go","snark/gkr/gate.go"],
[("Eval, EvalManyVL, EvalManyVR, GnarkEval","circuit/gates.go"),("Degrees","circuit/gates.go")],
None,["gate evaluations","R1CS satisfiability of the in-circuit form"])

p("C15","The hash functions follow their specification on every message",
"MiMC, GMiMC and Poseidon digest a message block by block with the fixed round constants and matrices, x^7 as S-box and Miyaguchi-Preneel chaining, zero-padding the last block, for every message length. Digests are deterministic, do not modify the message, and depend on every element of the message.",
["inputs","histories"],
"all messages of all lengths including the empty one, all state sizes; chained updates",
"The only test hashes 100 zeros and looks at no result.",
["hash/mimc.go","hash/gmimc.go","hash/poseidon.go","hash/ark.go"],
[("sponge update","hash/mimc.go MimcUpdateInplace, hash/gmimc.go UpdateInplace, hash/poseidon.go Update"),("constants","hash/ark.go")],
[("hash state","t field elements carried from block to block","hash/*.go")],
["digests","updated states"])

p("C16","In-circuit gadgets compute exactly their native counterparts",
"The constraint systems of the hash, equality, multilinear, univariate and sumcheck gadgets are satisfied by a witness if and only if the claimed results are those of the native computation on the same values. In particular the sumcheck gadget is unsatisfiable as soon as one round is inconsistent.",
["inputs","configurations","fault_sequences"],
"all witness values and sizes; correct results and results wrong in any one place",
"The gadget tests check satisfiability of correct witnesses only, at one size each; an unconstrained output or a dropped assertion passes them all. EvalMixed is only reached by the MiMC test.",
["snark/hash/mimc.go","snark/polynomial/eq.go","snark/polynomial/multilinear.go","snark/polynomial/univariate.go","snark/sumcheck/sumcheck.go"],
[("gadgets over the constraint system","snark/*"),("assertions","snark/sumcheck/sumcheck.go AssertValid")],
None,["R1CS satisfiability"])

p("C17","The in-circuit GKR verifier accepts exactly valid MiMC proofs",
"For every batch size and chunking, the GKR verification circuit for MiMC is satisfied by the native prover's proof with the matching inputs, outputs and initial point. It is not satisfied once any round polynomial, claim, input, output or initial point is altered so that a check of the protocol fails.",
["inputs","configurations","fault_sequences"],
"all inputs, batch sizes and chunkings; alterations at any layer, round and coefficient, of claims and of the statement",
"One honest proof (bN = 2, one chunk) is shown to satisfy the circuit; no altered witness is ever tried.",
["snark/gkr/proof.go","snark/gkr/circuit.go","snark/gkr/mimc.go","snark/gkr/gate.go"],
[("layer loop and final assertions","snark/gkr/proof.go AssertValid"),("wiring tables of the MiMC layers","snark/gkr/mimc.go")],
None,["R1CS satisfiability"])

p("C18","Evaluating, proving and verifying leave their inputs untouched",
"Evaluating a circuit, proving and verifying modify neither the caller's inputs, nor the assignment, the circuit or the proof, so that each can be repeated and gives the same result again. Independent provers and verifiers sharing a circuit or an assignment can run concurrently and give the results they give alone.",
["histories","schedules","inputs"],
"all sequences and interleavings of assign, prove and verify calls over shared circuits, assignments and proofs",
"Each test proves and verifies once, and compares nothing afterwards.",
["gkr/prover.go","gkr/verifier.go","circuit/circuit.go","polynomial/book_keeping.go","polynomial/chunked.go"],
[("deep copies of the assignment per layer","circuit/circuit.go LayerAsBKTWithCopy"),("verifier evaluates on copies","polynomial/book_keeping.go Evaluate"),("verifier copies challenge slices","sumcheck/verifier.go")],
[("assignment, inputs, proof","caller-owned values","gkr/prover.go")],
["contents before and after each call","race detector"])

p("C19","At most the requested number of workers compute, and all finish",
"Circuit evaluation, table copies and the sumcheck prover never have more workers computing at the same time than the number of cores they were given, whatever the number of chunks. Every call returns with all its chunks processed, for every core count from 1 to beyond the number of chunks, and leaves no worker behind.",
["schedules","configurations"],
"all interleavings of the workers, all combinations of chunk count and core count",
"Tests run with 1 or 3 cores and few chunks under whatever schedule the runtime picks, and do not observe the number of running workers.",
["common/semaphore.go","circuit/layers.go","circuit/circuit.go","sumcheck/par.go","polynomial/book_keeping.go"],
[("semaphore held while computing, released while waiting for a challenge","common/semaphore.go, sumcheck/par.go RunForChunk"),("wait groups","circuit/layers.go Evaluate")],
[("semaphore permits","free workers","common/semaphore.go")],
["gate calls in progress","goroutines left"])

p("C20","Layer wiring tables encode exactly the circuit's wires",
"For every layer, the list of gates contains each distinct gate once, and each gate's wiring table, folded at a point, is the multilinear extension over outputs of the number of wires carrying that gate from a given left and right operand to a given output. A layer's input and output widths are the smallest powers of two covering its operands and outputs.",
["programs","inputs"],
"all wirings: repeated gates, repeated wires, gates differing only by their constant, gaps in the outputs, widths 1 to many; all points",
"Only layers with distinct gates and at most two wires occur in the tests, and their tables are only seen through the protocol.",
["circuit/layers.go","circuit/gates.go","common/math.go"],
[("wiring table","circuit/layers.go GetStaticTable"),("gate list","circuit/layers.go Gates"),("widths","circuit/layers.go BGInputs, BGOutputs")],
None,["GetStaticTable","Layer fields"])
p("C21","The GKR proof is the protocol's honest transcript, whatever the chunking and the cores",
"For every circuit, batch, chunking and number of cores, the GKR prover's proof is the one transcript the protocol prescribes: every round polynomial is the partial sum of its layer's instance at the challenges so far, and every left and right claim is the value of the multilinear extension of the layer below at the point those challenges make up. Proving the same batch again, in other chunks or with another number of cores, gives the same proof.",
["inputs","configurations","schedules"],
"all circuits and batches; all chunkings, numbers of cores and interleavings of the workers",
"The tests hand one proof to the verifier, which shows neither that its claims are the values of the layers nor that another chunking gives the same one.",
["gkr/prover.go","sumcheck/par.go","sumcheck/prover.go","circuit/circuit.go","polynomial/chunked.go"],
[("layer loop","gkr/prover.go Prove"),("instance of a layer","gkr/prover.go GetBookKeepingTablesForIntermediateRound"),("merging of the two claims","gkr/prover.go Prove")],
None,["proofs, message by message"])
p("C22","Numbers keep their value when measured, converted and printed",
"For every positive integer, Log2Floor is the greatest k with 2^k at most that integer and Log2Ceil the least k with 2^k at least that integer; Min and Max are the smaller and the larger of their arguments. Making field elements of unsigned integers and generic values of field elements keeps every value and the order; random arrays have the requested dimensions, each entry drawn on its own. A field element is printed as the decimal numeral of itself or, after a minus sign, of its opposite, whichever is shorter, and lists and tables print their entries in order. A benchmark parameter is read as the integer set in the environment, and one that is not set or is no integer is refused by a panic; a switch is on exactly when its parameter is 1.",
["inputs","configurations"],
"all positive integers, all 64-bit unsigned integers, all field elements and lists of them, all settings of the environment",
"The tests take the logarithms of 1 to 9 and check none of the others.",
["common/math.go","common/common.go","common/env.go","polynomial/book_keeping.go"],
[("logarithms","common/math.go Log2Floor, Log2Ceil"),("printed form of an element","common/common.go PrettyStringFr"),("parameters","common/env.go GetBN, GetNChunks, GetNProcesses")],
None,["results of the exported functions","panics"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
