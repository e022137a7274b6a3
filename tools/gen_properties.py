"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
S = "src/komm/"
BL = S + "_error_control_block/"; DE = S + "_error_control_decoders/"; CV = S + "_error_control_convolutional/"
FS = S + "_finite_state_machine/"; LO = S + "_lossless_coding/"; CH = S + "_channels/"; CO = S + "_constellations/"

p("C01", "Flipped bits within the packing radius are always corrected",
  "For every block code and every hard-decision decoder the library offers for it (exhaustive search, syndrome table, Berlekamp for BCH codes, Reed for Reed-Muller codes, Viterbi for truncated or zero-terminated convolutional codes), if the channel flips at most floor((d-1)/2) bits of each transmitted codeword (d being the minimum distance, or the designed distance for Berlekamp), decoding returns exactly the transmitted message. "
  "The same holds for the soft-decision exhaustive, Viterbi and Reed decoders when the flips are sign flips of equally reliable inputs, for the Wagner decoder when the single wrong sign is the least reliable one, and for every decoder (including BCJR and successive cancellation) when nothing is corrupted.",
  ["inputs", "fault_sequences", "configurations"], "every code configuration, every sequence of messages, every placement of at most t bit flips in every block of the stream",
  "Unit tests decode a handful of textbook words; the number of (code, message, error pattern) combinations is astronomically larger and bugs hide in particular error positions (edge of the word, all errors in the parity part, weight exactly t, zero message).",
  [BL, DE, CV + "TerminatedConvolutionalCode.py", S + "_algebra/FiniteBifield.py", S + "_algebra/BinaryPolynomial.py"],
  [("coset leader table", BL + "base.py"), ("Berlekamp iterations and root search", DE + "BerlekampDecoder.py"), ("Reed partitions", BL + "ReedMullerCode.py"), ("trellis search", FS + "MealyMachine.py")],
  observe=["decoder.decode", "code.encode"])

p("C02", "Maximum-likelihood decoders never return a worse codeword than another one",
  "For any received word, however corrupted, the exhaustive-search decoder (hard and soft), the syndrome-table decoder, the Viterbi decoder (hard and soft) and the Wagner decoder return a message whose codeword is at minimum Hamming distance (hard) or has maximum correlation with the received reals (soft) among all codewords of the code. "
  "The result is always a binary message of the code's dimension, one per received block, for bursts, zero-reliability positions and ties as well.",
  ["inputs", "fault_sequences", "configurations"], "every code, every received word, including bursts, erased (zero-reliability) positions and corruption far beyond the packing radius",
  "Tests feed a few words that are close to a codeword; optimality beyond the packing radius and with reals needs comparison with all codewords for arbitrary words.",
  [DE, FS + "MealyMachine.py", CV + "TerminatedConvolutionalCode.py", BL + "base.py"],
  [("argmin over codewords", DE + "ExhaustiveSearchDecoder.py"), ("minimum-weight coset leaders", BL + "base.py"), ("Viterbi recursion and backtracking", FS + "MealyMachine.py"), ("least-reliable flip", DE + "WagnerDecoder.py")],
  observe=["decoder.decode"])

p("C03", "Corruption below the minimum distance is always detected, never accepted",
  "For every block code, an uncorrupted codeword has an all-zero syndrome and converting it back to a message returns exactly the transmitted message. "
  "A codeword in which between 1 and d-1 bits were flipped always has a nonzero syndrome, and strict conversion of any stream that contains such a block raises ValueError instead of returning data.",
  ["inputs", "fault_sequences", "configurations"], "every code configuration, message stream and pattern of 1..d-1 flipped bits in any subset of the blocks",
  "Tests check syndromes of a few fixed words; a single wrong column or polynomial breaks detection only for particular error positions.",
  [BL], [("parity checks", BL + "base.py"), ("systematic parity", BL + "SystematicBlockCode.py"), ("polynomial remainder", BL + "CyclicCode.py")],
  observe=["code.check", "code.inverse_encode", "code.project_word"])

p("C04", "Frames are processed independently of batching, order, and neighbours' damage",
  "Encoding, syndrome computation, message extraction and decoding of a stream of blocks give, for each block, exactly the result of processing that block alone, however the blocks are batched (any number per call, any leading array dimensions, any integer array type), reordered, duplicated or interleaved with other frames. "
  "Corrupting one block changes at most that block's output, an input whose length is not a whole number of blocks is rejected with ValueError, and the caller's arrays are never modified.",
  ["inputs", "fault_sequences", "schedules", "configurations"], "every code and decoder, every segmentation of the frame stream into calls, every delivery order with duplication and loss, every set of damaged blocks",
  "Tests mostly process one block, or one fixed 2-D batch; the segmentation and damage patterns are unbounded.",
  [S + "_util/decorators.py", BL, DE], [("blockwise/vectorize wrappers", S + "_util/decorators.py"), ("per-code overrides", BL + "SystematicBlockCode.py")],
  observe=["code.encode", "code.check", "code.project_word", "code.inverse_encode", "decoder.decode"])

p("C05", "Cutting a stream into pieces never changes an encoder's or machine's output",
  "Feeding a convolutional encoder, Mealy machine or Moore machine its input in any sequence of pieces, passing each returned state to the next call, yields exactly the outputs and the final state of a single call on the whole input. "
  "Several streams multiplexed through one shared encoder object do not influence each other, and the one-call result equals the defining state recursion (equivalently, polynomial multiplication by the transfer function for encoders).",
  ["schedules", "inputs", "configurations"], "every encoder or machine, input sequence, segmentation (including empty and single-symbol pieces) and interleaving of streams",
  "Tests encode a few fixed sequences in one call; segmentation and interleaving are never exercised.",
  [CV + "base.py", CV + "ConvolutionalCode.py", CV + "LowRateConvolutionalCode.py", CV + "HighRateConvolutionalCode.py", FS + "MealyMachine.py", FS + "MooreMachine.py"],
  [("state-space recursion", CV + "base.py"), ("process with initial and final state", FS + "MealyMachine.py")],
  state=[("state", "contents of the shift registers, handed back to the caller", CV + "base.py")], observe=["encode_with_state", "process"])

p("C06", "Streaming Viterbi decoding is independent of chunking and exact below its limits",
  "A streaming Viterbi decoder produces the same output sequence however its input is cut into whole-symbol chunks, and decoders working on different streams never influence each other. "
  "After a delay equal to the traceback length each output symbol is the one selected by the best survivor path from the decoder's initial state, so an undamaged stream (from any initial state) is reproduced exactly and isolated channel errors within the code's free-distance limit are removed.",
  ["schedules", "fault_sequences", "histories", "configurations"], "every code, traceback length, initial state, chunking, interleaving of streams, and pattern of channel errors, hard or soft",
  "The only example-based check is one zero stream and one fixed stream with one chunking.",
  [CV + "ViterbiStreamDecoder.py", FS + "MealyMachine.py"], [("survivor path memory", FS + "MealyMachine.py")],
  state=[("path and metric memory", "survivor paths of the last symbols and their metrics, carried between calls", CV + "ViterbiStreamDecoder.py")], observe=["decoder.decode"])

p("C07", "Stored compressed streams decode exactly; a torn tail is an error or a prefix",
  "For every lossless source code and integer code, decoding the complete stored stream of any encodable message returns exactly that message, whatever was encoded or decoded with the same object before. "
  "If the stored stream is cut at an arbitrary point (a torn or short write), decoding terminates and either raises ValueError or returns a prefix of the original message (for codes that pad the last block, a prefix followed by padding only as documented); it never returns symbols that were not written.",
  ["inputs", "crash_points", "histories", "configurations"], "every code (Huffman, Shannon, Fano, fixed-to-variable, Tunstall, variable-to-fixed, Lempel-Ziv 77/78/SS/Welch, Fibonacci, unary), every message, every cut point",
  "Tests round-trip a few fixed strings and never truncate a stream; each cut point is a separate case.",
  [LO, S + "_integer_coding/"], [("prefix-free parsing", LO + "util.py"), ("token serialisation", LO + "LempelZiv77Code.py"), ("dictionary growth and pointer widths", LO + "LempelZivWelchCode.py")],
  observe=["code.encode", "code.decode"])

p("C08", "Trellis and successive-cancellation inference is exact under any noise",
  "For any observed sequence, the forward-backward algorithm on a finite-state machine returns the exact posterior probability of each input symbol, the Viterbi algorithm returns for every final state a minimum-metric input sequence together with its metric, for any machine including ones with parallel transitions, priors and initial or final conditions. "
  "Consequently the BCJR decoder returns the exact log-likelihood ratio of every message bit in message order, and the successive-cancellation decoder decides every bit by the exact conditional likelihood given its earlier decisions.",
  ["inputs", "fault_sequences", "configurations"], "every small machine, metric, prior and observation; every terminated convolutional code and polar code whose message space can be enumerated; every noise realisation",
  "Tests compare two textbook examples; sums over all paths under arbitrary noise need an independent enumeration for each.",
  [FS + "MealyMachine.py", DE + "BCJRDecoder.py", DE + "SCDecoder.py", CV + "TerminatedConvolutionalCode.py"],
  [("log-domain recursions", FS + "MealyMachine.py"), ("bit marginalisation", DE + "BCJRDecoder.py"), ("belief tree", DE + "SCDecoder.py")], observe=["viterbi", "forward_backward", "decoder.decode"])

p("C09", "Answers never depend on what was asked before",
  "Any query or operation on a library object (code, decoder, machine, labeling, constellation, source code, quantizer, sequence, field, Markov chain) returns the same value whatever sequence of other queries, repeated calls, failed calls with invalid arguments, or operations on other equal or unequal objects preceded it in the process. "
  "No operation modifies arrays passed in by the caller, and a call that raises leaves the object as usable as before.",
  ["histories", "inputs", "configurations"], "every interleaving of queries and failing calls over any set of live objects",
  "Results are cached lazily and several quantities have alternative code paths depending on which cache is warm; tests query one property of a fresh object at a time.",
  [BL + "base.py", BL + "BlockCode.py", S + "_util/matrices.py", S + "_labelings/", CO, S + "_integer_coding/FibonacciCode.py", LO, S + "_sources/MarkovChain.py"],
  [("lazy per-object caches", BL + "base.py"), ("cache-dependent fast paths for weight distributions", BL + "base.py")],
  state=[("memoised attributes", "per-object and per-class caches", BL)], observe=["every public query"])

p("C10", "Objects shared by concurrent callers give every caller the sequential answer",
  "When several threads use the same code, decoder, machine, labeling, constellation, source code or Markov chain concurrently, under any interleaving (including two threads triggering the same lazy computation), each call returns exactly the value it returns when called alone. "
  "Objects that draw randomness from separate generators produce, under any interleaving of threads, the outputs they produce sequentially.",
  ["schedules", "configurations"], "every interleaving at instruction granularity of two to four threads over shared objects",
  "The test suite is single-threaded.",
  [BL + "base.py", DE, S + "_util/decorators.py", LO, FS], [("idempotent lazy initialisation", BL + "base.py"), ("no shared scratch state in operations", DE)],
  state=[("lazy caches", "filled by whichever thread comes first", BL + "base.py")], observe=["every public query"])

p("C11", "An interrupted or failed computation leaves no trace",
  "If an operation is interrupted at an arbitrary instant (Ctrl-C, out of memory, failing progress output) it either raises that error or still returns its correct value; retrying it, and every other later operation on the same or other objects, returns the correct value (operations that advance a stream's or a generator's state may have consumed part of their input; only their effect on other objects is judged). "
  "Progress reporting is purely observational: stalled, jumping or frozen clocks and failing progress output never change a returned value.",
  ["crash_points", "fault_sequences", "histories", "configurations"], "every instant inside every operation on objects with lazy computation, and every clock behaviour",
  "Tests never interrupt a computation; each instruction boundary is a distinct crash point.",
  [BL + "base.py", S + "_util/matrices.py", S + "_util/decorators.py", LO, DE], [("flag is set after the table is complete", BL + "base.py"), ("progress bars", S + "_util/decorators.py")],
  state=[("lazy caches and their validity flags", "must be published only when complete", BL + "base.py")], observe=["every public query"])

p("C12", "Simulations are reproducible: all randomness comes from the designated generator",
  "Every random operation (the binary symmetric, erasure, Z, general discrete memoryless and Gaussian channels; discrete memoryless source; Markov chain simulation) draws only from the generator it was given, or from the library-wide one if none was given, so equal generator states and equal calls give equal results in any process, whatever else ran in between. "
  "Operations with distinct generators never influence each other, the library-wide generator and NumPy's legacy global state stay untouched when an explicit generator is used, deterministic operations draw nothing, and splitting one transmission of real or discrete symbols into consecutive calls yields the same outputs as one call.",
  ["histories", "schedules", "configurations"], "every history of random and deterministic operations over any assignment of generators to objects, every process and hash seed",
  "Tests seed the library-wide generator once per test and check a single draw; cross-influence needs histories over several objects.",
  [S + "_util/global_rng.py", CH, S + "_sources/"], [("generator injection", S + "_util/global_rng.py"), ("per-object generator", CH)],
  state=[("library-wide generator", "default generator captured at construction", S + "_util/global_rng.py")], observe=["transmit", "emit", "simulate", "simulate_until_absorption"])

p("C13", "Channels only inject the faults their law allows, at the stated rate",
  "Whatever random bits the generator supplies, including extreme draws, a channel output symbol always has positive probability given its input: probability-0 events never happen and probability-1 events always happen, erasures appear only as the erasure symbol, the Z channel never turns 0 into 1, zero noise power means identity, and the output has the input's shape. "
  "Over long simulated transmissions each symbol is affected independently of position and of other symbols with the channel's stated transition probabilities, and the Gaussian noise has zero mean and the stated total power (half per real dimension for complex inputs).",
  ["inputs", "fault_sequences", "configurations"], "every channel parameter, every input array, every stream of random bits the generator can produce",
  "Tests sample a few thousand symbols at ordinary parameters; boundary draws have probability 2^-53 with a real generator.",
  [CH], [("threshold comparisons against uniform draws", CH + "BinarySymmetricChannel.py"), ("choice by row", CH + "DiscreteMemorylessChannel.py")], observe=["transmit"])

p("C14", "Sources and Markov chains emit only possible histories, with the stated law",
  "A simulated Markov chain path has the requested length, starts in the requested state and takes only transitions of positive probability; simulation until absorption ends exactly at the first visit to an absorbing state and is refused for non-absorbing chains; a memoryless source emits only symbols of positive probability in the requested shape, whatever random bits the generator supplies. "
  "Over long simulations the frequencies of transitions, symbols, absorbing states and absorption times agree with the stated probabilities, and with the chain's own analytical answers.",
  ["histories", "fault_sequences", "configurations"], "every chain, initial state, step count and stream of random bits",
  "Tests check a few seeded paths; rare transitions and extreme draws are not reached.",
  [S + "_sources/MarkovChain.py", S + "_sources/DiscreteMemorylessSource.py"], [("stepwise choice by row", S + "_sources/MarkovChain.py")], observe=["simulate", "simulate_until_absorption", "emit"])

p("C15", "Demodulators undo any noise below half the minimum distance",
  "For every constellation and labeling, mapping bits to symbols, adding any disturbance shorter than half the minimum distance to each symbol, and demapping by hard decision returns exactly the transmitted bits; for any received point whatsoever the hard decision is a nearest constellation point and the posteriors are the exact Bayes posteriors for Gaussian noise of the given power and priors. "
  "Bit log-likelihood ratios are the exact marginals of the posteriors, and every symbol of a stream is treated independently of how the stream is batched.",
  ["inputs", "fault_sequences", "configurations"], "every constellation family, order, amplitude and phase offset, every labeling, every noise vector, every batch shape",
  "Tests use a few fixed received points per family; decision-boundary errors show only for particular points.",
  [CO, S + "_labelings/"], [("nearest-point search and per-family shortcuts", CO + "base.py"), ("bit marginalisation", S + "_labelings/base.py")], observe=["closest_indices", "closest_symbols", "posteriors", "indices_to_bits", "bits_to_indices", "marginalize"])

p("C16", "A complete link delivers the message exactly when damage stays within limits",
  "Compressing a message, protecting it with any block or streaming code, mapping it onto any constellation, passing it through a channel that damages it within the code's and constellation's limits, delivering its frames late, out of order or more than once, and undoing each stage returns exactly the original message. "
  "When frames are damaged beyond correction but below the detection limit, the receiver that checks syndromes and asks again for rejected frames still delivers the exact message after finitely many retransmissions once the damage stops.",
  ["fault_sequences", "schedules", "configurations"], "every composition of source, code, labeling, constellation and channel, every fault sequence within budget",
  "Tests exercise stages in isolation; conventions that must agree between stages (bit order, padding, shapes, number types) are only tested by composition.",
  [LO, BL, DE, CV, S + "_labelings/", CO, CH], [("common bit-order and shape conventions across stages", S + "_util/bit_operations.py")], observe=["end-to-end message"])

p("C17", "A pulse-shaped waveform link recovers every symbol at any timing, cut or loss",
  "Shaping any stream of symbols with any of the library's pulses (sinc, raised-cosine, Beaulieu and their square-root versions, Gaussian, rectangular, Manchester) by sampling-rate expansion and convolution with the pulse's taps gives exactly the superposition of shifted waveforms, for any rate, span and user axis, and the same when the stream is cut into segments that are shaped separately and added in any order at their own delays; lost or duplicated segments leave all others unaffected. "
  "A receiver that samples a Nyquist pulse at the symbol instants after any delay (directly, by sampling-rate compression, or behind a matched square-root pulse) recovers every symbol with bounded noise, and one that samples at any wrong instant sees exactly the pulse's waveform there, which is the inverse Fourier transform of its spectrum; spectrum, energy spectral density, energy and autocorrelation agree with one another. "
  "A quantising front end (scalar or uniform, any choice) returns for every sample, however extreme, the level of the cell that contains it, saturating outside its range and erring by at most half a step inside.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "every pulse, parameter, rate, span, symbol stream, cutting into segments, delivery order, loss, delay, timing error, bounded noise and converter",
  "Tests evaluate each pulse at a few instants; a wrong value appears only at particular delays, roll-offs, cuts or far from the origin.",
  [S + "_pulses/", S + "_util/", S + "_quantization/"], [("closed forms and quadrature", S + "_pulses/"), ("cell search", S + "_quantization/ScalarQuantizer.py")],
  observe=["waveform", "taps", "spectrum", "sampling_rate_expand", "sampling_rate_compress", "convolve", "fourier_transform", "quantize"])

p("C18", "Spread-spectrum receivers separate, synchronise and range exactly despite damage",
  "A maximum-length register sequence follows its feedback recursion from its start state with full period, and a receiver that joins late at any instant finds the unique phase by cyclic correlation as long as fewer flips and erasures occurred than half the correlation gap. "
  "Users spread by distinct Walsh-Hadamard sequences (either ordering) that transmit at once, with any amplitudes and any of them silent, are separated exactly; the cyclic delay of a Zadoff-Chu probe whose root is coprime to its length is measured exactly, with no off-peak correlation; a Barker preamble is found in a stream with few flips, its aperiodic sidelobes never exceeding one. "
  "For every sequence, built-in or custom, the aperiodic and cyclic (normalised) autocorrelations reported at any shifts are those a delayed receiver measures, whatever was asked before.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "every sequence family and parameter, start state, set of active users, delay, late join, flip and erasure pattern within the stated budget, and list of shifts",
  "Tests compare a few short tables; the number of delays, user subsets, start states and damage patterns is unbounded.",
  [S + "_sequences_binary/", S + "_sequences_complex/", S + "_util/"], [("register recursion", S + "_sequences_binary/LFSRSequence.py"), ("matrix construction", S + "_sequences_binary/WalshHadamardSequence.py"), ("correlation", S + "_util/")],
  observe=["bit_sequence", "polar_sequence", "sequence", "autocorrelation", "cyclic_autocorrelation"])

p("C19", "A convolutional stream withstands exactly the damage its reported limits promise",
  "For every full-rank convolutional encoder (any rate, feedforward or recursive, catastrophic or not, with delays, common factors or state bits the output does not show), the reported free distance is the least number of channel bits whose flipping turns one coded stream into another, so that any damage of fewer than half as many bits to a stream ended in a known state is corrected by Viterbi decoding, and damage of exactly that many at the right places is not noticed. "
  "An encoder is reported catastrophic exactly when finitely many channel errors can cause endlessly many message errors. The delays reported (constraint lengths, memory order, overall constraint length, degree) are those of the encoder.",
  ["inputs", "fault_sequences", "configurations"], "every full-rank convolutional encoder, message stream, way of cutting it, and flip pattern within half the free distance or along a least detour",
  "Tests cover tables of well-behaved known codes; the values go wrong for catastrophic encoders, several inputs, or polynomial matrices that need repeated elimination.",
  [CV, FS + "MealyMachine.py", S + "_util/matrices.py"], [("shortest detour", CV + "base.py"), ("invariant factors", S + "_util/matrices.py"), ("state space", CV + "HighRateConvolutionalCode.py")],
  observe=["free_distance", "is_catastrophic", "constraint_lengths", "encode_with_state", "MealyMachine.viterbi"])

p("C20", "A block code withstands exactly the damage its reported weights and radii say",
  "For every block code of every family, the reported minimum distance, codeword weight distribution, coset leaders and their weight distribution, packing radius and covering radius, and the standard array are exactly those of the code's own encoded messages: flips equal to a codeword go unnoticed and fewer flips than the minimum distance do not; any received word lies within the covering radius of some codeword and some word lies no closer; damage equal to a reported coset leader, and only such damage, is undone by table decoding; up to the packing radius all damage is. "
  "Length, dimension, redundancy, rate, generator and check matrices agree with what is encoded and accepted, and the answers do not depend on which questions were asked before or on equal codes asked.",
  ["inputs", "fault_sequences", "configurations"], "every code configuration of redundancy or dimension small enough to enumerate, every order of questions, every flip pattern",
  "Tests compare tables of small textbook codes; closed forms and cached shortcuts go wrong for particular parameters or question orders.",
  [BL, DE, S + "_util/"], [("enumeration and cached codewords", BL + "base.py"), ("closed forms", BL), ("standard array", BL + "SlepianArray.py")],
  observe=["codeword_weight_distribution", "minimum_distance", "coset_leaders", "coset_leader_weight_distribution", "packing_radius", "covering_radius", "SlepianArray"])

p("C21", "A source-code archive has exactly the promised size and only one reading",
  "A fixed-to-variable or variable-to-fixed code is reported uniquely decodable (encodable) exactly when no stream has two readings, prefix-free exactly when an archive can be read word by word at whatever point it was cut, and fully covering exactly when no source sequence escapes its words; ambiguous or incomplete codes refuse to write. The archive of a source that emits every block exactly as often as its statistics say takes exactly the reported rate, in whatever order the words were given; Kraft parameters and lengths are those of the words. "
  "Codes are made from lengths exactly when Kraft's inequality holds, and then have these lengths. No code beats a Huffman code of the same block size, no complete dictionary of that size beats a Tunstall code, and Shannon and Fano codes keep their length bounds, for every policy, assignment, block size, tie and zero probability.",
  ["inputs", "fault_sequences", "schedules", "configurations"], "every set of words, lengths and probabilities, every message, cutting into segments and cut of the store",
  "Tests sample pmfs and a few dictionaries; ambiguity needs adversarial streams and optimality needs ties, exact fits of the dictionary and unusual orders.",
  [LO], [("Sardinas-Patterson, trie and canonical codes", LO + "util.py"), ("tree construction", LO + "HuffmanCode.py"), ("dictionary growth", LO + "TunstallCode.py")],
  observe=["is_uniquely_decodable", "is_prefix_free", "is_fully_covering", "is_uniquely_encodable", "rate", "kraft_parameter", "encode", "decode"])

p("C22", "A Markov chain's reported structure and averages are those of its histories",
  "For every Markov chain, the states reported accessible from a state are exactly those some history from it visits; communicating classes, transient, recurrent and absorbing states, irreducibility and absorption are those of its possible histories: a recurrent class is never left, an absorbing state never abandoned, and a state is revisited only after multiples of its reported period, which is the largest number of which this is true; the index of primitivity is the least number of steps in which every state leads to every state, and only regular chains have one. "
  "The stationary distribution, mean numbers of visits, mean absorption times and absorption probabilities are the averages over all histories, also when classes are hardly ever left or mix slowly; questions without an answer (absorption of a non-absorbing chain) are refused. Neither the order of questions nor what callers do with earlier answers matters.",
  ["inputs", "histories", "configurations"], "every transition matrix, initial state, history and order of questions",
  "Tests sample textbook chains; extreme periods, indices and slow mixing are not reached.",
  [S + "_sources/MarkovChain.py"], [("graph search and linear solves", S + "_sources/MarkovChain.py")],
  observe=["accessible_states_from", "communicating_classes", "period", "index_of_primitivity", "stationary_distribution", "mean_number_of_visits", "simulate"])

p("C23", "What signal sets and labelings report is what streams over them measure",
  "For every constellation of every family, parameters and priors, the symbols put on the line are the documented points; order, dimension, mean and mean energy reported (for uniform or given priors) are those of a stream in which every symbol occurs exactly as often as its prior says, however it is cut into pieces; the minimum distance reported is the least distance of two of its points, so that pushes of less than half of it never change a decision and there is a push of little more that does. "
  "Labelings are the documented bijections: bits select symbols and symbols give these bits back, the inverse mapping inverts the matrix, and with reflected labels a symbol taken for its neighbour along an axis or round the circle costs exactly one bit.",
  ["inputs", "fault_sequences", "configurations"], "every constellation family, order (single-point rings and axes included), amplitude, phase, priors and labeling, every stream and cutting, every push towards a neighbour",
  "Tests compare closed forms for a few usual orders; degenerate axes, rings, large orders and unusual parameters are not reached.",
  [CO, S + "_labelings/"], [("closed forms per family", CO), ("matrix construction", S + "_labelings/base.py")],
  observe=["indices_to_symbols", "mean", "mean_energy", "minimum_distance", "bits_to_indices", "indices_to_bits", "inverse_mapping"])

p("C24", "A designed quantiser has no better neighbour and reports its streams' error",
  "For every source density and range, a Lloyd-Max quantiser's thresholds are the midpoints of its levels, its levels the means of their cells, so that no quantiser with one level or threshold moved errs less; wherever the range lies and however large or small it is. "
  "The mean squared error any quantiser (uniform, Lloyd-Max or arbitrary cells, also partly or wholly outside the range) reports for a source is the exact one, and is the one measured on a stream in which the source's values occur in exact proportion, sent in any pieces.",
  ["inputs", "histories", "configurations"], "every density, range, number of levels, set of cells and cutting of the stream",
  "Tests use a uniform and a Gaussian density about the origin.",
  [S + "_quantization/"], [("fixed-point iteration", S + "_quantization/LloydMaxQuantizer.py"), ("numerical integration", S + "_quantization/base.py")],
  observe=["levels", "thresholds", "mean_squared_error", "quantize"])

# --- pure properties: not simulation targets
def n(id, title, statement, text, why, files, mech):
    p(id, title, statement, ["inputs", "configurations"], text, why, files, mech)
n("P01", "Polynomial and finite-field arithmetic obeys the field and ring laws",
  "Binary polynomials form a Euclidean domain (division with remainder, gcd and extended gcd identities) and every finite field constructed satisfies the field laws, with inverse, logarithm, conjugates and minimal polynomials consistent with them.",
  "all polynomials and all fields", "Tests sample small values.", [S + "_algebra/"], [("bit arithmetic on integers", S + "_algebra/BinaryPolynomial.py")])
n("P05", "Information measures and capacities satisfy their defining identities",
  "Entropy, mutual information and capacity are non-negative, bounded by alphabet size, invariant to relabeling, and closed forms agree with numerical optimisation.",
  "all pmfs and channels", "Tests sample values.", [S + "_util/information_theory.py", CH], [("Arimoto-Blahut", S + "_util/information_theory.py")])
n("P12", "Matrix routines and special functions match their definitions",
  "Matrix routines over GF(2) and special functions return the values of their mathematical definitions for all arguments.",
  "all arguments", "Tests sample arguments.", [S + "_util/"], [("numpy expressions", S + "_util/special_functions.py")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), [len(x["title"]) for x in P])
