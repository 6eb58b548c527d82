#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they are easy to edit)."""
import json
import os

P = []


def prop(pid, title, statement, over, quant, why, files, mech, observe, hook=None):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook},
    })


U = "commpy/utilities.py"
MOD = "commpy/modulation.py"
CC = "commpy/channelcoding/convcode.py"
TU = "commpy/channelcoding/turbo.py"
LD = "commpy/channelcoding/ldpc.py"
GF = "commpy/channelcoding/gfields.py"
AL = "commpy/channelcoding/algcode.py"
IL = "commpy/channelcoding/interleavers.py"
CH = "commpy/channels.py"
LI = "commpy/links.py"
WI = "commpy/wifi80211.py"
FI = "commpy/filters.py"
SE = "commpy/sequences.py"
IM = "commpy/impairments.py"

prop("C01", "Bit conversions and signal utilities are exact for every input",
     "Converting non-negative integers, one or a sequence of them, to most-significant-bit-first bit arrays of any "
     "sufficient width and back is exact, including widths beyond 64 bits. "
     "Hamming distance, squared Euclidean distance, zero-insertion upsampling and signal power equal their "
     "mathematical definitions for every input of every length and type they accept.",
     ["inputs", "histories"],
     "All non-negative integers and widths, all bit arrays, all real or complex signals, in any call order.",
     "The tests convert a handful of small numbers; widths, magnitudes near and above 2^53 and 2^63, repeated calls "
     "on a cached conversion and complex signals are not sampled.",
     [U], [("bit conversions with a cache of recent results", U), ("distances, upsampling, power", U)],
     ["return values of the public functions of commpy.utilities, called by users and by the rest of the library"])

prop("C02", "Modems map bits one-to-one and hard decisions are nearest-point, Gray labelled",
     "For every PSK size, square QAM size and custom power-of-two constellation, modulation maps bit words one-to-one "
     "onto the constellation, hard demodulation of any complex samples returns the words of nearest constellation "
     "points, and hard demodulation of modulated bits returns these bits. "
     "The labels of adjacent points of the PSK and QAM constellations differ in exactly one bit, and the advertised "
     "constellation, size, bits per symbol and average symbol energy agree with each other, also after the "
     "constellation of a modem is replaced. "
     "A constellation whose length is not a power of two, a non-square QAM and an unknown demodulation type raise "
     "ValueError.",
     ["inputs", "configurations", "histories"],
     "All constellation sizes, custom constellations with or without Gray reordering, bit streams, received samples, "
     "sequences of constellation replacements on one modem.",
     "The tests check the bit error rate of a few modems statistically and one reassignment; they do not look at each "
     "label, at decisions for arbitrary samples or at large constellations.",
     [MOD], [("constellation setter, Gray reordering, PSK and QAM construction", MOD),
             ("modulate and hard demodulation", MOD)],
     ["modem attributes", "return values of modulate and demodulate"])

prop("C03", "Soft demodulation returns the exact bit log-likelihood ratios",
     "Soft demodulation returns, for every bit in transmission order, the logarithm of the ratio between the summed "
     "Gaussian likelihoods of the constellation points labelled 1 and of those labelled 0, for the given noise "
     "variance. "
     "The values are finite for every finite sample and positive noise variance, however unlikely the sample is, and "
     "their signs agree with the hard decisions whenever one point dominates.",
     ["inputs", "configurations"],
     "All modems, received samples (near, far, on decision boundaries) and noise variances from very small to very "
     "large.",
     "The tests use soft decisions only through coded bit error rates at a few signal to noise ratios, where scale "
     "errors, swapped bits of low weight or underflow are invisible.",
     [MOD], [("per-bit likelihood sums", MOD)], ["return value of demodulate with soft decisions"])

prop("C04", "Trellises and convolutional encoding implement the generator polynomials",
     "For every number of inputs, outputs and memories, and every generator and feedback matrix in both bit orders, "
     "the trellis tables and the encoder output equal those of the shift-register circuit described by these "
     "polynomials, started in the zero state. "
     "Unpunctured encoded streams have n/k times the length of the encoded bits, puncturing keeps exactly the outputs "
     "selected by the periodic pattern, and systematic codes reproduce their input. "
     "Terminated encoding ends in the zero state, for feed-forward codes and for recursive systematic codes.",
     ["inputs", "configurations"],
     "All code parameters (k, n, memories, polynomials, feedback, bit order, code type), messages, termination modes "
     "and puncturing patterns.",
     "The tests compare the tables of five small codes and one four-bit message; codes with k >= 2, unequal memories, "
     "feedback with several taps, long constraint lengths and puncturing are not covered.",
     [CC], [("trellis construction", CC), ("encoder, termination and puncturing", CC)],
     ["trellis attributes", "return value of conv_encode"])

prop("C05", "Viterbi decoding is maximum likelihood and inverts the encoder",
     "With a traceback covering the stream, the decoded bits are those of a code sequence whose metric (Hamming "
     "distance for hard inputs, log-likelihood for soft inputs, Euclidean distance for unquantized inputs) is optimal "
     "among all code sequences leaving the zero state, whatever the received values. "
     "For every traceback depth of at least five constraint lengths (and the default one of five memories), a noiseless stream, terminated or not, of any "
     "length, decodes to the message as long as it is the stream of a single message, and so does a stream with fewer "
     "errors (or erased soft or unquantized values) than the code corrects. "
     "All the decoded bits are determined by the received values, and unknown decoding types raise ValueError.",
     ["inputs", "configurations"],
     "All (non-catastrophic) codes, message lengths from one symbol, traceback depths, decoding types and received "
     "sequences including extreme soft values.",
     "The tests decode 1000-bit blocks of five codes with one traceback depth; short blocks, other depths, optimality "
     "under heavy noise, the last bits of streams and larger codes are not sampled.",
     [CC], [("add-compare-select and traceback", CC), ("branch metrics and their cache", CC)],
     ["return value of viterbi_decode"])

prop("C06", "MAP decoding computes the exact a posteriori log-likelihood ratios",
     "For every rate 1/2 trellis, received sequence, noise variance and a priori values, the log-likelihood ratios "
     "returned by the MAP decoder are the exact a posteriori ones, as given by summing over all the input sequences "
     "from the zero state. "
     "They are finite for every positive noise variance, and the bits decoded are 1 exactly where the ratio is "
     "positive.",
     ["inputs", "configurations"],
     "All systematic trellises with one input and two outputs, block lengths, received values, noise variances down "
     "to vanishing ones, a priori values.",
     "No test covers this decoder; brute-force posteriors need thousands of enumerated sequences per input.",
     [TU], [("forward and backward recursions", TU)], ["return value of map_decode"])

prop("C07", "Turbo encoding is the parallel concatenation and turbo decoding inverts it",
     "For every message, pair of recursive systematic codes and interleaver, turbo encoding returns three streams as "
     "long as the message: the message, the parity of the first code and the parity of the second code on the "
     "interleaved message. "
     "Turbo decoding of these streams without noise returns the message for every number of iterations and every "
     "positive noise variance, and with noise it equals the iterative exchange of extrinsic a posteriori information "
     "between the two exact MAP decoders.",
     ["inputs", "configurations"],
     "All recursive systematic component codes, interleavers, lengths, iteration numbers, noise levels and initial "
     "intrinsic information.",
     "No test covers the turbo encoder or decoder.",
     [TU, IL, CC], [("encoder concatenation", TU), ("iterative decoding", TU)],
     ["return values of turbo_encode and turbo_decode"])

prop("C08", "LDPC design files round-trip and systematic encoding gives codewords",
     "Writing any binary parity-check matrix to a design file and reading it back gives the same matrix, and the node "
     "degrees, adjacency lists and cross maps returned describe exactly this matrix. "
     "For every parity-check matrix in lower-triangular form and the shipped WiMax designs, systematic encoding "
     "returns one or several blocks which start with the message bits (zero padded to whole blocks if required) and "
     "satisfy all the parity checks. "
     "A message which does not fill whole blocks is rejected with ValueError when padding is disabled, and an existing "
     "file is never overwritten.",
     ["inputs", "configurations", "histories"],
     "All binary matrices without empty rows or columns, messages of all lengths and block counts, repeated reads, "
     "writes and encodings with the same parameters.",
     "The tests read one design, write it back, and encode one random message length; irregular matrices and "
     "multi-block padding are not sampled.",
     [LD], [("design file reader and writer", LD), ("generator matrix and encoder", LD)],
     ["returned parameters, files, return value of triang_ldpc_systematic_encode"])

prop("C09", "LDPC belief propagation follows the message-passing rules, block by block",
     "For both algorithms (sum-product and min-sum), every code and every number of iterations, the output LLRs and "
     "hard decisions are those of the flooding message-passing recursion, stopped at the first valid codeword, with "
     "hard decisions 1 exactly for negative LLRs. "
     "Noiseless codewords are returned unchanged, erased (null) LLRs never give undefined values, and erasures and "
     "errors which the recursion resolves are corrected. "
     "Decoding several blocks at once gives column by column what decoding each block alone gives.",
     ["inputs", "configurations"],
     "All codes, LLR vectors (including null, huge and infinite values), block counts and iteration limits.",
     "The slow tests only check the frame error rate of one code statistically, with one block at a time.",
     [LD], [("sparse message updates and early stop", LD)], ["return value of ldpc_bp_decode"])

prop("C10", "Galois field arithmetic is that of GF(2^m)",
     "For every m from 1 to 16, addition, multiplication, power-to-tuple and tuple-to-power conversions, element "
     "orders, cyclotomic cosets and minimal polynomials are those of the field with 2^m elements defined by the "
     "advertised primitive polynomial. "
     "In particular the power and tuple conversions are mutually inverse, cosets partition the given elements, and each "
     "minimal polynomial is irreducible and vanishes at its element; polynomial division returns the remainder for all "
     "binary polynomials, and their text form lists exactly their terms.",
     ["inputs", "configurations"],
     "All field sizes, element lists, operand pairs and binary polynomials.",
     "The tests check a few elements of GF(8) and GF(16) only.",
     [GF], [("field operations", GF), ("binary polynomial helpers", GF)],
     ["elements of the returned GF objects, returned lists and integers"])

prop("C11", "Cyclic code generator polynomials are all and only the right ones",
     "For every odd length n which divides 2^m - 1 for some m up to 16 (the fields of the library) and every dimension "
     "k < n, the generator polynomials returned are exactly the binary polynomials of "
     "degree n-k which divide x^n + 1, each listed once. "
     "Even lengths raise ValueError.",
     ["inputs"],
     "All odd n whose splitting field is small enough to be enumerated, all k from 0 to n-1.",
     "The only test is broken under the installed NumPy and covers two (n, k) pairs of length 2^m - 1.",
     [AL, GF], [("enumeration of products of minimal polynomials", AL)],
     ["return value of cyclic_code_genpoly"])

prop("C12", "Interleavers are permutations inverted by their de-interleavers",
     "For every length and seed, interleaving reorders the elements of any array without loss or duplication, "
     "de-interleaving restores the original order and the type of the elements, and interleaving a de-interleaved "
     "array restores it as well. "
     "The permutation depends only on the length and the seed (other seeds give other orders of long arrays), stays the same during the whole life of the "
     "interleaver, and creating or using interleavers neither uses nor changes the global random state.",
     ["inputs", "configurations", "histories"],
     "All lengths, seeds, array types and interleavings of operations on several interleavers.",
     "No test covers interleavers.",
     [IL], [("seeded permutation", IL), ("interlv and deinterlv", IL)],
     ["return values of interlv and deinterlv, global random state"])

prop("C13", "Flat channels output exactly gain times message plus noise",
     "After every propagation, the output equals the recorded unnoisy output plus the recorded noises, and the "
     "unnoisy output equals the recorded channel gains applied to the message (element-wise for SISO, one matrix per "
     "vector of nb_tx symbols, zero padded, for MIMO), with the advertised shapes. "
     "Real channels give real gains and noises and complex channels complex ones, as advertised by the channel; a "
     "complex message in a real channel raises TypeError, and propagating before the noise is set is refused. "
     "With zero noise and no fading the message goes through unchanged.",
     ["inputs", "configurations", "histories"],
     "All antenna numbers, message lengths and types, fading parameters (including complex and singular correlation "
     "matrices) and sequences of reconfigurations and propagations on one channel.",
     "The tests check averages over large messages with even lengths; they never recompute the output from the "
     "recorded gains and noises.",
     [CH], [("propagate of SISO and MIMO channels", CH), ("type derived from the fading parameters", CH)],
     ["channel attributes noises, channel_gains, unnoisy_output; return value of propagate"])

prop("C14", "Channel noise has the requested SNR and is white and Gaussian",
     "Setting the SNR, in dB or linear, sets a noise whose average power per receive antenna is nb_tx * Es / (rate * "
     "SNR), for real and complex channels, SISO and MIMO, and all code rates and symbol energies. "
     "The noise is zero mean, Gaussian, circular when complex, independent from sample to sample, from antenna to "
     "antenna, from the fading and from the message.",
     ["inputs", "configurations"],
     "All SNRs, rates, energies, antenna numbers, channel types and message lengths; statistical statement over the "
     "random draws.",
     "The tests check the noise power within 20 % for a few configurations with the default rate, and none of the "
     "independence and distribution claims.",
     [CH], [("SNR setters and noise generation", CH)], ["channel attribute noises, noise_std, output statistics"])

prop("C15", "Fading follows the configured mean, correlation and K-factor, energy preserved",
     "Over propagations, channel gains have the configured mean and the configured covariance (transmit correlation "
     "Kronecker receive correlation for MIMO), are Gaussian and independent from symbol to symbol, and the average "
     "energy per link is one. "
     "The Rayleigh, Rician and exponential-correlation helpers set exactly the correlation, mean direction and "
     "K-factor they are asked for, the reported K-factor is the LOS to NLOS power ratio, and the specular component "
     "has the phase of its geometry. "
     "Parameters which would add or remove energy, non-unit correlation coefficients and negative distances or "
     "constants raise ValueError and leave the channel as it was.",
     ["inputs", "configurations", "histories"],
     "All antenna numbers, means, correlation matrices (complex, singular), K-factors and sequences of "
     "reconfigurations; statistical statement over the random draws.",
     "The tests of the correlated models fail or cover two settings, and check means within wide tolerances.",
     [CH], [("fading_param setters", CH), ("fading helpers", CH), ("Kronecker model", CH)],
     ["fading_param, k_factor, channel_gains"])

prop("C16", "Erasure, symmetric and AWGN channels have the requested statistics",
     "The erasure channel replaces each bit by -1, and the symmetric channel flips each bit, independently with the "
     "requested probability, and every other bit is returned unchanged in place; probabilities 0 and 1 are "
     "deterministic. "
     "The AWGN function adds to the signal white Gaussian noise, complex and circular exactly when the signal is "
     "complex, whose average power is the signal power divided by rate times SNR.",
     ["inputs"],
     "All bit arrays, probabilities, signals, SNRs and rates; statistical statement over the random draws.",
     "The tests use one long array per channel; small probabilities, extremes, independence and the dependence on "
     "rate are not sampled.",
     [CH], [("bec, bsc, awgn", CH)], ["return values, compared with the arguments"])

prop("C17", "Hard MIMO detection returns the closest symbol vector",
     "For every channel matrix with at least as many receive as transmit antennas, received vector and constellation, "
     "maximum likelihood detection returns a symbol vector at minimum distance from the received vector, and so do "
     "K-best detection with enough candidates and, through the signs of its LLRs, best-first detection (of two or "
     "more transmit antennas) with large enough stacks. "
     "With fewer candidates K-best still returns a vector of constellation points, exactly the transmitted one for "
     "noiseless well-conditioned channels, and best-first LLRs never exceed their limit; K-best rejects channels with "
     "more columns than rows with ValueError.",
     ["inputs", "configurations"],
     "All antenna numbers, constellations (real or complex), channel matrices, received vectors, candidate numbers and "
     "stack sizes.",
     "The tests only measure bit error rates of square systems, where near-optimal decisions are indistinguishable.",
     [MOD], [("exhaustive, K-best and best-first tree searches", MOD)],
     ["return values of mimo_ml, kbest, best_first_detector"])

prop("C18", "Max-log soft MIMO outputs and bit-level channels match their definitions",
     "The max-log approximation returns for every bit the difference between the smallest squared distances over the "
     "listed points whose bit is 1 and whose bit is 0, divided by twice the noise variance (positive for bit 0), and "
     "an infinite value of the right sign when no listed point has one of the bit values. "
     "K-best soft output is this value over its candidates, equal to the one over all points with enough candidates. "
     "The bit-level representation of a channel gives, for every vector of weighted bits, the same received vector as "
     "the channel gives for the corresponding symbols, and odd weights raise ValueError.",
     ["inputs", "configurations"],
     "All channel sizes, constellations, point lists, received vectors, noise variances and weights.",
     "One test covers three point lists for one channel; the rest is only checked through bit error rates.",
     [MOD], [("max_log_approx, soft kbest, bit_lvl_repr", MOD)],
     ["return values of max_log_approx, kbest, bit_lvl_repr"])

prop("C19", "OFDM reception inverts OFDM transmission",
     "For every FFT size, even number of used subcarriers, prefix length and block of symbols, OFDM transmission emits "
     "for each symbol vector the inverse FFT of the symbols placed around the unused DC subcarrier, preceded by its "
     "cyclic prefix, and OFDM reception of this signal, possibly followed by an incomplete symbol, returns the symbols. "
     "Through a dispersive channel not longer than the prefix, each received subcarrier is the transmitted symbol "
     "times the frequency response of the channel at this subcarrier.",
     ["inputs", "configurations"],
     "All FFT sizes, subcarrier numbers, prefix lengths (including 0), symbol numbers, symbols and short channels.",
     "No test covers OFDM.",
     [MOD], [("ofdm_tx and ofdm_rx", MOD)], ["return values of ofdm_tx and ofdm_rx"])

prop("C20", "Pulse-shaping filters equal their closed forms at every sample",
     "For every length, roll-off factor, symbol period and sampling rate, the raised-cosine, root-raised-cosine, "
     "Gaussian and rectangular filters return the time axis centred on sample N/2 and the samples of their "
     "closed-form impulse responses, finite everywhere, including at the removable singularities of these formulas. "
     "Hence raised-cosine pulses have no intersymbol interference and a root-raised-cosine pair combines into a "
     "raised-cosine pulse.",
     ["inputs"],
     "All filter lengths, roll-off factors in [0, 1], symbol periods and sampling rates.",
     "No test covers the filters; singular samples only occur for particular roll-off and oversampling combinations.",
     [FI], [("filter formulas and their singular cases", FI)], ["return values of the filter functions"])

prop("C21", "PN sequences follow their LFSR and Zadoff-Chu sequences are CAZAC",
     "PN sequences are the output of the shift register with the given seed and mask for every order, seed, mask and "
     "length (so primitive masks give period 2^order - 1 with the ideal autocorrelation), and seeds or masks of the "
     "wrong length raise ValueError. "
     "Zadoff-Chu sequences equal their defining formula for every root, length and shift, have constant amplitude and "
     "zero cyclic autocorrelation, and invalid roots, lengths or non-integer arguments raise ValueError.",
     ["inputs"],
     "All orders, seeds, masks, sequence lengths, roots and shifts.",
     "The tests check two or three PN sequences and the amplitude and spectrum of a few ZC sequences.",
     [SE], [("LFSR loop", SE), ("ZC formula and argument checks", SE)],
     ["return values of pnsequence and zcsequence"])

prop("C22", "Frequency offset rotates every sample by its exact phase",
     "Adding a frequency offset multiplies sample number n of any real or complex signal by exp(2 i pi n delta_f / Fs) "
     "for every sampling rate and positive or negative offset. "
     "Hence magnitudes are preserved, the first sample is unchanged, offsets add up and the opposite offset undoes it.",
     ["inputs"],
     "All signals, sampling rates and offsets.",
     "No test covers impairments.",
     [IM], [("phase ramp", IM)], ["return value of add_frequency_offset"])

prop("C23", "Link simulations count every transmitted bit and error exactly once",
     "For every link model, the reported bit error rate of each SNR is the number of information bits which differ "
     "between the messages sent and the messages decoded divided by the number of information bits sent, and the "
     "per-transmission bit errors, chunk errors and chunk counts of the full metrics are the exact counts. "
     "Simulation of an SNR stops at the first transmission after which the requested errors (more than them for the "
     "full metrics) or the maximum bits or transmissions are reached, later SNRs are skipped and reported as 0 only once an SNR yields fewer errors than requested, and chunk "
     "sizes are the largest multiple, not above the requested one, that fills whole symbol vectors. "
     "The channel is set to each SNR with the rate and symbol energy of the link, and receivers and decoders get the "
     "outputs, gains and noise variance of the very transmission being decoded.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "All modulations, channels (SISO, MIMO), code rates, chunk sizes, error targets, limits and error patterns "
     "introduced by the receiver or decoder.",
     "The tests compare simulated rates with theory within 25 % or more; accounting errors of one chunk, of chunk "
     "boundaries or of stop conditions disappear in that tolerance.",
     [LI], [("link_performance and link_performance_full_metrics loops", LI)],
     ["calls to modulate, channel, receive and decoder made by the link; returned arrays"])

prop("C24", "Iterative detection and decoding exchanges exactly the extrinsic information",
     "For every detector, decoder, decision function, block shape and number of iterations, the decoder built for a "
     "MIMO iterative receiver feeds the detector, vector by vector, the decoder output minus the decoder input, feeds "
     "the decoder the detector output minus the detector input, and decides on the last detector output. "
     "Each received vector is detected with its own channel matrix and a priori values, and the a priori array given "
     "by the caller is not modified.",
     ["inputs", "configurations", "histories"],
     "All detector and decoder functions, numbers of vectors, antennas, bits per vector and iterations.",
     "No test covers the iterative receiver.",
     [LI], [("idd_decoder", LI)], ["arguments and results of every detector, decoder and decision call"])

prop("C25", "WiFi simulation transmits according to the 802.11 MCS table and decodes it back",
     "For every modulation and coding scheme from 0 to 9, the transmitted symbols are the bits encoded by the standard "
     "rate 1/2 code of generators 133 and 171 (octal), punctured with the standard pattern of the coding rate of this "
     "scheme, and mapped on the modulation of this scheme. "
     "Over a channel with negligible noise no bit error or lost frame is reported, and the reported bit errors, chunk "
     "errors and chunk counts are those of the messages sent, for every chunk size, frame aggregation and custom "
     "receiver.",
     ["inputs", "configurations"],
     "All MCS values, channels (SISO, MIMO), chunk sizes, aggregation numbers, limits and messages.",
     "No test covers the WiFi module.",
     [WI, LI, CC, MOD], [("MCS tables", WI), ("encoding, puncturing, decoding chain", WI)],
     ["symbols entering the channel, messages drawn, returned metrics"])

prop("C26", "Depuncturing restores punctured streams and neutralises missing positions",
     "For every stream and puncturing vector, puncturing keeps in order exactly the elements whose position in the "
     "periodic pattern is 1. "
     "Depuncturing to the original length puts each kept element back at its position and 0 at all the others, so "
     "puncturing again returns the punctured stream.",
     ["inputs"],
     "All streams of bits or LLRs, pattern lengths and contents, stream lengths which are multiples of the pattern "
     "length or not.",
     "No test covers puncturing or depuncturing.",
     [CC], [("puncturing and depuncturing loops", CC)], ["return values of puncturing and depuncturing"])

prop("C27", "Results depend only on the arguments, and arguments are never modified",
     "Every function and method of the library which is not random returns the same result for equal arguments "
     "whatever was called before, and whatever callers do with previously returned or given arrays; random ones do so "
     "for equal states of the random generator. "
     "Arrays and parameters given by the caller are left unmodified (except the documented clipping of LDPC LLRs and "
     "completion of LDPC parameters), and results never depend on the content of uninitialised memory.",
     ["histories", "inputs"],
     "All sequences of calls on shared objects (modems, trellises, channels, code parameters), with callers that "
     "modify results and arguments between calls.",
     "Unit tests call each function once on fresh data; aliasing, stale caches and uninitialised buffers need "
     "particular histories to show up.",
     [U, MOD, CC, TU, LD, GF, CH, LI, SE, FI],
     [("caches of bit arrays and branch metrics", U + ", " + CC), ("preallocated buffers", CC + ", " + MOD),
      ("views of caller arrays", CC + ", " + LD)],
     ["arguments before and after each call", "results of repeated calls under different histories and memory "
      "contents"])

prop("C28", "Random results are repeatable from the seed; deterministic code draws nothing",
     "Seeding the global NumPy generator makes every random operation of the library (channels, link simulations, WiFi "
     "simulations) repeatable bit for bit, within a process and across processes. "
     "Distinct draws of one run are not repeated, and deterministic operations (modems, codes, detectors, filters, "
     "sequences, fields, interleavers) neither consume nor change the global generator.",
     ["histories", "inputs"],
     "All seeds, all random operations and all sequences mixing them with deterministic operations.",
     "Tests seed the generator to be stable but never check that a run can be repeated or that other parts leave the "
     "generator alone.",
     [CH, LI, WI, IL, SE], [("use of the global NumPy generator", CH + ", " + LI), ("private generator", IL)],
     ["outputs of repeated runs", "state of the global generator around calls"])

prop("C29", "Simulated links reproduce the theoretical error rates",
     "For uncoded PSK, QAM and antipodal links over AWGN and Rayleigh channels (SISO, receive diversity, zero-forced MIMO), the bit error rates measured by link simulations "
     "agree with theory at every SNR within the statistical accuracy of the simulation. "
     "For coded links (convolutional, turbo, LDPC), error rates are below the union-type bounds or reference rates of "
     "the code, and soft decisions do not perform worse than hard ones.",
     ["inputs", "configurations", "histories"],
     "All modulation orders, SNRs, channels and codes; statistical statement over long simulations.",
     "The tests compare a few curves within 25 to 125 %, many being skipped as slow; calibration or metric errors of a "
     "fraction of a dB go unnoticed.",
     [LI, MOD, CH, CC, LD, TU], [("the whole transmission chain", LI)],
     ["bit errors counted at the link boundary"])

prop("C30", "Drawings show exactly the constellation, the trellis and the state machine",
     "Plotting a constellation shows each point at its place with the word of bits which is modulated to it. "
     "Plotting a trellis or its state machine shows each state once, in the requested order (by default in increasing "
     "order), and all and only the transitions of the tables, in the color which the legend gives to their input, with "
     "their outputs. "
     "The figure is saved when a path is given.",
     ["inputs", "configurations"],
     "All constellations, all codes of a few states, orders of states and colors.",
     "No test covers the drawings.",
     [CC, MOD], [("trellis and state machine drawings", CC), ("constellation drawing", MOD)],
     ["artists of the current figure after the drawing"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
