#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))
IN, CF, SC, HI, FA = "inputs", "configurations", "schedules", "histories", "fault_sequences"

p("C01", "PSK and spread-spectrum PSK links return the message that was sent",
  "A bit message modulated by any BPSK or QPSK transmitter (baseband or passband, plain or spread with any key) and demodulated by the matching receiver with the same parameters comes back bit for bit; a QPSK link returns the longest even-length prefix. "
  "This holds for messages of any length, for every valid sample rate, symbol rate and carrier frequency at which the carrier's in-phase (and, for QPSK, quadrature) energy over a symbol is separable, and for any positive amplitude scaling of the signal. "
  "It keeps holding under any bounded disturbance too small to reverse a symbol's correlation.",
  [IN, CF, FA], "every message, every rate/carrier/key configuration, every channel disturbance below the decision margin",
  "The tests try a handful of random messages at one or two configurations (fs=80000, fc=2500 or 2000) over a noiseless channel; other carriers (0, half the sample rate, non-integer), keys of length 1 or not a power of two, empty or odd messages are never tried.",
  ["src/bpsk.rs", "src/qpsk.rs", "src/cdma.rs"],
  [("coherent carrier multiplication and integrate-and-dump", "src/bpsk.rs, src/qpsk.rs"), ("chip multiplication", "src/cdma.rs")],
  ["bits received = bits sent"])
p("C02", "PSK transmitters emit the specified waveform, sample for sample",
  "Sample i of a transmitted BPSK signal is the antipodal value of the bit in force times a unit-amplitude cosine of the carrier at time i/sample-rate; a QPSK signal is first-bit cosine minus second-bit sine; the baseband versions are the corresponding constellation points. "
  "The phase is a function of the absolute sample index: it runs continuously over symbol boundaries for messages of any length. "
  "Each bit (or pair of bits, a dangling last bit being dropped) produces exactly sample-rate/symbol-rate samples.",
  [IN, CF], "every message, configuration and sample index",
  "No test compares transmitted samples with a reference; the loopback tests cannot see an error made identically in transmitter and receiver, nor one that appears only late in a stream.",
  ["src/bpsk.rs", "src/qpsk.rs"],
  [("carrier indexed by absolute sample number", "src/bpsk.rs tx, src/qpsk.rs tx")], ["transmitted samples and their number"])
p("C03", "Coherent PSK receivers decide every symbol from exactly its own samples",
  "For an arbitrary received signal, the k-th decision of a BPSK receiver is the sign of the correlation of the k-th block of sample-rate/symbol-rate samples with the carrier cosine, and a QPSK receiver's k-th pair of decisions the signs of the correlations with cosine and minus sine; the despreading receivers first multiply by the key's chips, and the baseband receivers decide each sample by the signs of its real (and imaginary) part. "
  "Exactly one decision (QPSK: one pair) is produced per complete block; an incomplete last block produces none. "
  "Changing samples of one block never changes the decisions of other blocks.",
  [IN, CF], "every received sample stream (noisy, truncated, foreign), every configuration",
  "Receivers are only ever fed their own transmitter's clean output, which leaves the integration window, the block boundaries and the treatment of arbitrary signals unobserved.",
  ["src/bpsk.rs", "src/qpsk.rs", "src/cdma.rs", "src/iter/integrate.rs"],
  [("integrate and dump over one symbol", "src/iter/integrate.rs"), ("threshold", "src/bpsk.rs, src/qpsk.rs")], ["decisions per block"])
p("C04", "Direct-sequence spreading applies the key chip by chip, in step with the data",
  "A spread baseband stream contains, for each data bit, the key XORed with that bit, in order; despreading takes the majority of each key-length block XORed with the key, so that fewer than half flipped chips in a block never change the bit. "
  "A spread passband signal equals the unspread one multiplied by the key's antipodal chips, each lasting sample-rate/(symbol-rate*key-length) samples, the key restarting at every symbol. "
  "This holds for keys of every length and content.",
  [IN, CF, FA], "every key, message, configuration and pattern of chip errors",
  "The tests use one 16-chip Walsh code and never inspect chips, alignment after many symbols, or chip errors.",
  ["src/cdma.rs", "src/iter/inflate.rs"],
  [("cyclic chip multiplication", "src/cdma.rs"), ("majority vote", "src/cdma.rs rx baseband")], ["chips, spread samples, despread bits"])
p("C05", "CDMA users with different Walsh codes do not disturb one another",
  "When several transmitters with distinct codes of one Walsh family send simultaneously over the same carrier and their signals (each with any positive gain) are added, each receiver recovers exactly its own user's message, provided a chip holds a whole number of half carrier cycles. "
  "A receiver using a code nobody transmitted with sees zero correlation.",
  [IN, CF], "every set of users, codes, messages and gains",
  "One test superimposes a few users with fixed codes and rates; which pairs of codes, orders, gains and numbers of users work is never enumerated.",
  ["src/cdma.rs", "src/hadamard.rs"],
  [("orthogonal codes", "src/hadamard.rs"), ("synchronous chip alignment", "src/cdma.rs")], ["each user's received bits"])
p("C06", "The Walsh code family is complete, balanced and pairwise orthogonal",
  "For every power-of-two order of at least two the code matrix is the Sylvester Hadamard matrix: codes requested by consecutive indices are order-1 distinct, balanced, mutually orthogonal codes of length order, none of them the constant code, and indices wrap around cyclically. "
  "Every index returns a code, and the printed matrix agrees with the codes; an order that is not a power of two is refused.",
  [IN, CF], "every order and every index",
  "The tests check single small matrices against literals; index wrap-around and orders above 16 are not touched.",
  ["src/hadamard.rs"], [("doubling construction", "src/hadamard.rs new"), ("index to row", "src/hadamard.rs key")],
  ["rows returned for indices", "printed matrix"])
p("C07", "Byte packing and the error-correcting coded link preserve the message",
  "Packing bits into bytes (least significant first, zero padded) and unpacking is the identity up to the padding. "
  "The coded stream consists of 12-byte frames, 7 data bytes followed by 5 Reed-Solomon check bytes (the last frame shortened to its data bytes plus check bytes), and decoding returns the padded message exactly whenever at most two bytes per frame were damaged, however they were damaged. "
  "A frame with more damage, or one cut off at the end of the stream, never disturbs the data of the frames before and after it and never makes the decoder fail.",
  [IN, FA], "every message and every pattern of damaged bytes and truncation",
  "The tests decode only undamaged random streams; no error pattern, frame boundary or truncated stream is exercised.",
  ["src/bch.rs", "src/lib.rs", "src/cdma.rs"],
  [("frame-wise encode/correct", "src/bch.rs"), ("bit order and padding", "src/lib.rs")], ["encoded bits", "decoded bits"],
  hook="private stream coder and packers re-exported under cfg(komunikilo_verif)")
p("C08", "Frequency hopping visits every channel once per epoch and stays in step",
  "A hop sequence over n frequencies low + k*(high-low)/n consists of consecutive epochs of n hops, each a permutation of all n frequencies, and is determined by its parameters (and seed) alone. "
  "A frequency-hopped transmitter sends every symbol as an ordinary symbol (phase starting at zero) on its hop frequency, and a hopped receiver with the same parameters follows the same sequence, so that messages of any length come back bit for bit. "
  "This holds for every number of frequencies including one.",
  [IN, CF, HI], "every band, number of frequencies, seed, message and position in the sequence",
  "The tests send one random message with one hop configuration; epoch boundaries, the permutation property and small tables are not examined.",
  ["src/fh.rs"], [("reshuffled hop table with epoch index", "src/fh.rs"), ("fixed seed on both sides", "src/fh.rs")],
  ["hop frequencies", "symbol waveforms", "received bits"],
  state=[("epoch position", "how many hops of the current permutation were used", "src/fh.rs")],
  hook="hop table re-exported under cfg(komunikilo_verif)")
p("C09", "Baseband OFDM maps symbols to subcarriers and back, with a cyclic prefix",
  "Each block of (subcarriers - pilots) data symbols becomes subcarriers + subcarriers/4 samples: the inverse discrete Fourier transform of the symbols placed on the data subcarriers in order of frequency (the centre one and pilots-1 split over the two edges stay empty), preceded by a copy of its last quarter; a short last block is zero filled. "
  "The receiver returns exactly the spectrum values at the data subcarriers of each complete block, ignoring the prefix, so that symbols of any complex value come back in order. "
  "This holds for every number of subcarriers and pilots, even or odd.",
  [IN, CF], "every symbol stream and every (subcarriers, pilots) pair with at least one data subcarrier",
  "The tests loop back QPSK symbols at 64/12 only; carrier allocation, prefix content, odd sizes and arbitrary symbols are not checked.",
  ["src/ofdm.rs"], [("subcarrier allocation", "src/ofdm.rs"), ("FFT and shift", "src/ofdm.rs, src/lib.rs")],
  ["time samples of every block", "recovered symbols"])
p("C10", "Passband OFDM carries every bit through modulation and demodulation",
  "The passband OFDM transmitter emits, for sample i, the real part of the baseband block sample in force (each held for sample-rate/symbol-rate samples) rotated by the carrier phase at absolute time i/sample-rate. "
  "The matching receiver returns the transmitted bits in order, followed only by the padding of the last block, whenever each held sample spans a whole number of half carrier cycles (carrier neither 0 nor half the sample rate); it judges each block from exactly its own samples.",
  [IN, CF], "every message, (subcarriers, pilots), rates and carrier in the stated class",
  "One loopback at one configuration is tested, with the samples themselves never inspected.",
  ["src/ofdm.rs"], [("carrier mixing by absolute index", "src/ofdm.rs"), ("integrate and dump", "src/iter/integrate.rs")],
  ["transmitted samples", "received bits"])
p("C11", "Chaos shift keying and differential chaos keying deliver every bit",
  "A chaos-shift-keyed stream has, at position k, the k-th value of the first logistic orbit (parameter 3.9, started at 0.1) for a one and of the second's (started at 0.15) for a zero, and the receiver returns every bit of every message. "
  "A differential stream sends for each bit a reference chaos value followed by the same value with the sign of the bit; its receiver decides each complete pair by the sign of the product and ignores a dangling last sample, so the whole message comes back for any positive or negative scaling of the signal.",
  [IN, FA], "every message, any scaling, any disturbance smaller than the decision margin, truncation anywhere",
  "Two loopback tests on short random messages; the emitted values and the receiver on other inputs are never checked.",
  ["src/csk.rs", "src/dcsk.rs", "src/chaos/logistic_map.rs"],
  [("two synchronised generators", "src/csk.rs"), ("reference/information pairing", "src/dcsk.rs")],
  ["transmitted values", "received bits"], hook="private CSK receiver re-exported under cfg(komunikilo_verif)")
p("C12", "FH-OFDM-DCSK frames are well formed and keep transmitter and receiver aligned",
  "Every 7 bits (the last group padded) become one frame of 10 complex samples: a 2-sample cyclic prefix and the inverse transform of a permutation of one reference chaos value and 7 bit-signed chaos values, so every value transmitted is taken from the chaos orbit up to sign, exactly once per frame. "
  "The receiver undoes the same permutation in every frame: from any frame it returns 7 bits, each the sign of the correlation of a data value with that frame's reference value, and incomplete frames yield nothing. "
  "The passband versions hold each sample for sample-rate/symbol-rate samples and rotate it by the (hopped) carrier at absolute time. "
  "Sent over a clean channel, a message comes back from the receiver.",
  [IN, CF, HI], "every message and length, every frame number, every configuration",
  "The only loopback test is marked ignored; the others only plot or compare lengths.",
  ["src/fh_ofdm_dcsk.rs", "src/fh.rs", "src/chaos/chebyshev.rs"],
  [("seeded permutation per frame on both sides", "src/fh_ofdm_dcsk.rs")], ["frame spectrum", "received bits", "passband samples"],
  state=[("permutation generator", "advances once per frame on both sides", "src/fh_ofdm_dcsk.rs")])
p("C13", "FSK and FM transmitters emit the right tones; FM-FSK reception is lossless",
  "Every frequency-shift-keying transmitter sends, for each bit, sample-rate/symbol-rate samples of a unit cosine at the high frequency for a one and the low frequency for a zero, evaluated at absolute time (the FM-based one at 2.5 percent above or below the carrier). "
  "The FM transmitter's phase is the carrier phase plus 0.05 times the running sum of the input held for a symbol. "
  "The FM-FSK receiver decides each symbol by comparing the energies at the two tones, so messages come back bit for bit whenever the tones are separated by whole cycles per symbol.",
  [IN, CF], "every message, input signal and configuration",
  "Tests of these modems only write plots or use one configuration.",
  ["src/fsk.rs", "src/fm.rs"], [("tone selection", "src/fsk.rs, src/fm.rs"), ("non-coherent energy comparison", "src/fm.rs rx")],
  ["transmitted samples", "received bits"])
p("C14", "Chirps sweep the requested band; hopped chirp symbols carry the bit",
  "A linear chirp of rate r has floor(sample-rate/r) samples of a unit cosine whose phase is that of a linear sweep from the start to the stop frequency in 1/r seconds; the centred up- and down-chirps sweep the band of the given width around the centre in the stated direction. "
  "A frequency-hopped chirp signal sends for each bit one such chirp of width (high-low)/n around the current hop frequency, upwards for a one and downwards for a zero.",
  [IN, CF], "every rate, band, sample index, message and hop position",
  "The tests check chirp lengths or plot; no sample is compared with a reference.",
  ["src/fh_css.rs", "src/fh.rs"], [("quadratic phase", "src/fh_css.rs")], ["samples", "number of samples"])
p("C15", "Stream reshaping adaptors neither lose, duplicate nor reorder elements",
  "Grouping a stream into chunks of n and concatenating gives the stream back, all chunks but the last having exactly n elements; the whole-chunk variant additionally pads the last one with default values to n. "
  "Inflating by n repeats every element exactly n times in order, taking every n-th keeps elements 0, n, 2n and so on, and scaling multiplies each element. "
  "This holds for every input length, every n (including 1 and larger than the input), and any pattern of pulls (including folding, counting and taking the last of what is left), and once the source has ended the adaptors stay ended.",
  [IN, CF, SC], "every source, size parameter and pull pattern",
  "The tests check single examples per adaptor at lengths that divide evenly or nearly so.",
  ["src/iter/chunks.rs", "src/iter/inflate.rs", "src/iter/take_every.rs", "src/iter/scale.rs"],
  [("adaptor state machines", "src/iter")], ["outputs, end of stream"],
  state=[("copies left / position", "adaptor-internal counters", "src/iter/inflate.rs, src/iter/take_every.rs")])
p("C16", "Running sums, integrate-and-dump and convolution compute exactly what they name",
  "The running sum's k-th output is the sum of the first k+1 inputs; integrate-and-dump outputs the sum of each complete block of n inputs and drops an incomplete last block; both have element-wise versions for simultaneous streams which treat every component alike. "
  "Convolution with a filter of m taps outputs the full discrete convolution: (inputs + m - 1) values, starting with the first input and ending with the last tap's contribution (nothing for an empty input).",
  [IN, CF, SC], "every input, block size, filter and pull pattern",
  "The tests cover a few symmetric filters, where reversal is invisible, and lengths that are multiples of the block.",
  ["src/iter/integrate.rs", "src/iter/convolution.rs"],
  [("accumulators", "src/iter/integrate.rs"), ("sliding buffer", "src/iter/convolution.rs")], ["outputs, end of stream"],
  state=[("accumulator / delay line", "state carried between outputs", "src/iter")])
p("C17", "Processing chains are lazy, incremental and independent of how they are pulled",
  "The output of any chain of transmitters, receivers and adaptors is a function of its input stream alone: pulling one element at a time, in bursts, by skipping ahead, all at once or through folding, counting and taking the last element gives the same sequence, announced bounds on the number of outputs left are true, and separately created chains with the same parameters give the same sequence. "
  "Outputs never depend on inputs beyond the block they belong to: feeding a prefix of the input yields a prefix of the output up to the padding of the last block, and producing k outputs consumes only a bounded number of inputs more than those k outputs need, so endless sources work.",
  [SC, HI, IN], "every chain, pull schedule, truncation point, including endless sources",
  "All tests collect whole finite streams in one go.",
  ["src/iter/mod.rs", "src/bpsk.rs", "src/qpsk.rs", "src/cdma.rs", "src/ofdm.rs", "src/fh.rs", "src/bch.rs", "src/fh_ofdm_dcsk.rs"],
  [("iterator adaptors holding per-stream state", "src/iter")], ["outputs under different schedules", "inputs consumed"])
p("C18", "The FFT band-pass keeps in-band tones and removes the rest, block by block",
  "For every block of the transform length the band-pass filter outputs as many samples, equal to the input with exactly those discrete frequencies whose value lies outside the closed interval from low to high removed: a tone on an in-band bin passes unchanged in amplitude and phase, one on an out-of-band bin (including the mean, when the band does not start at zero) vanishes, and the operation is linear and idempotent. "
  "Blocks do not influence one another.",
  [IN, CF], "every whole-block signal, band edge, sample rate and transform length",
  "One test filters one sum of tones at one block length and plots or compares one band.",
  ["src/bpf.rs"], [("spectrum masking", "src/bpf.rs")], ["filtered samples"])
p("C19", "Spectral correlation estimates place every cyclic component in the right cell",
  "The spectral-correlation estimate of n + Np samples is an n by Np table whose entry is the windowed sliding transform of the input at that frequency, down-converted, multiplied by the conjugate centre sample, windowed again and transformed over time, with both axes running from the lowest frequency upwards. "
  "The mapped form is an (Np+1) by (2n+1) table in which every entry of the first is stored at the cell of its frequency and cycle frequency and nothing else is stored.",
  [IN, CF], "every input signal and every (n, Np) with Np smaller than n; for the map, powers of two",
  "The tests compare shapes or plot; there is no reference value.",
  ["src/ssca.rs", "src/lib.rs"], [("strip transforms", "src/ssca.rs base"), ("cell mapping", "src/ssca.rs mapped")], ["table entries", "cell positions"])
p("C20", "The Python bindings expose the same modems with the same results",
  "Every function of the Python module returns what the corresponding library operation specifies for the same arguments: modulators and demodulators give the same samples and bits (the CDMA one using the first 16-chip Walsh code, the chaos ones holding each value for a symbol), chirps, energies, noise generators and random data have the stated length and values, and the spectral-correlation functions and detectors agree with one another. "
  "Invalid rates are reported as exceptions and leave the module usable.",
  [IN, CF, HI], "every argument of every exported function, in any order of calls",
  "Nothing in the test suite loads the Python module.",
  ["src/lib.rs"], [("argument order and wiring of the wrappers", "src/lib.rs")], ["values returned to Python"])
p("C21", "Link metrics and grids have their defining values",
  "The bit error rate of two non-empty messages is the fraction of differing positions over their common length, so 0 exactly when they agree there; energy is the sum of squares over the sample rate, average energy their mean, power the energy divided by the number of samples; antipodal mapping, evenly spaced grids, the Hamming window and the spectrum-centring permutation follow their definitions for every length. "
  "Decibel conversions are mutually inverse.",
  [IN], "every argument", "The tests check isolated values.",
  ["src/lib.rs"], [("metric functions", "src/lib.rs")], ["function results"], hook="private helpers re-exported under cfg(komunikilo_verif)")
p("C22", "The Python reference modems interoperate with the compiled ones",
  "The Python BPSK, QPSK and spread BPSK modulators produce the waveforms of the compiled transmitters (QPSK up to a positive amplitude), and the Python and compiled receivers decode each other's transmissions bit for bit, for every non-empty message of complete symbols at every configuration both accept.",
  [IN, CF], "every message and common configuration",
  "There is no automated test of the Python modems.",
  ["kom_py/psk.py", "kom_py/cdma.py", "kom_py/util.py"], [("Python modems", "kom_py/psk.py, kom_py/cdma.py")], ["samples", "bits"])
p("C23", "Chaotic generators follow their maps and stay bounded",
  "Each orbit value equals the map applied to the previous value, starting with the map of the initial value, and an orbit is determined by its parameters; orbits of the logistic map with parameter in [0,4] started in [0,1] stay in [0,1], and Chebyshev orbits started in [-1,1] stay in [-1,1] forever. "
  "Tent and Bernoulli maps follow their definitions; initial values outside the interval are refused.",
  [IN, HI], "every parameter, initial value and orbit position",
  "One test prints values; boundedness over long orbits and the recurrence are not checked.",
  ["src/chaos/logistic_map.rs", "src/chaos/chebyshev.rs", "src/chaos/mod.rs"], [("iterated maps", "src/chaos")], ["orbit values"])
p("C24", "Transmitters refuse impossible rates at construction and accept all others",
  "Constructing a transmitter (or spread-spectrum or OFDM receiver) that validates its rates fails immediately, before any sample is produced or input consumed, when the sample rate is not a multiple of the symbol rate, when the carrier (or highest frequency) exceeds half the sample rate, or when the chip rate exceeds half the sample rate or does not divide it (the OFDM modems check the first condition only). "
  "Every configuration satisfying the conditions, including the boundary values, is accepted and never fails later, whatever the input.",
  [CF, IN], "every combination of rates, carriers and key lengths",
  "No test constructs an invalid or boundary configuration.",
  ["src/bpsk.rs", "src/cdma.rs", "src/fh.rs", "src/fh_css.rs", "src/fsk.rs", "src/ofdm.rs", "src/fh_ofdm_dcsk.rs"],
  [("constructor assertions", "all modem constructors")], ["construction succeeds or fails", "inputs consumed"])
p("C25", "The noise channel adds zero-mean noise of the requested power and nothing else",
  "The additive noise channel returns exactly one sample per input sample, in order: each is the input plus independent zero-mean Gaussian noise of the requested standard deviation, so with deviation 0 the channel is the identity. "
  "On complex signals both components are disturbed alike, and noise streams drawn separately are independent of one another.",
  [IN, CF], "every signal and deviation",
  "The tests look at one histogram of one long signal.",
  ["src/lib.rs"], [("zip with normal samples", "src/lib.rs")], ["sample count", "residuals"])
p("C26", "The error function and its complement are accurate everywhere",
  "The error function is within 1.2e-7 of the true value for every real argument, odd, non-decreasing up to that accuracy and bounded by 1 in magnitude, and its complement is one minus it everywhere, also far out in the tails.",
  [IN], "every real argument", "The test suite never compares a value of the approximation.", ["src/lib.rs"],
  [("rational approximation", "src/lib.rs erf, erfc")], ["values"])
p("C27", "The recursive band-pass acts as a zero-phase Butterworth filter in each block",
  "The Butterworth band-pass outputs as many samples as it is given, whatever the number, and works block by block on 81920 samples. Inside a block, away from its ends, every tone keeps its phase and comes out with the squared gain of the order-64 Butterworth design for the band, so tones well within the band pass unchanged and tones well outside vanish. "
  "Stated for bands at least a fiftieth of the sample rate wide.",
  [IN, CF], "every length, band and sample rate, every frequency of every tone",
  "The one test plots a single chirp through a single band.",
  ["src/bpf.rs"], [("block-wise forward and backward filtering", "src/bpf.rs butterpass")], ["samples", "number of samples"])
p("C28", "The Python analysis tools compute what their definitions say",
  "Spectral correlation in Python has the defining entries for every signal, window and pair of lengths, with or without the maps; cycle detectors take for each cycle frequency the largest magnitude and the sum of squares over frequency; powers of two are rounded down or up exactly, chunking keeps every complete chunk, level coding, scaling, energies, durations in words and error counts have their defining values. "
  "Theoretical error rates are those of the optimum receiver, chirps have their defining phase, chaotic sequences follow their map, noise has the requested power, hopped chaos frames consist of a permutation of reference and signed values per frame, and the band-pass keeps tones well inside the band and removes those well outside.",
  [IN, CF], "every argument of every function", "Nothing in the test suite runs the Python tools.",
  ["kom_py/ssca.py", "kom_py/util.py", "kom_py/willie.py", "kom_py/chirp.py", "kom_py/ber.py", "kom_py/ber_theory.py", "kom_py/fh_ofdm_dcsk.py"], [("Python analysis tools", "kom_py")], ["returned values"])
p("C29", "Links over Gaussian noise err as often as the optimum receiver and no more",
  "Over additive white Gaussian noise every coherent link (BPSK and QPSK at baseband and on a carrier, spread or not, and OFDM) makes bit errors with the probability of the optimum receiver of antipodal signals for the energy per bit and noise density used, equally for ones and zeros, independently from bit to bit and from one transmission to the next.",
  [IN, CF, HI], "every message, configuration and noise level",
  "The tests only plot error-rate curves or run single noise levels with a loose bound.",
  ["src/bpsk.rs", "src/qpsk.rs", "src/cdma.rs", "src/ofdm.rs", "src/lib.rs"],
  [("integrate-and-dump receivers", "src/bpsk.rs, src/qpsk.rs, src/cdma.rs, src/ofdm.rs"), ("noise channel", "src/lib.rs awgn")], ["number and positions of bit errors"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
