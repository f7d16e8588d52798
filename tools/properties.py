"""Writes properties.jsonl (kept in one place so that statement and anchors are edited together)."""
import json
import pathlib

D = "diamondback/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over.split(), text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=[D + f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None,
        ),
    ))


T = "Unit tests filter one random signal in one call and compare shapes or a loose error; "
p("C01", "FIR output is the difference equation whatever the split into calls",
  """For any forward coefficients (real or complex, any length, given as list or array of int or float) and optional initial
  state, the outputs of successive filter calls, concatenated, equal y[n] = sum of b[i]*x[n-i] over the concatenated input,
  whatever the lengths of the individual calls. The samples before the first one are the initial state, most recent first (zeros
  by default), the state read between calls is the most recent samples, and a filter built from the coefficients and state of another
  continues its stream. Reading a response, delay or roots between calls changes nothing, and newly assigned coefficients apply
  from the next sample.""",
  "histories inputs", "every partition of a stream into calls, every interleaving of calls with resets, coefficient changes, queries and resumption, for every coefficient array",
  T + "state carried across calls, odd chunk lengths and integer or complex coefficients are never exercised.",
  ["filters/fir_filter.py"], [("sample loop shifting the state array", "FirFilter.filter"), ("coefficient and state padding and typing", "FirFilter.__init__")],
  [("state", "most recent samples, newest first", "FirFilter.s")], ["FirFilter.filter", "FirFilter.s"])
p("C02", "IIR output is the recursive difference equation whatever the split",
  """For any recursive coefficients a (a[0] = 0) and forward coefficients b, of equal or different lengths, real or complex,
  the concatenated outputs of successive filter calls from rest equal y[n] = sum of a[i]*y[n-i] (i >= 1) + sum of b[i]*x[n-i]
  over the concatenated input, whatever the lengths of the individual calls. A filter built from the coefficients and
  state of another, at any point of a stream, continues that stream exactly. Reading a response, delay or roots between calls
  changes nothing.""",
  "histories inputs", "every partition of a stream into calls, every interleaving with queries and resumption, for every pair of coefficient arrays",
  T + "the recursive state across calls and unequal coefficient lengths are never exercised.",
  ["filters/iir_filter.py", "filters/fir_filter.py"], [("direct form II sample loop", "IirFilter.filter"), ("coefficient padding", "IirFilter.__init__")],
  [("state", "recursive state", "IirFilter.s")], ["IirFilter.filter"])
p("C03", "Reset to a level removes every transient and all earlier history",
  """After a reset to a level x, whatever was filtered before, a constant input of x gives at once and for ever the steady
  output: x times the sum of the coefficients for a FIR filter, x for an IIR filter of unity gain at zero frequency, zero for a derivative filter,
  x for a rank filter at every index, and x for a polyphase rate filter at every rate. What follows a reset does not depend on anything filtered before it
  (for a polyphase rate filter, apart from its sampling phase).""",
  "histories configurations", "every history of calls before the reset, every filter configuration and level, every split of the constant signal after it",
  "Tests reset a filter once, when new, to the first sample, and never compare with the steady output.",
  ["filters/fir_filter.py", "filters/iir_filter.py", "filters/rank_filter.py", "filters/polyphase_rate_filter.py", "filters/derivative_filter.py"],
  [("state assignment", "FirFilter.reset, IirFilter.reset, PolyphaseRateFilter.reset")], [], ["filter after reset"])
p("C04", "FIR designs meet frequency, gain, symmetry and complement constraints",
  """A FIR filter designed from a style, frequency, even order, count, complement and gain has order+1 real coefficients symmetric about
  their centre (linear phase), gain equal to the specified gain at zero frequency (at Nyquist for a complement), and, cascaded count times, a magnitude of
  gain^count/sqrt(2) at the specified frequency within 0.005 percent, for count up to 8 and frequency (one minus frequency for a complement) f in
  (0, 0.95] with order*f at least 4. A complement at frequency f is the exact mirror (alternating signs) of the design
  at 1-f, gain only scales the coefficients, and style names are case insensitive.""",
  "configurations", "every style, frequency, order, count, complement and gain in the stated domain",
  "Tests construct one random configuration per run and check at most the shape of the result.",
  ["filters/fir_filter.py"], [("iterative cutoff search and normalisation", "FirFilter.__init__")], [], ["FirFilter.b"])
p("C05", "IIR designs are stable and meet frequency, gain and complement constraints",
  """An IIR filter designed from a style, frequency, order, count, complement and gain is stable (all poles strictly inside the unit circle), has order+1
  real coefficients in each array with a[0] = 0, gain equal to the specified gain at zero frequency (at Nyquist for a complement), and,
  cascaded count times, a magnitude of gain^count/sqrt(2) at the specified frequency within 1 percent, for orders 2 to 6,
  count up to 2 and frequency (one minus frequency for a complement) in [0.05, 0.8], or [0.05, 0.15] for "Bessel", and
  for styles other than "Bessel" for count up to 8 and that frequency in [0.05, 0.7], and for orders 7 and 8 of those, count up to 3 and that frequency in [0.15, 0.7]. A complement at frequency f is the exact mirror (alternating signs in both arrays) of the design at 1-f, gain only scales the forward
  coefficients, and style names are case insensitive.""",
  "configurations", "every style, frequency, order, count, complement and gain in the stated domain",
  "Tests construct one random configuration per run and check at most the shape of the result.",
  ["filters/iir_filter.py", "transforms/z_transform.py"], [("prototype evaluation and iterative frequency search", "IirFilter.__init__, IirFilter._evaluate")], [], ["IirFilter.a", "IirFilter.b"])
p("C06", "Responses, delays and roots describe what the filter does, as labelled",
  """For any FIR or IIR filter, any length and any count, the response at each returned frequency f = -1 + 2k/length equals the discrete-time Fourier transform of the
  impulse response the filter actually produces, at e^(j*pi*f), raised to count; the delay equals count times the group delay there, away
  from spectral nulls and from the edge samples the library smooths (the first for FIR, six at each end for IIR).
  The poles and zeros returned by roots, count copies of each ordered by increasing magnitude, reproduce the same response up to the leading coefficient.
  These queries do not modify the filter.""",
  "configurations inputs", "every coefficient array, every length (odd and even) and count",
  "Tests check shapes and ranges of response, delay and roots and never compare them with a filtered signal.",
  ["filters/fir_filter.py", "filters/iir_filter.py"], [("freqz, group_delay, roots evaluation and labelling", "response, delay, roots of FirFilter and IirFilter")], [], ["response", "delay", "roots"])
p("C07", "Derivative and integral filters are exact where their order says",
  """Every supported derivative filter of derivative d gives, after its start-up, exactly the d-th derivative at the centre of its window for every polynomial of degree up to
  d+1 (up to four for the fourth order first derivative), hence zero for degrees below d, across any split of the input into calls. Every supported integral filter of order k gives the running sum from rest of the
  input weighted by the normalised quadrature weights (rectangular, trapezoidal, Simpson 1/3, Simpson 3/8 and Boole for k = 0 to 4), across any split, however long. All other
  derivatives and orders are rejected.""",
  "inputs configurations histories", "every derivative and order, every polynomial of the stated degree, every split into calls",
  "Tests construct a derivative or integral filter and check shapes or a loose error on one signal.",
  ["filters/derivative_filter.py", "filters/integral_filter.py"], [("coefficient tables", "DerivativeFilter.B, IntegralFilter.B")], [], ["filter"])
p("C08", "PID output combines the input, the limited sum and the difference",
  """For any gains b and limit, the output of a PID filter is b[0]*x[n] + b[1]*I[n] + b[2]*(x[n]-x[n-1]), where the integral I is the sum of the input saturated
  at every sample to [-limit, limit], starting from zero with x[-1] = 0, across any split of the input into calls. The
  magnitude of the integral never exceeds the limit, also after the limit is changed during operation, and leaves saturation as soon as the input changes sign.
  A negative limit is rejected and leaves the limit unchanged.""",
  "histories inputs", "every sequence of calls, samples and limit changes",
  "The unit test filters one signal without a limit.",
  ["filters/pid_filter.py"], [("saturating accumulation", "PidFilter.filter"), ("limit validation", "PidFilter.limit")], [("integral", "limited sum", "PidFilter.s[1]")], ["PidFilter.filter"])
p("C09", "Rank filter selects the indexed order statistic of its sliding window",
  """For every order, index and real input, each output sample of a rank filter is the element at the index, by increasing magnitude, among the most recent order+1 input samples
  (preceded by zeros, or by the reset level), across any split of the input into calls and from the first sample after any
  change of the index. The output is always one of the samples of its window.""",
  "histories inputs", "every word over a finite alphabet of samples, every order, index, split and index change",
  "The unit test filters one pulse train with one order and checks shape and range.",
  ["filters/rank_filter.py"], [("window shift and argsort selection", "RankFilter.filter"), ("index validation", "RankFilter.index")], [("window", "recent samples", "RankFilter.s")], ["RankFilter.filter"])
p("C10", "Complex exponential has unit magnitude and contiguous phase across calls",
  """Whatever real frequencies in [-1, 1] are supplied and however they are split into calls, each output sample of a complex exponential filter has unit magnitude and phase pi times
  (initial phase plus the sum of all earlier frequencies), modulo 2*pi. Between calls the phase stays in [-1, 1] and is congruent modulo 2 to
  that sum, an assigned phase takes effect at the next sample, and the output does not drift from this however long the stream is.""",
  "histories inputs", "every sequence of calls and phase assignments over an alphabet of frequencies with exact boundary values",
  "The unit test makes one call on one random frequency ramp.",
  ["filters/complex_exponential_filter.py"], [("phase accumulation and wrapping", "ComplexExponentialFilter.filter")], [("phase", "accumulated phase in [-1, 1]", "ComplexExponentialFilter.phase")], ["filter", "phase"])
p("C11", "Adaptive complex filters follow their LMS recurrences across any split",
  """For complex input, a bandpass filter yields y = b*x, e = d - y and the b used at each sample, with x the unit exponential at its frequency with contiguous phase and b then increased
  by rate*e*conj(x); a frequency filter yields angle(b)/pi, e = u - b*u' and the b used, with u the input normalised to unit magnitude (zero, and a magnitude within 1e-8 of it, is left as it is), u' the preceding such value (or the reset level) and b
  then increased by rate*e*conj(u'), starting from b = e^(j*pi*frequency). Both hold across any split into calls and any change of rate or
  frequency between calls (a frequency filter restarts b from the assigned frequency; a bandpass filter keeps phase and b). A real input
  to a single call is first made analytic by a Hilbert transform.""",
  "histories inputs", "every sequence of calls, resets, rate and frequency changes over the alphabet, every split of a stream",
  "The unit tests filter one exponential in one call and check a final error.",
  ["filters/complex_bandpass_filter.py", "filters/complex_frequency_filter.py"], [("LMS update loops", "ComplexBandpassFilter.filter, ComplexFrequencyFilter.filter")], [("b", "adaptive coefficient", "b"), ("phase", "phase of the internal exponential", "ComplexBandpassFilter")], ["filter", "b"])
p("C12", "Goertzel output is the windowed DFT of each complete window",
  """For any window of any length N and any frequency f, a Goertzel filter produces exactly one output per N input samples, equal in magnitude to (2 for real input, 1 for complex) / N times the windowed
  discrete-time Fourier transform of those samples at f, with phase referred to the last sample of the window. Outputs, in number and value, do not depend on how the stream is split into
  calls, samples of an incomplete window are retained for the next call, and windows do not affect each other. A frequency assigned between windows applies to the
  following windows; one assigned within a window does not change when outputs are due, and applies in full to the windows after it.""",
  "histories inputs configurations", "every split of a stream into calls, every window length, shape and frequency, frequency changes between windows",
  "The unit test filters one signal whose length is a multiple of the window in one call.",
  ["filters/goertzel_filter.py", "filters/iir_filter.py"], [("window index and state reset at each window end", "GoertzelFilter.filter")], [("index", "position in the window", "GoertzelFilter")], ["filter"])
p("C13", "Polynomial rate conversion yields the right count and local polynomials",
  """For any nonnegative rate, order 1 to 3 and input of at least two samples, a polynomial rate filter returns round(length*rate) samples, none for rate zero, the k-th
  being the value at position k/rate of a local approximation of the input: for order 1 the line through the two adjacent samples, for order 2 or 3 the least squares polynomial of that order through
  the four samples around the position, with the input extended linearly at both edges. Affine inputs are therefore reproduced exactly over the whole output at every rate and order, integer positions
  return input samples for orders 1 and 3, and successive calls are independent of each other and follow changes of rate and order.""",
  "inputs configurations histories", "every rate in a dense family, order, length and signal, every sequence of calls and parameter changes",
  "The unit test checks the length for one random rate and order.",
  ["filters/polynomial_rate_filter.py"], [("index accumulation and local fit", "PolynomialRateFilter.filter")], [], ["filter"])
p("C14", "Polyphase rate conversion is unbiased and independent of the split",
  """For any rate in (0, 256], the total number of output samples of a polyphase rate filter after n input samples equals the number of multiples of 1/rate in [0, n) (up to rounding
  at the boundary), and the outputs do not depend on how the input was split into calls. Output k is an inner product of the 15 most recent samples at
  time floor(k/rate) with the branch of the filter bank nearest to the fraction, each branch of unit sum, so constants are preserved and a sinusoid well below both Nyquist limits is
  reproduced with one constant delay at every output. Assigning a rate that differs by more than one part in 10^5 between calls restarts the sampling phase at the next sample; assigning the same rate does not.""",
  "histories configurations inputs", "every split of a stream into calls, every rate in a dense family, sequences of rate changes and resets",
  "The unit test makes one call and accepts a length rounded either way.",
  ["filters/polyphase_rate_filter.py"], [("phase accumulation", "PolyphaseRateFilter.filter"), ("bank construction", "PolyphaseRateFilter.__init__")], [("index", "sampling phase", "PolyphaseRateFilter"), ("state", "recent samples", "PolyphaseRateFilter.s")], ["filter", "b"])
p("C15", "Window filters apply the documented symmetric window, normalised",
  """For every style and order, a window filter multiplies each sample by the symmetric window of order+1 points of that style (Kaiser with beta 7), scaled when normal so that
  the magnitudes of the coefficients average one. Coefficients are symmetric, finite and never modified by filtering, style names are case insensitive, every call is independent of every other, and an input of any other length
  or dimension is rejected.""",
  "configurations inputs", "every style, order and normal condition; every input length",
  "The unit test uses one random style and order and checks shapes.",
  ["filters/window_filter.py"], [("window synthesis and normalisation", "WindowFilter.__init__")], [], ["b", "filter"])
p("C16", "Fourier transform is the labelled DFT and its inverse restores the signal",
  """For every window b of any length N up to the input length, the forward transform equals 1/N times the discrete Fourier transform of the windowed first N samples, in order of increasing
  frequency, each value at the normalised frequency returned with it. The inverse of the forward transform with the same window restores every one of those samples whose window value is nonzero (not within 1e-8 of zero), for real and complex signals, odd and even lengths, and windows with zeros at either or both ends.""",
  "inputs configurations", "every length, window and signal",
  "The unit test uses one even power-of-two style length with a window zero at both ends and ignores the edges.",
  ["transforms/fourier_transform.py"], [("normalisation, shift and labelling", "FourierTransform.transform")], [], ["transform"])
p("C17", "PSD is the mean windowed power spectrum over all complete frames",
  """For every window b of length N, stride and input of at least N samples, the power spectral density is the mean over all complete frames starting at multiples of the stride of the squared magnitude
  of 1/N times the discrete Fourier transform of the windowed frame, for the first N/2 (rounded down) bins, and the spectrogram is the frames themselves in order. Bin k is labelled 2k/N, scaling the
  input by g scales the result by |g|^2, and no complete frame is dropped or repeated.""",
  "inputs configurations", "every input length, window length, stride and signal",
  "The unit test checks shape for one configuration.",
  ["transforms/psd_transform.py"], [("frame enumeration and labelling", "PsdTransform.transform")], [], ["transform"])
p("C18", "Wavelet analysis and synthesis are complementary and reject bad shapes",
  """For every one or two dimensional shape whose lengths are one or a multiple of 2^count, Haar synthesis of Haar analysis with the same count restores the signal exactly, and for every other style and
  order a one-level synthesis of a one-level analysis restores it delayed by the filter order minus one in each dimension that is not one, within the accuracy of the coefficients. Analysis of a matrix is separable, analysis
  with count n is analysis of count n-1 of the low-pass portion of a one-level analysis with the rest unchanged, and both operations are linear, have the shape of the input and
  accept lists, integers and floats alike. Other shapes and counts below one are rejected.""",
  "inputs configurations", "every style and order, every shape and count up to a bound, every signal",
  "The unit test reconstructs one random Haar signal.",
  ["transforms/wavelet_transform.py"], [("filter bank, decimation and recursion", "WaveletTransform.transform"), ("complementary filters", "WaveletTransform.__init__")], [], ["transform"])
p("C19", "Complex and three-phase representations convert into each other and back",
  """For every complex signal the conversion to three phases and back, with the same neutral condition, restores the signal, and for every balanced three-phase signal (zero sum) the conversion to complex and back restores the
  phases; a common offset of the three phases does not affect the complex signal. With neutral the three phases are the projections of the complex value on directions 0, 120 and 240 degrees, and without neutral the complex values are those
  with neutral multiplied by 3^(-1/2) e^(-j*pi/6). Three phases always sum to zero, and the number of samples is preserved.""",
  "inputs configurations", "every length from one, shape, neutral condition and signal",
  "The unit test converts one signal of one length.",
  ["transforms/complex_transform.py"], [("coefficient matrix and gain", "ComplexTransform.transform")], [], ["transform"])
p("C20", "Z transform maps poles and zeros, keeps stability and unity DC gain",
  """For every s-domain function with nonzero constant terms, of simple or repeated poles, the z-domain poles are those of the bilinear map (1 + s*pi*f/2)/(1 - s*pi*f/2) of the s-domain poles, or of e^(s*pi*f) for the impulse invariant method, whose impulse response is proportional to the continuous one sampled at intervals of pi*f, so
  stable functions stay stable; bilinear zeros are mapped likewise with missing zeros placed at the origin. The recursive coefficients start with zero, all coefficients are real, the gain at zero frequency is one, leading zeros and common
  scaling of the s-domain coefficients do not matter, and the caller's arrays are unchanged.""",
  "inputs configurations", "every set of real and conjugate poles and zeros up to a bound, frequency and method, list or array, int or float",
  "The unit test transforms one filter and checks shapes.",
  ["transforms/z_transform.py"], [("root mapping and residue expansion", "ZTransform.transform")], [], ["transform"])
p("C21", "Diversity model keeps observed members and never loses diversity",
  """After any sequence of observations in any split into fits, the members of a diversity model are observations it was given (each used at most once per occurrence), the first order+1 observations fill it, and afterwards a member is replaced exactly when some replacement
  increases the minimum pairwise distance in the selected style, by one achieving the largest minimum. The minimum distance therefore never decreases, and once an observation has been
  considered for replacement it is the value reported for it. Clearing restores a new instance of the same order and style, for any dimension.""",
  "histories inputs", "every sequence of observations over a grid of points, every split into fits and clears, every style and order",
  "The unit test fits one random batch.",
  ["models/diversity_model.py"], [("greedy replacement", "DiversityModel.fit"), ("clear", "DiversityModel.clear")], [("state", "retained observations", "DiversityModel.s"), ("diversity", "minimum distance", "DiversityModel")], ["fit", "s"])
p("C22", "Gaussian model ranks labels by regularised Mahalanobis distance",
  """After a fit, each row predicted by a Gaussian model is a permutation of exactly the distinct labels of the fit (any integers), ordered by increasing Mahalanobis distance of the observation to the class mean with the
  maximum likelihood class covariance plus regularisation times identity. Predictions do not depend on the order of the fitted rows, on duplicating all of them, on the batch in which an observation is predicted or on predictions made
  before, a new fit forgets the previous one entirely, and a fit that raises leaves the model as it was.""",
  "inputs histories", "every small labelled set over a grid, every label alphabet, row order and duplication, every sequence of fits and predictions",
  "The unit test fits random contiguous labels and checks shape.",
  ["models/gaussian_model.py"], [("covariance estimate and ranking", "GaussianModel.fit, GaussianModel.predict")], [], ["predict"])
p("C23", "Gaussian mixture model ranks labels by weighted mixture score",
  """After a fit, each row predicted by a Gaussian mixture model is a permutation of exactly the distinct labels of the fit (any integers), ordered by decreasing score of the class mixture; with one distribution per class
  this is the order of increasing Mahalanobis distance with the maximum likelihood class covariance plus regularisation, and with several well separated clusters per class an observation near any cluster of a class is assigned first
  to that class. Predictions do not depend on the batch of an observation or on earlier predictions, a new fit forgets the previous one, and a fit that raises leaves the model as it was.""",
  "inputs histories", "small labelled sets over a grid, label alphabets, orders, sequences of fits and predictions",
  "The unit test fits random contiguous labels and checks shape.",
  ["models/gaussian_mixture_model.py"], [("per class mixtures and ranking", "GaussianMixtureModel.fit, GaussianMixtureModel.predict")], [], ["predict"])
p("C24", "Serialization restores every instance and resumes it exactly",
  """For every library instance at any point of its operation, and every native, array or data frame value, decoding an encoding (compressed or not, detected automatically) yields an equal and independent value, which continues exactly as the original
  would have, without affecting it. The uncompressed encoding of the same value is deterministic, encodings consist of Base-85 text, and the code is the SHA3-256 of the text in the given encoding. Empty text or an empty encoding name is
  rejected.""",
  "histories configurations inputs", "every instance type and configuration, every snapshot point in a history, both compressions",
  "The unit test round trips a few native values and never an instance in operation.",
  ["commons/serial.py", "filters/fir_filter.py", "models/diversity_model.py"], [("pickle, gzip detection and Base-85", "Serial.encode, Serial.decode, Serial.code")], [], ["encode", "decode", "code"])
p("C25", "Log writes exactly the entries at or above the level to the current stream",
  """In any sequence of level, stream and write operations, an entry is written, exactly once and to the stream assigned most recently (standard output if none), as one line with an ISO 8601 time, the upper case level and the text, if and only if the value of its level is at least that of the current level
  (initially Info), with level names, including custom ones of upper case, case insensitive. An unknown level, or a stream that cannot be written, is rejected with ValueError and leaves level and stream as they were.
  Handlers which the user added to the logger directly keep receiving every entry written and are never removed, text is written verbatim whatever braces or markup it contains, and an exception is written with its type, message and the location at which it was raised.""",
  "histories inputs", "every sequence of operations up to a depth over all levels, custom levels, several streams, user handlers and failing streams",
  "The unit test writes at random levels and does not look at the output.",
  ["commons/log.py"], [("level comparison and redirection", "Log.level, Log.stream, Log.write")], [("level", "threshold", "Log"), ("identity", "handler created by Log", "Log")], ["streams", "loguru handlers"])
p("C26", "Log operations of several threads are atomic and lose nothing",
  """When several threads write, change the level and redirect the stream, each operation takes effect atomically at some moment between its call and its return: every entry written is delivered exactly once, entirely, to one stream, or filtered,
  as in some sequential order of the operations consistent with their calls and returns. This includes the lazy creation of the standard output handler by first writes from several threads, entries are never duplicated, lost, mixed or written to a stream
  already replaced, and no operation deadlocks.""",
  "schedules", "every interleaving, up to a preemption bound, of two or three threads performing one to three operations",
  "Tests are single threaded.",
  ["commons/log.py"], [("reentrant lock", "Log.level, Log.stream, Log.write")], [("identity", "handler created by Log", "Log"), ("level", "threshold", "Log")], ["streams"])
p("C27", "Concurrent use of stateless parts and separate instances is interference free",
  """Threads that use the stateless operations (serialization, transforms), construct instances, or use separate instances of filters and models obtain, in every interleaving, exactly the results which each would obtain alone. This
  includes the first, concurrent, construction of polyphase rate filters, which share a filter bank built on demand, and predictions made concurrently with one fitted model.""",
  "schedules", "every interleaving, up to a preemption bound, of two threads each performing a short program",
  "Tests are single threaded, and the shared bank is built once per process.",
  ["commons/serial.py", "filters/polyphase_rate_filter.py", "filters/fir_filter.py", "filters/iir_filter.py", "transforms/wavelet_transform.py", "transforms/complex_transform.py", "models/gaussian_model.py"],
  [("local buffers; build then publish of the shared bank", "PolyphaseRateFilter.__init__")], [("bank", "shared filter bank", "PolyphaseRateFilter.B")], ["results"])
p("C28", "REST requests carry exactly what was asked, and errors are raised",
  """For every method name in any case, base URL and API path with or without surrounding slashes, header, query item, authentication and body, exactly one request is sent, to the joined URL with that upper case method, those items encoded, those headers and that binary or JSON body, and the
  response is returned with its status and content. Unknown methods and simultaneous data and JSON are rejected before anything is sent, every 4xx and 5xx answer and every refused connection, broken answer or timeout raises, and no request affects the next. Live is true exactly when a head request
  to the URL is answered, whatever the status, and never raises.""",
  "fault_sequences inputs histories", "every combination of request parts, and every sequence of server behaviours (status, truncation, reset, delay, refusal) up to a depth",
  "The unit test needs an external service and is excluded from the stable tests.",
  ["commons/rest_client.py"], [("request construction and error mapping", "RestClient.request, RestClient.live")], [], ["server", "RestClient.request", "RestClient.live"])
p("C29", "Inputs are never modified and instances never share state",
  """No operation modifies the arrays or lists it is given, results and stored coefficients do not alias the caller's arrays, and writing to a result later changes nothing. In any interleaving of operations on several instances, of the same or of different types, each behaves exactly as if it were alone, and no operation changes what a new instance
  of any type does.""",
  "histories configurations", "every operation of every type with every kind of input; every interleaving of histories of two instances",
  "Tests use one instance at a time and do not compare inputs before and after.",
  ["filters/fir_filter.py", "filters/derivative_filter.py", "filters/integral_filter.py", "filters/polyphase_rate_filter.py", "transforms/z_transform.py", "transforms/wavelet_transform.py", "models/gaussian_model.py", "models/diversity_model.py"],
  [("copies of inputs and of class tables", "constructors and filter methods")], [("tables", "class level coefficient tables", "DerivativeFilter.B, IntegralFilter.B, WaveletTransform.B, PolyphaseRateFilter.B")], ["inputs", "outputs"])
p("C30", "Invalid parameters are rejected exactly, and leave the instance unchanged",
  """Every documented parameter range (style, frequency, order, count, rate, phase, limit, index, gain arrays, signal shape and emptiness) is enforced on construction, on assignment and on use: values outside are rejected with ValueError (TypeError for labels which are not integers), values inside, including documented inclusive bounds, are
  accepted. A rejected assignment or call leaves the instance exactly as it was, so that its later outputs are those of an instance which never saw the rejected operation.""",
  "inputs histories", "every parameter of every operation at, just inside and just outside each bound, at every point of a short history",
  "Tests try a few invalid values on construction only.",
  ["filters/fir_filter.py", "filters/iir_filter.py", "filters/rank_filter.py", "filters/complex_exponential_filter.py", "filters/complex_bandpass_filter.py", "filters/complex_frequency_filter.py", "filters/goertzel_filter.py", "filters/polynomial_rate_filter.py", "filters/polyphase_rate_filter.py", "filters/window_filter.py", "models/diversity_model.py", "models/gaussian_model.py", "models/gaussian_mixture_model.py", "transforms/wavelet_transform.py"],
  [("validation", "constructors, property setters and entry of operations")], [], ["exceptions", "later outputs"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
