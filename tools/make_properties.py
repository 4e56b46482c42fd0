"""Writes /verif/properties.jsonl from the table below."""
import json, os

F = "diamondback/filters/"
T = "diamondback/transforms/"
M = "diamondback/models/"
K = "diamondback/commons/"
P = []


def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


add("C01", "FIR filter realizes its difference equation over every history",
    "An FIR filter with forward coefficients b produces y[n] = sum over i of b[i] x[n-i] for every sample of every history of filter calls, where samples before the first are those given by the state (zero by default, the reset value after a reset, the assigned state after an assignment). This holds for any coefficient count, for real, integer and complex coefficients, state and signal, and for signals of any length and magnitude. Analysis queries (response, delay, roots) and reading properties between calls never change later output.",
    ["inputs", "histories"], "every coefficient array, initial state, signal (length, type, magnitude), and sequence of filter, reset, coefficient and state assignments and analysis queries",
    "The unit test filters one short real signal with one designed filter; it samples neither integer or complex coefficients, nor histories of calls.",
    [F + "fir_filter.py"], [("FirFilter.filter state shift", F + "fir_filter.py:filter"), ("state initialisation and promotion", F + "fir_filter.py:__init__")],
    ["FirFilter.filter return value", "FirFilter.s"], [dict(name="s", meaning="most recent incident samples, newest first", where=F + "fir_filter.py")])

add("C02", "IIR filter realizes its difference equation over every history",
    "An IIR filter with recursive coefficients a (a[0] = 0) and forward coefficients b produces y[n] = sum over i>=1 of a[i] y[n-i] + sum over i>=0 of b[i] x[n-i] from rest, for every sample of every history of filter calls, whatever the relative lengths of a and b. This holds for real, integer and complex coefficients and signals, whether constructed or assigned from rest, and a nonzero a[0] is rejected either way. Analysis queries between calls never change later output.",
    ["inputs", "histories"], "every stable or marginally stable coefficient pair, signal, and sequence of filter, reset and analysis calls",
    "The unit test runs one designed filter over one short real signal against stored numbers.",
    [F + "iir_filter.py"], [("direct form II state update", F + "iir_filter.py:filter"), ("coefficient padding", F + "iir_filter.py:__init__")],
    ["IirFilter.filter return value"], [dict(name="s", meaning="direct form II delay line", where=F + "iir_filter.py")])

add("C03", "Streaming: output does not depend on how a signal is split into calls",
    "For every filter with state (FIR, IIR, derivative, integral, PID, rank, Goertzel, complex exponential, complex bandpass and complex frequency on complex signals, polyphase rate) and for the diversity model, concatenating the outputs of successive calls on consecutive pieces of a signal equals the output of one call on the whole signal by an identically constructed and prepared instance. This holds for every split into non-empty pieces, including single samples, and leaves both instances in equivalent state.",
    ["inputs", "histories"], "every signal and every way of cutting it into consecutive non-empty pieces, given as lists or arrays",
    "Every existing test makes one filter call per signal, so no state carried between calls is ever observed.",
    [F + "fir_filter.py", F + "iir_filter.py", F + "pid_filter.py", F + "rank_filter.py", F + "goertzel_filter.py", F + "complex_exponential_filter.py", F + "complex_bandpass_filter.py", F + "complex_frequency_filter.py", F + "polyphase_rate_filter.py", M + "diversity_model.py"],
    [("state arrays carried between calls", F), ("phase accumulation", F + "complex_exponential_filter.py:filter"), ("window index and accumulator", F + "goertzel_filter.py:filter"), ("rate index", F + "polyphase_rate_filter.py:filter")],
    ["filter return values over a call sequence"])

add("C04", "Reset places a filter in steady state",
    "After reset(x), filtering a constant signal equal to x produces no transient: an FIR or IIR filter (with a finite DC gain) outputs x times its DC gain from the first sample on, a derivative filter outputs zero, and a rank filter and a polyphase rate filter output x. This holds for every finite x, real or complex where the filter is, regardless of what was filtered before the reset. A reset with something that is not a scalar is rejected.",
    ["inputs", "histories"], "every filter configuration, prior history and reset value",
    "Tests reset once, to one value, on a new instance, and compare the state with stored numbers.",
    [F + "fir_filter.py", F + "iir_filter.py", F + "derivative_filter.py", F + "rank_filter.py", F + "polyphase_rate_filter.py"],
    [("reset", F + "fir_filter.py:reset"), ("reset", F + "iir_filter.py:reset"), ("reset", F + "polyphase_rate_filter.py:reset")],
    ["filter return value after reset"])

add("C05", "FIR design satisfies its constraints",
    "An FIR filter designed from style, frequency, order, count, complement and gain has order+1 coefficients that form the windowed ideal low-pass of its style (symmetric, linear phase), with a response equal to gain at zero frequency (at Nyquist for a complement). The cascade of count instances at unity gain has magnitude 1/sqrt(2) at the specified frequency wherever the order can realize it: order a multiple of four of at least 8 with frequency times order at least 4, frequency at most 0.75 and count at most 3. A complement is the mirror image (alternate coefficients negated, up to overall sign) of the design at one minus the frequency, and gain scales the coefficients exactly; unknown styles, frequencies outside (0, 1) and non-positive orders and counts are rejected.",
    ["inputs", "configurations"], "every style, frequency, order, count, complement and gain",
    "The test designs a handful of filters at fixed frequencies and orders.",
    [F + "fir_filter.py"], [("iterative cutoff adaptation", F + "fir_filter.py:__init__"), ("complement and gain", F + "fir_filter.py:__init__")], ["FirFilter.b", "FirFilter.response"])

add("C06", "IIR design satisfies its constraints",
    "An IIR filter designed from style, frequency, order, count, complement and gain (order up to 6, frequency, or one minus it for a complement, in [0.05, 0.7], or [0.02, 0.1] for Bessel, count 1 or 2) is stable, has the order poles of its style (Butterworth, or Chebyshev of 0.125 dB ripple, through the bilinear transform; Bessel through impulse invariance) and order zeros at z = -1, and has a response equal to gain at zero frequency. At unity gain and order at least 2 the cascade of count instances has magnitude 1/sqrt(2) at the specified frequency (within 0.2 percent; Chebyshev at any order), Butterworth magnitude falls monotonically with frequency, and Chebyshev in-band ripple does not exceed 0.125 dB. A complement is the mirror image about half Nyquist of the design at one minus the frequency, and gain scales the forward coefficients exactly; unknown styles, frequencies outside (0, 1) and non-positive orders and counts are rejected.",
    ["inputs", "configurations"], "every style, frequency, order, count, complement and gain in the stated ranges",
    "The test designs a handful of filters and compares coefficients of one with stored numbers.",
    [F + "iir_filter.py", T + "z_transform.py"], [("iterative frequency adaptation", F + "iir_filter.py:__init__"), ("prototype polynomials", F + "iir_filter.py:_evaluate")], ["IirFilter.a", "IirFilter.b", "IirFilter.response"])

add("C07", "Response, delay and roots describe what the filter does",
    "For every FIR or IIR filter, response(length, count) returns at each listed frequency f the value H(exp(j pi f)) ** count of the filter's own difference equation, with length frequencies 2k/length in ascending order over [-1, 1), even or odd length alike. roots(count) returns the poles and zeros of the transfer function, each repeated count times and ordered by magnitude, and delay(length, count) returns count times the group delay away from response zeros and from the edge samples the method smooths. Lengths and counts of response and delay that are not positive are rejected.",
    ["inputs", "configurations"], "every filter, length, and count",
    "The tests check only that the arrays have the requested length or a few stored values at one length.",
    [F + "fir_filter.py", F + "iir_filter.py"], [("freqz, group_delay and roots over rotated frequency axis", F + "fir_filter.py:response"), ("response", F + "iir_filter.py:response")], ["response, delay, roots return values"])

add("C08", "Complex exponential keeps unit magnitude and continuous phase",
    "A complex exponential filter outputs exp(j pi p[n]) where p[0] is its phase and p[n+1] = p[n] + x[n], for every frequency signal in [-1, 1] and every sequence of calls and phase assignments. Every output has unit magnitude, and after any call the phase property lies in [-1, 1] and equals the accumulated phase modulo 2. Frequencies beyond magnitude one, complex frequencies and phases outside [-1, 1] are rejected.",
    ["inputs", "histories"], "every frequency signal, phase and call history, including long streams and phase at the wrap points",
    "The test uses one constant frequency in one call.",
    [F + "complex_exponential_filter.py"], [("phase accumulation and wrap", F + "complex_exponential_filter.py:filter")], ["filter return value", "phase"])

add("C09", "Complex bandpass filter follows its adaptation law",
    "For every call a complex bandpass filter returns y, e, b with y[n] = b[n] x[n], e[n] = d[n] - y[n] and b[n+1] = b[n] + rate e[n] conj(x[n]), where x is a unit complex exponential of continuous phase at the current frequency and a real primary signal is replaced by its analytic signal. b carries on between calls, including across assignments of frequency and rate, and a stationary tone at the specified frequency is tracked with an error that decays as (1 - rate)^n. Rates outside [0, 1] and frequencies outside [-1, 1] are rejected.",
    ["inputs", "histories"], "every primary signal, frequency, rate, and history of calls and parameter assignments",
    "The test tracks one tone in one call and asserts a loose error bound.",
    [F + "complex_bandpass_filter.py"], [("LMS update", F + "complex_bandpass_filter.py:filter"), ("reference oscillator", F + "complex_exponential_filter.py")], ["y, e, b return values"])

add("C10", "Complex frequency filter follows its adaptation law",
    "For every call a complex frequency filter returns y, e, b with y[n] = angle(b[n]) / pi, e[n] = x[n] - b[n] x[n-1] and b[n+1] = b[n] + rate e[n] conj(x[n-1]), where x is the primary signal normalized to unit magnitude (a vanishing sample stays zero) and a real primary signal is replaced by its analytic signal. The first b and every assignment of frequency f set b to exp(j pi f), reset(v) sets the previous sample to v / |v|, and a stationary tone is recognized with an error that decays as (1 - rate)^n. Scaling the primary signal never changes the estimates, as long as no sample vanishes to within 1e-8.",
    ["inputs", "histories"], "every primary signal, frequency, rate, reset value, and history of calls and parameter assignments",
    "The test tracks one chirp in one call and asserts a loose error bound.",
    [F + "complex_frequency_filter.py"], [("LMS update", F + "complex_frequency_filter.py:filter"), ("frequency assignment", F + "complex_frequency_filter.py:frequency")], ["y, e, b return values"])

add("C11", "Derivative filters differentiate polynomials exactly",
    "For every supported derivative k in 1..3 and order N, the derivative filter applied to the samples of any polynomial of degree at most k+1 produces exactly its k-th derivative at the centre of the stencil (n - N/2) once N samples have been seen. Unsupported combinations of derivative and order are rejected.",
    ["inputs", "configurations"], "every supported derivative and order, and every polynomial of low enough degree",
    "The test compares a sine derivative with a loose tolerance for some orders.",
    [F + "derivative_filter.py"], [("coefficient tables", F + "derivative_filter.py:B")], ["filter return value"])

add("C12", "Integral filters accumulate their quadrature rule",
    "For every supported order, the integral filter outputs the running sum over all samples so far of the order's Newton-Cotes weighted sum, with weights that sum to one, so the output for a constant c grows by exactly c per sample after the start-up and linearity and accumulation hold over arbitrarily many calls. Orders outside 0..4 are rejected.",
    ["inputs", "histories"], "every order, signal and call history",
    "The test integrates one short signal in one call.",
    [F + "integral_filter.py", F + "iir_filter.py"], [("weights and unit recursion", F + "integral_filter.py:B")], ["filter return value"])

add("C13", "PID output is P, clamped I and D of the error for every history",
    "A PID filter outputs b[0] x[n] + b[1] I[n] + b[2] (x[n] - x[n-1]) with I[n] = I[n-1] + x[n] clamped to [-limit, limit], starting from x[-1] = 0 and I[-1] = 0. The integral never exceeds the limit in force when it is updated, recovers immediately when the error changes sign, and the same holds when limit or b is reassigned between calls. A negative limit, and construction with a coefficient array not of length 3, are rejected.",
    ["inputs", "histories"], "every coefficient triple, error signal, limit, and history of assignments and calls",
    "The test runs one signal with one limit.",
    [F + "pid_filter.py"], [("integral clamp", F + "pid_filter.py:filter")], ["filter return value"])

add("C14", "Rank filter selects the order statistic of its window",
    "A rank filter with index i and order N outputs, for every sample, the member of the window of the last N+1 samples (zeros, or the reset value, before the first) that has the (i+1)-th smallest magnitude: i = 0 gives the smallest and i = N the largest. The output is always a member of the window, for every signal, history of calls, and reassignment of index. An index outside [0, N] is rejected.",
    ["inputs", "histories"], "every index, order, signal with repeated or sign-mixed values, and call history",
    "The test runs fixed signals in one call for three fixed indices.",
    [F + "rank_filter.py"], [("sort of window by magnitude", F + "rank_filter.py:filter")], ["filter return value"])

add("C15", "Window filter applies a symmetric normalized window",
    "A window filter has order+1 coefficients forming the symmetric window of its style (case-insensitive), that peaks at its centre and, when normal, is scaled so that the sum of magnitudes equals order+1; filtering multiplies a signal of that length elementwise. A signal of any other length or with other than one dimension, an unknown style, and a negative order are rejected. Windows that vanish identically (Hann or Blackman of order 1) are outside the guarantee.",
    ["inputs", "configurations"], "every style, order, normal flag, and signal",
    "The test checks each style at one order.",
    [F + "window_filter.py"], [("normalization", F + "window_filter.py:__init__")], ["b", "filter return value"])

add("C16", "Goertzel filter equals the windowed DFT at its frequency",
    "For every window b of length N and frequency f, a Goertzel filter emits exactly one value per N consecutive samples counted over all calls, whose magnitude equals that of the discrete-time Fourier transform at f of the window-weighted block divided by N, doubled for a real signal. Blocks are independent of one another and of how the samples were split over calls, and an assignment of frequency takes effect like construction with that frequency. A vanishing window and a frequency outside [-1, 1] are rejected.",
    ["inputs", "histories"], "every window, frequency, real or complex signal, chunking, and frequency reassignment between blocks",
    "The test evaluates one tone at one frequency with one window.",
    [F + "goertzel_filter.py", F + "iir_filter.py"], [("recursion and window index", F + "goertzel_filter.py:filter")], ["filter return value"])

add("C17", "Polynomial rate filter interpolates the incident signal",
    "A polynomial rate filter emits round(len(x) rate) samples, where sample j is the value at time j / rate of the piecewise polynomial interpolant of x (linear for order 1), with linear extension at the ends. At times that are sample instants the output equals the sample (orders 1 and 3), a linear signal is reproduced exactly for order 1 to 3 and a cubic signal is reproduced exactly away from the ends for order 3. The operation has no memory, is linear in the signal, and rejects negative rates, non-positive orders and signals with fewer than two samples.",
    ["inputs", "configurations"], "every rate above zero, order in 1..3, and signal",
    "The test compares a few fixed rates with stored numbers.",
    [F + "polynomial_rate_filter.py"], [("interpolation loop", F + "polynomial_rate_filter.py:filter")], ["filter return value"])

add("C18", "Polyphase rate filter realizes its rate without bias",
    "Over any history of calls at one rate in (0, 256], the total number of samples emitted by a polyphase rate filter stays within one of rate times the number consumed, and every emitted sample is the inner product of the last 15 incident samples with a phase of the filter bank that advances by 256 / rate modulo 256 per emitted sample. A constant signal keeps its value (unity gain), a low-frequency tone keeps its amplitude at the scaled frequency, and the operation is linear. Assigning a different rate restarts the phase at zero and keeps the incident samples. Rates outside [0, 256] are rejected.",
    ["inputs", "histories"], "every rate, signal, chunking, and rate reassignment between calls",
    "The test makes single calls at a few rates and checks lengths and one stored vector.",
    [F + "polyphase_rate_filter.py"], [("phase index accumulation", F + "polyphase_rate_filter.py:filter"), ("filter bank", F + "polyphase_rate_filter.py:_initialize")], ["filter return value", "s", "b"])

add("C19", "Complex transform and its inverse are consistent",
    "For every complex signal, transforming to three phases and back returns the signal, with neutral set either way as long as both directions agree, and for every three-phase signal transforming to complex and back returns the signal with its common-mode component removed. The three phases of a complex signal sum to zero at every sample, a balanced three-phase set of amplitude A maps to a complex signal of magnitude A (neutral), and the transform is linear and acts on each sample alone. Shapes other than one or three rows are rejected.",
    ["inputs"], "every one- or two-dimensional complex or three-row real signal of any length and either neutral setting",
    "The test round-trips one balanced signal.",
    [T + "complex_transform.py"], [("coefficient matrix and gain", T + "complex_transform.py:transform")], ["transform return value"])

add("C20", "Fourier transform is a windowed DFT with an exact inverse",
    "The forward Fourier transform returns, for each listed frequency f = 2k/N in ascending order over [-1, 1), the sum of b[n] x[n] exp(-j pi f n) / N over the first N = len(b) samples, for even and odd N. The inverse transform with the same window returns x wherever the window is nonzero, finite values where it vanishes at its ends alone, and the sequence 0..N-1. A window longer than the signal, an empty signal, and a vanishing window are rejected.",
    ["inputs"], "every signal, window, and even or odd length",
    "The test round-trips one signal at one even length.",
    [T + "fourier_transform.py"], [("rotation, scaling and window division", T + "fourier_transform.py:transform")], ["transform return values"])

add("C21", "PSD transform averages windowed periodograms",
    "For a window b of length N and a stride index, the PSD spectrogram has one row per window position 0, index, 2 index, ... that fits in the signal, each equal to |DFT(x b) / N|^2 at frequencies 2k/N for k = 0..N//2-1, and the PSD is the mean of those rows. Values are never negative and scale with the square of the signal. Empty signals, vanishing windows, windows longer than the signal and non-positive strides are rejected.",
    ["inputs"], "every signal, window, stride, and even or odd window length",
    "The test checks one signal with one window and stride.",
    [T + "psd_transform.py"], [("window positions and average", T + "psd_transform.py:transform")], ["transform return values"])

add("C22", "Wavelet analysis is orthogonal and synthesis reconstructs",
    "For a Haar wavelet, synthesis of an analysis with the same count returns the incident signal for every one- or two-dimensional signal and every count the dimensions allow; for every other style and order, one level of analysis and synthesis returns the signal delayed by order - 1 samples in each dimension of more than one sample. An analysis of several levels is one level followed by the remaining levels on the low-pass quadrant, synthesis undoing them in reverse order. Both are linear and keep the shape, and the two channels of each filter are orthonormal to even shifts up to a common factor. Unsupported styles, orders, counts and dimensions that are not a multiple of 2**count are rejected.",
    ["inputs", "configurations"], "every style, order, count, shape, and signal",
    "The test round-trips some styles on one shape with loose tolerances, and two of its coefficient tables were wrong.",
    [T + "wavelet_transform.py"], [("coefficient tables", T + "wavelet_transform.py:B"), ("analysis and synthesis recursion", T + "wavelet_transform.py:transform")], ["transform return value", "b"])

add("C23", "Z transform maps poles and normalizes DC gain",
    "The bilinear transform maps every s-domain pole and finite zero r to (1 + r/2t) / (1 - r/2t) with t = 1/(pi f), the impulse-invariant transform maps every distinct pole r (distant from the others by more than a thousandth of its magnitude) to exp(r/t) with residues preserved up to one common gain, and stable continuous systems become stable discrete systems. In every case a[0] = 0, the results are real, and the discrete system has unity gain at zero frequency. Leading zero coefficients are ignored, scaling both polynomials changes nothing, and empty or all-zero polynomials and non-positive frequencies are rejected.",
    ["inputs"], "every pair of real polynomials with nonzero constant terms, frequency, and method",
    "The test compares two fixed systems with stored numbers.",
    [T + "z_transform.py"], [("root mapping", T + "z_transform.py:transform"), ("residue expansion", T + "z_transform.py:transform")], ["a, b return values"])

add("C24", "Diversity model keeps observed members and never loses diversity",
    "After any history of fits, the state of a diversity model holds only observations that were presented since the last clear, in number at most order + 1, the first order + 1 observations all being kept until it is full. Once full, each reported diversity never decreases, and equals the minimum distance of the style between any two members from the first observation after filling; an observation is exchanged for the member giving the largest minimum distance whenever that improves it, and only then. clear restores a new instance of the same order that accepts any width.",
    ["inputs", "histories"], "every style, order, observation stream (with duplicates), chunking, and sequence of fit and clear",
    "The test fits one fixed array once per instance.",
    [M + "diversity_model.py"], [("replacement search", M + "diversity_model.py:fit"), ("clear", M + "diversity_model.py:clear")], ["fit return value", "s"])

add("C25", "Gaussian model ranks labels by Mahalanobis distance",
    "After fit, predict returns for each observation every distinct training label exactly once, ordered by ascending Mahalanobis distance to the class mean under the class maximum-likelihood covariance (divided by the number of observations of the class) plus regularize times identity. This holds for any integer labels, class sizes and dimension; a later fit replaces the earlier one completely, predict does not change the model, and each observation is ranked independently of the batch it is in. Prediction before fit, wrong widths, mismatched lengths and non-integer labels are rejected.",
    ["inputs", "histories"], "every training set, label set, regularization, and query batch",
    "The test checks accuracy on one easy data set with contiguous labels.",
    [M + "gaussian_model.py"], [("covariance and mean estimate", M + "gaussian_model.py:fit"), ("ranking", M + "gaussian_model.py:predict")], ["predict return value"])

add("C26", "Gaussian mixture model ranks labels by weighted mixture score",
    "After fit, predict returns for each observation every distinct training label exactly once, ordered by descending sum over that class's components of weight times exp(-d^2/2), d being the Mahalanobis distance to the component, including for observations so distant that every term underflows. With one component per class the ranking equals that of a Gaussian model of equal regularization, well-separated classes are always recognized, and each observation is ranked independently of its batch. Prediction before fit, wrong widths, mismatched lengths and non-integer labels are rejected.",
    ["inputs", "histories"], "every training set, label set, component count, and query batch near or far",
    "The test checks accuracy on one easy data set near its classes.",
    [M + "gaussian_mixture_model.py"], [("component scores", M + "gaussian_mixture_model.py:predict")], ["predict return value"])

add("C27", "Serial encode and decode are inverse and code identifies content",
    "For every picklable object and ASCII-compatible encoding, decoding what encode returned gives an equal object of the same type, with or without compression, and decode detects which by itself. The encoded value is a string over the Base-85 alphabet, encoding does not change the object, and uncompressed encoding is deterministic. code returns the SHA3-256 hexadecimal digest of the encoded text, and text altered inside a compressed payload is never decoded into a different object without an error.",
    ["inputs", "fault_sequences"], "every picklable object graph, compression setting, encoding, and single-character corruption of compressed text",
    "The test round-trips one data frame and one list.",
    [K + "serial.py"], [("encode, decode, code", K + "serial.py")], ["encode, decode and code return values"])

add("C28", "Log emits exactly the entries at or above the level, in order",
    "For every sequence of level, stream and write operations in one thread, each write whose level is at least the current level appears exactly once, complete and in order, in the stream current at that time, as one entry of the form ISO 8601 date-time, upper-case level and message, and no other write appears anywhere. Messages are taken literally (braces, percent signs, markup and newlines included), an exception entry carries its type, text and the file and line of each traceback frame, and levels are case-insensitive. Unknown levels and streams without write are rejected (no other stream is) and leave level and stream as they were.",
    ["histories", "inputs", "fault_sequences"], "every history of level changes, stream redirections (failed ones included), and writes with any text or exception",
    "The test writes one entry to one memory stream.",
    [K + "log.py"], [("level threshold", K + "log.py:write"), ("handler replacement", K + "log.py:stream")], ["content of streams"])

add("C29", "Log is thread safe: concurrent entries appear exactly once, whole",
    "With any number of threads writing through Log while others change level and redirect the stream, every entry at or above every level in force appears exactly once over all streams, on a line of its own, never torn or interleaved, and entries of one thread keep their order within a stream. An entry begun after a redirection returned appears in the new stream. No call deadlocks or raises because of concurrency.",
    ["schedules"], "every interleaving of concurrent write, level and stream calls",
    "The test uses one thread.",
    [K + "log.py"], [("class lock", K + "log.py:_rlock"), ("handler replacement under lock", K + "log.py:stream")], ["content of streams", "call completion"])

add("C30", "REST client sends exactly the request described",
    "Each call of request to a service that does not redirect sends exactly one HTTP request, by the proxy given if any, with the given method (case-insensitive), a path that joins the base URL and API with single slashes, the given query items, headers, authentication and body (bytes or JSON) unchanged, and returns the server's response with its status, headers and body intact and still readable. An unsupported method, or nonempty data together with nonempty JSON, is rejected without sending anything. The client's own url, proxy and timeout, and every argument, are left unchanged.",
    ["inputs", "histories"], "every method, URL and API with any slashes, query, header, body, and response",
    "The only test needs a live service and is not run.",
    [K + "rest_client.py"], [("request", K + "rest_client.py:request")], ["requests received by a loopback server", "returned response"])

add("C31", "REST client reports every failure and detects a live service",
    "A response with a status from 400 to 599, a refused or dropped connection, a body cut short, and a server that does not answer within the timeout each raise an exception from request, are never returned as success, are never retried, and leave the client usable for the next call. live is true exactly when a service answers a HEAD request at the URL with any status in time, and it never raises. Connections are released after every outcome, once the caller drops the response or the exception.",
    ["fault_sequences", "histories"], "every sequence of server faults (status, refusal, truncation, drop, delay) and successful calls",
    "The only test needs a live service and is not run.",
    [K + "rest_client.py"], [("raise_for_status and context manager", K + "rest_client.py:request"), ("live", K + "rest_client.py:live")], ["exception or response of request", "live"])

add("C32", "Arguments of callers are never modified, and results are independent",
    "No constructor, assignment, filter, transform, fit or predict call modifies an array, list or other object passed by the caller, and it accepts read-only arrays. Arrays returned by filter, transform, fit and predict calls are the caller's to keep: writing to them changes no later result, and later calls do not change them. Writing to a coefficient, state, or training array after passing it does not change the instance.",
    ["inputs", "histories"], "every component, argument container, and history of calls",
    "Tests never look at their arguments after a call.",
    ["diamondback/filters", "diamondback/transforms", "diamondback/models"],
    [("copies in constructors and setters", F + "fir_filter.py:__init__"), ("copies in transforms", T + "z_transform.py:transform")], ["digests of arguments and results around each call"])

add("C33", "Instances are independent of one another",
    "Operating on one instance of any component (filtering, assigning, resetting, fitting), in any interleaving in one thread or with each instance driven by its own thread, never changes the results of another instance, and never changes the class-level coefficient tables. An instance constructed later behaves as one constructed first in a new process.",
    ["histories", "schedules"], "every set of instances of every component and every interleaving of their operations, sequential or threaded",
    "Tests use one instance at a time.",
    ["diamondback/filters", "diamondback/transforms", "diamondback/models"],
    [("per-instance state", F + "fir_filter.py:__init__"), ("class tables copied", F + "derivative_filter.py:B"), ("shared filter bank", F + "polyphase_rate_filter.py:B")], ["outputs of interleaved instances against isolated twins", "digests of class tables"])

add("C34", "An instance saved mid-stream resumes exactly, in any process",
    "Encoding any filter or model instance with Serial at any point of its history and decoding it, in the same or in a new process, gives an instance whose every later result equals that of the original continued without interruption. Encoding does not disturb the original, and original and copy are independent afterwards.",
    ["crash_points", "histories"], "every component, every point in its history, and restore in the same or a fresh process",
    "The serial test encodes a data frame and a list; no component instance is ever serialized.",
    [K + "serial.py", "diamondback/filters", "diamondback/models"], [("pickle of instance state", K + "serial.py:encode"), ("class-level bank definition", F + "polyphase_rate_filter.py:__setstate__")], ["outputs after restore against the uninterrupted original"])

add("C35", "A rejected call leaves no trace",
    "When a constructor, assignment, filter, reset, fit, transform or predict call is given a numeric argument outside its documented domain (empty signal, wrong number of dimensions or width, out of range parameter, wrong length, unknown style), it raises ValueError (TypeError for non-integer labels), and the instance then behaves exactly as if the call had not been made; so it does after a fit that fails for one of its classes.",
    ["inputs", "fault_sequences"], "every component, every documented domain violation, and every point of a history at which it occurs",
    "Tests never make a rejected call on an instance and then continue.",
    ["diamondback/filters", "diamondback/transforms", "diamondback/models"], [("argument validation before any update", F), ("argument validation", M)], ["exception type", "later outputs against a twin without the rejected call"])

add("C36", "Lists and arrays of any numeric type give equal results",
    "Every filter and transform gives the same result for the same numeric values presented as a list, a tuple, an integer array, a float array, a non-contiguous or reversed view or a read-only array, and a complex array with zero imaginary part gives the result of the real signal where the operation does not distinguish real from complex. Single-precision signals give the double-precision result to single-precision accuracy, and coefficients, windows and state given in single precision leave results in double precision. A parameter given as a scalar of any numeric type acts as the number it holds, to the precision of that type.",
    ["inputs"], "every component, numeric values, and container or type presenting them",
    "Tests present each component with float arrays only.",
    ["diamondback/filters", "diamondback/transforms"], [("argument conversion at the head of each call", F), ("result type selection", F + "fir_filter.py:filter")], ["return values compared across presentations"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
