"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


LOG = "diamondback/commons/log.py"
REST = "diamondback/commons/rest_client.py"
SER = "diamondback/commons/serial.py"
F = "diamondback/filters/"
M = "diamondback/models/"
T = "diamondback/transforms/"
STREAM = [F + n for n in ("fir_filter.py", "iir_filter.py", "derivative_filter.py", "integral_filter.py", "goertzel_filter.py", "pid_filter.py",
                          "rank_filter.py", "complex_exponential_filter.py", "complex_bandpass_filter.py", "complex_frequency_filter.py",
                          "polyphase_rate_filter.py")]
MODEL = [M + n for n in ("diversity_model.py", "gaussian_model.py", "gaussian_mixture_model.py")]

p("C01", "Concurrent logging behaves as if each call happened alone, one after another",
  "For any interleaving of level changes, stream redirections and writes issued by concurrent threads, the observable result is that of executing the calls one at a time in some order consistent with the order in which calls returned before others began. "
  "Every entry whose level reaches the threshold appears exactly once, whole and uninterrupted, on the stream in force at that point, entries below the threshold appear nowhere, and one thread's entries keep their order. No combination of such calls deadlocks.",
  ["schedules", "histories"], "every interleaving of concurrent level, stream and write calls, including first use, on every kind of text stream",
  "The one unit test of logging is single threaded; it samples a single schedule and cannot see a lost, duplicated, torn or misrouted entry that needs a preemption between two particular steps.",
  [LOG], [("re-entrant lock held across each public call", LOG + ":Log.level/stream/write"), ("per handler lock of loguru", "loguru/_handler.py")],
  ["text received by each stream", "exceptions of calls"], [("threshold", "minimum level", LOG + ":Log._level"), ("handler identity", "the one handler owned", LOG + ":Log._identity")])

p("C02", "Redirecting the log moves only the log's own output",
  "Redirecting the log replaces exactly the output previously created by the log: from then on each entry goes to the new stream and no longer to the old one, while outputs registered directly with the underlying logging library continue to receive what they are entitled to, whatever the history of additions, removals and redirections. "
  "Before first use the log alters nothing; its first write or redirection takes over the library's default output, and an unspecified stream means the standard output of that moment with the default threshold of Info. "
  "A call rejected for an invalid level or an unusable stream raises and leaves the threshold, the stream and every output as they were.",
  ["histories", "configurations"], "every sequence of redirections, level changes, writes, rejected calls, and external handler additions and removals, from a fresh process on",
  "The test performs one redirection to memory and looks at a few lines; coexistence depends on the whole history of handler identities and on rejected calls in the middle of it.",
  [LOG], [("only the remembered handler is removed", LOG + ":Log.stream"), ("lazy initialisation on a zero identity", LOG + ":Log.write"), ("validation before effect", LOG)],
  ["text received by each stream and by external handlers"], [("handler identity", "zero until initialised", LOG + ":Log._identity")])

p("C03", "Failing log outputs neither break callers nor lose other entries",
  "When the current output fails - a write or flush raises an operating system error, writes only part of the text, stalls, or is interrupted by the user - ordinary failures never reach the caller of the log, and every later entry is delivered whole and in order as soon as the output works again or the log is redirected. "
  "Only the entries whose own output failed may be missing or partial, other outputs receive them nevertheless, and no failure leaves the log blocked for any thread. "
  "Once a write call has returned without its output failing, the text has been pushed out of the stream's own buffer, so that a crash at any later point cannot lose it.",
  ["fault_sequences", "crash_points", "schedules"], "every placement of write and flush errors, torn writes, stalls, interrupts, and a process crash between or inside calls",
  "No test has an output that fails, and none crashes; the number of fault placements is unbounded.",
  [LOG], [("locks held by context managers", LOG), ("handler flushes after each message and intercepts errors", "loguru/_handler.py, loguru/_simple_sinks.py")],
  ["text received and text made durable per stream"])

p("C04", "Log entries state the time, level and text they were given",
  "Each entry is one ISO 8601 time with its offset from UTC, equal to the clock at some moment between the call and its return, then the level, then the text exactly as given, whatever characters it contains and whatever the clock does, including backward and forward jumps, year boundaries and any local offset. "
  "An exception given as entry is shown with its type, its message, and the file and line of every frame it passed through up to the handler that logs it.",
  ["inputs", "histories", "configurations"], "every text, exception, level spelling and clock behaviour, on terminals and plain streams, from any number of threads",
  "Tests look at a few fixed messages under the real clock in one zone, so neither clock jumps, zones, markup-like text nor deep tracebacks in another thread's handler are reached.",
  [LOG], [("format string", LOG + ":Log.stream"), ("message passed without arguments", LOG + ":Log.write"), ("traceback walk", LOG + ":Log.write")],
  ["text received by the stream"])

p("C05", "A REST call sends exactly the request it describes, once",
  "Whatever the network does, a call transmits at most one request per address it is directed to, with the method, the base address joined to the relative path by exactly one slash, the query parameters, headers, credentials, and body (form, binary or JSON) that were given, through the configured proxy if there is one; it is never repeated on failure. "
  "A call with an unknown method, or with both data and JSON, raises before any contact with the network.",
  ["inputs", "fault_sequences", "configurations"], "every combination of arguments and client settings, under every fault of name resolution, connection and transfer",
  "The REST test needs a live server and is not run; no test exercises failures, where silent retries and wrong addressing would appear.",
  [REST], [("one requests call without retry", REST + ":RestClient.request"), ("slash normalisation", REST + ":url, request")],
  ["bytes received by the simulated server"])

p("C06", "A REST call returns the complete response or raises",
  "A call either returns the status, headers and every byte of the body that the server sent for this very request, still readable after the connection is gone, or it raises an exception. "
  "An error status, a connection lost at any byte of the response, a corrupt or truncated body, or an unintelligible response is never returned as success.",
  ["fault_sequences", "crash_points", "inputs"], "every response framing (length, chunked, until close, compressed) delivered in any segmentation, cut or corrupted at any byte",
  "Tests never cut a response; the cut position and segmentation are unbounded.",
  [REST], [("status raised before return", REST + ":RestClient.request"), ("body consumed before the session closes", REST + ":RestClient.request")],
  ["value or exception of the call against bytes sent by the simulated server"])

p("C07", "REST timeouts bound how long a call waits",
  "With a finite connect and read timeout a call never waits longer than the connect timeout for one address to accept, nor longer than the read timeout between two arrivals of data, and then raises; the limits in force are those assigned when the call was made. "
  "A server that stays within those limits is never aborted, however slowly it delivers in total.",
  ["fault_sequences", "configurations", "schedules"], "every pattern of stalls, drips, unanswered connections and timeout settings, in simulated time",
  "A test would have to wait in real time for every pattern; none exists.",
  [REST], [("timeout passed on every request", REST + ":RestClient.request, live"), ("default connect and read timeouts", REST + ":RestClient.__init__")],
  ["simulated time at which the call ends, and how"])

p("C08", "Liveness detection is truthful, bounded and never raises",
  "The live indication is true exactly when something at the configured address answers a head request with an intelligible response, of whatever status, within the timeouts, and false in every other case. "
  "It never raises, never takes longer than the timeouts allow, sends nothing but one head request per address it is directed to, and neither it nor a failed call affects later calls.",
  ["fault_sequences", "configurations", "histories"], "every sequence of outages, recoveries, stalls, resets, error statuses and garbage at the configured address",
  "The test needs a live server and is not run; outage and recovery histories are never exercised.",
  [REST], [("catch-all around one head request", REST + ":RestClient.live")],
  ["returned value, simulated duration, requests received by the simulated server"])

p("C09", "REST calls are independent of each other",
  "Concurrent and successive calls, on one client or several, never affect each other: each gets the response to its own request with the settings its own client has, no header, credential or cookie of one call leaks into another, and a failed or abandoned call leaves the client fully usable. "
  "Connections opened for a call are released, however it ends, once its result is no longer used, and arguments given to a call are not modified.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of concurrent calls and every history of failed and successful calls",
  "No test makes two calls at a time, or a call after a failed one.",
  [REST], [("a session per call", REST + ":RestClient.request"), ("settings kept per instance", REST + ":RestClient.__init__")],
  ["responses per caller, requests and connections at the simulated server"])

p("C10", "Encoded instances decode to equal instances in any later process",
  "An instance encoded by one process, with or without compression, decodes to an equal instance in the same process, in another process started later in which nothing was constructed before, and concurrently from any number of threads, whatever the clock was at either moment. "
  "This covers collections, arrays and every component of this library in any state it can reach; the encoded text is plain printable text, and encoding changes neither the instance nor any other.",
  ["histories", "inputs", "schedules", "crash_points"], "every instance and component state, either compression choice, any restart between encoding and decoding, any interleaving of threads",
  "The test encodes and decodes within one process, with a few values; a component that depends on process state set up by a constructor still passes.",
  [SER] + MODEL + STREAM, [("pickle, gzip and base-85", SER), ("no process state outside instances", F + "polyphase_rate_filter.py, " + M + "diversity_model.py")],
  ["decoded instance and its behaviour in the second process"])

p("C11", "A damaged encoding never decodes to something else",
  "A compressed encoding that was damaged in storage or transfer - cut short, overwritten with part of another encoding, with bytes changed, lost, zeroed, repeated or exchanged - either decodes to the original instance or raises an exception. It never decodes to a different instance.",
  ["fault_sequences", "crash_points", "inputs"], "every position and kind of damage to every encoding, including a crash in the middle of replacing one encoding by another",
  "Tests only decode what they just encoded.",
  [SER], [("gzip check value", SER + ":Serial.decode"), ("whole-input check", SER + ":Serial.decode")],
  ["decoded value or exception"])

p("C12", "Streaming components continue unchanged after a checkpoint and restart",
  "If a process checkpoints a filter or model by encoding it, crashes at any later point, and a new process restores the latest durable checkpoint and replays the signal from there, then every output from the checkpoint on equals, sample for sample, that of a process that never crashed. "
  "Taking a checkpoint does not influence the running component.",
  ["crash_points", "histories", "fault_sequences"], "every component, every crash point, every torn or lost checkpoint write, any number of restarts",
  "Tests neither encode nor restart a component in the middle of a signal.",
  [SER] + STREAM + MODEL, [("all streaming state held in the instance", "diamondback/filters, diamondback/models")],
  ["outputs before and after restart against an uninterrupted reference"])

p("C13", "Streaming filters follow their difference equation however a signal is split",
  "The concatenated outputs of a filter fed a signal in consecutive pieces equal those for the whole signal at once, and both equal the documented difference equation of that filter from its initial state, for any division into pieces, for array or list pieces, and for real or complex signals of the coefficients' kind. "
  "After a reset the filter continues as if the given value had been present forever.",
  ["histories", "inputs"], "every filter configuration, every signal and every division of it into pieces, with resets at any boundary",
  "Each test filters one signal in one call and checks a scalar summary; state carried across calls and resets in mid-stream are not tested.",
  STREAM, [("state array persists between calls", F + "fir_filter.py, " + F + "iir_filter.py"), ("block index persists", F + "goertzel_filter.py"), ("phase persists", F + "complex_exponential_filter.py")],
  ["output samples against an independent reference model"])

p("C14", "Rejected signals and settings leave a component as it was",
  "When a component refuses an input - an empty signal, a value outside the documented range, a signal of the wrong dimension, or of complex values where only real ones are documented, an unknown style or an invalid setting - it raises, and its settings and all later outputs are exactly those it would have had without the refused call.",
  ["histories", "fault_sequences", "inputs"], "every placement of refused calls within every stream of accepted ones, for every component",
  "Tests never make a refused call in mid-stream.",
  STREAM + MODEL, [("validation precedes mutation", "every filter, model and setter")],
  ["outputs and properties after refused calls against a reference without them"])

p("C15", "Instances are isolated, arguments stay untouched, results stay put",
  "Any interleaving of operations on different instances, in one thread or many, gives each instance exactly the results it would have had alone. "
  "No operation of a filter, model, transform or serializer modifies the arrays given to it or to a constructor, and no result already returned changes because of a later operation; modifying such an argument or result afterwards does not influence the component.",
  ["schedules", "histories", "inputs"], "every interleaving of construction and use of instances of every class, and every later modification of shared arrays",
  "Tests use one instance at a time and never look at arguments or earlier results again.",
  STREAM + MODEL + [F + "window_filter.py", F + "polynomial_rate_filter.py", T + "fourier_transform.py", T + "psd_transform.py", T + "complex_transform.py", T + "wavelet_transform.py", T + "z_transform.py"],
  [("coefficients and state copied on construction", F + "fir_filter.py"), ("class tables copied", F + "derivative_filter.py, " + F + "integral_filter.py")],
  ["outputs of interleaved instances against solo runs, digests of arguments and results"])

p("C16", "Components recover from bad samples and adapt at the specified rate",
  "After a transient disturbance of the input - spikes, dropouts, not-a-number or infinite samples - a filter of finite memory gives, once its memory has passed, exactly the outputs of one that never saw the disturbance, and a block filter does so from the next block. "
  "Adaptive filters reduce the remaining error of a steady signal by their specified rate with every sample, so they return to tracking within a bounded number of samples after any finite disturbance or jump of the signal.",
  ["fault_sequences", "histories", "inputs"], "every finite-memory and adaptive filter, every placement and kind of disturbance",
  "Tests feed only clean signals.",
  [F + n for n in ("fir_filter.py", "derivative_filter.py", "rank_filter.py", "goertzel_filter.py", "polyphase_rate_filter.py", "complex_bandpass_filter.py", "complex_frequency_filter.py")],
  [("state array of the filter's order and nothing else", F + "fir_filter.py"), ("state cleared at block end", F + "goertzel_filter.py"), ("error feedback", F + "complex_bandpass_filter.py, " + F + "complex_frequency_filter.py")],
  ["outputs after the disturbance against an undisturbed reference"])

p("C17", "Sample rate conversion neither loses samples nor drifts",
  "Over any length of stream, divided into pieces of any size, polyphase rate conversion produces the number of samples given by the rate to within one, every input sample contributes (unless the rate is so low that the span of the filter does not reach from one output to the next), and the outputs are those of converting the whole stream at once. "
  "A constant signal stays constant, a slow sinusoid stays a sinusoid at its expected position without accumulated offset, and the rate may be changed between any two pieces.",
  ["histories", "inputs", "configurations"], "every rate, every stream and every division into pieces, with rate changes and resets at any boundary",
  "The test converts one signal in one call and checks two samples.",
  [F + "polyphase_rate_filter.py"], [("fractional index carried between calls", F + "polyphase_rate_filter.py:filter")],
  ["number, value and position of output samples"], [("index", "fractional position", F + "polyphase_rate_filter.py:_index")])

p("C18", "Settings changed in mid-stream take effect as if chosen at construction",
  "After a setting of a component is changed between two pieces of a signal, the component behaves from then on as one constructed with that setting and brought to the same signal state, and reading the setting gives the new value. "
  "A setting that is not changed keeps its value and effect, and what a filter says of itself (its response, delay and roots) is that of the coefficients in force.",
  ["histories", "configurations"], "every setting of every component, changed at any boundary of a stream, any number of times",
  "Tests assign a setting and read it back, or assign it before the first sample.",
  STREAM + MODEL, [("setters update what filter uses", "frequency, rate, limit, index, phase, regularize setters")],
  ["outputs after a change against a reference with the new setting"])

p("C19", "The controller's integral term never exceeds its limit",
  "For every sequence of samples, limit changes and resets, the integral contribution to a controller's output never exceeds the integral limit in force, in either direction, apart from samples before a limit was set: it is the running sum of the samples, confined to the limit at each of them. It keeps responding at the limit: once the input changes sign the integral leaves the limit with the next sample.",
  ["histories", "inputs"], "every signal, limit history, reset and restart",
  "The test uses one signal with one limit.",
  [F + "pid_filter.py"], [("integral updated only within the limit", F + "pid_filter.py:filter")],
  ["output minus proportional and derivative parts"])

p("C20", "The diversity model keeps genuine samples and never gets less diverse",
  "At every moment the retained samples are samples that were presented, in number the smaller of those presented and the specified capacity, and once full the least distance between any two of them never decreases and equals the reported diversity after an exchange. "
  "A sample whose exchange for a retained one increases that distance is exchanged, to the greatest effect. The result does not depend on how samples were grouped into calls, on rejected calls or on restarts, and clearing returns to the initial state with the same capacity.",
  ["histories", "inputs", "crash_points"], "every distance style and capacity, every sample history, grouping, clear and restart",
  "The test fits one matrix in one call.",
  [M + "diversity_model.py"], [("exchange only if the least distance grows", M + "diversity_model.py:fit")],
  ["retained samples and reported diversity"], [("state", "retained samples", M + "diversity_model.py:s")])

p("C21", "A failed fit leaves the previous model in force",
  "When fitting a classifier fails at any point - refused data, a singular class, too few samples in a class, a failure of the numerical library in any class - the exception is raised and the classifier predicts, before and after a checkpoint, exactly as before the attempt; a never fitted classifier still refuses to predict. A later successful fit takes full effect.",
  ["fault_sequences", "crash_points", "histories"], "every failing position within a fit and every history of failed and successful fits",
  "Tests only fit good data, once.",
  [M + "gaussian_model.py", M + "gaussian_mixture_model.py"], [("model replaced only when complete", M + "gaussian_model.py:fit, " + M + "gaussian_mixture_model.py:fit")],
  ["predictions before and after the attempt"])

p("C22", "A classifier depends only on its last fit, and judges each row alone",
  "The predictions of a classifier depend only on the data and settings of its last successful fit (and, where randomised, the state of the random generator at that time), not on earlier fits, other instances, predictions made before or at the same time by other threads, or restarts. "
  "Each prediction ranks every learned class exactly once, and a row is ranked the same whether it is presented alone or in any batch. A class is denoted by the position of its label among the labels in ascending order, whatever the labels are and however the rows of the fit were ordered.",
  ["histories", "schedules", "inputs"], "every history of fits, predictions, interleavings with other instances and restarts, every division of rows into batches",
  "Tests fit one instance once and check accuracy.",
  [M + "gaussian_model.py", M + "gaussian_mixture_model.py"], [("model rebuilt by each fit", M + "gaussian_model.py, " + M + "gaussian_mixture_model.py")],
  ["predictions against a fresh instance given the same fit"])

# Not claimed: pure functions of their input.
p("C30", "FIR and IIR designs meet the specified frequency response",
  "A filter designed by style, frequency, order, count, complement and gain has a magnitude response of -3 dB at the specified frequency as far as the order permits, unit gain (times gain) in the pass band, and recursive designs are stable.",
  ["inputs", "configurations"], "every style, frequency, order, count, complement and gain", "Tests sample one design per style.",
  [F + "fir_filter.py", F + "iir_filter.py", T + "z_transform.py"], [("iterative scaling of the cutoff", F + "fir_filter.py, " + F + "iir_filter.py")])
p("C31", "Wavelet synthesis reconstructs what analysis decomposed",
  "For every style, order, count and admissible shape, inverse transforming a forward transformed signal gives the original signal up to the delay and numerical accuracy of the filter bank.",
  ["inputs", "configurations"], "every style, order, count, shape and signal", "Tests sample one signal.", [T + "wavelet_transform.py"], [("orthogonal filter pairs", T + "wavelet_transform.py")])
p("C32", "Fourier and power spectra equal their definition",
  "The Fourier transform equals the windowed discrete Fourier sum with frequencies in ascending order and is undone by its inverse, and the power spectral density is the average of windowed periodograms over the specified stride.",
  ["inputs"], "every signal, window and stride", "Tests sample one signal.", [T + "fourier_transform.py", T + "psd_transform.py"], [("fft and reordering", T + "fourier_transform.py")])
p("C33", "Three-phase and complex representations convert into each other without loss",
  "Transforming a balanced three-phase signal to a complex signal and back gives the original signal, with or without a neutral.",
  ["inputs"], "every balanced signal", "Tests sample one signal.", [T + "complex_transform.py"], [("Clarke matrix and inverse", T + "complex_transform.py")])
p("C34", "Continuous designs map to stable discrete designs",
  "A stable continuous-time transfer function is transformed to a stable discrete-time one with equal static gain of one by either method.",
  ["inputs"], "every stable transfer function and frequency", "Tests sample one transfer function.", [T + "z_transform.py"], [("bilinear and impulse invariant mapping", T + "z_transform.py")])
p("C35", "Polynomial rate conversion interpolates its input",
  "Polynomial rate conversion returns samples of the local polynomial through the input, and passes polynomial signals of at most its order exactly.",
  ["inputs"], "every signal, rate and order", "Tests sample one signal.", [F + "polynomial_rate_filter.py"], [("local polynomial fit", F + "polynomial_rate_filter.py")])
p("C36", "Windows are normalised and applied sample by sample",
  "A normalised window has an average magnitude of one, and filtering multiplies a signal of the window's length by it.",
  ["inputs"], "every style, order and signal", "Tests sample one window per style.", [F + "window_filter.py"], [("normalisation on construction", F + "window_filter.py")])
p("C37", "Classifiers separate well separated classes",
  "On data drawn from well separated distributions the first ranked class is the true class for nearly all rows.",
  ["inputs"], "every well separated data set", "Tests sample one data set.", [M + "gaussian_model.py", M + "gaussian_mixture_model.py"], [("class distance ranking", M + "gaussian_model.py, " + M + "gaussian_mixture_model.py")])
p("C38", "Equal encodings have equal hash codes and different ones differ",
  "The hash code of an encoded text is its SHA3-256 digest: equal for equal texts, and different for different texts for all practical purposes.",
  ["inputs"], "every text", "Tests sample a few texts.", [SER], [("sha3-256 of the text", SER + ":Serial.code")])

with open("/verif/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
