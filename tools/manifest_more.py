m("C18", "exhaustive small formulas and matrices in TLC (Span.tla) + every observed span program and solver answer judged by the specification",
  "The specification's own construction is checked for every formula of up to 4 leaves; the code's matrices are judged by direct linear algebra over GF(q) for every subset of attributes (formulas up to 9 leaves) and by residual/solvability for matrices up to 7x7. BLS12-381 scalars: sample.")
m("C19", "exhaustive texts in TLC (Parse.tla) replayed in the parser + validation of random and adversarial texts",
  "Every text over the alphabet up to the model's length bound is generated by the specification with its verdict and replayed; longer texts are random. Recursion depth is a known finding.")
HYBN = ("The header/block layout is model checked against the promised outcomes for everything an attacker can assemble from a few slices (MCHybrid); "
        "those recipes and random histories are executed in the code and every outcome is judged by Hybrid.tla. AES-GCM and Shake are taken as ideal. "
        "Counts in the evidence; Rust, C, Python and WebAssembly are all driven.")
for p_ in ("C12", "C13", "C20"):
    m(p_, "model of assembled headers/blocks (MCHybrid) + replay of its recipes + trace validation (Hybrid.tla)", HYBN)
m("C17", "trace validation of histories spread over the Rust, C, Python and WebAssembly interfaces (Hybrid.tla)",
  "Every producer/consumer pair once, then random histories with every call through an interface drawn at random; judged by the same specification as the Rust calls. WebAssembly runs under node.")
m("C21", "trace validation of policy declarations and rotation lists through every interface (Abe.tla DeclareAll/RotateAll)",
  "The resulting policies are compared in full (values, budget, axes) with the specification's after every call.")
m("C08", "TLA+ byte formats (Wire.tla) judging written bytes and announced sizes + replay of model behaviours and validated histories with reloads at random points (Abe.tla)",
  "Every kind of object is written and read back at random moments of random histories (including delegated and re-randomized keys, and bytes saved earlier and restored later); the histories must stay behaviours of Abe.tla. Written bytes must fill the specified format exactly for 0..8 elements; larger objects (up to 70000 elements) by announced size and re-serialization. Toy group and BLS12-381.")
m("C09", "TLA+ byte formats (Wire.tla): damages enumerated by TLC, applied to real bytes, every answer judged by the specification",
  "Every single damage (and pairs of damages) of every section of every format in the model, every truncation, random noise, damaged headers/blocks/containers and damaged inputs through C, Python and WebAssembly. What the specification refuses must be refused, nothing may panic or abort, and allocations are metered. What is accepted is used in every operation that takes it. Group element validity of BLS12-381 points is judged by membership in a pool of genuine encodings.")
m("C14", "exhaustive interleavings of the handle-table design in TLC (MCFfiCache) + real threads stopped at every atomic access, histories judged by the specification (FfiCacheTrace.tla)",
  "The design is explored for every interleaving of small programs. The real C functions are compiled with every atomic/static access made a scheduling point: every pair of calls with one stop anywhere, samples of two stops and three threads, plus free-running threads; each history (tickets at start and end of calls) must be a behaviour of FfiCache.tla. WebAssembly handles (single-threaded) by sequential histories.")
m("C15", "per-thread error slots model checked against the promise told from the history (MCFfiErr) + every behaviour of the model replayed on two threads, random schedules and stopped calls judged by FfiErrTrace.tla",
  "The messages themselves are taken from each failing call made alone (they must be nonempty, name the unknown handle, end with the text given to set_error); who reads which message, when, and how it is cut is decided by the specification. Sequences of the model up to depth 4 in their exact order, up to 8 threads in lockstep and free-running, and calls stopped inside another thread's on the instrumented library.")
m("C16", "buffer protocol model checked with retrying callers (MCFfiBuf) + every exported function called with sizes around the required ones and every argument missing, judged by FfiBufTrace.tla",
  "Required lengths are computed in the specification from the shapes of what was asked (the byte formats of Wire.tla). Canaries of 64 KiB follow every buffer. What was written must be the result: opened again, compared with the Rust API's answer, or with what was put in. Negative lengths and pointers to less memory than announced are outside the C contract.")
m("C22", "programs over the backend's operations enumerated and simulated by TLC (MCGroup), run on BLS12-381, every result judged by exact exponents modulo the group order computed in TLA+ (GroupTrace.tla over BigMod.tla)",
  "Every pair of operations (sampled operands, among them zero, minus one and numbers around the order) and random programs of fourteen; equal exponents exactly when equal bytes; every result's bytes read back and damaged. The arithmetic module is itself checked exhaustively against plain integers for small moduli. Elements outside those generated are not reached; the curve library's own internals are not modelled.")
m("C07", "ways of drawing model checked against the promise (MCFresh), its histories executed in the transparent group and the numbers drawn judged by FreshTrace.tla; byte strings drawn by the real group, the hybrid layer and every interface pooled and judged alike",
  "In the transparent group each operation's random numbers are recovered from its outputs (the specification checks the recovery: shares fit the matrix and total, ciphertext elements fit one s) and may not be, nor be a neighbour or small multiple of, anything drawn before; across all processes of the run no number repeats (tens of thousands). BLS12-381: outputs must differ and scalars, nonces and keys spread over all their bits; discrete logarithms hide the rest. Calls stopped inside each other on the instrumented library. Statistical defects subtler than these (small bias) are not detected.")
m("C23", "commutation of calls on different names model checked on Abe.tla (MCIndep) + histories of alternating worlds, of threads on the same objects and of C functions called together, each thread validated as if it ran alone (HybridTrace.tla)",
  "MCIndep shows for the specification that calls which write different names commute and give the same outcomes, so each thread of a concurrent run is judged as the common preparation followed by its own calls. Engine operations run on 8 free-running threads sharing all objects (unchanged serializations afterwards); C functions meet at every call, also on the instrumented library with random stops at atomic and static accesses. Generic engine code is not instrumented: its schedules are those the machine chooses.")
