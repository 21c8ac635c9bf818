NA = {}
_num = "Trusted: TLC, the JSON transport, and the 40-digit arithmetic of Num.tla (Java-accelerated, self-tested against its pure TLA+ definition). "
T = {
"C01": ("model_checking", "TLA+ state machine of objects, cached tables and tracing scopes model-checked with TLC; TLC-generated call histories replayed on the code and results judged by TLC",
        _num + "Bounded histories (two calls exhaustively generated, sampled in quick; seeded long ones); a fresh object per call is the reference."),
"C02": ("model_checking", "TLA+ model of flatten/rebuild steps checked with TLC; TLC-generated histories replayed on every kind of object and judged by TLC",
        _num + "All step sequences up to length 3 are generated; each object kind gets a seeded sample of them (quick 5, thorough 36), with seeded parameter values."),
"C21": ("model_checking", "TLA+ decision of supported requests enumerated by TLC; every request put to the code eagerly and under jit, outcome judged by TLC",
        _num + "Small families exhaustively; shapes of sparse operands and probe lists enumerated within bounds and sampled in quick."),
"C03": ("model_checking", "TLA+ model of call arrangements checked with TLC; TLC-enumerated arrangements of every public computation replayed and judged by TLC",
        _num + "About 100 computations; arrangements sampled by stratum (jit x points x batching); reference is the eager single evaluation; relative agreement 2e-9."),
"C04": ("model_checking", "TLA+ difference formulas model-checked with TLC; nine-point samples, jvp and grad of every public computation judged by TLC",
        _num + "Differences agree to about 1e-6 where the function is resolved (TLC decides which); one or two parameter sets per computation in quick, one of them exactly flat."),
"C08": ("model_checking", "TLA+ reference (exact elimination) model-checked with TLC; recorded calls judged by TLC",
        _num + "Sampled covariances and residuals over all code paths; design identities exhaustively checked on small integers."),
"C09": ("model_checking", "TLA+ semantics of block matrices model-checked with TLC; recorded calls judged by TLC",
        _num + "All shapes within the bound by enumeration/seeding, integer entries compared exactly; inverse/determinant to 1e-8."),
"C10": ("model_checking", "TLA+ defining conditions of splines solved and model-checked with TLC; recorded splines judged by TLC",
        _num + "The conditions determine a unique function (checked on all small integer grids); the implementation is compared with it at sampled points of every piece."),
"C11": ("model_checking", "TLC-enumerated tables replayed on the implementation; results judged by TLC",
        _num + "All integer tables within the bound plus seeded irregular ones."),
"C12": ("model_checking", "TLA+ Simpson/Romberg tableau model-checked with TLC; recorded integrals judged by TLC",
        _num + "Sampled integrands; exactness order of the specification checked exhaustively on small polynomials."),
"C13": ("model_checking", "trace validation: recorded (t,y) sequences must be behaviours of the TLA+ RK4 step relation",
        _num + "Sampled right-hand sides and grids."),
"C14": ("model_checking", "TLA+ Friedmann budget model-checked with TLC; recorded calls judged by TLC",
        _num + "Corner and seeded cosmologies and scale factors."),
"C15": ("model_checking", "TLA+ distance integral (converged Simpson, model-checked with TLC) judges recorded distances",
        _num + "Tolerance is the linear-interpolation bound of the documented table, computed per point."),
"C16": ("model_checking", "TLA+ growth equation integrated by TLC judges recorded growth tables",
        _num + "Tolerance is the linear-interpolation bound of the documented table, computed per point."),
"C05": ("model_checking", "TLA+ model of probe-list edits checked with TLC; every probe list it generates is replayed on the code and the rows judged by TLC",
        _num + "All orders, groupings and subsets of up to 4 tracers (quick: up to 3, sampled 4) with probes of our own; sampled with library probes. Pair references are separate two-tracer calls."),
"C06": ("model_checking", "TLA+ Limber integral model-checked with TLC and evaluated against recorded spectra",
        _num + "Closed-form probes to 1e-5, library probes with recorded factors to 1e-3 (finer nodes than the implementation's rule)."),
"C07": ("model_checking", "TLA+ Knox formula and block layout model-checked with TLC; recorded covariances judged by TLC",
        _num + "Up to 4 tracers; arbitrary signal and noise spectra."),
"C17": ("model_checking", "TLA+ transcription of Eisenstein & Hu and of the sigma8 normalisation model-checked with TLC; recorded spectra judged by TLC",
        _num + "Transfer functions to 1e-9, normalisation to 8e-4 (quadrature of the implementation); the recorded finding about the integration range is listed in known_findings.jsonl."),
"C18": ("model_checking", "TLA+ transcription of halofit model-checked with TLC on power-law spectra; recorded non-linear power judged by TLC",
        _num + "Agreement to 2e-3 given the non-linear scale (whose defining equation TLC verifies to 3e-3), 1e-2 without it."),
"C19": ("model_checking", "TLA+ redshift distributions model-checked with TLC; recorded n(z) judged by TLC",
        _num + "Shape to 1e-8, normalisation to 3e-4."),
"C20": ("model_checking", "TLA+ kernels, bias and noise model-checked with TLC; recorded kernels judged by TLC",
        _num + "Lensing integrals of extended bins to 1e-3 (resolved distributions), everything else to 1e-8 or better."),
"C22": ("model_checking", "TLA+ graph of definitions walked by TLC (what each quantity is defined from); every quantity re-evaluated with each parameter moved alone, response judged by TLC",
        _num + "Three seeded base points per run (open, closed, flat); a response is any relative change above 1e-9, none is 1e-12 of the peak."),
}
