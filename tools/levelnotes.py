"""Level notes of MANIFEST.json."""
COMMON = ("Every function the property depends on is extracted mechanically from /repo on each run and verified against its contract with Verus, "
          "callers against callees' contracts, no bounds. Not proved: the library contracts of contracts/00_prelude.rs (atomics, Arc/Weak, mpsc, Vec, "
          "sorting, formatting, clocks), listed per property in the evidence. A native suite on the real crate runs beside it as counterexample search "
          "and, for any function the verifier cannot read after a change, as the labelled bounded stand-in. ")
NOTE = {
 'C01': "All strings, loop invariant over the characters.",
 'C02': "All strings; a refusal leaves the label cell without a step.",
 'C03': "Each label operation is one step of the label cell to the sorted map's update, also under concurrency; the crate's copy-on-write cell is an assumed contract.",
 'C04': "All strings; decoding the written text yields the original (lemma).",
 'C05': "Text equality with the spec of the exposition for every family; the digits std prints for an integer or a finite float are an assumed function.",
 'C06': "All amounts; lemmas carry it over any history below 2^64. IEEE facts by Kani over the full domain.",
 'C07': "All interleavings at the granularity of atomic operations; memory ordering beyond per-cell atomicity is not modelled.",
 'C08': "All values and any closure that returns; an unwinding closure is out of scope (the method does not promise it).",
 'C09': "All bounds and counts up to 2^31 for exponential; powi uninterpreted.",
 'C10': "All values, bucket lists and histories; binary search by its std contract.",
 'C11': "Any number of members and buckets.",
 'C12': "All sample lists and quantiles; stable sort by its std contract.",
 'C13': "Any clock answers, also running backwards.",
 'C14': "Any number of metrics; grouping exactly when labels hold still, otherwise that gathering does not panic and each family of the metrics collected appears once, in order.",
 'C15': "Sums folded in member order from std's start value.",
 'C16': "Any number of collectors, also registered meanwhile; a user collector does not itself gather.",
 'C17': "All times whose milliseconds fit in 64 bits; Kani for the duration conversion.",
 'C18': "Every builder and registry handle, all configurations.",
 'C20': "Against recorded answers of the operating system, one of them asked in that very collection; the answers themselves are assumed within documented ranges.",
}
NOTE = {k: COMMON + v for k, v in NOTE.items()}
