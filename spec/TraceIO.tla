------------------------------ MODULE TraceIO -------------------------------
(* Input of recorded traces, output of verdicts and cases (native: java/vp) *)
ReadTrace(path) == CHOOSE t : FALSE     \* the ndjson file, as a sequence of records
Emit(path, rec) == TRUE                 \* appends rec to the file as one JSON line
Guarded(e) == e                         \* e, or a text if e has no value
=============================================================================
