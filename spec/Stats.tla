-------------------------------- MODULE Stats -------------------------------
(* The counters of the service: every answered SCSI command adds exactly one *)
(* to the count of its operation code; READs and WRITEs also add one to their *)
(* operation count and their expected transfer length to their volume.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
Zero == [io |-> None, r |-> 0, w |-> 0, rv |-> 0, wv |-> 0]
Reads == {8, 40, 168, 136}
Writes == {10, 42, 170, 138}
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Plus(f, k, n) == [x \in DOMAIN f \union {k} |-> At(f, x) + IF x = k THEN n ELSE 0]
(* n answered commands with operation code op and expected transfer length edtl *)
Answered(st, op, edtl, n) ==
  [io |-> Plus(st.io, ToString(op), n),
   r |-> st.r + IF op \in Reads THEN n ELSE 0, w |-> st.w + IF op \in Writes THEN n ELSE 0,
   rv |-> st.rv + IF op \in Reads THEN n * edtl ELSE 0, wv |-> st.wv + IF op \in Writes THEN n * edtl ELSE 0]
(* the snapshot o against the counters *)
Wrong(st, o) ==
  (IF \E k \in DOMAIN st.io \union DOMAIN o.io : At(st.io, k) # At(o.io, k) THEN {"count"} ELSE {})
  \union (IF o.r # st.r \/ o.w # st.w THEN {"iops"} ELSE {})
  \union (IF o.rv # st.rv \/ o.wv # st.wv THEN {"volume"} ELSE {})
=============================================================================
