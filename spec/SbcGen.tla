------------------------------- MODULE SbcGen -------------------------------
(* Behaviours of SbcMC, printed as JSON histories to be replayed on the real target. *)
EXTENDS SbcMC, Json, Sequences
CONSTANTS N, CrashW, FailW, AttrW, GoneW
VARIABLE hist

(* a random command of the kinds under study; counts and addresses around the end of the unit included *)
GenCmd(s, l, k, sz, b, lba, cnt, x, y) ==
  LET n == IF ~HasOut(k, b) THEN 0 ELSE IF k = "wsame" THEN 1 ELSE cnt
      d == [i \in 1..n |-> IF i % 2 = 1 THEN x ELSE y]
      bb == IF sz = 6 THEN 0 ELSE b
  IN Rec(s, l, Cdb(k, sz, bb, lba, cnt), IF n > 0 THEN n * 512 ELSE IF k = "read" THEN cnt * 512 ELSE 0,
         IF n > 0 THEN "w" ELSE IF k = "read" /\ cnt > 0 THEN "r" ELSE "n", d)

Moves(c) == \E o \in Outcomes(w, c) : o.st = Good

GInit == Init /\ hist = <<>>
GNext ==
  /\ Len(hist) < N
  /\ \E r \in {RandomElement(1..100)} :
       IF r <= CrashW THEN \E n \in {"a"} : Crash(n) /\ hist' = Append(hist, [op |-> "crash"])
       ELSE IF r <= CrashW + GoneW THEN \E s \in {RandomElement(Sessions)} :
            /\ w' = SessionGone(w, s) /\ last' = last
            /\ hist' = Append(hist, [op |-> "gone", s |-> s])
       ELSE IF r <= CrashW + GoneW + AttrW THEN
            \E n \in {RandomElement({"a", "b"})} : \E a \in {RandomElement({"ro", "swp", "removable", "online"})} :
              /\ w' = [w EXCEPT !.dev[n][a] = ~@] /\ last' = last
              /\ hist' = Append(hist, [op |-> "attr", lun |-> IF n = "a" THEN "0" ELSE "1", attr |-> a, v |-> ~w.dev[n][a]])
       ELSE \E s \in {RandomElement(Sessions)}, l \in {RandomElement({"0", "0", "1", "1", "2"})}, k \in {RandomElement(KindSet)} :
            \E sz \in {RandomElement(IF k \in BlockKinds THEN Sizes(k) ELSE {6})} :
            \E b \in {RandomElement(IF k \in BlockKinds THEN B1s(k) ELSE {0})},
               lba \in {RandomElement(0..(NA - 1))}, lba2 \in {RandomElement(0..(NA + 1))},
               cnt \in {RandomElement(1..MaxCnt)}, cnt2 \in {RandomElement((IF sz = 6 THEN 1 ELSE 0)..MaxCnt)},
               x \in {RandomElement(Toks)}, y \in {RandomElement(Toks)}, q \in {RandomElement(1..100)}, f \in {RandomElement(1..100)} :
            LET c0 == IF k \in {"resv", "resv2"} THEN Rec(s, l, Plain(IF q > 40 THEN 22 ELSE 23), 0, "n", <<>>)
                      ELSE IF k = "tur" THEN Rec(s, l, Plain(IF q > 20 THEN 0 ELSE 191), 0, "n", <<>>)
                      ELSE GenCmd(s, l, k, sz, b, lba, cnt, x, y)
                c == IF k \notin {"resv", "resv2", "tur"} /\ ~Moves(c0) /\ q > 50 THEN GenCmd(s, l, k, sz, 0, lba2, cnt2, x, y) ELSE c0
            IN \E o \in Outcomes(w, c) :
              /\ w' = o.w /\ last' = last
              /\ hist' = Append(hist, [op |-> "cmd", s |-> c.s, lun |-> c.lun, cdb |-> c.cdb, edtl |-> c.edtl, dir |-> c.dir, dout |-> c.dout,
                                       fail |-> f <= FailW])
  /\ (Len(hist') = N => PrintT(ToJson(hist')))
=============================================================================
