------------------------------- MODULE SbcMC -------------------------------
(* Model of the whole block target: two sessions, two logical units, every  *)
(* command form of Sbc, failures, crashes, attribute changes.  Checked       *)
(* exhaustively for the guarantees below; SbcGen draws behaviours from it    *)
(* that are replayed on the real target.                                     *)
EXTENDS Sbc, TLC

CONSTANTS NA, NB,        \* blocks of the two units
          Toks,          \* data values
          Sessions, MaxCnt, KindSet, SizeSet, Durable, Faults, Switches
VARIABLES w, last

T0 == "t0"
NoTgt == [x \in {} |-> ""]
Dev(n, thin) == [n |-> BigOf(n), bs |-> 512, small |-> TRUE, ro |-> FALSE, swp |-> FALSE, online |-> TRUE,
                 removable |-> FALSE, thin |-> thin, resv |-> "", sp |-> <<>>, spd |-> <<>>,
                 cont |-> [k \in 1..n |-> {0}], dur |-> [k \in 1..n |-> {0}]]
World0 == [dev |-> [a |-> Dev(NA, FALSE), b |-> Dev(NB, TRUE)],
           map |-> [t \in {T0} |-> [l \in {"0", "1"} |-> IF l = "0" THEN "a" ELSE "b"]]]

Be(x, n) == BytesOf(BigOf(x), n)
OpOf(k, sz) ==
  CASE k = "read" -> (CASE sz = 6 -> 8 [] sz = 10 -> 40 [] sz = 12 -> 168 [] OTHER -> 136)
    [] k = "write" -> (CASE sz = 6 -> 10 [] sz = 10 -> 42 [] sz = 12 -> 170 [] OTHER -> 138)
    [] k = "wverify" -> (CASE sz = 10 -> 46 [] sz = 12 -> 174 [] OTHER -> 142)
    [] k = "verify" -> (CASE sz = 10 -> 47 [] sz = 12 -> 175 [] OTHER -> 143)
    [] k = "wsame" -> IF sz = 10 THEN 65 ELSE 147
    [] k = "orwrite" -> 139
    [] k = "sync" -> IF sz = 10 THEN 53 ELSE 145
    [] k = "prefetch" -> IF sz = 10 THEN 52 ELSE 144
    [] OTHER -> 0
Cdb(k, sz, b1, lba, cnt) ==
  LET o == OpOf(k, sz) IN
  CASE sz = 6 -> <<o, 0>> \o Be(lba, 2) \o <<cnt, 0>> \o [i \in 1..10 |-> 0]
    [] sz = 10 -> <<o, b1>> \o Be(lba, 4) \o <<0>> \o Be(cnt, 2) \o <<0>> \o [i \in 1..6 |-> 0]
    [] sz = 12 -> <<o, b1>> \o Be(lba, 4) \o Be(cnt, 4) \o <<0, 0>> \o [i \in 1..4 |-> 0]
    [] OTHER -> <<o, b1>> \o Be(lba, 8) \o Be(cnt, 4) \o <<0, 0>>

Sizes(k) == CASE k \in {"read", "write"} -> {6, 10, 12, 16}
              [] k \in {"wverify", "verify"} -> {10, 12, 16}
              [] k = "orwrite" -> {16}
              [] OTHER -> {10, 16}
B1s(k) == CASE k \in {"write", "wverify", "orwrite"} -> {0, 8, 32}
            [] k = "read" -> {0, 32}
            [] k = "verify" -> {0, 2}
            [] k = "wsame" -> {0, 8, 16}
            [] OTHER -> {0}
Rec(s, l, cdb, edtl, dir, dout) ==
  [s |-> s, tgt |-> T0, lun |-> l, cdb |-> cdb, edtl |-> edtl, dir |-> dir, dout |-> dout, pbytes |-> <<>>]

HasOut(k, b) == k \in StoreKinds \/ (k = "verify" /\ Bit(b, 2))
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {[i \in 1..n |-> IF i % 2 = 1 THEN x ELSE y] : x \in Toks, y \in Toks}
BlockCmds(s, l) ==
  UNION {UNION {UNION {
    LET cnts == IF sz = 6 THEN 1..MaxCnt ELSE 0..MaxCnt IN
    {Rec(s, l, Cdb(k, sz, IF sz = 6 THEN 0 ELSE b, lba, cnt), Len(d) * 512, IF Len(d) > 0 THEN "w" ELSE IF k = "read" THEN "r" ELSE "n", d) :
       lba \in 0..NA, cnt \in cnts, d \in {}} \union
    UNION {{Rec(s, l, Cdb(k, sz, IF sz = 6 THEN 0 ELSE b, lba, cnt),
              IF HasOut(k, b) THEN Len(d) * 512 ELSE IF k = "read" THEN cnt * 512 ELSE 0,
              IF HasOut(k, b) /\ Len(d) > 0 THEN "w" ELSE IF k = "read" /\ cnt > 0 THEN "r" ELSE "n", d) :
             d \in IF ~HasOut(k, b) THEN {<<>>} ELSE IF k = "wsame" THEN Seqs(1) ELSE Seqs(cnt)} :
           lba \in 0..NA, cnt \in cnts}
    : b \in B1s(k)} : sz \in Sizes(k) \intersect SizeSet} : k \in KindSet \intersect BlockKinds}
Plain(o) == <<o>> \o [i \in 1..15 |-> 0]
OtherCmds(s, l) ==
  {Rec(s, l, Plain(o), 0, "n", <<>>) : o \in (IF "resv" \in KindSet THEN {22, 23} ELSE {}) \union
                                              (IF "tur" \in KindSet THEN {0, 191} ELSE {})}
Luns == {"0", "1", "2"}
CmdsOf(SS) == UNION {BlockCmds(s, l) \union OtherCmds(s, l) : s \in SS, l \in Luns}

Pre == [w |-> w]
Init == w = World0 /\ last = [c |-> Rec("", "0", Plain(0), 0, "n", <<>>), st |-> 0, old |-> World0, kind |-> "start", why |-> {}]

Send(c) == \E o \in Outcomes(w, c) :
  /\ w' = o.w
  /\ last' = [c |-> c, st |-> o.st, why |-> o.why, old |-> w, kind |-> "cmd"]
Fail(c) ==
  /\ Faults /\ Mapped(w, c) /\ Kind(c) \in BlockKinds /\ Causes(c, w.dev[DevName(w, c)]) = {}
  /\ ~ForeignResv(c, w.dev[DevName(w, c)])
  /\ Kind(c) # "verify"
  /\ LET o == FaultOutcomes(w, c) IN w' = o.w /\ last' = [c |-> c, st |-> o.st, why |-> {}, old |-> w, kind |-> "fail"]
Crash(n) ==
  /\ Durable
  /\ \E f \in {[k \in 1..Len(w.dev[n].dur) |-> CHOOSE t \in w.dev[n].dur[k] : \A u \in w.dev[n].dur[k] : t <= u],
               [k \in 1..Len(w.dev[n].dur) |-> CHOOSE t \in w.dev[n].dur[k] : \A u \in w.dev[n].dur[k] : t >= u]} :
       w' = [w EXCEPT !.dev[n].cont = [k \in DOMAIN f |-> {f[k]}], !.dev[n].dur = [k \in DOMAIN f |-> {f[k]}]]
  /\ last' = [last EXCEPT !.kind = "crash", !.old = w]
Toggle(n) ==
  /\ \E a \in Switches : w' = [w EXCEPT !.dev[n][a] = ~@]
  /\ last' = [last EXCEPT !.kind = "attr", !.old = w]
Gone(s) ==
  /\ "resv" \in KindSet
  /\ w' = SessionGone(w, s) /\ last' = [last EXCEPT !.kind = "gone", !.old = w, !.c.s = s]

Next == \/ \E c \in CmdsOf(Sessions) : Send(c) \/ Fail(c)
        \/ \E n \in {"a", "b"} : Crash(n) \/ Toggle(n)
        \/ \E s \in Sessions : Gone(s)

View == w

(* ------------------------------------------------------------------------ *)
TypeOK == \A n \in DOMAIN w.dev : LET d == w.dev[n] IN
            /\ Len(d.cont) = IntOf(d.n) /\ Len(d.dur) = IntOf(d.n)
            /\ \A k \in 1..Len(d.cont) : d.cont[k] # {} /\ d.dur[k] # {}

(* every command has an outcome, and not both acceptance and an unconditional refusal *)
Total == \A c \in CmdsOf(Sessions) : LET os == Outcomes(w, c) IN
   /\ os # {}
   /\ (\E o \in os : o.st = Good) => ~ \E o \in os : o.st = Check /\ o.why # {Miscompare}

OneChanged(old, new, n) == \A x \in DOMAIN old.dev : x # n => old.dev[x] = new.dev[x]
Same(d, e) == d.cont = e.cont /\ d.dur = e.dur

(* C02: whatever is not answered GOOD and did not fail in the backend changes nothing *)
RefusedInert == [][last'.kind = "cmd" /\ last'.st # Good => w' = w]_<<w, last>>
(* C01: a good command changes only the device it addresses, only the blocks it addresses, and these hold its data *)
Exact == [][last'.kind = "cmd" /\ last'.st = Good /\ Mapped(w, last'.c) =>
   LET c == last'.c n == DevName(w, c) d == w.dev[n] e == w'.dev[n] IN
   /\ OneChanged(w, w', n)
   /\ Kind(c) \notin StoreKinds \union {"unmap"} => d.cont = e.cont
   /\ Kind(c) \in StoreKinds =>
        LET l == IntOf(Lba(c)) m == IntOf(Cnt(c))
            lastb == IF m = 0 /\ Kind(c) = "wsame" THEN Len(d.cont) ELSE l + m IN
        /\ lastb <= Len(d.cont)
        /\ ~WriteProt(d)
        /\ \A k \in 1..Len(d.cont) : (k <= l \/ k > lastb) => e.cont[k] = d.cont[k] /\ e.dur[k] = d.dur[k]
        /\ Kind(c) \in {"write", "wverify"} => \A k \in (l + 1)..lastb : e.cont[k] = {c.dout[k - l]}]_<<w, last>>
(* a unit of any size, kept as the blocks written, behaves as the same unit kept as a whole *)
Sparsely(d) == [d EXCEPT !.small = FALSE, !.sp = [k \in {BigOf(j - 1) : j \in 1..Len(d.cont)} |-> d.cont[IntOf(k) + 1]],
                         !.spd = [k \in {BigOf(j - 1) : j \in 1..Len(d.dur)} |-> d.dur[IntOf(k) + 1]]]
SparseAgrees == [][last'.kind = "cmd" /\ last'.st = Good /\ Mapped(w, last'.c) /\ Kind(last'.c) # "unmap"
                   /\ (Kind(last'.c) = "wsame" => Cnt(last'.c) # Big0) =>
   LET c == last'.c n == DevName(w, c) e == w'.dev[n] s == After(c, Sparsely(w.dev[n])) IN
   \A j \in 1..Len(e.cont) : SpAt(s, BigOf(j - 1)) = e.cont[j] /\ SpdAt(s, BigOf(j - 1)) = e.dur[j]]_<<w, last>>
(* C03: after a GOOD forced write or a GOOD synchronise the blocks survive *)
Forced == [][last'.kind = "cmd" /\ last'.st = Good /\ Mapped(w, last'.c) =>
   LET c == last'.c n == DevName(w, c) e == w'.dev[n] b == Blocks(c, w.dev[n]) IN
   (Kind(c) = "sync" \/ (Kind(c) \in StoreKinds /\ Fua(c))) =>
      \A k \in b[1]..(b[1] + b[2] - 1) : e.dur[k] = e.cont[k]]_<<w, last>>
(* volatile contents are always among what may be on the medium *)
CacheSound == \A n \in DOMAIN w.dev : \A k \in 1..Len(w.dev[n].cont) : w.dev[n].cont[k] \subseteq w.dev[n].dur[k]
(* C04: a failed command leaves other blocks alone *)
FailedLocal == [][last'.kind = "fail" =>
   LET c == last'.c n == DevName(w, c) d == w.dev[n] e == w'.dev[n] b == Blocks(c, d) IN
   /\ last'.st = Check /\ OneChanged(w, w', n)
   /\ \A k \in 1..Len(d.cont) : ~InBlk(k, b) => d.cont[k] = e.cont[k] /\ d.dur[k] = e.dur[k]
   /\ \A k \in 1..Len(d.cont) : d.cont[k] \subseteq e.cont[k]]_<<w, last>>
(* C10: while s holds a unit no other session changes or reads its medium or takes it *)
Exclusive == [][last'.kind = "cmd" /\ Mapped(w, last'.c) =>
   LET c == last'.c d == w.dev[DevName(w, c)] e == w'.dev[DevName(w, c)] IN
   d.resv # "" /\ d.resv # c.s =>
      /\ Same(d, e) /\ e.resv = d.resv
      /\ Kind(c) \in MediumKinds \union {"reserve"} => last'.st # Good
      /\ Kind(c) = "release" => last'.st = Good]_<<w, last>>
HeldTillEnd == [][\A n \in DOMAIN w.dev : w.dev[n].resv # "" /\ w'.dev[n].resv # w.dev[n].resv =>
    last'.c.s = w.dev[n].resv /\ (last'.kind = "gone" \/ (last'.kind = "cmd" /\ Kind(last'.c) = "release"))]_<<w, last>>
=============================================================================
