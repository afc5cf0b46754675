------------------------------ MODULE SbcTrace ------------------------------
(* Validates recorded runs of the real target against Sbc: every answer must *)
(* be one of the outcomes the specification allows, every byte read and every *)
(* dump of the backing store must be a content the specification allows.     *)
(* Deviations are collected as <<line, set of aspects>>.                     *)
EXTENDS Sbc, TLC, Json, IOUtils, SequencesExt

VARIABLES i, w, seen, out

Trace == ndJsonDeserialize(IOEnv.TRACE)

MkDev(x) ==
  [n |-> x.n, bs |-> x.bs, small |-> x.small, ro |-> x.ro, swp |-> x.swp, online |-> x.online,
   removable |-> x.removable, thin |-> x.thin, resv |-> "", sp |-> <<>>, spd |-> <<>>,
   cont |-> [k \in 1..Len(x.toks) |-> {x.toks[k]}], dur |-> [k \in 1..Len(x.toks) |-> {x.toks[k]}]]
MkWorld(e) == [dev |-> [n \in DOMAIN e.devs |-> MkDev(e.devs[n])], map |-> e.maps]

Seq2(x) == IF x = {} THEN <<>> ELSE x

(* ---- one answered command ---- *)
Matching(e, os) == {o \in os : o.st = e.st /\ (e.st = Check => <<e.key, e.asc>> \in o.why)}

StatusBad(e, os) ==
  IF Matching(e, os) # {} THEN {}
  ELSE CASE e.st = -1 -> {"noresponse"}
         [] e.st \notin {Good, Check, 8, Conflict} -> {"badstatus"}
         [] e.st = Good -> IF \E o \in os : o.st = Conflict THEN {"noconflict"}
                           ELSE {"accepted"} \union
                                UNION {IF o.st # Check THEN {} ELSE
                                         (IF BadRange \in o.why THEN {"accepted-range"} ELSE {}) \union
                                         (IF Protected \in o.why THEN {"accepted-protected"} ELSE {}) \union
                                         (IF Miscompare \in o.why THEN {"accepted-miscompare"} ELSE {}) \union
                                         (IF BadOp \in o.why THEN {"accepted-op"} ELSE {}) \union
                                         (IF BadLun \in o.why THEN {"accepted-lun"} ELSE {}) : o \in os}
         [] e.st = Check -> IF \E o \in os : o.st = Check
                            THEN {"sense"} \union (IF \E o \in os : o.st = Check /\ Miscompare \in o.why THEN {"miscompare"} ELSE {})
                                           \union (IF \E o \in os : o.st = Check /\ BadLun \in o.why THEN {"sense-lun"} ELSE {})
                            ELSE IF \E o \in os : o.st = Conflict THEN {"noconflict"} ELSE {"refused"}
         [] e.st = Conflict -> {"conflict"}
         [] OTHER -> {"busy"}

SenseFmtBad(e) ==
  IF e.st = Check /\ ~(e.rcode = 112 /\ e.sl = 18 /\ e.addl = 10 /\ e.dl = 20) THEN {"sensefmt"}
  ELSE IF e.st = Good /\ e.dl # 0 THEN {"sensefmt"} ELSE {}

(* residual of a command answered GOOD that made avail bytes available *)
ResidBad(e, avail) ==
  IF \/ e.un /\ e.ov
     \/ avail = e.edtl /\ (e.un \/ e.ov \/ e.resid # 0)
     \/ avail < e.edtl /\ ~(e.un /\ e.resid = e.edtl - avail)
     \/ avail > e.edtl /\ ~(e.ov /\ e.resid = avail - e.edtl)
  THEN {"resid"} ELSE {}

ReadBad(e, d) ==
  LET avail == ReadAvail(e, d)
      want == MinI(avail, e.edtl)
      data == ReadData(e, d)
  IN  (IF e.dinlen # want THEN {"dlen"} ELSE {})
      \union (IF \E k \in 1..Len(e.din) : k <= Len(data) /\ e.din[k] \notin data[k] THEN {"data"} ELSE {})
      \union ResidBad(e, avail)

ParamBad(e, d) ==
  LET last == BigPred(d.n)
      want == CASE Kind(e) = "readcap10" ->
                     (IF last[1] # 0 \/ last[2] # 0
                      THEN <<255, 255, 255, 255>> ELSE BytesOf(last, 4)) \o BytesOf(BigOf(d.bs), 4)
                [] OTHER -> BytesOf(last, 8) \o BytesOf(BigOf(d.bs), 4)
      alloc == IF Kind(e) = "readcap10" THEN 8 ELSE
               LET a == BigOfBytes(SubSeq(e.cdb, 11, 14)) IN IF IsSmall(a) THEN IntOf(a) ELSE 1048576
      full == IF Kind(e) = "readcap10" THEN 8 ELSE 32
      avail == MinI(alloc, full)
      m == MinI(MinI(Len(e.raw), Len(want)), avail)
  IN  (IF e.dinlen # MinI(avail, e.edtl) THEN {"dlen"} ELSE {})
      \union (IF SubSeq(e.raw, 1, m) # SubSeq(want, 1, m) THEN {"capacity"} ELSE {})
      \union (IF Kind(e) = "sain" /\ Len(e.raw) >= 15 /\ (e.raw[15] >= 128) # d.thin THEN {"capacity"} ELSE {})
      \union ResidBad(e, avail)

(* REPORT LUNS: LUN 0 and exactly the mapped numbers, each once, cut to the allocation length *)
LunsBad(e) ==
  LET want == {"0"} \union DOMAIN w.map[e.tgt]
      alloc == LET a == BigOfBytes(SubSeq(e.cdb, 7, 10)) IN IF IsSmall(a) THEN IntOf(a) ELSE 1048576
      full == 8 + 8 * Cardinality(want)
      got == {e.luns[k] : k \in 1..Len(e.luns)}
      listed == (e.dinlen - 8) \div 8
  IN  (IF e.dinlen # MinI(MinI(full, alloc), e.edtl) THEN {"luns"} ELSE {})
      \union (IF e.dinlen >= 8 /\ BigOfBytes(SubSeq(e.raw, 1, 4)) # BigOf(8 * Cardinality(want)) THEN {"luns"} ELSE {})
      \union (IF e.dinlen >= full /\ (got # want \/ Cardinality(got) # Len(e.luns)) THEN {"luns"} ELSE {})
      \union (IF e.dinlen >= 8 /\ ~(got \subseteq want) THEN {"luns"} ELSE {})

IsCap(e) == Kind(e) = "readcap10" \/ (Kind(e) = "sain" /\ B1(e) % 32 = 16)

GoodBad(e) ==
  IF e.st # Good THEN (IF e.dinlen # 0 THEN {"leak"} ELSE {})
  ELSE IF Kind(e) = "reportluns" /\ e.dir = "r" THEN LunsBad(e)
  ELSE IF ~Mapped(w, e) \/ e.dir = "b" THEN {}
  ELSE LET d == w.dev[DevName(w, e)] IN
       CASE Kind(e) = "read" ->
              IF ~RangeOk(Lba(e), Cnt(e), d.n) THEN (IF e.dinlen # 0 THEN {"leak"} ELSE {})
              ELSE IF e.dir = "r" /\ Countable(Cnt(e)) THEN ReadBad(e, d) ELSE {}
         [] Kind(e) \in {"write", "wverify"} ->
              IF RangeOk(Lba(e), Cnt(e), d.n) /\ Enough(e, d) THEN ResidBad(e, IntOf(Cnt(e)) * d.bs) ELSE {}
         [] IsCap(e) /\ e.dir = "r" -> IF d.online \/ ~d.removable THEN ParamBad(e, d) ELSE {}
         [] OTHER -> {}

(* after a deviation the world is whatever the answer suggests *)
Guess(e) ==
  IF Mapped(w, e) /\ Kind(e) \in StoreKinds /\ w.dev[DevName(w, e)].small
     /\ RangeOk(Lba(e), Cnt(e), w.dev[DevName(w, e)].n) /\ Enough(e, w.dev[DevName(w, e)])
  THEN LET n == DevName(w, e) IN [w EXCEPT !.dev[n] = MaybeStored(e, w.dev[n])]
  ELSE IF Mapped(w, e) /\ Kind(e) = "reserve" /\ e.st = Good
  THEN LET n == DevName(w, e) IN [w EXCEPT !.dev[n].resv = e.s]
  ELSE w

CmdStep(e) ==
  IF e.flt # <<>> THEN
    \* a backend operation of this command failed
    LET o == FaultOutcomes(w, e) IN
    [w |-> o.w,
     bad |-> (IF e.st # Check THEN {"fault-hidden"} ELSE IF ~IsFaultSense(e.key) THEN {"fault-sense"}
                 ELSE IF ~FaultCodeOk({e.fop[k] : k \in 1..Len(e.fop)}, e.asc) THEN {"fault-code"} ELSE {})
             \union (IF e.st # Good /\ e.dinlen # 0 THEN {"leak"} ELSE {}) \union SenseFmtBad(e)]
  ELSE IF Settles(e) \/ ~Mapped(w, e) THEN
    LET os == Outcomes(w, e)
        ms == Matching(e, os)
        nw == IF ms = {} THEN Guess(e) ELSE (CHOOSE o \in ms : TRUE).w
        nn == IF e.st = Good /\ Kind(e) = "read" /\ Mapped(w, e) /\ RangeOk(Lba(e), Cnt(e), w.dev[DevName(w, e)].n)
              THEN [nw EXCEPT !.dev[DevName(w, e)] = IF @.small THEN Narrow(@, IntOf(Lba(e)) + 1, e.din) ELSE SpNarrow(e, @, e.din)] ELSE nw
    IN  [w |-> nn, bad |-> StatusBad(e, os) \union SenseFmtBad(e) \union GoodBad(e)]
  ELSE [w |-> w, bad |-> SenseFmtBad(e) \union (IF Kind(e) = "reportluns" THEN GoodBad(e) ELSE {})]

(* ---- dumps of the backing store ---- *)
Off(sets, toks) == Len(sets) > Len(toks) \/ \E k \in 1..Len(sets) : toks[k] \notin sets[k]

DumpStep(e) ==
  LET d == w.dev[e.dev] IN
  [w |-> [w EXCEPT !.dev[e.dev].cont = [k \in 1..Len(d.cont) |-> IF k <= Len(e.toks) THEN {e.toks[k]} ELSE d.cont[k]]],
   bad |-> IF Off(d.cont, e.toks) THEN {"stored"} ELSE {}]

(* a dump of a unit of any size: e.at lists the blocks that are not zero *)
SDumpStep(e) ==
  LET d == w.dev[e.dev]
      got == [k \in {e.at[j] : j \in 1..Len(e.at)} |-> {e.toks[CHOOSE j \in 1..Len(e.at) : e.at[j] = k]}]
  IN [w |-> [w EXCEPT !.dev[e.dev].sp = got],
      bad |-> IF (\E j \in 1..Len(e.at) : e.toks[j] \notin SpAt(d, e.at[j])) \/ (\E k \in DOMAIN d.sp \ DOMAIN got : 0 \notin d.sp[k])
              THEN {"stored"} ELSE {}]

(* what a crash right now would leave of a unit of any size *)
SDurStep(e) ==
  LET d == w.dev[e.dev]
      got == {e.at[j] : j \in 1..Len(e.at)}
  IN [w |-> w,
      bad |-> IF (\E j \in 1..Len(e.at) : e.toks[j] \notin SpdAt(d, e.at[j])) \/ (\E k \in DOMAIN d.spd \ got : 0 \notin d.spd[k])
              THEN {"durable"} ELSE {}]

DurStep(e) ==   \* what a crash right now would leave
  [w |-> w, bad |-> IF Off(w.dev[e.dev].dur, e.toks) THEN {"durable"} ELSE {}]

CrashStep(e) == \* the crash happened: the durable image is the medium now
  LET d == w.dev[e.dev] IN
  [w |-> [w EXCEPT !.dev[e.dev].cont = [k \in 1..Len(d.cont) |-> IF e.toks[k] \in d.dur[k] THEN {e.toks[k]} ELSE d.dur[k]],
                   !.dev[e.dev].dur = [k \in 1..Len(d.cont) |-> IF e.toks[k] \in d.dur[k] THEN {e.toks[k]} ELSE d.dur[k]]],
   bad |-> IF Off(d.dur, e.toks) THEN {"durable"} ELSE {}]

(* a crash in the middle of command e: every block holds what it could hold before or after; toks is what is left *)
CrashInStep(e) ==
  LET n == e.dev d == w.dev[n]
      a == IF Mapped(w, e) /\ DevName(w, e) = n /\ Causes(e, d) = {}
           THEN (CASE Kind(e) \in StoreKinds -> MaybeStored(e, d)
                   [] Kind(e) = "unmap" -> Unmapped(e, d)
                   [] OTHER -> d) ELSE d
      f == [k \in 1..Len(a.dur) |-> IF e.toks[k] \in a.dur[k] THEN {e.toks[k]} ELSE a.dur[k]]
  IN [w |-> [w EXCEPT !.dev[n].cont = f, !.dev[n].dur = f], bad |-> IF Off(a.dur, e.toks) THEN {"durable"} ELSE {}]

(* simultaneous sequences of commands, one of each session, that store nothing: some interleaving explains all the answers *)
RECURSIVE Weave(_, _, _)
RaceOuts(v, x) ==
  IF x.e = "gone" THEN {SessionGone(v, x.s)}
  ELSE {o.w : o \in {o \in Outcomes(v, x) : o.st = x.st /\ (o.st = Check => <<x.key, x.asc>> \in o.why)}}
Weave(F, qs, n) ==
  IF n = 0 THEN F
  ELSE Weave(UNION {UNION {{<<[f[1] EXCEPT ![k] = @ + 1], v>> : v \in RaceOuts(f[2], qs[k][f[1][k] + 1])}
                           : k \in {k \in DOMAIN qs : f[1][k] < Len(qs[k])}} : f \in F}, qs, n - 1)
RECURSIVE Total(_)
Total(qs) == IF qs = <<>> THEN 0 ELSE Len(Head(qs)) + Total(Tail(qs))
RaceStep(e) ==
  LET F == Weave({<<[k \in DOMAIN e.qs |-> 0], w>>}, e.qs, Total(e.qs)) IN
  IF F # {} THEN [w |-> (CHOOSE f \in F : TRUE)[2], bad |-> {}] ELSE [w |-> w, bad |-> {"race"}]

ResizeStep(e) ==
  LET Sized(d, n) ==
        LET old == Len(d.cont) new == IF IsSmall(n) THEN IntOf(n) ELSE old
            m == IF new > old THEN new ELSE old
            was == IF IsSmall(d.n) THEN IntOf(d.n) ELSE old
            f(s) == [k \in 1..m |-> IF k > old THEN {0} ELSE IF k > new \/ k > was THEN s[k] \union {0} ELSE s[k]]
        IN IF d.small THEN [d EXCEPT !.n = n, !.cont = f(d.cont), !.dur = f(d.dur)] ELSE [d EXCEPT !.n = n]
  IN [w |-> [w EXCEPT !.dev = [x \in DOMAIN w.dev |-> IF x \in DOMAIN e.n THEN Sized(w.dev[x], e.n[x]) ELSE w.dev[x]]], bad |-> {}]

Step(e) ==
  CASE e.e = "reset" -> [w |-> MkWorld(e), bad |-> {}]
    [] e.e = "cmd" -> CmdStep(e)
    [] e.e = "dump" -> DumpStep(e)
    [] e.e = "sdump" -> SDumpStep(e)
    [] e.e = "sdur" -> SDurStep(e)
    [] e.e = "dur" -> DurStep(e)
    [] e.e = "crash" -> CrashStep(e)
    [] e.e = "crashin" -> CrashInStep(e)
    [] e.e = "gone" -> [w |-> SessionGone(w, e.s), bad |-> {}]
    [] e.e = "race" -> RaceStep(e)
    [] e.e = "lureset" -> [w |-> [w EXCEPT !.dev[e.dev].resv = ""], bad |-> {}]
    [] e.e = "resize" -> ResizeStep(e)
    [] e.e = "attr" -> [w |-> [w EXCEPT !.dev[e.dev][e.attr] = e.v], bad |-> {}]
    [] e.e = "map" -> [w |-> [w EXCEPT !.map[e.tgt] = e.luns], bad |-> {}]
    [] e.e = "bad" -> [w |-> w, bad |-> {e.what}]
    [] OTHER -> [w |-> w, bad |-> {}]

Init == i = 1 /\ w = [dev |-> <<>>, map |-> <<>>] /\ seen = {} /\ out = <<>>

Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         r == Step(e)
         new == r.bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ w' = r.w
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union r.bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
