-------------------------------- MODULE Sbc --------------------------------
(* Block command set: what a target does with one SCSI command.              *)
(*                                                                           *)
(* A world is a record                                                       *)
(*   dev : device name -> [ n (limbs), bs, small, ro, swp, online, removable,*)
(*                          thin, resv ("" or the session holding it),       *)
(*                          cont : Seq(SUBSET Token)   volatile contents,    *)
(*                          dur  : Seq(SUBSET Token)   contents after a crash*)
(*                          sp   : contents of a unit that is not small, as  *)
(*                                 a function of the addresses written       *)
(*                          spd  : the same after a crash                    *)
(*                        ]                                                  *)
(*   map : target -> (LUN text -> device name)                               *)
(* A block holds one token; a set of tokens means the specification leaves   *)
(* open which of them it is (after a failed write, after UNMAP, or - for     *)
(* dur - because data not yet flushed may or may not have reached the        *)
(* medium).                                                                  *)
(*                                                                           *)
(* A command is a record [s, tgt, lun, cdb, edtl, dir, dout, pbytes] : the   *)
(* session, its target, the LUN text ("5", or "x.." for another addressing   *)
(* form), the CDB bytes, expected transfer length, direction ("r" read, "w"  *)
(* write, "n" none, "b" both), the tokens of the data sent and - for UNMAP - *)
(* its bytes.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, Big

Good == 0
Check == 2
Conflict == 24

(* sense: key and additional code *)
NotPresent == <<2, 14848>>          \* NOT READY, medium not present
BecomingReady == <<2, 1025>>
BadOp == <<5, 8192>>
BadField == <<5, 9216>>
BadLun == <<5, 9472>>
BadRange == <<5, 8448>>
BadParamLen == <<5, 6656>>
BadParamField == <<5, 9728>>
BadSaving == <<5, 14592>>
Protected == <<7, 9984>>
Miscompare == <<14, 7424>>

Op(c) == c.cdb[1]
B1(c) == c.cdb[2]
Bit(b, m) == (b \div m) % 2 = 1

Kind(c) ==
  LET o == Op(c) IN
  CASE o \in {8, 40, 168, 136} -> "read"
    [] o \in {10, 42, 170, 138} -> "write"
    [] o \in {46, 174, 142} -> "wverify"
    [] o \in {47, 175, 143} -> "verify"
    [] o \in {65, 147} -> "wsame"
    [] o = 139 -> "orwrite"
    [] o \in {53, 145} -> "sync"
    [] o \in {52, 144} -> "prefetch"
    [] o = 66 -> "unmap"
    [] o = 0 -> "tur"
    [] o = 3 -> "reqsense"
    [] o = 4 -> "format"
    [] o = 18 -> "inquiry"
    [] o \in {21, 85} -> "modeselect"
    [] o = 22 -> "reserve"
    [] o = 23 -> "release"
    [] o \in {26, 90} -> "modesense"
    [] o = 27 -> "startstop"
    [] o = 29 -> "senddiag"
    [] o = 30 -> "prevent"
    [] o = 37 -> "readcap10"
    [] o = 158 -> "sain"
    [] o = 160 -> "reportluns"
    [] o = 163 -> "mpin"
    [] o = 94 -> "prin"
    [] o = 95 -> "prout"
    [] OTHER -> "none"

BlockKinds == {"read", "write", "wverify", "verify", "wsame", "orwrite", "sync", "prefetch"}
StoreKinds == {"write", "wverify", "wsame", "orwrite"}
MediumKinds == BlockKinds \union {"unmap", "format", "startstop"}

Size(c) == LET o == Op(c) IN IF o < 32 THEN 6 ELSE IF o < 128 THEN 10 ELSE IF o \in 160..191 THEN 12 ELSE 16

Lba(c) == CASE Size(c) = 6 -> BigOf((c.cdb[2] % 32) * 65536 + c.cdb[3] * 256 + c.cdb[4])
            [] Size(c) \in {10, 12} -> BigOfBytes(SubSeq(c.cdb, 3, 6))
            [] OTHER -> BigOfBytes(SubSeq(c.cdb, 3, 10))
Cnt(c) == CASE Size(c) = 6 -> BigOf(IF c.cdb[5] = 0 THEN 256 ELSE c.cdb[5])
            [] Size(c) = 10 -> BigOfBytes(SubSeq(c.cdb, 8, 9))
            [] Size(c) = 12 -> BigOfBytes(SubSeq(c.cdb, 7, 10))
            [] OTHER -> BigOfBytes(SubSeq(c.cdb, 11, 14))

RangeOk(lba, cnt, n) ==
  IF cnt = Big0 THEN BigLess(lba, n)
  ELSE LET e == BigAdd(lba, cnt) IN e[5] = 0 /\ BigLeq(SubSeq(e, 1, 4), n)

(* the blocks the CDB addresses, 1-based, as <<first, number>>; the range is in the unit *)
Blocks(c, d) ==
  LET l == IntOf(Lba(c)) n == IntOf(Cnt(c)) IN
  IF n = 0 /\ Kind(c) \in {"wsame", "sync"} THEN <<l + 1, IntOf(d.n) - l>> ELSE <<l + 1, n>>

(* ---- UNMAP parameter list ---- *)
UnmapListLen(c) == c.cdb[8] * 256 + c.cdb[9]
UnmapDescs(c) ==
  LET p == c.pbytes
      e1 == 8 + p[3] * 256 + p[4]
      e2 == IF e1 < UnmapListLen(c) THEN e1 ELSE UnmapListLen(c)
      e3 == IF e2 < Len(p) THEN e2 ELSE Len(p)
      k == IF e3 < 8 THEN 0 ELSE (e3 - 8) \div 16
  IN  [i \in 1..k |-> LET o == 8 + 16 * (i - 1) IN
         <<BigOfBytes(SubSeq(p, o + 1, o + 8)), BigOfBytes(SubSeq(p, o + 9, o + 12))>>]

UnmapRangeOk(x, n) == LET e == BigAdd(x[1], x[2]) IN e[5] = 0 /\ BigLeq(SubSeq(e, 1, 4), n)

(* as many blocks as the recorded histories move in one command; more are never offered to the target in full *)
Countable(n) == IsSmall(n) /\ IntOf(n) <= 200000

(* does the announced transfer bring all the data the command needs? *)
Enough(c, d) ==
  LET nd == CASE Kind(c) = "wsame" -> BigOf(1)
              [] Kind(c) = "verify" /\ ~Bit(B1(c), 2) -> Big0
              [] OTHER -> Cnt(c)
  IN  Countable(nd) /\ c.edtl >= IntOf(nd) * d.bs

(* ---- why a command may be refused: set of sense pairs ---- *)
WriteProt(d) == d.ro \/ d.swp

Causes(c, d) ==
  LET k == Kind(c) b == B1(c)
      offl == IF d.removable /\ ~d.online THEN {NotPresent} ELSE {}
      prot == IF WriteProt(d) THEN {Protected} ELSE {}
      rng == IF k \in BlockKinds /\ ~RangeOk(Lba(c), Cnt(c), d.n) THEN {BadRange} ELSE {}
      bidi == IF c.dir = "b" \/ (k \in {"write", "wverify"} /\ c.dir = "r") THEN {BadField} ELSE {}
      bits == CASE k \in {"read", "write"} /\ Size(c) = 6 -> {}
                [] k \in {"read", "write", "wverify", "orwrite", "verify"} ->
                     IF b >= 32 THEN {BadField} ELSE {}
                [] k = "wsame" ->
                     IF b >= 32 \/ Bit(b, 16) \/ b % 8 # 0 \/ (Bit(b, 8) /\ ~d.thin) THEN {BadField} ELSE {}
                [] OTHER -> {}
      short == IF k \in {"write", "wverify", "orwrite", "wsame", "verify"} /\ rng = {} /\ ~Enough(c, d)
               THEN {BadField} \union (IF k = "verify" THEN {Miscompare} ELSE {}) ELSE {}
  IN bidi \union
     CASE k \in {"read", "prefetch", "sync"} -> offl \union bits \union rng
       [] k = "verify" -> offl \union bits \union rng \union short
       [] k \in StoreKinds -> offl \union bits \union rng \union prot \union short
       [] k = "unmap" ->
            (IF b % 2 = 1 THEN {BadField} ELSE {}) \union offl \union prot \union
            (IF UnmapListLen(c) = 0 THEN {}
             ELSE IF UnmapListLen(c) < 8 \/ Len(c.pbytes) < 8 THEN {BadParamLen}
             ELSE IF \E i \in 1..Len(UnmapDescs(c)) : ~UnmapRangeOk(UnmapDescs(c)[i], d.n) THEN {BadRange} ELSE {})
       [] k = "format" ->
            (IF ~d.online THEN {NotPresent} ELSE {}) \union prot \union
            (IF b >= 128 \/ Bit(b, 16) \/ b % 8 # 0 THEN {BadField} ELSE {})
       [] k = "tur" -> IF d.online THEN {} ELSE IF d.removable THEN {NotPresent} ELSE {BecomingReady}
       [] k = "readcap10" ->
            offl \union (IF c.cdb[9] % 2 = 0 /\ \E i \in 3..6 : c.cdb[i] # 0 THEN {BadField} ELSE {})
       [] k = "sain" ->
            CASE b % 32 = 16 -> {}
              [] b % 32 = 18 -> offl \union (IF BigLess(Lba(c), d.n) THEN {} ELSE {BadRange})
              [] b % 32 = 37 -> {}
              [] OTHER -> {BadField}
       [] k = "senddiag" -> IF Bit(b, 4) THEN {} ELSE {BadField}
       [] k = "none" -> {BadOp}
       [] OTHER -> {}

(* kinds whose acceptance this module settles; the others (parameter data,   *)
(* persistent reservations) are specified in Param and Pr                    *)
Settled == BlockKinds \union {"unmap", "format", "tur", "readcap10", "senddiag", "none", "reserve", "release",
                              "startstop", "reqsense", "prevent", "modeselect"}
Settles(c) == Kind(c) \in Settled \/ (Kind(c) = "sain" /\ B1(c) % 32 # 37)

(* ---- effect of a command that is executed ---- *)
InBlk(i, b) == b[1] <= i /\ i < b[1] + b[2]

OrSet(S, t) == {x | t : x \in S}

Fua(c) == Size(c) # 6 /\ Bit(B1(c), 8) /\ Kind(c) \in {"write", "wverify", "orwrite"}

(* ---- units of any size: only the blocks written are kept, the others are zero ---- *)
AddTo(l, j) == SubSeq(BigAdd(l, BigOf(j)), 1, 4)
SpAt(d, k) == IF k \in DOMAIN d.sp THEN d.sp[k] ELSE {0}
SpdAt(d, k) == IF k \in DOMAIN d.spd THEN d.spd[k] ELSE {0}
Modest(c) == IsSmall(Cnt(c)) /\ IntOf(Cnt(c)) <= 4096 /\ (Kind(c) = "wsame" => Cnt(c) # Big0)
TokenAt(c, j) == IF Kind(c) = "wsame" THEN c.dout[1] ELSE c.dout[j + 1]
SpStored(c, d) ==
  LET n == IntOf(Cnt(c))
      l == Lba(c)
      keys == {AddTo(l, j) : j \in 0..(n - 1)}
      new(k) == LET j == CHOOSE j \in 0..(n - 1) : AddTo(l, j) = k IN
                CASE Kind(c) = "orwrite" -> OrSet(SpAt(d, k), TokenAt(c, j))
                  [] Kind(c) = "wsame" /\ Bit(B1(c), 8) -> {TokenAt(c, j), 0}
                  [] OTHER -> {TokenAt(c, j)}
  IN IF ~Modest(c) THEN d
     ELSE [d EXCEPT !.sp = [k \in DOMAIN d.sp \union keys |-> IF k \in keys THEN new(k) ELSE d.sp[k]],
                    !.spd = [k \in DOMAIN d.spd \union keys |->
                               IF k \notin keys THEN d.spd[k] ELSE IF Fua(c) THEN new(k) ELSE SpdAt(d, k) \union new(k)]]
(* a range may be larger than anything that can be counted here; 0 blocks are all that follow *)
SpSynced(c, d) ==
  LET in(k) == ~BigLess(k, Lba(c)) /\ (Cnt(c) = Big0 \/ BigLess(k, BigAdd(Lba(c), Cnt(c)))) IN
  [d EXCEPT !.spd = [k \in DOMAIN d.spd |-> IF in(k) THEN SpAt(d, k) ELSE d.spd[k]]]

(* what the j-th block (from 0) of the range of c may hold *)
Cell(c, d, j) == IF d.small THEN d.cont[IntOf(Lba(c)) + 1 + j] ELSE SpAt(d, AddTo(Lba(c), j))

(* contents after storing completely *)
NewCont(c, d) ==
  LET b == Blocks(c, d)
      same == Kind(c) = "wsame"
      orw == Kind(c) = "orwrite"
      um == same /\ Bit(B1(c), 8)
      tok(i) == IF same THEN c.dout[1] ELSE c.dout[i - b[1] + 1] IN
  [i \in 1..Len(d.cont) |->
     IF i < b[1] \/ i >= b[1] + b[2] THEN d.cont[i]
     ELSE IF orw THEN OrSet(d.cont[i], tok(i))
     ELSE IF um THEN {tok(i), 0}
     ELSE {tok(i)}]

Stored(c, d) ==
  LET b == Blocks(c, d) nc == NewCont(c, d) fua == Fua(c) IN
  [d EXCEPT !.cont = nc,
            !.dur = [i \in 1..Len(d.cont) |->
                       IF ~InBlk(i, b) THEN d.dur[i]
                       ELSE IF fua THEN nc[i] ELSE d.dur[i] \union nc[i]]]

Synced(c, d) ==
  LET b == Blocks(c, d) IN
  [d EXCEPT !.dur = [i \in 1..Len(d.cont) |-> IF InBlk(i, b) THEN d.cont[i] ELSE d.dur[i]]]

Unmapped(c, d) ==
  LET ds == IF UnmapListLen(c) = 0 THEN <<>> ELSE UnmapDescs(c)
      hit == UNION {LET l == IntOf(ds[j][1]) n == IntOf(ds[j][2]) IN (l + 1)..(l + n) : j \in 1..Len(ds)}
  IN [d EXCEPT !.cont = [i \in 1..Len(d.cont) |-> IF i \in hit THEN d.cont[i] \union {0} ELSE d.cont[i]],
               !.dur = [i \in 1..Len(d.cont) |-> IF i \in hit THEN d.dur[i] \union {0} ELSE d.dur[i]]]
SpUnmapped(c, d) ==
  LET ds == IF UnmapListLen(c) = 0 THEN <<>> ELSE UnmapDescs(c)
      hit(k) == \E j \in 1..Len(ds) : ~BigLess(k, ds[j][1]) /\ BigLess(k, BigAdd(ds[j][1], ds[j][2]))
  IN [d EXCEPT !.sp = [k \in DOMAIN d.sp |-> IF hit(k) THEN d.sp[k] \union {0} ELSE d.sp[k]],
               !.spd = [k \in DOMAIN d.spd |-> IF hit(k) THEN d.spd[k] \union {0} ELSE d.spd[k]]]

(* what a failed storing command may leave: every block it addresses holds its old or its new data *)
MaybeStored(c, d) ==
  LET b == Blocks(c, d) nc == NewCont(c, d) IN
  [d EXCEPT !.cont = [i \in 1..Len(d.cont) |-> IF InBlk(i, b) THEN d.cont[i] \union nc[i] ELSE d.cont[i]],
            !.dur = [i \in 1..Len(d.cont) |-> IF InBlk(i, b) THEN d.dur[i] \union nc[i] ELSE d.dur[i]]]

StartStop(c, d) ==
  IF c.cdb[5] < 16 /\ Bit(c.cdb[5], 2) /\ d.removable THEN [d EXCEPT !.online = (c.cdb[5] % 2 = 1)] ELSE d

(* a command answered GOOD leaves the device like this *)
After(c, d) ==
  CASE Kind(c) \in StoreKinds -> IF d.small THEN Stored(c, d) ELSE SpStored(c, d)
    [] Kind(c) = "sync" -> IF d.small THEN Synced(c, d) ELSE SpSynced(c, d)
    [] Kind(c) = "unmap" -> IF d.small THEN Unmapped(c, d) ELSE SpUnmapped(c, d)
    [] Kind(c) = "startstop" -> StartStop(c, d)
    [] Kind(c) = "reserve" -> [d EXCEPT !.resv = c.s]
    [] Kind(c) = "release" -> IF d.resv = c.s THEN [d EXCEPT !.resv = ""] ELSE d
    [] OTHER -> d

(* can VERIFY / WRITE AND VERIFY find the blocks equal, or different? *)
Compared(c) == (Kind(c) = "verify" /\ Bit(B1(c), 2))
CellsOf(c, d) ==   \* what the blocks of the range of c may hold
  LET n == IntOf(Cnt(c)) l == IntOf(Lba(c)) IN
  IF d.small THEN SubSeq(d.cont, l + 1, l + n) ELSE [i \in 1..n |-> SpAt(d, AddTo(Lba(c), i - 1))]
MayMatch(c, d) == LET x == CellsOf(c, d) IN \A j \in 1..Len(x) : c.dout[j] \in x[j]
MayDiffer(c, d) == LET x == CellsOf(c, d) IN \E j \in 1..Len(x) : x[j] # {c.dout[j]}

(* ---- addressing ---- *)
Mapped(w, c) == c.lun \in DOMAIN w.map[c.tgt]
DevName(w, c) == w.map[c.tgt][c.lun]

Exempt == {"inquiry", "reqsense", "reportluns", "release"}
ForeignResv(c, d) == d.resv # "" /\ d.resv # c.s /\ Kind(c) \notin Exempt

(* the session ended: its reservations end with it *)
SessionGone(w, s) ==
  [w EXCEPT !.dev = [x \in DOMAIN w.dev |-> IF w.dev[x].resv = s THEN [w.dev[x] EXCEPT !.resv = ""] ELSE w.dev[x]]]

(* outcomes the specification allows for command c in world w without        *)
(* backend faults: set of [st, why (sense pairs), w]                         *)
Outcomes(w, c) ==
  IF ~Mapped(w, c) THEN
       (IF c.lun = "0" /\ Kind(c) \in {"inquiry", "reqsense", "reportluns"}
        THEN {[st |-> Good, why |-> {}, w |-> w]} ELSE {})
       \union (IF c.lun = "0" /\ Kind(c) \in {"inquiry", "reqsense", "reportluns"} THEN {}
               ELSE {[st |-> Check, why |-> {BadLun} \union (IF Kind(c) = "none" THEN {BadOp} ELSE {})
                                            \union (IF c.dir = "b" THEN {BadField} ELSE {}), w |-> w]})
  ELSE
  LET n == DevName(w, c) d == w.dev[n]
      why == Causes(c, d)
      put(x) == [w EXCEPT !.dev[n] = x]
      refuse == IF why = {} THEN {} ELSE {[st |-> Check, why |-> why, w |-> w]}
      accept == IF why # {} THEN {}
                ELSE IF Compared(c) /\ (Modest(c) \/ (d.small /\ Countable(Cnt(c)))) THEN
                   (IF MayMatch(c, d) THEN {[st |-> Good, why |-> {}, w |-> w]} ELSE {})
                   \union (IF MayDiffer(c, d) THEN {[st |-> Check, why |-> {Miscompare}, w |-> w]} ELSE {})
                ELSE {[st |-> Good, why |-> {}, w |-> put(After(c, d))]}
      conflict == {[st |-> Conflict, why |-> {}, w |-> w]}
  IN IF ~ForeignResv(c, d) THEN refuse \union accept
     ELSE IF Kind(c) \in MediumKinds \union {"reserve"} THEN conflict \union refuse
     ELSE conflict \union refuse \union accept

(* ---- backend failures ---- *)
(* outcomes when a backend operation of the command failed *)
FaultOutcomes(w, c) ==
  LET n == DevName(w, c) d == w.dev[n]
      put(x) == [w EXCEPT !.dev[n] = x]
      next == CASE Kind(c) \in StoreKinds -> put(MaybeStored(c, d))
                [] Kind(c) = "unmap" -> put(Unmapped(c, d))
                [] Kind(c) = "sync" -> LET x == Synced(c, d) IN
                     put([d EXCEPT !.dur = [i \in 1..Len(d.dur) |-> d.dur[i] \union x.dur[i]]])
                [] OTHER -> w
  IN  [st |-> Check, w |-> next]
IsFaultSense(key) == key \in {3, 4}
(* a failed write is not called a read error and the other way round: ops are the backend operations that failed *)
ReadErrors == {4352}       \* 11h 00h unrecovered read error
WriteErrors == {3072}      \* 0Ch 00h write error
FaultCodeOk(ops, asc) == /\ ops = {"write"} => asc \notin ReadErrors
                         /\ ops = {"read"} => asc \notin WriteErrors

(* ---- data-in of a reading command answered GOOD ---- *)
MinI(a, b) == IF a < b THEN a ELSE b
ReadAvail(c, d) == IntOf(Cnt(c)) * d.bs
ReadData(c, d) == CellsOf(c, d)

(* the medium does not change between two reads: what was seen stays *)
SpNarrow(c, d, toks) ==
  LET m == {j \in 0..(Len(toks) - 1) : Cardinality(Cell(c, d, j)) > 1 /\ toks[j + 1] \in Cell(c, d, j)}
      keys == {AddTo(Lba(c), j) : j \in m}
  IN IF m = {} THEN d
     ELSE [d EXCEPT !.sp = [k \in DOMAIN d.sp |-> IF k \in keys THEN {toks[1 + CHOOSE j \in m : AddTo(Lba(c), j) = k]} ELSE d.sp[k]]]
Narrow(d, first, toks) ==
  [d EXCEPT !.cont = [i \in 1..Len(d.cont) |->
     IF first <= i /\ i < first + Len(toks) /\ toks[i - first + 1] \in d.cont[i] THEN {toks[i - first + 1]} ELSE d.cont[i]]]
=============================================================================
