-------------------------------- MODULE Param -------------------------------
(* The parameter data a unit returns: what a request asks for, how long the   *)
(* complete data is by its own length fields, what is returned of it for an   *)
(* allocation length, and the form of the complete data.  Bytes are numbers,  *)
(* sequences start at 1: byte k of the standard is d[k + 1].                  *)
EXTENDS Big, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
U16(d, k) == d[k + 1] * 256 + d[k + 2]
Lim == 16777215
U32(d, k) == IF d[k + 1] > 0 THEN Lim ELSE d[k + 2] * 65536 + d[k + 3] * 256 + d[k + 4]    \* cut at Lim
Bit(b, v) == (b \div v) % 2 = 1

(* what a command block asks for: none of ours has class "" *)
Req(c) ==
  CASE c[1] = 18 -> [class |-> IF Bit(c[2], 1) THEN "vpd" ELSE "inq", alloc |-> U16(c, 3), page |-> c[3], sub |-> 0, pc |-> 0, dbd |-> FALSE]
    [] c[1] = 26 -> [class |-> "mode6", alloc |-> c[5], page |-> c[3] % 64, sub |-> c[4], pc |-> c[3] \div 64, dbd |-> Bit(c[2], 8)]
    [] c[1] = 90 -> [class |-> "mode10", alloc |-> U16(c, 7), page |-> c[3] % 64, sub |-> c[4], pc |-> c[3] \div 64, dbd |-> Bit(c[2], 8)]
    [] c[1] = 158 /\ c[2] % 32 = 16 -> [class |-> "cap", alloc |-> U32(c, 10), page |-> 0, sub |-> 0, pc |-> 0, dbd |-> FALSE]
    [] c[1] = 160 -> [class |-> "luns", alloc |-> U32(c, 6), page |-> 0, sub |-> 0, pc |-> 0, dbd |-> FALSE]
    [] c[1] = 163 /\ c[2] % 32 = 12 -> [class |-> "ops", alloc |-> U32(c, 6), page |-> c[3] % 8, sub |-> 0, pc |-> 0, dbd |-> Bit(c[3], 128)]
    [] c[1] = 94 /\ c[2] % 32 = 2 -> [class |-> "prcap", alloc |-> U16(c, 7), page |-> 0, sub |-> 0, pc |-> 0, dbd |-> FALSE]
    [] OTHER -> [class |-> "", alloc |-> 0, page |-> 0, sub |-> 0, pc |-> 0, dbd |-> FALSE]

(* bytes needed to know the length of the complete data, and that length *)
HeadLen(class) == CASE class = "inq" -> 5 [] class = "vpd" -> 4 [] class = "mode6" -> 1 [] class = "mode10" -> 2 [] class = "cap" -> 0
                 [] class = "luns" -> 4 [] class = "ops" -> 4 [] class = "prcap" -> 2
FullOf(class, d) ==
  CASE class = "inq" -> 5 + d[5] [] class = "vpd" -> 4 + U16(d, 2) [] class = "mode6" -> 1 + d[1] [] class = "mode10" -> 2 + U16(d, 0)
    [] class = "cap" -> 32 [] class = "luns" -> 8 + U32(d, 0) [] class = "ops" -> 4 + U32(d, 0) [] class = "prcap" -> U16(d, 0)
(* how much is returned *)
Returned(full, alloc, edtl) == Min(full, Min(alloc, edtl))
LenRight(class, d, alloc, edtl) ==
  IF Len(d) >= HeadLen(class) THEN Len(d) = Returned(FullOf(class, d), alloc, edtl) ELSE Len(d) = Min(alloc, edtl)
IsComplete(class, d) == Len(d) >= HeadLen(class) /\ Len(d) = FullOf(class, d)
Agree(a, b) == LET n == Min(Len(a), Len(b)) IN SubSeq(a, 1, n) = SubSeq(b, 1, n)

(* ---- the form of complete data --------------------------------------------*)
Printable(d, from, to) == \A k \in from..to : d[k + 1] \in 32..126
Room(d, k, n) == k + n <= Len(d)
DesigLen(d, k) == IF Room(d, k, 4) THEN 4 + d[k + 4] ELSE -1
PageLen(d, k) == IF ~Room(d, k, 2) THEN -1 ELSE IF Bit(d[k + 1], 64) THEN (IF Room(d, k, 4) THEN 4 + U16(d, k + 2) ELSE -1) ELSE 2 + d[k + 2]
PageId(d, k) == <<d[k + 1] % 64, IF Bit(d[k + 1], 64) THEN d[k + 2] ELSE 0>>
OpLen(d, k) == IF ~Room(d, k, 8) THEN -1 ELSE IF Bit(d[k + 6], 2) THEN 20 ELSE 8
CdbLen(op) == CASE op < 32 -> 6 [] op \in 32..95 -> 10 [] op \in 160..191 -> 12 [] op \in 128..159 -> 16 [] OTHER -> 0
(* a run of elements, each giving its own length, fills d from byte k on exactly: their offsets; -1 among them when it does not *)
ElemLen(kind, d, k) == CASE kind = "desig" -> DesigLen(d, k) [] kind = "page" -> PageLen(d, k) [] kind = "op" -> OpLen(d, k)
RECURSIVE TileFrom(_, _, _)
TileFrom(kind, d, k) ==
  IF k = Len(d) THEN {} ELSE IF k > Len(d) THEN {-1}
  ELSE LET l == ElemLen(kind, d, k) IN IF l <= 0 THEN {-1} ELSE {k} \union TileFrom(kind, d, k + l)
Fits(offs) == -1 \notin offs
ModeHead(class) == IF class = "mode6" THEN 4 ELSE 8
ModeDesc(class, d) == IF class = "mode6" THEN d[4] ELSE U16(d, 6)
ModePages(class, d) == TileFrom("page", d, ModeHead(class) + ModeDesc(class, d))
ModeIds(class, d) == {PageId(d, k) : k \in ModePages(class, d)}
ModeBody(class, d) == SubSeq(d, ModeHead(class) + ModeDesc(class, d) + 1, Len(d))
PageAt(d, k) == SubSeq(d, k + 1, k + PageLen(d, k))
VpdList(d) == {d[k] : k \in 5..Len(d)}
Ops(d) == {d[k + 1] : k \in TileFrom("op", d, 4)}

(* complete data d for request q of a unit of dev *)
WellFormed(q, d, dev) ==
  LET periph == IF dev.online THEN 0 ELSE 32 IN
  CASE q.class = "inq" -> /\ Len(d) >= 36 /\ d[1] = periph /\ d[4] % 16 = 2 /\ Printable(d, 8, 35)
    [] q.class = "vpd" ->
         /\ d[1] = periph /\ d[2] = q.page
         /\ q.page = 0 => (Len(d) > 4 /\ d[5] = 0 /\ \A k \in 5..(Len(d) - 1) : d[k] < d[k + 1])
         /\ q.page = 128 => Printable(d, 4, Len(d) - 1)
         /\ q.page = 131 => LET o == TileFrom("desig", d, 4) IN o # {} /\ Fits(o)
         /\ q.page = 176 => Len(d) = 64 /\ (U32(d, 20) > 0 <=> dev.thin) /\ (U32(d, 24) > 0 <=> dev.thin)
         /\ q.page = 178 => Len(d) >= 8 /\ (Bit(d[6], 128) <=> dev.thin)
    [] q.class \in {"mode6", "mode10"} ->
         /\ Len(d) >= ModeHead(q.class)
         /\ Bit(d[IF q.class = "mode6" THEN 3 ELSE 4], 128) <=> dev.ro \/ dev.swp
         /\ ModeDesc(q.class, d) = IF q.dbd THEN 0 ELSE 8
         /\ Len(d) >= ModeHead(q.class) + ModeDesc(q.class, d)
         /\ ~q.dbd => LET b == ModeHead(q.class) IN
              /\ SubSeq(d, b + 1, b + 4) = (IF dev.n[1] = 0 /\ dev.n[2] = 0 THEN BytesOf(dev.n, 4) ELSE <<255, 255, 255, 255>>)
              /\ d[b + 6] * 65536 + d[b + 7] * 256 + d[b + 8] = dev.bs
         /\ Fits(ModePages(q.class, d))
         /\ Cardinality(ModeIds(q.class, d)) = Cardinality(ModePages(q.class, d))
         /\ IF q.page = 63 THEN ModePages(q.class, d) # {} ELSE ModeIds(q.class, d) = {<<q.page, q.sub>>}
    [] q.class = "cap" -> SubSeq(d, 1, 8) = BytesOf(BigPred(dev.n), 8) /\ U32(d, 8) = dev.bs /\ (Bit(d[15], 128) <=> dev.thin)
    [] q.class = "luns" -> (Len(d) - 8) % 8 = 0 /\ \A a, b \in {k \in 8..(Len(d) - 8) : k % 8 = 0} :
                              a # b => SubSeq(d, a + 1, a + 8) # SubSeq(d, b + 1, b + 8)
    [] q.class = "ops" -> LET o == TileFrom("op", d, 4) IN
         /\ o # {} /\ Fits(o)
         /\ \A k \in o : U16(d, k + 6) = CdbLen(d[k + 1]) /\ (Bit(d[k + 6], 2) <=> q.dbd) /\ (q.dbd => U16(d, k + 8) = 10)
    [] q.class = "prcap" -> Len(d) = 8 /\ Bit(d[4], 128)

(* refusals: the cause a request must be refused for, <<>> when it must be served, <<-1, -1>> when the choice is the unit's *)
Field == <<5, 9216>>      \* INVALID FIELD IN CDB
Saving == <<5, 14592>>    \* SAVING PARAMETERS NOT SUPPORTED
Free == <<-1, -1>>
Refusal(q, vpd, pages) ==     \* vpd, pages: what the unit lists, {} when not known yet
  CASE q.class = "inq" -> IF q.page # 0 THEN Field ELSE <<>>
    [] q.class = "vpd" -> IF q.page = 0 THEN <<>> ELSE IF vpd = {} THEN Free ELSE IF q.page \in vpd THEN <<>> ELSE Field
    [] q.class \in {"mode6", "mode10"} ->
         IF q.pc = 3 THEN Saving ELSE IF q.page = 63 THEN <<>> ELSE IF pages = {} THEN Free
         ELSE IF <<q.page, q.sub>> \in pages THEN <<>> ELSE Field
    [] q.class = "luns" -> IF q.alloc < 16 THEN Field ELSE <<>>
    [] q.class = "ops" -> IF q.page = 0 THEN <<>> ELSE Free
    [] q.class = "prcap" -> IF q.alloc < 8 THEN Free ELSE <<>>
    [] OTHER -> <<>>
=============================================================================
