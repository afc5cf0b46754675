----------------------------- MODULE SessionMC -----------------------------
(* One connection of Session with an initiator that numbers, duplicates,    *)
(* reorders, aborts and logs out as it likes.  The target's answers are sent *)
(* in order; the length of every R2T is the target's choice.                 *)
EXTENDS Session

CONSTANTS Sends,         \* how many PDUs the initiator sends
          Letters,       \* which kinds of PDU
          Offsets,       \* numbers used, relative to the next one, plus 2
          Win            \* size of the window

VARIABLES cn, w, n,      \* connection, medium, PDUs sent
          log,           \* what was sent: itt -> [kind, sn, imm, open: was it taken or held]
          ran,           \* tags in order of execution
          ans,           \* itt -> number of terminating answers
          dead,          \* tags aborted or discarded by logout
          got,           \* bytes requested and delivered per write: itt -> Seq(<<off, len>>)
          act

T0 == "t0"
Dev(k) == [n |-> BigOf(k), bs |-> 512, small |-> TRUE, ro |-> FALSE, swp |-> FALSE, online |-> TRUE, removable |-> FALSE, thin |-> FALSE,
           resv |-> "", cont |-> [i \in 1..k |-> {0}], dur |-> [i \in 1..k |-> {0}]]
Itt(k) == ToString(k)
Zeros(k) == [i \in 1..k |-> 0]
Hd(itt, t, imm, sn) == [t |-> t, itt |-> itt, imm |-> imm, sn |-> sn, hdr |-> itt]
CmdP(itt, imm, sn, cdb, dir, edtl, dout, immlen) ==
  Hd(itt, "cmd", imm, sn) @@ [s |-> "", tgt |-> "", lun |-> "0", cdb |-> cdb, edtl |-> edtl, dir |-> dir, dout |-> dout, pbytes |-> <<>>, immlen |-> immlen]

Pdu(l, itt, imm, sn, ref) ==
  CASE l = "write" -> CmdP(itt, imm, sn, <<42, 0, 0, 0, 0, 0, 0, 0, 2, 0>> \o Zeros(6), "w", 1024, <<n + 1, n + 1>>, 0)
    [] l = "write1" -> CmdP(itt, imm, sn, <<42, 0, 0, 0, 0, 1, 0, 0, 1, 0>> \o Zeros(6), "w", 512, <<n + 1>>, 512)
    [] l = "read" -> CmdP(itt, imm, sn, <<40, 0, 0, 0, 0, 0, 0, 0, 2, 0>> \o Zeros(6), "r", 1024, <<>>, 0)
    [] l = "nop" -> Hd(itt, "nop", imm, sn) @@ [data |-> itt]
    [] l = "nop0" -> Hd(NoTag, "nop", imm, sn) @@ [data |-> ""]
    [] l = "abort" -> Hd(itt, "tmf", imm, sn) @@ [func |-> 1, ref |-> ref, lun |-> "0"]
    [] l = "abortset" -> Hd(itt, "tmf", imm, sn) @@ [func |-> 2, ref |-> NoTag, lun |-> "0"]
    [] l = "abortother" -> Hd(itt, "tmf", imm, sn) @@ [func |-> 2, ref |-> NoTag, lun |-> "1"]
    [] l = "reset" -> Hd(itt, "tmf", imm, sn) @@ [func |-> 5, ref |-> NoTag, lun |-> "0"]
    [] l = "other" -> Hd(itt, "other", imm, sn)
    [] OTHER -> Hd(itt, "logout", imm, sn)

Init ==
  /\ cn = Fresh("s", T0, FALSE, TRUE, 512, 512, Win, 0)
  /\ w = [dev |-> [a |-> Dev(2), b |-> Dev(1)], map |-> [t \in {T0} |-> [l \in {"0", "1"} |-> IF l = "0" THEN "a" ELSE "b"]]]
  /\ n = 0 /\ log = Empty /\ ran = <<>> /\ ans = Empty /\ dead = {} /\ got = Empty /\ act = "start"

Window(sn) == sn >= cn.exp /\ sn <= cn.exp + cn.win

Give(p) ==
  LET st == React([cn |-> cn, w |-> w, ran |-> <<>>, gone |-> dead], p)
  IN cn' = st.cn /\ w' = st.w /\ ran' = ran \o st.ran /\ dead' = st.gone

Send ==
  /\ n < Sends /\ cn.items = <<>>
  /\ \E l \in Letters, imm \in {TRUE, FALSE}, sn \in {cn.exp + d - 2 : d \in Offsets}, ref \in {Itt(k) : k \in 1..n} \union {"x"} :
       /\ l # "abort" => ref = "x"
       /\ imm => sn = cn.exp
       /\ LET itt == Itt(n + 1) p == Pdu(l, itt, imm, sn, ref) IN
          /\ Give(p)
          /\ log' = With(log, itt, [l |-> l, sn |-> sn, imm |-> imm, was |-> cn.phase,
                                    taken |-> cn.phase = "ffp" /\ (imm \/ l = "other" \/ (Window(sn) /\ sn \notin DOMAIN cn.held))])
          /\ act' = [k |-> "send", imm |-> imm, sn |-> sn, l |-> l]
  /\ n' = n + 1 /\ UNCHANGED <<ans, got>>

(* the initiator delivers what the outstanding R2T asked for: all of it, or half *)
Deliver ==
  /\ cn.items = <<>>
  /\ \E itt \in DOMAIN cn.pend, len \in {256, 512, 1024} :
       LET x == cn.pend[itt] IN
       /\ x.off < x.asked /\ x.off + len <= x.asked
       /\ Give([t |-> "dataout", itt |-> itt, imm |-> FALSE, sn |-> 0, off |-> x.off, len |-> len, final |-> x.off + len = x.asked, hdr |-> ""])
       /\ got' = With(got, itt, Append(IF itt \in DOMAIN got THEN got[itt] ELSE <<>>, <<x.off, len>>))
  /\ act' = [k |-> "data"] /\ UNCHANGED <<n, log, ans>>

(* the target sends the next thing it owes *)
Emit ==
  /\ cn.items # <<>>
  /\ LET it == Head(cn.items) IN
     IF it.k = "r2t"
     THEN \E len \in {512, 1024} :
            /\ R2tBad(cn, it, [off |-> it.off, sn |-> it.sn, len |-> len]) = {}
            /\ cn' = [cn EXCEPT !.items = Tail(@), !.pend = IF it.itt \in DOMAIN @ THEN [@ EXCEPT ![it.itt].asked = it.off + len] ELSE @]
            /\ UNCHANGED ans
     ELSE /\ cn' = [cn EXCEPT !.items = Tail(@), !.statsn = @ + 1]
          /\ ans' = With(ans, it.itt, (IF it.itt \in DOMAIN ans THEN ans[it.itt] ELSE 0) + 1)
  /\ act' = [k |-> "emit"] /\ UNCHANGED <<w, n, log, ran, dead, got>>

Next == Send \/ Deliver \/ Emit
Vars == <<cn, w, n, log, ran, ans, dead, got, act>>
View == <<cn, w, n, log, ran, ans, dead, got>>

(* ---- guarantees ---- *)
Cmds == {i \in DOMAIN log : log[i].l \in {"write", "write1", "read"}}
RanSet == {ran[k] : k \in 1..Len(ran)}
Pos(i) == CHOOSE k \in 1..Len(ran) : ran[k] = i

(* C05, C20: each at most once; nothing that was not taken; one answer each *)
Once == /\ Len(ran) = Cardinality(RanSet)
        /\ \A i \in RanSet : log[i].taken
        /\ \A i \in DOMAIN ans : ans[i] = 1
        /\ \A i \in Cmds : i \in DOMAIN ans => i \in RanSet
(* C05: commands whose data is there when their turn comes run in number order *)
InOrder == \A i, j \in RanSet : ~log[i].imm /\ ~log[j].imm /\ log[i].l # "write" /\ log[j].l # "write" /\ Pos(i) < Pos(j) => log[i].sn < log[j].sn
(* C05, C20: at rest nothing taken has been lost: it was answered, waits, or was aborted *)
Rest == cn.items = <<>> => \A i \in DOMAIN log :
          log[i].taken /\ log[i].l # "nop0" =>
            \/ i \in DOMAIN ans
            \/ i \in dead \/ i \in DOMAIN cn.pend
            \/ \E k \in DOMAIN cn.held : cn.held[k].itt = i /\ k > cn.exp
            \/ cn.phase = "out"
(* C15, C21: what was aborted or discarded neither runs nor is answered *)
Dead == \A i \in dead : i \notin RanSet /\ i \notin DOMAIN ans
(* C06: the bytes requested tile what was missing, in order; the write runs only then *)
Sum(q) == IF q = <<>> THEN 0 ELSE q[Len(q)][1] + q[Len(q)][2]
Tiled == \A i \in DOMAIN got :
           /\ got[i][1][1] = 0
           /\ \A k \in 1..(Len(got[i]) - 1) : got[i][k + 1][1] = got[i][k][1] + got[i][k][2]
           /\ i \in RanSet => Sum(got[i]) = 1024
           /\ i \notin RanSet => Sum(got[i]) < 1024
Asked == \A i \in DOMAIN cn.pend : cn.pend[i].asked <= cn.pend[i].total /\ cn.pend[i].asked - cn.pend[i].off <= cn.burst
(* C05: the counter grows by one per number taken; immediate PDUs leave it alone; numbers outside the window change nothing *)
Counter == [][cn'.exp # cn.exp =>
     /\ act'.k = "send" /\ ~act'.imm /\ act'.sn = cn.exp
     /\ cn'.phase = "ffp" => \A k \in cn.exp + 1..cn'.exp - 1 : k \in DOMAIN cn.held
     /\ cn'.phase = "ffp" => cn'.exp \notin DOMAIN cn.held]_Vars
Outside == [][act'.k = "send" /\ ~act'.imm /\ act'.l # "other" /\ cn.phase = "ffp" /\ ~Window(act'.sn) => cn' = cn /\ w' = w /\ ran' = ran]_Vars
(* C24: a ping changes nothing but the counter and what is owed *)
Pings == [][act'.k = "send" /\ act'.l \in {"nop", "nop0"} /\ act'.imm => w' = w /\ ran' = ran /\ cn'.exp = cn.exp /\ cn'.pend = cn.pend /\ cn'.held = cn.held]_Vars
(* C21: after the logout nothing runs or changes *)
Out == [][cn.phase = "out" => w' = w /\ ran' = ran /\ cn'.exp = cn.exp]_Vars
(* C15: aborting one unit's commands leaves the other waiting ones alone *)
Named == [][act'.k = "send" /\ act'.l = "abortother" /\ act'.imm => dead' = dead]_Vars
(* C20: every status number is used once *)
Status == cn.statsn = Cardinality(DOMAIN ans)
(* the medium holds what ran *)
Stores == \A k \in 1..2 : \A x \in w.dev["a"].cont[k] : x = 0 \/ Itt(x) \in RanSet
=============================================================================
