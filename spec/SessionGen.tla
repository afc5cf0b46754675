----------------------------- MODULE SessionGen -----------------------------
(* Behaviours of SessionMC, printed as JSON scripts to be replayed on the real target. *)
EXTENDS SessionMC, Json
CONSTANT Steps
VARIABLE hist

GInit == Init /\ hist = <<>>
Numbers == DOMAIN log
Rnd(S) == RandomElement(S)

GSend ==
  \E l0 \in {Rnd(Letters)}, q \in {Rnd(1..100)},  sn \in {cn.exp + Rnd(Offsets) - 2}, ref \in {IF n = 0 THEN "x" ELSE Itt(Rnd(1..n))} :
    \E l \in {IF l0 = "logout" /\ ~(n > 8 /\ q > 60) THEN "nop" ELSE l0} : \E imm \in {q <= 15 \/ (l \in {"abort", "abortset", "abortother", "reset"} /\ q <= 60)} :
    LET s0 == IF imm \/ q > 55 THEN cn.exp ELSE sn
        itt == Itt(n + 1)
        p == Pdu(l, itt, imm, s0, IF l = "abort" THEN ref ELSE "x")
    IN /\ Give(p)
       /\ log' = With(log, itt, [l |-> l, sn |-> s0, imm |-> imm, was |-> cn.phase,
                                 taken |-> cn.phase = "ffp" /\ (imm \/ l = "other" \/ (Window(s0) /\ s0 \notin DOMAIN cn.held))])
       /\ act' = [k |-> "send"]
       /\ n' = n + 1 /\ UNCHANGED <<ans, got>>
       /\ hist' = Append(hist, [k |-> "send", p |-> p])

GDeliver ==
  \E itt \in {Rnd(DOMAIN cn.pend)}, len \in {Rnd({256, 512})} :
    LET x == cn.pend[itt] m == MinI(len, x.asked - x.off) IN
    /\ m > 0
    /\ Give([t |-> "dataout", itt |-> itt, imm |-> FALSE, sn |-> 0, off |-> x.off, len |-> m, final |-> x.off + m = x.asked, hdr |-> ""])
    /\ got' = With(got, itt, Append(IF itt \in DOMAIN got THEN got[itt] ELSE <<>>, <<x.off, m>>))
    /\ act' = [k |-> "data"] /\ UNCHANGED <<n, log, ans>>
    /\ hist' = Append(hist, [k |-> "data", itt |-> itt, len |-> m])

GNext ==
  /\ Len(hist) < Steps
  /\ IF cn.items # <<>> THEN Emit /\ hist' = hist /\ ~(Head(cn.items).k = "r2t" /\ \E x \in DOMAIN cn'.pend : x = Head(cn.items).itt /\ cn'.pend[x].asked - cn'.pend[x].off # 512)
     ELSE IF cn.phase = "ffp" THEN IF DOMAIN cn.pend # {} /\ RandomElement(1..100) <= 40 THEN GDeliver ELSE GSend
     ELSE act' = [k |-> "end"] /\ hist' = hist \o [j \in 1..(Steps - Len(hist)) |-> [k |-> "end"]] /\ UNCHANGED <<cn, w, n, log, ran, ans, dead, got>>
  /\ (Len(hist') = Steps => PrintT(ToJson(hist')))
=============================================================================
