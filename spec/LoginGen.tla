------------------------------ MODULE LoginGen ------------------------------
(* Behaviours of LoginMC, printed as JSON scripts to be replayed on the real target. *)
EXTENDS LoginMC, Json
CONSTANTS Steps, Common
VARIABLES hist, told

Rnd(S) == RandomElement(S)
GInit == Init /\ hist = <<>> /\ told = <<>>

GConnect == \E c \in {Rnd(Conns \ DOMAIN w.conns)}, p \in {Rnd(PortSet)}, q \in {Rnd(1..100)}, h0 \in {Rnd(HostSet)} :
  \E h \in {IF w.block /\ q <= 65 /\ Hosts(w) # {} THEN CHOOSE x \in Hosts(w) : TRUE ELSE h0} :
    LET w1 == Connect(w, c, h, p)
        adm == Admits(w, h)
        w2 == IF ~adm THEN Kill(w1, {c}) ELSE IF w.block \/ Service THEN [w1 EXCEPT !.conns[c].ini = "i1", !.conns[c].isid = "a"] ELSE w1
    IN /\ w' = w2 /\ act' = [k |-> "connect", c |-> c]
       /\ hist' = Append(hist, [k |-> "connect", c |-> c, host |-> h, dst |-> p, adm |-> adm, first |-> w.run /\ Live(w) = {}])
       /\ UNCHANGED told

Letter(q) == IF q <= 75 THEN {Rnd(Common)} ELSE {Rnd(Letters)}
GLogin == \E c \in {Rnd({x \in Live(w) : w.conns[x].st \in {"sec", "op"}})}, q \in {Rnd(1..100)} : \E l \in Letter(q), ini \in {Rnd(Inis)}, tgt \in {IF q % 5 = 0 THEN Rnd(Target) ELSE Rnd({t \in Target : Tags(w, t, w.conns[c].dst) # {}})},
             isid \in {Rnd(Isids)}, qt \in {Rnd(1..100)}, o \in {IF w.sess = {} THEN [none |-> TRUE] ELSE Rnd(w.sess)},
             d \in {IF DOMAIN told = {} THEN "0" ELSE Rnd(DOMAIN told)}, h \in Free(w) :
  LET mode == IF qt <= 55 \/ w.sess = {} THEN "fresh" ELSE IF qt <= 75 THEN "quote" ELSE IF qt <= 88 THEN "same" ELSE IF qt <= 95 THEN "any" ELSE "made"
      like == mode \in {"quote", "same"}
      ask == [l |-> l, ini |-> IF like THEN o.ini ELSE ini, tgt |-> IF like THEN o.tgt ELSE tgt, isid |-> IF like THEN o.isid ELSE isid,
              tsih |-> IF mode = "quote" THEN told[o.c] ELSE IF mode = "any" THEN told[d] ELSE IF mode = "made" THEN "40009" ELSE "0",
              quote |-> IF mode = "quote" THEN o.c ELSE IF mode = "any" THEN d ELSE IF mode = "made" THEN "40009" ELSE "0",
              cid |-> IF mode = "quote" /\ qt # 60 THEN o.cid ELSE IF qt % 8 = 0 THEN 1 ELSE 0]
      r == Req(l, ask.ini, ask.tgt, ask.isid, ask.tsih, ask.cid)
  IN \E out \in {Rnd({x \in Login(w, c, r, h) : x.why # "early"})} :
       /\ w' = out.w /\ act' = [k |-> "login", c |-> c]
       /\ told' = IF out.full THEN (c :> (IF ask.tsih = "0" THEN h ELSE ask.tsih)) @@ told ELSE told
       /\ hist' = Append(hist, [k |-> "login", c |-> c, ask |-> ask, r |-> r, ok |-> out.ok])

GEnd == \E c \in {Rnd(Live(w))} : w' = Kill(w, {c}) /\ act' = [k |-> "end"] /\ hist' = Append(hist, [k |-> "end", c |-> c, st |-> w.conns[c].st]) /\ UNCHANGED told
GService == w' = [w EXCEPT !.run = ~@] /\ act' = [k |-> "service"] /\ hist' = Append(hist, [k |-> "service", run |-> ~w.run]) /\ UNCHANGED told

GNext ==
  /\ Len(hist) < Steps
  /\ \E q \in {Rnd(1..100)} :
       LET open == {x \in Live(w) : w.conns[x].st \in {"sec", "op"}}
           fresh == Conns \ DOMAIN w.conns # {}
       IN IF Service /\ (q <= 6 \/ (~w.run /\ q <= 35)) THEN GService
          ELSE IF open # {} /\ Free(w) # {} /\ q <= 60 THEN GLogin
          ELSE IF fresh /\ (Live(w) = {} \/ q <= 88) THEN GConnect
          ELSE IF Live(w) # {} THEN GEnd
          ELSE w' = w /\ act' = act /\ told' = told /\ hist' = Append(hist, [k |-> "none"])
  /\ (Len(hist') = Steps => PrintT(ToJson([block |-> w.block, steps |-> hist'])))
=============================================================================
