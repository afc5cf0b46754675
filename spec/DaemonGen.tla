------------------------------ MODULE DaemonGen ------------------------------
(* Behaviours of DaemonMC, printed as JSON scripts to be replayed on the real program. *)
EXTENDS DaemonMC, Json, Randomization
CONSTANTS Steps
VARIABLES hist
Rnd(S) == RandomElement(S)
H(r) == hist' = Append(hist, r)
GInit == Init /\ hist = <<>>
Same == UNCHANGED <<w, acked, cnt, act>>
GConf == \E q \in {Rnd(1..100)}, g \in {Rnd(1..Len(Good))}, b \in {Rnd(1..Len(Bad))} :
           /\ conf' = (IF q <= 70 THEN Good[g] ELSE Bad[b]) /\ Same /\ H([k |-> "conf", conf |-> conf'])
GStart == \E q \in {Rnd(1..100)}, z \in {Rnd(1..100)}, lg \in {Rnd({"info", "warn", "debug", "error", "loud"})} :
           LET o == [NoOpt EXCEPT !.block = (z <= 40), !.busy = (q <= 6), !.log = IF q > 80 THEN lg ELSE "info"] IN
           /\ w' = Start(w, conf, o) /\ UNCHANGED <<conf, acked, cnt, act>> /\ H([k |-> "start", opt |-> o])
GEnd == \E s \in {Rnd(Ends)} : w' = Down(w) /\ UNCHANGED <<conf, acked, cnt, act>> /\ H([k |-> "end", sig |-> s])
GLogin == \E c \in {Rnd(Conns \ DOMAIN w.sess)}, t \in {Rnd(Names)}, a0 \in {Rnd({P1, P2})}, src \in {Rnd(Sources)}, q \in {Rnd(1..100)} :
           LET good == {a \in {P1, P2} : Reachable(w.conf, t, a)}
               a == IF q <= 80 /\ good # {} THEN CHOOSE x \in good : TRUE ELSE a0
           IN /\ w' = (IF Admits(w, t, a, src) THEN Enter(w, c, t, src) ELSE w) /\ UNCHANGED <<conf, acked, cnt, act>>
              /\ H([k |-> "login", c |-> c, tgt |-> t, addr |-> a, src |-> src])
GLeave == \E c \in {Rnd(DOMAIN w.sess)}, h \in {Rnd({"logout", "drop"})} : w' = Leave(w, c) /\ UNCHANGED <<conf, acked, cnt, act>> /\ H([k |-> h, c |-> c])
GLook == \E x \in {Rnd({"list", "api", "disc"})}, a \in {Rnd({P1, P2})}, src \in {Rnd(Sources)} : UNCHANGED conf /\ Same /\ H([k |-> x, addr |-> a, src |-> src])
GUnit == \E c \in {Rnd(DOMAIN w.sess)}, x \in {Rnd({"luns", "unit", "unit"})}, l \in {Rnd({"0", "5", "9"})} : UNCHANGED conf /\ Same /\ H([k |-> x, c |-> c, lun |-> l])
GIO == \E c \in {Rnd(DOMAIN w.sess)}, rw \in {Rnd({"read", "write", "write", "read", "sendend"})}, lba \in {Rnd(0..17)}, n \in {Rnd(1..3)}, q \in {Rnd(1..100)} :
       LET ls == Luns(w.conf, w.sess[c].tgt) IN
       \E l \in {IF ls = {} THEN "0" ELSE Rnd(ls)} :
         LET here == ls # {}
             s == Unit(w.conf, w.sess[c].tgt, l)
             m == IF here THEN Blocks(w.files, s) ELSE 1
             x == IF q <= 90 THEN lba % m ELSE lba
             k == IF q <= 90 /\ n > m - x THEN m - x ELSE n
         IN /\ w' = (IF rw = "sendend" THEN Down(w) ELSE w) /\ UNCHANGED <<conf, acked, cnt, act>>
            /\ H([k |-> rw, c |-> c, lun |-> l, lba |-> x, n |-> k * (IF here THEN Pow2(Shift(s) - 9) ELSE 1), blocks |-> k])
GNext ==
  /\ Len(hist) < Steps
  /\ \E q \in {Rnd(1..100)} :
       IF ~w.up THEN (IF q <= 25 THEN GConf ELSE IF q <= 85 THEN GStart ELSE GLook)
       ELSE IF q <= 8 THEN GEnd
       ELSE IF q <= 22 THEN GLook
       ELSE IF w.sess = <<>> \/ (q <= 35 /\ Conns \ DOMAIN w.sess # {}) THEN GLogin
       ELSE IF q <= 42 THEN GLeave
       ELSE IF q <= 55 THEN GUnit
       ELSE GIO
  /\ (Len(hist') = Steps => PrintT(ToJson(hist')))
=============================================================================
