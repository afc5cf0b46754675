------------------------------- MODULE ParamMC -------------------------------
(* An initiator that asks for parameter data in pieces: whatever allocation   *)
(* and expected lengths it uses, what it gets are beginnings of one complete  *)
(* data, and asking again with the length the beginning announces gets all.   *)
EXTENDS Param
CONSTANTS MaxLen
VARIABLES class, data, got, want
vars == <<class, data, got, want>>
Classes == {"inq", "vpd", "mode6", "mode10", "luns", "ops"}
Body(n) == [k \in 1..n |-> k]
(* complete data of n bytes after the length field *)
Make(c, n) == CASE c = "inq" -> <<0, 0, 4, 2, n>> \o Body(n) [] c = "vpd" -> <<0, 0, 0, n>> \o Body(n) [] c = "mode6" -> <<n>> \o Body(n)
                [] c = "mode10" -> <<0, n>> \o Body(n) [] c = "luns" -> <<0, 0, 0, n, 0, 0, 0, 0>> \o Body(n) [] c = "ops" -> <<0, 0, 0, n>> \o Body(n)
Answer(a, e) == SubSeq(data, 1, Returned(Len(data), a, e))
Init == class \in Classes /\ data \in {Make(class, n) : n \in 0..MaxLen} /\ got = <<>> /\ want = -1
Ask(a, e) == got' = Answer(a, e) /\ want' = (IF Len(got') >= HeadLen(class) THEN FullOf(class, got') ELSE -1) /\ UNCHANGED <<class, data>>
Next == \E a \in 0..(MaxLen + 10), e \in 0..(MaxLen + 10) : Ask(a, e) \/ (want >= 0 /\ Ask(want, want))
Spec == Init /\ [][Next]_vars
Prefix == Agree(got, data) /\ (want >= 0 => want = Len(data))
(* the rule the monitor applies accepts exactly the right length *)
Rule == \A a \in 0..(MaxLen + 10), e \in 0..(MaxLen + 10), m \in 0..Len(data) :
          LenRight(class, SubSeq(data, 1, m), a, e) <=> m = Returned(Len(data), a, e)
TwoSteps == [][(want >= 0 /\ \E n \in {want} : Ask(n, n)) => (got' = data)]_vars
=============================================================================
