---------------------------------- MODULE Lin --------------------------------
(* One block shared by concurrent sessions.  A world is one way the operations *)
(* could have taken effect so far:                                            *)
(*  v     the contents, done  the pending storing operations already in v,    *)
(*  look  for every pending reading operation the contents it may have met.   *)
(* An operation takes effect at one moment between its call and its return.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
Nothing == [x \in {} |-> {}]
Fresh(v) == {[v |-> v, done |-> {}, look |-> Nothing]}

(* an operation: [id, stores, or, tok]; pend is the set of those called and not returned *)
Effect(x, v) == IF x.or THEN v | x.tok ELSE x.tok
Apply(w, x) == LET v2 == Effect(x, w.v) IN
               [v |-> v2, done |-> w.done \union {x.id}, look |-> [r \in DOMAIN w.look |-> w.look[r] \union {v2}]]
RECURSIVE Close(_, _)
Close(ws, pend) ==
  LET more == UNION {{Apply(w, x) : x \in {y \in pend : y.stores /\ y.id \notin w.done}} : w \in ws}
  IN IF more \subseteq ws THEN ws ELSE Close(ws \union more, pend)

Called(ws, x) == IF x.stores THEN ws ELSE {[w EXCEPT !.look = (x.id :> {w.v}) @@ @] : w \in ws}
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
(* a store returns: it has taken effect *)
Stored(ws, x, pend) == {[w EXCEPT !.done = @ \ {x.id}] : w \in {y \in Close(ws, pend) : x.id \in y.done}}
(* a read returns the contents val; "any" when it is not known what it met *)
Got(ws, x, pend, Fits(_)) == {[w EXCEPT !.look = Drop(@, x.id)] : w \in {y \in Close(ws, pend) : \E q \in y.look[x.id] : Fits(q)}}
(* the operation failed or was lost: nothing is concluded; a lost store stays pending *)
=============================================================================
