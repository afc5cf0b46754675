------------------------------- MODULE LoginMC ------------------------------
(* Connections, logins, sessions and the life of the service as a state machine, for a few connections, hosts, initiators and     *)
(* requests: every history keeps the rules below.  The operators are those against which the real target's histories are checked. *)
EXTENDS Login
CONSTANTS Conns, HostSet, PortSet, Inis, Isids, Letters, Quotes, Handles, Blocks, Service
VARIABLES w, act
vars == <<w, act>>

World0(b) == [run |-> TRUE, block |-> b, cluster |-> "",
              tgts |-> ("t1" :> ("1" :> {"p1"})) @@ ("t2" :> (("1" :> {"p1"}) @@ ("2" :> {"p2"}))),
              conns |-> <<>>, sess |-> {}]
Target == {"t1", "t2"}
View == w
Sym == Permutations(Conns)

KV(k, v) == [k |-> k, v |-> v, n |-> -1, vs |-> <<v>>]
Auth(v) == <<KV("AuthMethod", v)>>
Ask(csg, nsg, t, isid, tsih, cid, kv) == [csg |-> csg, nsg |-> nsg, T |-> t, isid |-> isid, tsih |-> tsih, cid |-> cid, kv |-> kv]
Named(ini, tgt) == <<KV("InitiatorName", ini), KV("SessionType", "Normal"), KV("TargetName", tgt)>>
Req(l, ini, tgt, isid, tsih, cid) ==
  CASE l = "hello"  -> Ask(0, 1, FALSE, isid, tsih, cid, <<KV("InitiatorName", ini)>> \o Auth("None"))
    [] l = "sec"    -> Ask(0, 1, TRUE, isid, tsih, cid, <<KV("InitiatorName", ini)>> \o Auth("None"))
    [] l = "secn"   -> Ask(0, 1, TRUE, isid, tsih, cid, Named(ini, tgt) \o Auth("None"))
    [] l = "chap"   -> Ask(0, 1, TRUE, isid, tsih, cid, Named(ini, tgt) \o Auth("CHAP"))
    [] l = "sec3"   -> Ask(0, 3, TRUE, isid, tsih, cid, Named(ini, tgt) \o Auth("None"))
    [] l = "chap3"  -> Ask(0, 3, TRUE, isid, tsih, cid, Named(ini, tgt) \o Auth("CHAP"))
    [] l = "op"     -> Ask(1, 3, TRUE, isid, tsih, cid, Named(ini, tgt))
    [] l = "bare"   -> Ask(1, 3, TRUE, isid, tsih, cid, <<>>)
    [] l = "stay"   -> Ask(1, 3, FALSE, isid, tsih, cid, Named(ini, tgt))
    [] l = "disc"   -> Ask(1, 3, TRUE, isid, tsih, cid, <<KV("InitiatorName", ini), KV("SessionType", "Discovery")>>)
    [] l = "nobody" -> Ask(1, 3, TRUE, isid, tsih, cid, Named(ini, "t9"))
    [] l = "jump"   -> Ask(1, 2, TRUE, isid, tsih, cid, Named(ini, tgt))
    [] l = "again"  -> Ask(0, 0, TRUE, isid, tsih, cid, Named(ini, tgt) \o Auth("None"))
    [] l = "boot"   -> Ask(1, 3, TRUE, isid, tsih, cid, <<KV("InitiatorName", ini), KV("SessionType", "Boot")>>)

Used(x) == {s.tsih : s \in x.sess}
(* the target picks a handle that is not in use *)
Free(x) == IF Handles \ Used(x) = {} THEN {} ELSE {CHOOSE h \in Handles \ Used(x) : TRUE}

Init == w \in {World0(b) : b \in Blocks} /\ act = [k |-> "init"]

DoConnect == \E c \in Conns \ DOMAIN w.conns, h \in HostSet, p \in PortSet :
  /\ IF Admits(w, h) THEN w' = Connect(w, c, h, p) /\ act' = [k |-> "connect", c |-> c]
     ELSE w' = Kill(Connect(w, c, h, p), {c}) /\ act' = [k |-> "turned", c |-> c]

DoLogin == \E c \in Live(w), l \in Letters, ini \in Inis, tgt \in Target, isid \in Isids, cid \in {0, 1} :
  /\ w.conns[c].st \in {"sec", "op"}
  /\ cid = 1 => Quotes # {}
  /\ \E q \in (IF Quotes = {} THEN {"0"} ELSE {"0"} \union Quotes \union Used(w)), h \in Free(w) :
       \E o \in Login(w, c, Req(l, ini, tgt, isid, q, cid), h) :
         /\ w' = o.w
         /\ act' = [k |-> "login", c |-> c, r |-> Req(l, ini, tgt, isid, q, cid), ok |-> o.ok, full |-> o.full, why |-> o.why]

DoEnd == \E c \in Live(w) : w' = Kill(w, {c}) /\ act' = [k |-> "end", c |-> c]
DoService == Service /\ \E b \in {TRUE, FALSE} : b # w.run /\ w' = [w EXCEPT !.run = b] /\ act' = [k |-> "service"]
Next == DoConnect \/ DoLogin \/ DoEnd \/ DoService

(* ---- what holds in every state ---- *)
Normals == {c \in DOMAIN w.conns : w.conns[c].st = "normal"}
OneHost == w.block => Cardinality(Hosts(w)) <= 1
Distinct == \A s, t \in w.sess : s # t => s.tsih # t.tsih /\ s.c # t.c
NonZero == \A s \in w.sess : s.tsih # "0"
OneNexus == \A s, t \in w.sess : (s.tgt = t.tgt /\ s.ini = t.ini /\ s.isid = t.isid /\ s.tpgt = t.tpgt) => s = t
Owned == /\ {s.c : s \in w.sess} = Normals
         /\ \A s \in w.sess : LET k == w.conns[s.c] IN k.tgt = s.tgt /\ k.ini = s.ini /\ k.isid = s.isid /\ k.cid = s.cid
Entered == \A s \in w.sess : s.tgt \in DOMAIN w.tgts /\ w.conns[s.c].dst \in w.tgts[s.tgt][s.tpgt]

(* ---- what every step keeps ---- *)
Same(x, y, S) == \A c \in DOMAIN x.conns \ S : y.conns[c] = x.conns[c]
Mine(x, c) == {s \in x.sess : s.c = c}
(* a refused login ends its own connection and nothing else *)
RefusedInert == [][(act'.k = "login" /\ ~act'.ok) => /\ Same(w, w', {act'.c}) /\ w'.conns[act'.c].st = "dead"
                                                    /\ w'.sess = w.sess]_vars
(* the stages only go forward, and only a request that asks for it ends the login *)
Forward == [][(act'.k = "login" /\ act'.ok) =>
              LET a == w.conns[act'.c].st b == w'.conns[act'.c].st r == act'.r IN
              /\ (a = "op" => b # "sec")
              /\ (b \in {"normal", "disc"} <=> (r.T /\ r.nsg = 3)) /\ (act'.full <=> b \in {"normal", "disc"})]_vars
(* whoever comes in through the security stage offered an authentication method the target has *)
Offered1 == [][(act'.k = "login" /\ act'.ok /\ act'.r.csg = 0) => \A j \in 1..Len(act'.r.kv) : act'.r.kv[j].k = "AuthMethod" => act'.r.kv[j].v # "CHAP"]_vars
(* a completed login adds its own session, ends the session it replaces and no other *)
Replaces == [][(act'.k = "login" /\ act'.full) =>
               LET c == act'.c k == w'.conns[c] IN
               /\ k.st = "normal" => Cardinality(Mine(w', c)) = 1
               /\ k.st = "disc" => w'.sess = w.sess
               /\ \A s \in w.sess : s \in w'.sess \/ (/\ s.tgt = k.tgt /\ s.ini = k.ini /\ s.isid = k.isid
                                                       /\ w'.conns[s.c].st = "dead" /\ k.st = "normal")
               /\ \A d \in DOMAIN w.conns \ {c} : w'.conns[d] = w.conns[d] \/ \E s \in w.sess : s.c = d /\ s \notin w'.sess
               /\ (k.st = "normal" /\ act'.r.tsih = "0") => \A s \in Mine(w', c) : s.tsih \notin Used(w)]_vars
(* a quoted handle must be one of the initiator's own live sessions, and is the one that goes on *)
Quoted == [][(act'.k = "login" /\ act'.full /\ act'.r.tsih # "0") =>
             \E s \in w.sess, t \in w'.sess : /\ s.tsih = act'.r.tsih /\ t.tsih = s.tsih /\ t.c = act'.c
                                             /\ t.ini = s.ini /\ t.isid = s.isid /\ t.tgt = s.tgt /\ t.cid = s.cid]_vars
(* the end of a connection releases its session and touches no other *)
Released == [][act'.k = "end" => /\ Mine(w', act'.c) = {} /\ w'.sess = w.sess \ Mine(w, act'.c) /\ Same(w, w', {act'.c})]_vars
(* a stopped service admits nobody and completes no login *)
Stopped == [][~w.run /\ act'.k # "service" => /\ act'.k # "connect" /\ {s.c : s \in w'.sess} \subseteq {s.c : s \in w.sess}
                                             /\ ~(act'.k = "login" /\ act'.full)]_vars
(* the first one is admitted whoever it is, and others of the same host; another host only when nobody is left *)
Turned == [][act'.k = "turned" => ~w.run \/ (w.block /\ \E c \in Live(w) : w.conns[c].host # w'.conns[act'.c].host)]_vars
Welcome == [][(act'.k = "connect" /\ w.block) => \A c \in Live(w) : w.conns[c].host = w'.conns[act'.c].host]_vars

(* ---- negotiation: the answers the specification allows ---- *)
Num(k, v) == [k |-> k, v |-> ToString(v), n |-> v, vs |-> <<ToString(v)>>]
Values(k) == LET d == MinKeys[k] IN {x \in {d[1] - 1, d[1], d[1] + 1, d[3] - 1, d[3], d[3] + 1, d[2] - 1, d[2], d[2] + 1} : x >= 0}
ASSUME \A k \in DOMAIN MinKeys : \A v \in Values(k) :
         LET ok == {a \in Values(k) : AnswerOk(Num(k, v), Num(k, a))}
             legal == MinKeys[k][1] <= v /\ v <= MinKeys[k][2]
         IN /\ legal => Cardinality(ok) = 1 /\ \A a \in ok : a <= v /\ a <= MinKeys[k][3] /\ (a = v \/ a = MinKeys[k][3])
            /\ ~legal => ok = {} /\ AnswerOk(Num(k, v), [v |-> "Reject", n |-> -1])
ASSUME \A k \in DOMAIN AndKeys, o \in {"Yes", "No"}, a \in {"Yes", "No", "Reject"} :
         AnswerOk(KV(k, o), KV(k, a)) <=> (a = IF o = "Yes" /\ AndKeys[k] = "Yes" THEN "Yes" ELSE "No")
ASSUME \A k \in DOMAIN OrKeys, o \in {"Yes", "No"}, a \in {"Yes", "No", "Reject"} :
         AnswerOk(KV(k, o), KV(k, a)) <=> (a = IF o = "No" /\ OrKeys[k] = "No" THEN "No" ELSE "Yes")
ASSUME \A k \in Digests : /\ AnswerOk([k |-> k, v |-> "", n |-> -1, vs |-> <<"CRC32C", "None">>], KV(k, "None"))
                          /\ ~AnswerOk([k |-> k, v |-> "", n |-> -1, vs |-> <<"CRC32C", "None">>], KV(k, "CRC32C"))
                          /\ AnswerOk([k |-> k, v |-> "", n |-> -1, vs |-> <<"CRC32C">>], KV(k, "Reject"))
ASSUME AnswerOk(KV("X-any", "1"), KV("X-any", "NotUnderstood")) /\ ~AnswerOk(KV("X-any", "1"), KV("X-any", "1"))
(* the outcome does not depend on how the keys are spread over requests, or on their order *)
Offers == <<Num("MaxBurstLength", 4096), Num("MaxRecvDataSegmentLength", 1024), KV("ImmediateData", "No")>>
Op(kv) == Ask(1, 3, FALSE, "i", "0", 0, kv)
ASSUME \A p \in {q \in [1..3 -> 1..3] : \A a, b \in 1..3 : a # b => q[a] # q[b]} :
         LET one == Params(NoPar, Op(<<Offers[p[1]], Offers[p[2]], Offers[p[3]]>>))
             two == Params(Params(NoPar, Op(<<Offers[p[1]]>>)), Op(<<Offers[p[2]], Offers[p[3]]>>))
             three == Params(Params(Params(NoPar, Op(<<Offers[p[1]]>>)), Op(<<Offers[p[2]]>>)), Op(<<Offers[p[3]]>>))
         IN one = two /\ two = three /\ one = [burst |-> 4096, seg |-> 1024, imm |-> FALSE]

(* ---- discovery: the right answer is right, and everything less or more is wrong ---- *)
W1 == World0(FALSE)
Right == <<<<"TargetName", "t2">>, <<"TargetAddress", "p2,2">>, <<"TargetAddress", "p1,1">>, <<"TargetName", "t1">>, <<"TargetAddress", "p1,1">>>>
Cut(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
ASSUME /\ TextRight(W1, {"t1", "t2"}, Right) /\ TextRight(W1, {}, <<>>)
       /\ \A j \in 1..5 : ~TextRight(W1, {"t1", "t2"}, Cut(Right, j)) /\ ~TextRight(W1, {"t1", "t2"}, SubSeq(Right, 1, j) \o SubSeq(Right, j, 5))
       /\ TextRight([W1 EXCEPT !.cluster = "x"], {"t1"}, <<<<"TargetName", "t1">>, <<"TargetAddress", "x,1">>>>)
       /\ ~TextRight([W1 EXCEPT !.cluster = "x"], {"t1"}, <<<<"TargetName", "t1">>, <<"TargetAddress", "p1,1">>>>)
=============================================================================
