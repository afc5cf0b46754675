----------------------------- MODULE LoginTrace -----------------------------
EXTENDS Login, Json, IOUtils, SequencesExt
VARIABLES i, ws, seen, out
Trace == ndJsonDeserialize(IOEnv.TRACE)

R(w, bad) == {[w |-> w, bad |-> bad]}
SeqSet(q) == {q[j] : j \in 1..Len(q)}
Conf(tg) == [t \in DOMAIN tg |-> [g \in DOMAIN tg[t] |-> SeqSet(tg[t][g])]]

(* the response of a login request *)
RespBad(w, c, r, p, o) ==
  LET k == o.w.conns[c]
      others == {s.tsih : s \in {x \in w.sess : x.tgt = k.tgt}}
  IN (IF p.T # r.T \/ p.csg # r.csg \/ (r.T /\ p.nsg # r.nsg) THEN {"login-stage"} ELSE {})
     \union KeyBad(r, p.kv, o.tpgt)
     \union (IF ~o.full THEN {}
             ELSE IF o.disc THEN {}
             ELSE IF p.tsih = "0" THEN {"tsih-zero"}
             ELSE IF o.tsih # "" THEN IF p.tsih = o.tsih THEN {} ELSE {"tsih"}
             ELSE IF \E s \in o.w.sess : s.c # c /\ s.tgt = k.tgt /\ s.tsih = p.tsih THEN {"tsih-dup"} ELSE {})
     \union (IF p.itt # r.itt \/ p.isid # r.isid THEN {"login-tag"} ELSE {})
     \union (IF p.left > 0 THEN {"login-form"} ELSE {})
(* what it means when the observation fits no outcome: the connection is as it was seen *)
Follow(w, c, p) == IF p.res = "ok" THEN w ELSE Kill(w, {c})
LoginStep(w, e) ==
  LET c == e.c IN
  IF c \notin Live(w) THEN IF e.p.res = "ok" THEN R(w, {"served-dead"}) ELSE R(w, {})
  ELSE IF Full(w, c) THEN IF e.p.res = "ok" THEN R(w, {"login-twice"}) ELSE R(IF e.p.res = "reject" THEN w ELSE Kill(w, {c}), {})
  ELSE LET os == Login(w, c, e.r, e.p.tsih) IN
       UNION {IF o.ok /\ e.p.res = "ok" THEN R(o.w, RespBad(w, c, e.r, e.p, o))
              ELSE IF ~o.ok /\ e.p.res # "ok" THEN R(o.w, IF e.p.res = "none" THEN {"unclosed"} ELSE {})
              ELSE IF o.ok THEN R(Follow(w, c, e.p), {IF e.p.res = "none" THEN "noresponse" ELSE "refused"})
              ELSE R(Follow(w, c, e.p), {"admit-" \o o.why}) : o \in os}

(* requests that were under way together: any order; who is replaced by a later one may not see its response *)
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
(* without a response the request may have been accepted (and its connection closed by a later one) or refused *)
RaceOne(w, e) ==
  IF e.p.res = "ok" THEN LoginStep(w, e)
  ELSE IF e.c \notin Live(w) THEN R(w, {})
  ELSE {[w |-> o.w, bad |-> {}] : o \in Login(w, e.c, e.r, "?" \o e.c)}
RECURSIVE RaceFold(_, _, _)
RaceFold(w, es, q) ==
  IF q = <<>> THEN R(w, {})
  ELSE UNION {{[w |-> m.w, bad |-> m.bad \union s.bad] : m \in RaceFold(s.w, es, Tail(q))} : s \in RaceOne(w, es[Head(q)])}
Race(w, es) ==
  LET all == UNION {RaceFold(w, es, q) : q \in Perms(1..Len(es))}
      (* a connection that was seen closed is dead at the end *)
      gone == {es[j].c : j \in {x \in 1..Len(es) : es[x].p.res # "ok"}}
  IN {[w |-> x.w, bad |-> x.bad \union (IF gone \cap Live(x.w) # {} THEN {"refused"} ELSE {})] : x \in all}

(* connections from several hosts at once: some order *)
RECURSIVE CFold(_, _, _)
CFold(w, es, q) ==
  IF q = <<>> THEN R(w, {})
  ELSE LET e == es[Head(q)]
           ad == Admits(w, e.host)
           bad == IF ad /\ ~e.adm THEN {"host-refused"} ELSE IF ~ad /\ e.adm THEN {"host-admitted"} ELSE {}
           w2 == IF e.adm THEN Connect(w, e.c, e.host, e.dst) ELSE w
       IN {[w |-> m.w, bad |-> m.bad \union bad] : m \in CFold(w2, es, Tail(q))}

Content(w, c, lba) == LET d == w.dev[w.conns[c].tgt] IN IF <<d, lba>> \in DOMAIN w.cont THEN w.cont[<<d, lba>>] ELSE 0

Step(w, e) ==
  CASE e.e = "connect" ->
         LET ad == Admits(w, e.host) IN
         IF e.adm THEN R(Connect(w, e.c, e.host, e.dst), IF ad THEN {} ELSE IF ~w.run THEN {"service-admitted"} ELSE {"host-admitted"})
         ELSE R(w, IF ~ad THEN {} ELSE IF w.block THEN {"host-refused"} ELSE {"refused"})
    [] e.e = "crace" -> UNION {CFold(w, e.es, q) : q \in Perms(1..Len(e.es))}
    [] e.e = "login" -> LoginStep(w, e)
    [] e.e = "race" -> Race(w, e.es)
    [] e.e = "more" -> IF e.c \notin Live(w) \/ Full(w, e.c) THEN R(w, {}) ELSE IF e.ok THEN R(w, {}) ELSE R(Kill(w, {e.c}), {"refused"})
    [] e.e = "req" ->       \* a request that needs the full feature phase: res in resp, reject, closed, none
         IF e.c \notin Live(w) THEN R(w, IF e.res = "resp" THEN {"served-dead"} ELSE {})
         ELSE LET k == w.conns[e.c] IN
         IF k.st \in {"sec", "op"} THEN
              IF e.res = "closed" THEN R(Kill(w, {e.c}), {}) ELSE IF e.res = "none" THEN R(w, {}) ELSE R(w, {"served-early"})
         ELSE IF k.st = "disc" /\ e.kind \in {"cmd", "write", "tmf", "dataout"} THEN
              IF e.res = "resp" THEN R(w, {"disc-served"}) ELSE IF e.res = "closed" THEN R(Kill(w, {e.c}), {}) ELSE R(w, {})
         ELSE IF e.res = "resp" THEN R(IF e.done THEN [w EXCEPT !.cont = (<<w.dev[k.tgt], e.lba>> :> e.tok) @@ @] ELSE w, {})
         ELSE IF e.kind \in {"dataout", "snack"} THEN R(IF e.res = "closed" THEN Kill(w, {e.c}) ELSE w, {})
         ELSE R(IF e.res = "closed" THEN Kill(w, {e.c}) ELSE w, {"noresponse"})
    [] e.e = "write" ->
         IF e.c \notin Live(w) THEN R(w, IF e.ok THEN {"served-dead"} ELSE {})
         ELSE IF w.conns[e.c].st # "normal" THEN R(w, IF e.ok THEN {"served-early"} ELSE {})
         ELSE IF ~e.ok THEN R(w, {"noresponse"})
         ELSE R([w EXCEPT !.cont = (<<w.dev[w.conns[e.c].tgt], e.lba>> :> e.tok) @@ @], {})
    [] e.e = "read" ->
         IF e.c \notin Live(w) THEN R(w, IF e.ok THEN {"served-dead"} ELSE {})
         ELSE IF w.conns[e.c].st # "normal" THEN R(w, IF e.ok THEN {"served-early"} ELSE {})
         ELSE IF ~e.ok THEN R(w, {"noresponse"}) ELSE R(w, IF e.tok = Content(w, e.c, e.lba) THEN {} ELSE {"content"})
    [] e.e = "xread" -> IF ~(e.c \in Live(w) /\ w.conns[e.c].st = "normal") THEN R(w, {})
         ELSE R(w, IF ~e.ok THEN {"noresponse"} ELSE IF Bursts(e.pdus, 1, 0, w.conns[e.c].par, e.n) THEN {} ELSE {"segments"})
    [] e.e = "xwrite" -> IF ~(e.c \in Live(w) /\ w.conns[e.c].st = "normal") THEN R(w, {})
         ELSE R(w, IF ~e.ok THEN {"noresponse"} ELSE IF ~e.same THEN {"content"} ELSE IF R2tsRight(e.r2ts, e.n, e.imm, w.conns[e.c].par) THEN {} ELSE {"bursts"})
    [] e.e = "text" ->
         IF e.c \notin Live(w) THEN R(w, IF e.res = "resp" THEN {"served-dead"} ELSE {})
         ELSE IF w.conns[e.c].st \in {"sec", "op"} THEN R(IF e.res = "closed" THEN Kill(w, {e.c}) ELSE w, IF e.res \in {"closed", "none"} THEN {} ELSE {"served-early"})
         ELSE IF w.conns[e.c].st = "normal" /\ e.val = "All" THEN R(w, {})
         ELSE IF e.res # "resp" THEN R(IF e.res = "closed" THEN Kill(w, {e.c}) ELSE w, {"noresponse"})
         ELSE R(w, (IF TextRight(w, SendTargets(w, e.c, e.val), e.pairs) THEN {} ELSE {"targets"})
                   \union (IF e.final /\ ~e.cont /\ e.itt = e.ritt /\ e.ttt = "ffffffff" /\ e.left = 0 THEN {} ELSE {"text-form"}))
    [] e.e = "over" -> IF e.c \in Live(w) THEN R(IF e.closed THEN Kill(w, {e.c}) ELSE w, IF e.closed THEN {"closed"} ELSE {})
                       ELSE R(w, IF e.closed THEN {} ELSE {"unclosed"})
    [] e.e = "logout" -> IF e.c \notin Live(w) THEN R(w, {})
                         ELSE R(Kill(w, {e.c}), IF Full(w, e.c) /\ ~e.resp THEN {"noresponse"} ELSE IF ~Full(w, e.c) /\ e.resp THEN {"served-early"}
                                                ELSE IF ~e.closed THEN {"unclosed"} ELSE {})
    [] e.e = "drop" -> R(IF e.c \in DOMAIN w.conns THEN Kill(w, {e.c}) ELSE w, {})
    [] e.e = "list" ->
         R(w, (IF {e.tgts[j].name : j \in 1..Len(e.tgts)} = DOMAIN w.tgts /\ Len(e.tgts) = Cardinality(DOMAIN w.tgts) THEN {} ELSE {"listing"})
              \union (IF \E j \in 1..Len(e.tgts) : e.tgts[j].n # Cardinality({s \in w.sess : s.tgt = e.tgts[j].name}) THEN {"nexus"} ELSE {}))
    [] e.e = "listloop" -> R(w, IF e.ok /\ SeqSet(e.sizes) = {Cardinality(DOMAIN w.tgts)} THEN {} ELSE {"listing"})
    [] e.e = "svcclose" -> R([w EXCEPT !.run = FALSE], IF e.ok THEN {} ELSE {"unstopped"})
    [] e.e = "svcrun" -> R([w EXCEPT !.run = TRUE], IF e.ok THEN {} ELSE {"unstarted"})
    [] e.e = "newtarget" ->
         IF e.name \in DOMAIN w.tgts THEN R(w, IF e.ok THEN {"target-twice"} ELSE {})
         ELSE IF ~e.valid THEN R(w, IF e.ok THEN {"target-bad"} ELSE {})
         ELSE R([w EXCEPT !.tgts = (e.name :> [g \in DOMAIN e.conf |-> SeqSet(e.conf[g])]) @@ @], IF e.ok THEN {} ELSE {"target-refused"})
    [] e.e = "cluster" -> R([w EXCEPT !.cluster = e.ip], {})
    [] e.e = "storm" -> R(w, IF e.failed = 0 THEN {} ELSE {"storm"})
    [] e.e = "bad" -> R(w, {e.what})
    [] OTHER -> R(w, {})

Init0(e) == [run |-> e.run, block |-> e.block, cluster |-> e.cluster, tgts |-> Conf(e.tgts), dev |-> e.dev, cont |-> <<>>, conns |-> <<>>, sess |-> {}]

Init == i = 1 /\ ws = {} /\ seen = {} /\ out = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         all == IF e.e = "reset" THEN R(Init0(e), {}) ELSE UNION {Step(w, e) : w \in ws}
         good == {x \in all : x.bad = {}}
         one == CHOOSE x \in all : \A y \in all : Cardinality(x.bad) <= Cardinality(y.bad)
         pick == IF good # {} THEN good ELSE {one}
         bad == IF good # {} THEN {} ELSE one.bad
         new == bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ ws' = {x.w : x \in pick}
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
