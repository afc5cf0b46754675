---------------------------- MODULE SessionTrace ----------------------------
(* Validates recorded PDU exchanges on one or more connections of the real   *)
(* target against Session.                                                   *)
EXTENDS Session, Json, IOUtils, SequencesExt

VARIABLES i, w, cns, seen, out

Trace == ndJsonDeserialize(IOEnv.TRACE)

MkDev(x) ==
  [n |-> x.n, bs |-> x.bs, small |-> x.small, ro |-> x.ro, swp |-> x.swp, online |-> x.online,
   removable |-> x.removable, thin |-> x.thin, resv |-> "",
   cont |-> [k \in 1..Len(x.toks) |-> {x.toks[k]}], dur |-> [k \in 1..Len(x.toks) |-> {x.toks[k]}]]
MkWorld(e) == [dev |-> [n \in DOMAIN e.devs |-> MkDev(e.devs[n])], map |-> e.maps]

Ret(w2, c2, b) == [w |-> w2, cns |-> c2, bad |-> b]

SendStep(e) ==
  LET st == React([cn |-> cns[e.c], w |-> w, ran |-> <<>>, gone |-> {}], e.p)
  IN Ret(st.w, With(cns, e.c, st.cn), {})

(* the answer of a command *)
RespBad(cn, it, r) ==
  (IF \E o \in it.os : o.st = r.status /\ (o.st = Check => <<r.key, r.asc>> \in o.why) THEN {}
   ELSE {IF \E o \in it.os : o.st = r.status THEN "sense" ELSE "status"})
  \union (IF r.t = "resp" /\ r.status = Good /\ it.reads /\ MinI(it.avail, it.c.edtl) # it.off THEN {"dlen"} ELSE {})
  \union (IF r.status = Good /\ it.reads /\ r.dinlen # MinI(it.avail, it.c.edtl) THEN {"dlen"} ELSE {})
  \union (IF r.status = Good /\ it.reads /\ \E k \in 1..Len(r.din) : k <= Len(it.data) /\ r.din[k] \notin it.data[k] THEN {"data"} ELSE {})
  \union (IF r.status = Good /\ it.avail >= 0
             /\ \/ r.U /\ r.O
                \/ it.avail = it.c.edtl /\ (r.U \/ r.O \/ r.resid # 0)
                \/ it.avail < it.c.edtl /\ ~(r.U /\ r.resid = it.c.edtl - it.avail)
                \/ it.avail > it.c.edtl /\ ~(r.O /\ r.resid = it.avail - it.c.edtl)
          THEN {"resid"} ELSE {})
  \union (IF r.status = Good /\ it.avail = -1 /\ Tells(it.c) /\ ~ResidFits(it, r) THEN {"resid"} ELSE {})
  \union (IF r.status = Good /\ it.avail >= 0 /\ ~it.reads /\ it.c.dir = "r" /\ r.dinlen # MinI(it.avail, it.c.edtl) THEN {"dlen"} ELSE {})
  \union (IF r.status # Good /\ it.off > 0 THEN {"leak"} ELSE {})

RecvStep(e) ==
  LET r == e.p
      cn == cns[e.c]
      ks == Candidates(cn, r)
      stat == IF Carries(r) /\ r.statsn # cn.statsn THEN {"statsn"} ELSE {}
      cn1 == [cn EXCEPT !.statsn = IF Carries(r) THEN r.statsn + 1 ELSE @,
                        !.win = IF Carries(r) THEN r.max - r.exp ELSE @]
  IN IF ks = {} THEN Ret(w, With(cns, e.c, cn1), stat \union {"extra"})
     ELSE
     LET k == IF r.t = "reject" /\ \E x \in ks : cn.items[x].hdr = r.hdr THEN First({x \in ks : cn.items[x].hdr = r.hdr}) ELSE First(ks)
         it == cn.items[k]
         done == [cn1 EXCEPT !.items = Del(@, k)]
         sns == IF Carries(r) \/ r.t = "r2t"
                THEN (IF it.lo <= r.exp /\ r.exp <= cn.exp THEN {} ELSE {"expcmdsn"})
                     \union (IF r.max >= r.exp THEN {} ELSE {"maxcmdsn"})
                ELSE {}
     IN CASE r.t = "r2t" ->
               Ret(w, With(cns, e.c, IF r.itt \in DOMAIN done.pend
                                     THEN [done EXCEPT !.pend[r.itt].asked = r.off + r.len, !.pend[r.itt].ttt = r.ttt] ELSE done),
                   stat \union sns \union R2tBad(cn, it, r))
          [] r.t = "datain" /\ ~r.S ->
               Ret(w, With(cns, e.c, [cn1 EXCEPT !.items[k] = DataInNext(it, r)]),
                   DataInBad(cn, it, r) \union (IF ~\E o \in it.os : o.st = Good THEN {"status"} ELSE {}))
          [] r.t = "datain" ->
               Ret(w, With(cns, e.c, done), stat \union sns \union DataInBad(cn, it, r) \union RespBad(cn, it, r))
          [] r.t = "resp" -> Ret(w, With(cns, e.c, done), stat \union sns \union RespBad(cn, it, r))
          [] r.t = "nopin" -> Ret(w, With(cns, e.c, done), stat \union sns \union (IF r.data = it.data /\ r.ttt = NoTag THEN {} ELSE {"nop"}))
          [] r.t = "tmf" -> Ret(w, With(cns, e.c, done), stat \union sns \union (IF r.rsp \in it.rsp THEN {} ELSE {"tmf"}))
          [] r.t = "logout" -> Ret(w, With(cns, e.c, done), stat \union sns \union (IF r.rsp = 0 THEN {} ELSE {"logout"}))
          [] r.t = "reject" -> Ret(w, With(cns, e.c, done), stat \union sns \union (IF r.hdr = it.hdr THEN {} ELSE {"reject"}))
          [] OTHER -> Ret(w, With(cns, e.c, done), stat \union sns)

(* everything sent so far has been processed: nothing may be owed any more *)
IdleStep(e) ==
  LET cn == cns[e.c] IN
  Ret(w, With(cns, e.c, [cn EXCEPT !.items = <<>>]),
      (IF cn.items # <<>> THEN {"missing"} \union {"missing-" \o cn.items[k].k : k \in 1..Len(cn.items)} ELSE {})
      \union (IF cn.phase # "ffp" THEN {"unclosed"} ELSE {}))

(* the target closed the connection; what it had sent may be lost when the   *)
(* initiator kept sending into the closed end (the transport resets)         *)
ClosedStep(e) ==
  LET cn == cns[e.c] IN
  Ret(SessionGone(w, cn.s), Without(cns, e.c),
      (IF cn.phase = "ffp" THEN {"closed"} ELSE {})
      \union (IF cn.items # <<>> /\ cn.phase = "out" /\ ~(e.rst /\ cn.late) THEN {"missing"} \union {"missing-" \o cn.items[k].k : k \in 1..Len(cn.items)} ELSE {}))

(* the initiator dropped the connection: what waited is discarded *)
DropStep(e) == Ret(SessionGone(w, cns[e.c].s), Without(cns, e.c), {})

(* another connection took its place, within the session or with a new session: what waited is discarded *)
ReplacedStep(e) == Ret(IF e.all THEN SessionGone(w, cns[e.c].s) ELSE w, Without(cns, e.c), {})

Off(sets, toks) == Len(sets) > Len(toks) \/ \E k \in 1..Len(sets) : toks[k] \notin sets[k]
DumpStep(e) ==
  LET d == w.dev[e.dev] IN
  Ret([w EXCEPT !.dev[e.dev].cont = [k \in 1..Len(d.cont) |-> IF k <= Len(e.toks) THEN {e.toks[k]} ELSE d.cont[k]]], cns,
      IF Off(d.cont, e.toks) THEN {"stored"} ELSE {})

Step(e) ==
  CASE e.e = "reset" -> Ret(MkWorld(e), Empty, {})
    [] e.e = "login" -> Ret(w, With(cns, e.c, Fresh(e.s, e.tgt, e.disc, e.imm, e.mrdsl, e.burst, e.win, e.statsn)),
                            IF e.exp # 0 THEN {"expcmdsn"} ELSE IF e.win < 0 THEN {"maxcmdsn"} ELSE {})
    [] e.e \in {"send", "recv", "idle", "closed", "drop", "replaced"} /\ e.c \notin DOMAIN cns -> Ret(w, cns, {})
    [] e.e = "send" -> SendStep(e)
    [] e.e = "recv" -> RecvStep(e)
    [] e.e = "idle" -> IdleStep(e)
    [] e.e = "closed" -> ClosedStep(e)
    [] e.e = "drop" -> DropStep(e)
    [] e.e = "replaced" -> ReplacedStep(e)
    [] e.e = "dump" -> DumpStep(e)
    [] e.e = "bad" -> Ret(w, cns, {e.what})
    [] OTHER -> Ret(w, cns, {})

Init == i = 1 /\ w = [dev |-> Empty, map |-> Empty] /\ cns = Empty /\ seen = {} /\ out = <<>>

Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         r == Step(e)
         new == r.bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ w' = r.w
        /\ cns' = r.cns
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union r.bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
