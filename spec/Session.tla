------------------------------ MODULE Session ------------------------------
(* One iSCSI connection in full feature phase: what the target does with     *)
(* every PDU the initiator sends, and what it answers.  The medium behind it *)
(* is the world of Sbc.                                                      *)
(*                                                                           *)
(* A connection is a record                                                  *)
(*   phase  "ffp", "out" (logged out: nothing more is processed, the target  *)
(*          closes), "err" (protocol error: the target closes)               *)
(*   s, tgt, disc   session name, target, discovery session?                 *)
(*   imm    immediate data negotiated?                                       *)
(*   mrdsl, burst   limits negotiated for Data-In segments and for bursts    *)
(*   exp    next command number, win how far ahead commands are taken        *)
(*   statsn number of the next status                                        *)
(*   pend   writes that wait for data: itt -> [p, off, total, asked, ttt, sn]*)
(*   held   commands that wait for their turn: CmdSN -> PDU                  *)
(*   late   was something sent after the logout?                             *)
(*   items  what the target still has to send, in any order but each once    *)
(* Numbers are relative to the login's CmdSN / StatSN.                       *)
EXTENDS Sbc, TLC

CONSTANT NoTag

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Del(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Empty == [x \in {} |-> 0]

Fresh(s, tgt, disc, imm, mrdsl, burst, win, statsn) ==
  [phase |-> "ffp", s |-> s, tgt |-> tgt, disc |-> disc, imm |-> imm, mrdsl |-> mrdsl, burst |-> burst, exp |-> 0,
   win |-> win, statsn |-> statsn, pend |-> Empty, held |-> Empty, late |-> FALSE, items |-> <<>>]

Numbered(p) == p.t \in {"nop", "cmd", "tmf", "text", "logout"}

Say(st, it) == [st EXCEPT !.cn.items = Append(@, it @@ [lo |-> st.cn.exp])]

(* ---- execution of one command whose turn has come and whose data is here ---- *)
Cmd(st, p) == [p EXCEPT !.s = st.cn.s, !.tgt = st.cn.tgt]

RunCmd(st, p) ==
  LET c == Cmd(st, p)
      os == Outcomes(st.w, c)
      d == IF Mapped(st.w, c) THEN st.w.dev[DevName(st.w, c)] ELSE [bs |-> 512]
      reads == Kind(c) = "read" /\ c.dir = "r" /\ Mapped(st.w, c) /\ (\E o \in os : o.st = Good)
      it == [k |-> "cmd", itt |-> p.itt, os |-> {[st |-> o.st, why |-> o.why] : o \in os}, c |-> c,
             avail |-> CASE reads -> ReadAvail(c, d)
                         [] Mapped(st.w, c) /\ Kind(c) \in {"write", "wverify"} /\ Causes(c, d) = {} -> ReadAvail(c, d)
                         [] Kind(c) \in {"tur", "sync", "verify", "prefetch"} /\ c.dir # "w" -> 0
                         [] Mapped(st.w, c) /\ Kind(c) = "readcap10" /\ c.dir = "r" -> 8
                         [] Mapped(st.w, c) /\ Kind(c) = "sain" /\ B1(c) % 32 = 16 /\ c.dir = "r" ->
                              LET a == BigOfBytes(SubSeq(c.cdb, 11, 14)) IN IF IsSmall(a) THEN MinI(IntOf(a), 32) ELSE 32
                         [] OTHER -> -1,
             reads |-> reads,
             data |-> IF reads /\ IntOf(Cnt(c)) > 0 THEN ReadData(c, d) ELSE <<>>,
             \* progress of the Data-In sequence
             off |-> 0, sn |-> 0, run |-> 0]
  IN  Say([st EXCEPT !.w = (CHOOSE o \in os : TRUE).w, !.ran = Append(@, p.itt)], it)

(* bytes still missing when the command itself has arrived *)
Missing(st, p) == p.edtl - (IF st.cn.imm THEN p.immlen ELSE 0)

Exec(st, p) ==
  CASE p.t = "cmd" ->
       IF st.cn.disc THEN Say(st, [k |-> "reject", itt |-> p.itt, hdr |-> p.hdr])
       ELSE IF p.dir = "b" THEN
            Say(st, [k |-> "cmd", itt |-> p.itt, os |-> {[st |-> Check, why |-> {BadField}]}, c |-> Cmd(st, p), avail |-> -1, reads |-> FALSE,
                     data |-> <<>>, off |-> 0, sn |-> 0, run |-> 0])
       ELSE IF p.dir = "w" /\ Missing(st, p) > 0 THEN
            LET o == p.edtl - Missing(st, p) IN
            Say([st EXCEPT !.cn.pend = With(@, p.itt, [p |-> p, off |-> o, total |-> p.edtl, asked |-> o, ttt |-> "", sn |-> 0])],
                [k |-> "r2t", itt |-> p.itt, off |-> o, sn |-> 0, left |-> Missing(st, p)])
       ELSE RunCmd(st, p)
    [] p.t = "dataout" ->
       IF st.cn.disc THEN Say(st, [k |-> "reject", itt |-> p.itt, hdr |-> p.hdr])
       ELSE IF p.itt \notin DOMAIN st.cn.pend THEN st
       ELSE LET x == st.cn.pend[p.itt] IN
            IF p.off # x.off \/ x.off + p.len > x.asked THEN [st EXCEPT !.cn.phase = "err"]
            ELSE LET y == [x EXCEPT !.off = @ + p.len] IN
                 IF ~p.final /\ y.off < x.asked THEN [st EXCEPT !.cn.pend[p.itt] = y]
                 ELSE IF y.off < x.total THEN
                      Say([st EXCEPT !.cn.pend[p.itt] = [y EXCEPT !.sn = @ + 1, !.asked = y.off]],
                          [k |-> "r2t", itt |-> p.itt, off |-> y.off, sn |-> x.sn + 1, left |-> x.total - y.off])
                 ELSE RunCmd([st EXCEPT !.cn.pend = Without(@, p.itt)], x.p)
    [] p.t = "nop" -> IF p.itt = NoTag THEN st ELSE Say(st, [k |-> "nop", itt |-> p.itt, data |-> p.data])
    [] p.t = "tmf" ->
       IF st.cn.disc THEN Say(st, [k |-> "reject", itt |-> p.itt, hdr |-> p.hdr])
       ELSE
       LET unit == p.lun \in DOMAIN st.w.map[st.cn.tgt]
           hit(q) == CASE p.func = 1 -> q.itt = p.ref
                       [] p.func \in {2, 4, 5} -> unit /\ q.lun = p.lun
                       [] OTHER -> FALSE
           pend2 == [x \in {y \in DOMAIN st.cn.pend : ~hit(st.cn.pend[y].p)} |-> st.cn.pend[x]]
           gone(n) == st.cn.held[n].t = "cmd" /\ ~st.cn.held[n].aborted /\ hit(st.cn.held[n])
           held2 == [n \in DOMAIN st.cn.held |-> IF gone(n) THEN [st.cn.held[n] EXCEPT !.aborted = TRUE] ELSE st.cn.held[n]]
           any == DOMAIN pend2 # DOMAIN st.cn.pend \/ \E n \in DOMAIN st.cn.held : gone(n)
           rsp == CASE p.func = 1 -> IF any THEN {0} ELSE {1}
                    [] p.func \in {2, 4, 5} -> IF unit THEN {0} ELSE {2}
                    [] OTHER -> {5, 255}
           w2 == IF p.func = 5 /\ unit THEN [st.w EXCEPT !.dev[st.w.map[st.cn.tgt][p.lun]].resv = ""] ELSE st.w
       IN Say([st EXCEPT !.cn.pend = pend2, !.cn.held = held2, !.w = w2,
                           !.gone = @ \union (DOMAIN st.cn.pend \ DOMAIN pend2) \union {st.cn.held[x].itt : x \in {y \in DOMAIN st.cn.held : gone(y)}}], [k |-> "tmf", itt |-> p.itt, rsp |-> rsp])
    [] p.t = "text" -> IF p.final THEN Say(st, [k |-> "text", itt |-> p.itt]) ELSE Say(st, [k |-> "reject", itt |-> p.itt, hdr |-> p.hdr])
    [] p.t = "logout" -> Say([st EXCEPT !.cn.phase = "out", !.cn.pend = Empty, !.cn.held = Empty, !.w = SessionGone(@, st.cn.s),
                                        !.gone = @ \union DOMAIN st.cn.pend \union {st.cn.held[x].itt : x \in DOMAIN st.cn.held}],
                             [k |-> "logout", itt |-> p.itt])
    [] OTHER -> Say(st, [k |-> "reject", itt |-> p.itt, hdr |-> p.hdr])

(* held commands run as soon as the gap before them is filled *)
RECURSIVE Drain(_)
Drain(st) ==
  IF st.cn.phase = "ffp" /\ st.cn.exp \in DOMAIN st.cn.held
  THEN LET q == st.cn.held[st.cn.exp]
           st1 == [st EXCEPT !.cn.held = Without(@, st.cn.exp), !.cn.exp = @ + 1]
       IN Drain(IF q.aborted THEN st1 ELSE Exec(st1, q))
  ELSE st

(* how far a is ahead of b, both counted from the start of the session; a may be anything, b is small *)
Dist(a, b) == IF a < -1000000000 THEN -1000000000 ELSE IF a > 1000000000 THEN 1000000000 ELSE a - b

(* the initiator sends p; st is [cn, w, ran, gone]: ran the tags of the commands executed, gone those discarded *)
React(st, p) ==
  IF st.cn.phase # "ffp" THEN [st EXCEPT !.cn.late = TRUE]
  ELSE IF Numbered(p) /\ ~p.imm THEN
       LET d == Dist(p.sn, st.cn.exp) IN
       IF d < 0 \/ d > st.cn.win THEN st
       ELSE IF d > 0 THEN IF p.sn \in DOMAIN st.cn.held THEN st ELSE [st EXCEPT !.cn.held = With(@, p.sn, p @@ [aborted |-> FALSE])]
       ELSE Drain(Exec([st EXCEPT !.cn.exp = @ + 1], p))
  ELSE Drain(Exec(st, p))

(* ---- what the target sends ---- *)
Carries(r) == r.t \in {"resp", "nopin", "tmf", "text", "logout", "reject", "login"} \/ (r.t = "datain" /\ r.S)

KindOf(r) == CASE r.t \in {"resp", "datain"} -> "cmd" [] r.t = "nopin" -> "nop" [] OTHER -> r.t
Candidates(cn, r) == {k \in 1..Len(cn.items) : cn.items[k].k = KindOf(r) /\ (r.t = "reject" \/ cn.items[k].itt = r.itt)}
First(S) == CHOOSE k \in S : \A x \in S : k <= x

(* a legal R2T for item it on connection cn *)
R2tBad(cn, it, r) ==
  IF r.off = it.off /\ r.sn = it.sn /\ r.len > 0 /\ r.len <= it.left /\ r.len <= cn.burst THEN {} ELSE {"r2t"}

(* the residual of data whose length only the target knows: it and the data delivered add up to what was expected,   *)
(* and no more than the allocation length is said to be left                                                        *)
AllocOf(c) == CASE Kind(c) = "inquiry" -> c.cdb[4] * 256 + c.cdb[5]
                [] c.cdb[1] = 26 -> c.cdb[5] [] c.cdb[1] = 90 -> c.cdb[8] * 256 + c.cdb[9]
                [] OTHER -> 1073741823
ResidFits(it, r) ==
  /\ ~(r.U /\ r.O)
  /\ IF r.O THEN r.dinlen = it.c.edtl /\ r.resid > 0 /\ it.c.edtl + r.resid <= AllocOf(it.c)
     ELSE IF r.U THEN r.resid > 0 /\ r.dinlen + r.resid = it.c.edtl
     ELSE r.dinlen = it.c.edtl /\ r.resid = 0
(* commands that return data of a length only the target knows *)
Tells(c) == c.dir = "r" /\ Kind(c) \in {"inquiry", "modesense", "reportluns"}

(* a legal next Data-In PDU of item it *)
DataInBad(cn, it, r) ==
  LET want == MinI(it.avail, it.c.edtl) IN
  (IF r.off # it.off \/ r.sn # it.sn THEN {"datain"} ELSE {})
  \union (IF r.len > cn.mrdsl THEN {"datain-seg"} ELSE {})
  \union (IF it.run + r.len > cn.burst THEN {"datain-burst"} ELSE {})
  \union (IF (it.run + r.len = cn.burst \/ (it.avail >= 0 /\ it.off + r.len = want)) /\ ~r.F THEN {"datain-flag"} ELSE {})
  \union (IF r.S /\ ~r.F THEN {"datain-flag"} ELSE {})
  \union (IF r.S # (it.off + r.len = want) /\ it.reads THEN {"datain-flag"} ELSE {})
DataInNext(it, r) == [it EXCEPT !.off = r.off + r.len, !.sn = r.sn + 1, !.run = IF r.F THEN 0 ELSE @ + r.len]
=============================================================================
