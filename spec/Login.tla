-------------------------------- MODULE Login -------------------------------
(* Connections, login, sessions, discovery and the life of the service.     *)
(* World: run, block (one host at a time), cluster (address or ""),          *)
(*  tgts : name -> (tag -> set of portals), content : name -> (lba -> token),*)
(*  conns : c -> [host, dst, st, ini, type, tgt, isid, cid, par],            *)
(*   st in "sec" "op" (login stages), "normal" "disc" (full feature phase),  *)
(*   "dead";                                                                 *)
(*  sess : set of [tgt, ini, isid, tpgt, tsih, c, cid] (normal sessions).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
NoPar == [burst |-> 262144, seg |-> 8192, imm |-> TRUE]
NewConn(host, dst) == [host |-> host, dst |-> dst, st |-> "sec", ini |-> "", type |-> "Normal", tgt |-> "", isid |-> "", cid |-> 0, par |-> NoPar]
Live(w) == {c \in DOMAIN w.conns : w.conns[c].st # "dead"}
Full(w, c) == c \in DOMAIN w.conns /\ w.conns[c].st \in {"normal", "disc"}
Hosts(w) == {w.conns[c].host : c \in Live(w)}

(* a connection is admitted unless the target is held by another host *)
Admits(w, host) == w.run /\ (w.block => Hosts(w) \subseteq {host})
Connect(w, c, host, dst) == [w EXCEPT !.conns = (c :> NewConn(host, dst)) @@ @]

(* the end of a connection releases its session *)
Kill(w, S) == [w EXCEPT !.conns = [c \in DOMAIN @ |-> IF c \in S THEN [@[c] EXCEPT !.st = "dead"] ELSE @[c]],
                        !.sess = {s \in @ : s.c \notin S}]

-----------------------------------------------------------------------------
(* keys: an offer is [k, v, n] and n the number v stands for, -1 for none *)
MinKeys == [MaxOutstandingR2T |-> <<1, 65535, 1>>, FirstBurstLength |-> <<512, 16777215, 65536>>, MaxBurstLength |-> <<512, 16777215, 262144>>,
            ErrorRecoveryLevel |-> <<0, 2, 0>>, DefaultTime2Retain |-> <<0, 3600, 20>>, MaxConnections |-> <<1, 65535, 1>>]
AndKeys == [ImmediateData |-> "Yes", IFMarker |-> "No", OFMarker |-> "No"]
OrKeys == [InitialR2T |-> "Yes", DataPDUInOrder |-> "Yes", DataSequenceInOrder |-> "Yes"]
Names == {"InitiatorName", "InitiatorAlias", "TargetName", "SessionType"}
Loose == {"OFMarkInt", "IFMarkInt", "MaxOutstandingUnexpectedPDUs", "RDMAExtensions", "TargetRecvDataSegmentLength", "InitiatorRecvDataSegmentLength",
          "TaskReporting", "iSCSIProtocolLevel"}
Digests == {"HeaderDigest", "DataDigest"}
Rej(S) == S \union {[v |-> "Reject", n |-> -1]}
Known(k) == k \in DOMAIN MinKeys \union DOMAIN AndKeys \union DOMAIN OrKeys \union Digests \union Loose \union
                  {"DefaultTime2Wait", "MaxRecvDataSegmentLength", "AuthMethod"}

(* may the target answer a to the offer o? *)
AnswerOk(o, a) ==
  LET k == o.k IN
  IF k \in DOMAIN MinKeys THEN LET d == MinKeys[k] IN
       IF o.n < d[1] \/ o.n > d[2] THEN a.v = "Reject" ELSE a.n = Min(o.n, d[3])
  ELSE IF k = "DefaultTime2Wait" THEN IF o.n < 0 \/ o.n > 3600 THEN a.v = "Reject" ELSE a.n = Max(o.n, 2)
  ELSE IF k \in DOMAIN AndKeys THEN IF o.v \notin {"Yes", "No"} THEN a.v = "Reject" ELSE a.v = (IF o.v = "Yes" /\ AndKeys[k] = "Yes" THEN "Yes" ELSE "No")
  ELSE IF k \in DOMAIN OrKeys THEN IF o.v \notin {"Yes", "No"} THEN a.v = "Reject" ELSE a.v = (IF o.v = "Yes" \/ OrKeys[k] = "Yes" THEN "Yes" ELSE "No")
  ELSE IF k \in Digests THEN a.v = (IF "None" \in {o.vs[j] : j \in 1..Len(o.vs)} THEN "None" ELSE "Reject")
  ELSE IF k \in Loose THEN TRUE
  ELSE IF k = "AuthMethod" THEN a.v = "None"
  ELSE a.v = "NotUnderstood"

Declared == {"TargetPortalGroupTag", "MaxRecvDataSegmentLength", "TargetAlias", "TargetAddress"}
Offered(kv) == {kv[j].k : j \in 1..Len(kv)}
The(kv, k) == kv[CHOOSE j \in 1..Len(kv) : kv[j].k = k]
Val(kv, k, dflt) == IF k \in Offered(kv) THEN The(kv, k).v ELSE dflt
KeyBad(r, ans, tpgt) ==
  LET sec == r.csg = 0
      off == {o \in {r.kv[j] : j \in 1..Len(r.kv)} : o.k \notin Names /\ o.k # "MaxRecvDataSegmentLength" /\ ~(sec /\ Known(o.k) /\ o.k # "AuthMethod") /\ ~(~sec /\ o.k = "AuthMethod")}
      A(k) == {j \in 1..Len(ans) : ans[j].k = k}
      cls(o) == IF o.k \in DOMAIN MinKeys \union {"DefaultTime2Wait"} THEN "key-number" ELSE IF o.k \in DOMAIN AndKeys \union DOMAIN OrKeys THEN "key-bool"
                ELSE IF o.k \in Digests THEN "key-digest" ELSE IF Known(o.k) THEN "key-other" ELSE "key-unknown"
  IN {cls(o) : o \in {x \in off : Cardinality(A(x.k)) # 1 \/ ~AnswerOk(x, ans[CHOOSE j \in A(x.k) : TRUE])}}
     \union (IF \E j \in 1..Len(ans) : ans[j].k \notin Declared /\ ans[j].k \notin Offered(r.kv) THEN {"key-extra"} ELSE {})
     \union (IF \E j \in 1..Len(ans) : ans[j].k = "MaxRecvDataSegmentLength" /\ (ans[j].n < 512 \/ ans[j].n > 16777215) THEN {"key-number"} ELSE {})
     \union (IF \E j \in 1..Len(ans) : ans[j].k \in Names THEN {"key-extra"} ELSE {})
     \union (IF tpgt # {} /\ \E j \in 1..Len(ans) : ans[j].k = "TargetPortalGroupTag" /\ ans[j].v \notin tpgt THEN {"key-tpgt"} ELSE {})

Params(par, r) ==
  IF r.csg # 1 THEN par
  ELSE LET o == Offered(r.kv)
           b == IF "MaxBurstLength" \in o THEN The(r.kv, "MaxBurstLength").n ELSE -1
           s == IF "MaxRecvDataSegmentLength" \in o THEN The(r.kv, "MaxRecvDataSegmentLength").n ELSE -1
           im == IF "ImmediateData" \in o THEN The(r.kv, "ImmediateData").v ELSE ""
       IN [burst |-> IF b >= 512 /\ b <= 16777215 THEN Min(b, 262144) ELSE par.burst,
           seg |-> IF s >= 512 /\ s <= 16777215 THEN s ELSE par.seg,
           imm |-> IF im \in {"Yes", "No"} THEN im = "Yes" ELSE par.imm]

-----------------------------------------------------------------------------
(* one login request on connection c; outcomes [ok, full, why, w, tpgt, tsih] (tsih: "" free choice, else the one to be reported) *)
Tags(w, tgt, dst) == {g \in DOMAIN w.tgts[tgt] : dst \in w.tgts[tgt][g]}
Refused(w, c, why) == {[ok |-> FALSE, full |-> FALSE, why |-> why, w |-> Kill(w, {c}), tpgt |-> {}, tsih |-> "0", disc |-> FALSE]}
Stay(w, c, k) == {[ok |-> TRUE, full |-> FALSE, why |-> "", w |-> [w EXCEPT !.conns[c] = k], tpgt |-> IF k.type = "Normal" /\ k.tgt \in DOMAIN w.tgts THEN Tags(w, k.tgt, k.dst) ELSE {}, tsih |-> "", disc |-> FALSE]}
SameNexus(s, k, g) == s.tgt = k.tgt /\ s.ini = k.ini /\ s.isid = k.isid /\ s.tpgt = g

Enter(w, c, k, r, tsih) ==
  IF k.type = "Discovery"
  THEN IF ~w.run THEN Refused(w, c, "service") ELSE IF r.tsih # "0" THEN Refused(w, c, "tsih")
       ELSE {[ok |-> TRUE, full |-> TRUE, why |-> "", w |-> [w EXCEPT !.conns[c] = [k EXCEPT !.st = "disc"]], tpgt |-> {}, tsih |-> "", disc |-> TRUE]}
  ELSE IF k.tgt \notin DOMAIN w.tgts THEN Refused(w, c, "target")
  ELSE IF Tags(w, k.tgt, k.dst) = {} THEN Refused(w, c, "portal")
  ELSE IF ~w.run THEN Refused(w, c, "service")
  ELSE UNION {
    LET old == {s \in w.sess : SameNexus(s, k, g)}
        w0 == [w EXCEPT !.conns[c] = [k EXCEPT !.st = "normal"]]
        new(t) == [tgt |-> k.tgt, ini |-> k.ini, isid |-> k.isid, tpgt |-> g, tsih |-> t, c |-> c, cid |-> k.cid]
    IN IF r.tsih = "0"
       THEN LET w1 == Kill(w0, {s.c : s \in old}) IN
            {[ok |-> TRUE, full |-> TRUE, why |-> "", w |-> [w1 EXCEPT !.sess = @ \union {new(tsih)}], tpgt |-> {g}, tsih |-> "", disc |-> FALSE]}
       ELSE LET m == {s \in old : s.tsih = r.tsih /\ s.cid = k.cid} IN
            IF m = {} THEN Refused(w, c, "tsih")
            ELSE LET w1 == Kill(w0, {s.c : s \in m}) IN
                 {[ok |-> TRUE, full |-> TRUE, why |-> "", w |-> [w1 EXCEPT !.sess = @ \union {new(r.tsih)}], tpgt |-> {g}, tsih |-> r.tsih, disc |-> FALSE]}
    : g \in Tags(w, k.tgt, k.dst)}

(* tsih: the handle the target reports, should this request complete the login *)
Login(w, c, r, tsih) ==
  LET k0 == w.conns[c]
      stage == IF k0.st = "op" THEN 1 ELSE 0
      type == Val(r.kv, "SessionType", k0.type)
      k1 == [k0 EXCEPT !.ini = Val(r.kv, "InitiatorName", @), !.tgt = Val(r.kv, "TargetName", @), !.type = type, !.isid = r.isid, !.cid = r.cid,
                       !.par = Params(@, r)]
      hopeless == k1.type = "Normal" /\ k1.tgt # "" /\ (k1.tgt \notin DOMAIN w.tgts \/ Tags(w, k1.tgt, k1.dst) = {})
  IN IF r.csg \notin {0, 1} \/ r.csg < stage THEN Refused(w, c, "stage")
     ELSE IF type \notin {"Normal", "Discovery"} THEN Refused(w, c, "type")
     ELSE IF r.csg = 0 /\ "AuthMethod" \in Offered(r.kv) /\ "None" \notin {The(r.kv, "AuthMethod").vs[j] : j \in 1..Len(The(r.kv, "AuthMethod").vs)}
          THEN Refused(w, c, "auth")
     ELSE IF r.csg = 1 /\ "MaxRecvDataSegmentLength" \in Offered(r.kv) /\ (The(r.kv, "MaxRecvDataSegmentLength").n < 512 \/ The(r.kv, "MaxRecvDataSegmentLength").n > 16777215)
          THEN Refused(w, c, "mrdsl")
     ELSE IF r.T /\ (r.nsg \notin {1, 3} \/ r.nsg <= r.csg) THEN Refused(w, c, "stage")
     ELSE IF r.T /\ r.nsg = 3 THEN Enter(w, c, k1, r, tsih)
     ELSE Stay(w, c, [k1 EXCEPT !.st = IF r.T \/ r.csg = 1 THEN "op" ELSE "sec"])
          \union (IF hopeless THEN Refused(w, c, "early") ELSE {})

-----------------------------------------------------------------------------
(* discovery *)
Addresses(w, t) == IF w.cluster = "" THEN UNION {{p \o "," \o g : p \in w.tgts[t][g]} : g \in DOMAIN w.tgts[t]}
                   ELSE {w.cluster \o "," \o g : g \in DOMAIN w.tgts[t]}
TextRight(w, want, pairs) ==
  LET n == Len(pairs)
      heads == {j \in 1..n : pairs[j][1] = "TargetName"}
      names == {pairs[j][2] : j \in heads}
      upto(j) == IF \E h \in heads : h > j THEN (CHOOSE h \in heads : h > j /\ \A x \in heads : x > j => x >= h) - 1 ELSE n
  IN /\ names = want /\ Cardinality(heads) = Cardinality(want)
     /\ n > 0 => 1 \in heads
     /\ \A j \in 1..n : pairs[j][1] \in {"TargetName", "TargetAddress"}
     /\ \A h \in heads : /\ {pairs[j][2] : j \in (h + 1)..upto(h)} = Addresses(w, pairs[h][2])
                         /\ upto(h) - h = Cardinality(Addresses(w, pairs[h][2]))
SendTargets(w, c, val) ==
  IF val = "All" THEN DOMAIN w.tgts
  ELSE IF val = "" THEN IF w.conns[c].st = "normal" THEN {w.conns[c].tgt} ELSE {}
  ELSE IF val \in DOMAIN w.tgts THEN {val} ELSE {}

(* transfer limits: pdus = <<length, last of its burst>> of a read of n bytes *)
RECURSIVE Bursts(_, _, _, _, _)
Bursts(pdus, j, sofar, par, left) ==
  IF j > Len(pdus) THEN left = 0 /\ sofar = 0
  ELSE LET seg == Min(par.seg, par.burst)
           l == pdus[j][1]
           f == pdus[j][2]
           rest == left - l
           s2 == sofar + l
       IN /\ l > 0 /\ l <= seg /\ rest >= 0 /\ s2 <= par.burst
          /\ (rest = 0) => f
          /\ (~f => l = seg)
          /\ (f /\ rest > 0) => s2 > par.burst - seg
          /\ Bursts(pdus, j + 1, IF f THEN 0 ELSE s2, par, rest)
R2tsRight(r2ts, n, imm, par) ==
  LET total == n - imm
      full == total \div par.burst
      tail == total % par.burst
      cnt == full + IF tail > 0 THEN 1 ELSE 0
  IN Len(r2ts) = cnt /\ \A j \in 1..cnt : r2ts[j] = IF j <= full THEN par.burst ELSE tail
=============================================================================
