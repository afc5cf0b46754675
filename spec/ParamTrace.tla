----------------------------- MODULE ParamTrace -----------------------------
(* Recorded requests for parameter data: known holds the longest data seen    *)
(* for each unit and request, until something the data depends on changes.    *)
EXTENDS Param, Json, IOUtils, SequencesExt
VARIABLES i, devs, maps, known, lists, seen, out
Trace == ndJsonDeserialize(IOEnv.TRACE)
None == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, v) == IF k \in DOMAIN f THEN f[k] ELSE v
S == [devs |-> devs, maps |-> maps, known |-> known, lists |-> lists]

Mapped(e) == e.tgt \in DOMAIN maps /\ e.lun \in DOMAIN maps[e.tgt]
Dev(e) == maps[e.tgt][e.lun]
Unit(e) == e.tgt \o "/" \o e.lun
Key(e, q) == <<Unit(e), q.class, q.page, q.sub, q.pc, q.dbd>>
ModeKey(e, q) == <<Unit(e), "mode", q.page, q.sub, q.pc, FALSE>>
Learn(e, q, k, d) ==      \* what complete data tells beyond itself
  LET u == Unit(e) l == Get(lists, u, [vpd |-> {}, pages |-> {}, ops |-> {}]) IN
  CASE q.class = "vpd" /\ q.page = 0 -> Put(lists, u, [l EXCEPT !.vpd = VpdList(d)])
    [] q.class \in {"mode6", "mode10"} /\ q.page = 63 /\ q.pc = 0 -> Put(lists, u, [l EXCEPT !.pages = ModeIds(q.class, d)])
    [] q.class = "ops" /\ q.page = 0 -> Put(lists, u, [l EXCEPT !.ops = Ops(d)])
    [] OTHER -> lists

Cmd(e) ==
  LET q == Req(e.cdb) d == e.raw k == Key(e, q)
      l == Get(lists, Unit(e), [vpd |-> {}, pages |-> {}, ops |-> {}])
      why == Refusal(q, l.vpd, l.pages)
      edtl == IF e.dir = "r" THEN e.edtl ELSE 0
      old == Get(known, k, <<>>)
      unsupp == IF e.cdb[1] \in l.ops /\ e.st = 2 /\ e.key = 5 /\ e.asc = 8192 THEN {"param-ops"} ELSE {}
  IN
  IF e.st = -1 THEN [s |-> S, bad |-> {"noresponse"}]
  ELSE IF q.class = "" \/ ~Mapped(e) THEN [s |-> S, bad |-> unsupp]
  ELSE IF e.st = 0 THEN
    IF why # <<>> /\ why # Free THEN [s |-> S, bad |-> {"param-served"}]
    ELSE
      LET lenOk == LenRight(q.class, d, q.alloc, edtl)
          whole == lenOk /\ IsComplete(q.class, d)
          form == whole => WellFormed(q, d, devs[Dev(e)])
          mode == q.class \in {"mode6", "mode10"} /\ whole /\ form
          body == IF mode THEN ModeBody(q.class, d) ELSE <<>>
          mk == ModeKey(e, q)
          allk == [mk EXCEPT ![3] = 63, ![4] = 0]
          same == mode => /\ Get(known, mk, body) = body
                          /\ (q.page # 63 /\ allk \in DOMAIN known) =>
                               LET b == known[allk] IN \E o \in TileFrom("page", b, 0) : PageAt(b, o) = body
          k1 == IF Len(d) > Len(old) THEN Put(known, k, d) ELSE known
          k2 == IF mode THEN Put(k1, mk, body) ELSE k1
      IN [s |-> [S EXCEPT !.known = IF lenOk THEN k2 ELSE known, !.lists = IF whole /\ form THEN Learn(e, q, k, d) ELSE lists],
          bad |-> (IF lenOk THEN {} ELSE {"param-len"}) \union (IF Agree(old, d) THEN {} ELSE {"param-diff"})
                  \union (IF form THEN {} ELSE {"param-form"}) \union (IF same THEN {} ELSE {"param-diff"})]
  ELSE IF why = <<>> THEN [s |-> S, bad |-> {"param-refused"} \union unsupp]
  ELSE [s |-> S, bad |-> (IF e.st # 2 THEN {"param-refused"} ELSE IF why = Free THEN (IF e.key = 5 THEN {} ELSE {"sense"})
                          ELSE IF <<e.key, e.asc>> = why THEN {} ELSE {"sense"})
                         \union (IF Len(d) > 0 THEN {"param-len"} ELSE {})]

Fresh == [S EXCEPT !.known = None, !.lists = None]
Step(e) ==
  CASE e.e = "reset" -> [s |-> [devs |-> e.devs, maps |-> e.maps, known |-> None, lists |-> None], bad |-> {}]
    [] e.e = "cmd" -> Cmd(e)
    [] e.e = "attr" -> [s |-> [Fresh EXCEPT !.devs = IF e.attr \in DOMAIN devs[e.dev] THEN [devs EXCEPT ![e.dev] = [devs[e.dev] EXCEPT ![e.attr] = e.v]] ELSE devs],
                        bad |-> {}]
    [] e.e = "resize" -> [s |-> [Fresh EXCEPT !.devs = [x \in DOMAIN devs |-> IF x \in DOMAIN e.n THEN [devs[x] EXCEPT !.n = e.n[x]] ELSE devs[x]]], bad |-> {}]
    [] e.e = "map" -> [s |-> [Fresh EXCEPT !.maps = Put(maps, e.tgt, e.luns)], bad |-> {}]
    [] e.e = "bad" -> [s |-> S, bad |-> {e.what}]
    [] OTHER -> [s |-> S, bad |-> {}]

Init == i = 1 /\ devs = None /\ maps = None /\ known = None /\ lists = None /\ seen = {} /\ out = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         r == Step(e)
         new == r.bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ devs' = r.s.devs /\ maps' = r.s.maps /\ known' = r.s.known /\ lists' = r.s.lists
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union r.bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
