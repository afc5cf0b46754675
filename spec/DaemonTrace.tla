----------------------------- MODULE DaemonTrace -----------------------------
(* Recorded lives of the real daemon (the gotgt program) against Daemon.tla. *)
EXTENDS Daemon, Json, IOUtils, SequencesExt
VARIABLES i, w, conf, seen, out
Trace == ndJsonDeserialize(IOEnv.TRACE)
R(x, c, b) == [w |-> x, conf |-> c, bad |-> b]
If(b, a) == IF b THEN {a} ELSE {}

ListBad(e) ==
  IF ~w.up THEN If(e.ok, "list-dead")
  ELSE If(~e.ok, "list-failed") \union
       (IF ~e.ok THEN {} ELSE
         If({t.name : t \in Range(e.targets)} # Served(w.conf) \/ Len(e.targets) # Cardinality(Served(w.conf)), "listing")
         \union If(\E t \in Range(e.targets) : t.name \in Served(w.conf) /\ t.n # Sessions(w, t.name), "list-sessions")
         \union If(\E t \in Range(e.targets) : t.name \in Served(w.conf) /\ Len(t.groups) # 0 /\ Range(t.groups[1]) # Groups(w.conf, t.name), "list-groups"))
DiscBad(e) ==
  IF ~w.up THEN If(e.ok, "served-dead")
  ELSE IF ~e.ok THEN If(~(w.opt.block /\ Hosts(w) # {} /\ e.src \notin Hosts(w)), "disc-refused")
  ELSE If({t.name : t \in Range(e.targets)} # Served(w.conf) \/ Len(e.targets) # Cardinality(Served(w.conf)), "disc-targets")
       \union If(\E t \in Range(e.targets) : t.name \in Served(w.conf) /\
                   (Range(t.addrs) # Endpoints(w.conf, t.name) \/ Len(t.addrs) # Cardinality(Endpoints(w.conf, t.name))), "disc-portals")
(* the session and unit that e is about *)
Known(e) == e.c \in DOMAIN w.sess
Tgt(e) == w.sess[e.c].tgt
There(e) == Tgt(e) \in Served(w.conf) /\ HasUnit(w.conf, Tgt(e), e.lun)
U(e) == Unit(w.conf, Tgt(e), e.lun)
UnitBad(e) ==
  IF ~There(e) THEN If(e.present, "lun-extra")
  ELSE IF ~e.present THEN {"lun-missing"}
  ELSE If(e.bs # Pow2(Shift(U(e))) \/ e.last + 1 # Blocks(w.files, U(e)), "capacity")
       \union If(e.thin # U(e).thin, "thin") \union If(e.ready # U(e).online, "online")
Step(e) ==
  CASE e.e = "reset" -> R(Fresh, NoConf, {})
    [] e.e = "file" ->       \* the driver makes or alters a file while the daemon is down
         R([w EXCEPT !.files = (e.name :> [bytes |-> e.bytes, cells |-> [k \in {x - 1 : x \in 1..Len(e.toks)} |-> {e.toks[k + 1]}]]) @@ w.files], conf, {})
    [] e.e = "grow" -> R([w EXCEPT !.files[e.name].bytes = e.bytes], conf, {})
    [] e.e = "rmfile" -> R([w EXCEPT !.files = Without(@, e.name)], conf, {})
    [] e.e = "conf" -> R(w, e.conf, {})
    [] e.e = "start" -> LET ok == ~w.up /\ Starts(conf, w.files, e.opt) IN
         R(IF ok /\ e.ok THEN Start(w, conf, e.opt) ELSE w, conf,
           If(ok /\ ~e.ok, "start-refused") \union If(~ok /\ e.ok, "start-accepted") \union If(~e.ok /\ e.code = 0, "start-status"))
    [] e.e = "end" -> R(Down(w), conf, If(e.sig # "kill" /\ e.code # 0, "end-status"))
    [] e.e = "list" -> R(w, conf, ListBad(e))
    [] e.e = "disc" -> R(w, conf, DiscBad(e))
    [] e.e = "login" -> LET ok == Admits(w, e.tgt, e.addr, e.src) IN
         R(IF e.ok THEN Enter(w, e.c, e.tgt, e.src) ELSE w, conf, If(ok /\ ~e.ok, "refused") \union If(~ok /\ e.ok, "admitted"))
    [] e.e = "left" -> R(Leave(w, e.c), conf, {})
    [] e.e = "stored" ->      \* what the file itself holds
         R(w, conf, If(e.bytes # w.files[e.name].bytes, "file-size")
                    \union If(\E k \in 1..Len(e.toks) : e.toks[k] \notin Held(w.files, e.name, k - 1), "file-content"))
    [] e.e = "bad" -> R(w, conf, {e.what})
    [] ~Known(e) -> R(w, conf, {})
    [] e.e = "luns" -> R(w, conf, If(Tgt(e) \in Served(w.conf) /\ (Range(e.luns) # {"0"} \union Luns(w.conf, Tgt(e)) \/ Len(e.luns) # Cardinality({"0"} \union Luns(w.conf, Tgt(e)))), "luns"))
    [] e.e = "unit" -> R(w, conf, UnitBad(e))
    [] e.e = "write" ->
         IF ~There(e) \/ ~InRange(w, U(e), e.lba, Len(e.toks)) THEN R(w, conf, If(e.ok, "write-accepted"))
         ELSE R(Put(w, U(e), e.lba, e.toks, e.ok), conf, If(~e.ok, "write-failed"))
    [] e.e = "sent" ->        \* a write that the end of the daemon may have overtaken
         IF ~There(e) \/ ~InRange(w, U(e), e.lba, Len(e.toks)) THEN R(w, conf, {})
         ELSE R(Put(w, U(e), e.lba, e.toks, FALSE), conf, {})
    [] e.e = "read" ->
         IF ~There(e) \/ ~InRange(w, U(e), e.lba, e.n) THEN R(w, conf, If(e.ok, "read-accepted"))
         ELSE IF ~e.ok THEN R(w, conf, {"read-failed"})
         ELSE LET right == Len(e.toks) = e.n /\ Seen(w, U(e), e.lba, e.toks) IN
              R(IF right THEN Put(w, U(e), e.lba, e.toks, TRUE) ELSE w, conf, If(~right, "content"))
    [] OTHER -> R(w, conf, {"unexplained"})
Init == i = 1 /\ w = Fresh /\ conf = NoConf /\ seen = {} /\ out = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         r == Step(e)
         new == r.bad \ (IF e.e = "reset" THEN {} ELSE seen)
         o == IF new = {} THEN out ELSE Append(out, <<i, SetToSeq(new)>>)
     IN /\ w' = r.w /\ conf' = r.conf
        /\ seen' = IF e.e = "reset" THEN {} ELSE seen \union r.bad
        /\ out' = o
        /\ IF i < Len(Trace) THEN TRUE ELSE JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), out |-> o])
  /\ i' = i + 1
=============================================================================
