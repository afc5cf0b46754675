------------------------------ MODULE DaemonMC ------------------------------
(* Lives of the daemon over a few configurations, all histories up to a number *)
(* of writes and starts.                                                        *)
EXTENDS Daemon
CONSTANTS Conns, Tokens, MaxWrites, MaxStarts, Blocking, Ends, Sources
VARIABLES w, conf, acked, cnt, act
P1 == "127.0.0.1:PORT"
P2 == "127.0.0.2:PORT"
Dv(d, f, sh, on, th) == [dev |-> d, scheme |-> "file", file |-> f, online |-> on, thin |-> th, shift |-> sh]
Ln(n, d) == [lun |-> n, num |-> TRUE, dev |-> d]
Gr(n, ids) == [n |-> n, ids |-> ids]
Tg(n, gs, ls) == [name |-> n, groups |-> gs, luns |-> ls]
Ports == <<[id |-> "0", addr |-> P1], [id |-> "7", addr |-> P2]>>
J(s, t) == [kind |-> "json", storages |-> s, portals |-> Ports, targets |-> t]
A1 == Dv("1", "a", 9, TRUE, FALSE)
B2 == Dv("2", "b", 12, TRUE, TRUE)
T0 == Tg("iqn.2026-01.verif:t0", <<Gr("1", <<"0">>), Gr("2", <<"7">>)>>, <<Ln("0", "1"), Ln("5", "2")>>)
T1 == Tg("iqn.2026-01.verif:t1", <<Gr("3", <<"7">>)>>, <<Ln("0", "2")>>)
Good == <<J(<<A1, B2>>, <<T0, T1>>),
          J(<<Dv("2", "a", 12, FALSE, FALSE), Dv("1", "b", 0, TRUE, FALSE)>>, <<T0, T1>>),
          J(<<A1, Dv("2", "a", 12, TRUE, TRUE)>>, <<T0, Tg("iqn.2026-01.verif:t1", <<Gr("3", <<"0", "9">>)>>, <<Ln("0", "2")>>)>>),
          J(<<B2>>, <<T1>>)>>
Bad == <<J(<<A1, Dv("1", "b", 9, TRUE, FALSE)>>, <<T0>>), J(<<A1>>, <<T0>>), J(<<A1, Dv("2", "none", 9, TRUE, FALSE)>>, <<T0>>),
         J(<<A1, [B2 EXCEPT !.scheme = "tape"]>>, <<T0>>), J(<<A1, B2>>, <<[T0 EXCEPT !.luns[1].num = FALSE]>>),
         [NoConf EXCEPT !.kind = "broken"], NoConf>>
Confs == Good \o Bad
Names == {"iqn.2026-01.verif:t0", "iqn.2026-01.verif:t1"}
Fs == ("a" :> [bytes |-> 8704, cells |-> <<>>]) @@ ("b" :> [bytes |-> 8192, cells |-> <<>>])

vars == <<w, conf, acked, cnt, act>>
Init == /\ w = [Fresh EXCEPT !.files = Fs] /\ conf = Good[1] /\ acked = <<>> /\ cnt = [wr |-> 0, st |-> 0]
        /\ act = [k |-> "init", file |-> ""]
Do(k, f) == act' = [k |-> k, file |-> f]
Configure == \E j \in 1..Len(Confs) : ~w.up /\ conf # Confs[j] /\ conf' = Confs[j] /\ Do("conf", "") /\ UNCHANGED <<w, acked, cnt>>
Begin == \E b \in Blocking, busy \in BOOLEAN : /\ ~w.up /\ cnt.st < MaxStarts
           /\ w' = Start(w, conf, [NoOpt EXCEPT !.block = b, !.busy = busy]) /\ cnt' = [cnt EXCEPT !.st = @ + 1] /\ Do("start", "") /\ UNCHANGED <<conf, acked>>
End == \E s \in Ends : w.up /\ w' = Down(w) /\ Do("end", "") /\ UNCHANGED <<conf, acked, cnt>>
Join == \E c \in Conns \ DOMAIN w.sess, t \in Names, a \in {P1, P2}, src \in Sources :
          /\ Admits(w, t, a, src) /\ w' = Enter(w, c, t, src) /\ Do("login", "") /\ UNCHANGED <<conf, acked, cnt>>
Part == \E c \in DOMAIN w.sess : w' = Leave(w, c) /\ Do("leave", "") /\ UNCHANGED <<conf, acked, cnt>>
Ack(s, lba, toks, sure) ==
  LET base == lba * Pow2(Shift(s) - 9)
      new == {<<s.file, base + k - 1>> : k \in 1..Len(toks)}
      old(x) == IF x \in DOMAIN acked THEN acked[x] ELSE <<>>
      t(x) == toks[x[2] - base + 1]
  IN [x \in DOMAIN acked \union new |-> IF x \notin new THEN acked[x] ELSE IF sure THEN <<t(x)>> ELSE Append(IF old(x) = <<>> THEN <<0>> ELSE old(x), t(x))]
Write == \E c \in DOMAIN w.sess, t \in Tokens, lba \in 0..1, sure \in BOOLEAN : \E lun \in Luns(w.conf, w.sess[c].tgt) :
          LET s == Unit(w.conf, w.sess[c].tgt, lun)
              toks == [k \in 1..Pow2(Shift(s) - 9) |-> t]
          IN /\ cnt.wr < MaxWrites /\ InRange(w, s, lba, Len(toks))
             /\ LET w1 == Put(w, s, lba, toks, sure) IN w' = IF sure THEN w1 ELSE Down(w1)
             /\ acked' = Ack(s, lba, toks, sure) /\ cnt' = [cnt EXCEPT !.wr = @ + 1] /\ Do("write", s.file) /\ UNCHANGED conf
Next == Configure \/ Begin \/ End \/ Join \/ Part \/ Write

(* only what can be honoured is ever served, and only while the daemon runs *)
ServesHonourable == /\ w.up => Honourable(w.conf, w.files) /\ w.conf \in {Confs[j] : j \in 1..Len(Confs)}
                    /\ ~w.up => w.sess = <<>>
SessionsReachable == \A c \in DOMAIN w.sess : \E a \in {P1, P2} : Reachable(w.conf, w.sess[c].tgt, a)
OneHost == w.opt.block /\ w.up => Cardinality(Hosts(w)) <= 1
(* whatever was acknowledged last is there, in this life and the next ones; only writes in flight at an end may differ *)
Durable == \A x \in DOMAIN acked : Held(w.files, x[1], x[2]) = {acked[x][j] : j \in 1..Len(acked[x])}
NothingElse == \A f \in DOMAIN w.files : \A k \in DOMAIN w.files[f].cells : <<f, k>> \in DOMAIN acked
InsideFile == \A f \in DOMAIN w.files : \A k \in DOMAIN w.files[f].cells : (k + 1) * 512 <= w.files[f].bytes
(* each unit's blocks fit the file whatever the block size *)
Fits == w.up => \A s \in Range(w.conf.storages) : Blocks(w.files, s) * Pow2(Shift(s)) <= w.files[s.file].bytes
Isolated == [][\A f \in DOMAIN w.files : w'.files[f] # w.files[f] => act'.k = "write" /\ act'.file = f]_vars
StaysRefused == [][w'.up /\ ~w.up => Starts(conf, w.files, w'.opt)]_vars
=============================================================================
