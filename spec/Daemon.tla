------------------------------- MODULE Daemon -------------------------------
(* The daemon over its whole life: a configuration, files holding the data,   *)
(* starts that succeed or are refused, sessions, and ends of every kind.      *)
(*   c: configuration [kind, storages, portals, targets]                      *)
(*        storages: sequence of [dev, scheme, file, online, thin, shift]      *)
(*        portals: sequence of [id, addr]                                     *)
(*        targets: sequence of [name, groups: seq of [n, ids], luns: seq of [lun, num, dev]] *)
(*   f: file name -> [bytes, cells: cell -> set of tokens it may hold]        *)
(*      (a cell is 512 bytes; one not in the domain holds 0)                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == {s[j] : j \in 1..Len(s)}
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] OTHER -> 2^n
NoConf == [kind |-> "absent", storages |-> <<>>, portals |-> <<>>, targets |-> <<>>]
NoOpt == [log |-> "info", driver |-> "iscsi", block |-> FALSE, busy |-> FALSE]

Devices(c) == {s.dev : s \in Range(c.storages)}
Usable(s, f) == s.scheme = "file" /\ s.file \in DOMAIN f
(* a configuration that can be served *)
Honourable(c, f) ==
  CASE c.kind = "absent" -> TRUE
    [] c.kind = "json" -> /\ \A j, k \in 1..Len(c.storages) : j # k => c.storages[j].dev # c.storages[k].dev
                          /\ \A s \in Range(c.storages) : Usable(s, f)
                          /\ \A t \in Range(c.targets) : \A l \in Range(t.luns) : l.num /\ l.dev \in Devices(c)
    [] OTHER -> FALSE
Starts(c, f, opt) == /\ opt.log \in {"info", "warn", "debug", "panic", "fatal", "error"} /\ opt.driver = "iscsi" /\ ~opt.busy
                     /\ Honourable(c, f)
PortalIds(c) == {p.id : p \in Range(c.portals)}
(* a target all of whose portals exist is served *)
Served(c) == {t.name : t \in {x \in Range(c.targets) : \A g \in Range(x.groups) : Range(g.ids) \subseteq PortalIds(c)}}
TheTarget(c, n) == CHOOSE t \in Range(c.targets) : t.name = n
Addr(c, id) == (CHOOSE p \in Range(c.portals) : p.id = id).addr
Groups(c, n) == {g.n : g \in Range(TheTarget(c, n).groups)}
Endpoints(c, n) == UNION {{<<Addr(c, id), g.n>> : id \in Range(g.ids)} : g \in Range(TheTarget(c, n).groups)}
Reachable(c, n, addr) == n \in Served(c) /\ \E e \in Endpoints(c, n) : e[1] = addr
Luns(c, n) == {l.lun : l \in Range(TheTarget(c, n).luns)}
HasUnit(c, n, lun) == lun \in Luns(c, n)
Unit(c, n, lun) == LET d == (CHOOSE l \in Range(TheTarget(c, n).luns) : l.lun = lun).dev
                   IN CHOOSE s \in Range(c.storages) : s.dev = d
Shift(s) == IF s.shift = 0 THEN 9 ELSE s.shift
Blocks(f, s) == f[s.file].bytes \div Pow2(Shift(s))
Cells(s, lba, n) == {lba * Pow2(Shift(s) - 9) + k : k \in 0..(n - 1)}
Held(f, file, k) == IF k \in DOMAIN f[file].cells THEN f[file].cells[k] ELSE {0}

-----------------------------------------------------------------------------
(* w: [up, conf, opt, files, sess], sess: connection -> [tgt, src] *)
Fresh == [up |-> FALSE, conf |-> NoConf, opt |-> NoOpt, files |-> <<>>, sess |-> <<>>]
Start(w, c, opt) == IF ~w.up /\ Starts(c, w.files, opt) THEN [w EXCEPT !.up = TRUE, !.conf = c, !.opt = opt, !.sess = <<>>] ELSE w
Down(w) == [w EXCEPT !.up = FALSE, !.sess = <<>>]
Without(fn, c) == [x \in DOMAIN fn \ {c} |-> fn[x]]
Hosts(w) == {w.sess[x].src : x \in DOMAIN w.sess}
Admits(w, tgt, addr, src) == w.up /\ Reachable(w.conf, tgt, addr) /\ (w.opt.block /\ Hosts(w) # {} => src \in Hosts(w))
(* a second session of one initiator would take the first one over: the connections have initiators of their own *)
Enter(w, c, tgt, src) == [w EXCEPT !.sess = (c :> [tgt |-> tgt, src |-> src]) @@ @]
Leave(w, c) == [w EXCEPT !.sess = Without(@, c)]
Sessions(w, tgt) == Cardinality({x \in DOMAIN w.sess : w.sess[x].tgt = tgt})
(* data *)
Put(w, s, lba, toks, sure) ==
  LET base == lba * Pow2(Shift(s) - 9)
      f == w.files[s.file]
      news == {base + k - 1 : k \in 1..Len(toks)}
  IN [w EXCEPT !.files[s.file].cells =
        [k \in DOMAIN f.cells \union news |-> IF k \notin news THEN f.cells[k]
                                              ELSE IF sure THEN {toks[k - base + 1]} ELSE Held(w.files, s.file, k) \union {toks[k - base + 1]}]]
Seen(w, s, lba, toks) ==
  LET base == lba * Pow2(Shift(s) - 9) IN \A k \in 1..Len(toks) : toks[k] \in Held(w.files, s.file, base + k - 1)
InRange(w, s, lba, ncells) == lba * Pow2(Shift(s) - 9) + ncells <= Blocks(w.files, s) * Pow2(Shift(s) - 9)
=============================================================================
