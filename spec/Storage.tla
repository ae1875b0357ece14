------------------------------- MODULE Storage -------------------------------
(* Nodes of an application with persistent storage: what is saved for each node, what comes    *)
(* back after a restart, and what may be left behind by an interrupted save.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
ND == INSTANCE Node

(* nd: the nodes as in Node; ids: their ids (root * 1000 + end point); dir: the folder in use;  *)
(* disk: for each folder and id the possible contents [has, cls], one unless a save was cut off *)
Empty == [nodes |-> <<>>, lsn |-> <<>>, ctl |-> 1]
Nodes(net, ctl) == [ND!Init0([nodes |-> [k \in 1..Len(net) |-> [root |-> net[k].root, ep |-> net[k].ep, list |-> net[k].list, vers |-> <<>>]],
                              lsn |-> <<>>, ctl |-> ctl]) EXCEPT !.snap = 1]
Init0(cfg) == [nd |-> Nodes(<<>>, cfg.ctl), ids |-> <<>>, dir |-> 1, disk |-> <<>>, ctl |-> cfg.ctl]
R(s, x) == [s |-> s, exp |-> x]
None == [has |-> 0, cls |-> <<>>]
Some(cls) == [has |-> 1, cls |-> cls]
At(s, d, id) == LET q == SelectSeq(s.disk, LAMBDA x : x.dir = d /\ x.id = id) IN IF q = <<>> THEN <<None>> ELSE q[1].alts
Put(s, d, id, alts) == [s EXCEPT !.disk = Append(SelectSeq(@, LAMBDA x : ~(x.dir = d /\ x.id = id)), [dir |-> d, id |-> id, alts |-> alts])]
IdOfN(s, n) == s.ids[n]
RECURSIVE Saves(_, _)                              \* every announced update is saved as it was then
Saves(s, x) == IF x = <<>> THEN s
               ELSE IF x[1].k = "nodeUpdated" THEN Saves(Put(s, s.dir, IdOfN(s, x[1].n), <<Some(x[1].cls)>>), Tail(x))
               ELSE Saves(s, Tail(x))
RECURSIVE Maybe(_, _)                              \* every one of them may have been cut off
Maybe(s, x) == IF x = <<>> THEN s
               ELSE IF x[1].k = "nodeUpdated" THEN LET id == IdOfN(s, x[1].n)
                                                   IN Maybe(Put(s, s.dir, id, Append(At(s, s.dir, id), Some(x[1].cls))), Tail(x))
               ELSE Maybe(s, Tail(x))

(* the classes q of a freshly loaded node with the saved settings a *)
Restore(q, a) == [k \in 1..Len(q) |-> IF a.has = 1 /\ ND!HasId(a.cls, q[k].id) THEN [ND!ById(a.cls, q[k].id) EXCEPT !.sec = q[k].sec] ELSE q[k]]
(* what class x may hold after settings a were restored, Y being what early updates may have made of it *)
Held(x, Y, a) ==
  IF a.has = 1 /\ ND!HasId(a.cls, x.id)
  THEN LET z == [ND!ById(a.cls, x.id) EXCEPT !.sec = x.sec] IN {z} \cup {IF z.par = <<>> THEN [z EXCEPT !.par = y.par] ELSE z : y \in Y}
  ELSE {x} \cup Y
Fits(q, P, a, cls) == Len(cls) = Len(q) /\ \A k \in 1..Len(q) : cls[k] \in Held(q[k], {p[k] : p \in P}, a)

RECURSIVE Ops(_, _)
Ops(nd, q) == IF q = <<>> THEN R(nd, <<>>)
              ELSE LET r == ND!Do(nd, q[1] @@ [nxt |-> 0, obs |-> <<>>]) t == Ops(r.s, Tail(q)) IN R(t.s, r.exp \o t.exp)

(* ---- restart ---- *)
(* updates arriving before a node is known are lost *)
RECURSIVE Early(_, _)
Early(S, q) == IF q = <<>> THEN S
               ELSE Early(S \cup {ND!Do(nd, [op |-> "msg", id |-> 0, n |-> q[1].n, body |-> q[1].body, nxt |-> 0, obs |-> <<>>]).s : nd \in S}, Tail(q))
Boot(s, e) ==
  LET base == Nodes(e.net, s.ctl)
      late == Early({base}, SelectSeq(e.early, LAMBDA x : x.live = 0))
      known == SelectSeq(e.early, LAMBDA x : x.live = 1)    \* updates of nodes that are known already
      ids == [k \in 1..Len(e.net) |-> e.net[k].root * 1000 + e.net[k].ep]
      seen(k) == SelectSeq(e.obs, LAMBDA o : o.k = "restored" /\ o.id = ids[k])
      good(k) == SelectSeq(At(s, s.dir, ids[k]), LAMBDA a : seen(k) # <<>> /\ Fits(base.nd[k].cls, {x.nd[k].cls : x \in late}, a, seen(k)[1].cls))
      cls(k) == IF good(k) # <<>> THEN seen(k)[1].cls ELSE Restore(base.nd[k].cls, At(s, s.dir, ids[k])[1])
      RECURSIVE Settled(_, _)                      \* of the possible contents the one that was there
      Settled(x, k) == IF k = 0 THEN x ELSE Settled(IF good(k) = <<>> THEN x ELSE Put(x, s.dir, ids[k], good(k)), k - 1)
      up == [Settled(s, Len(ids)) EXCEPT !.ids = ids, !.nd = [base EXCEPT !.nd = [k \in 1..Len(ids) |-> [@[k] EXCEPT !.cls = cls(k)]]]]
      r == Ops(up.nd, [k \in 1..Len(known) |-> [op |-> "msg", id |-> k, n |-> known[k].n, body |-> known[k].body]])
      told == SelectSeq(r.exp, LAMBDA o : o.k = "nodeUpdated")
      after(k) == Saves(up, SubSeq(told, 1, k))
      \* whatever was found on disk while the updates came in is what was saved
      found == SelectSeq(e.obs, LAMBDA o : o.k = "found" /\ \E k \in 1..Len(ids) : ids[k] = o.id
                   /\ \E n \in 0..Len(told) : LET A == IF n = 0 THEN At(s, s.dir, o.id) ELSE At(after(n), s.dir, o.id)
                                                 IN \E j \in 1..Len(A) : o.cls = Restore(base.nd[k].cls, A[j]))
  IN R([after(Len(told)) EXCEPT !.nd = r.s],
       [k \in 1..Len(ids) |-> [k |-> "restored", at |-> 0, id |-> ids[k], cls |-> cls(k)]] \o told \o found
       \o <<[k |-> "ret", at |-> 0, id |-> 0, res |-> "none", v |-> <<>>]>>)

(* ---- interrupted saves ---- *)
(* ops[1] is interrupted, the others follow it unless the process died *)
Crash(s, e) ==
  LET first == ND!Do(s.nd, e.ops[1] @@ [nxt |-> 0, obs |-> <<>>])
      rest == Ops(first.s, Tail(e.ops))
      after(mode) == CASE mode = "kill" -> Maybe(s, first.exp)
                       [] mode = "err" -> Saves(Maybe(s, first.exp), rest.exp)
                       [] OTHER -> Saves(Saves(s, first.exp), rest.exp)
      base == Nodes(e.net, s.ctl)
      valid(o) == \E k \in 1..Len(s.ids) : s.ids[k] = o.id
                     /\ LET A == At(after(o.mode), s.dir, o.id) IN \E j \in 1..Len(A) : o.cls = Restore(base.nd[k].cls, A[j])
  IN R([after(e.final) EXCEPT !.nd = Nodes(<<>>, s.ctl), !.ids = <<>>], SelectSeq(e.obs, LAMBDA o : o.k = "found" /\ valid(o)))

Do(s, e) ==
  CASE e.op = "boot"  -> Boot(s, e)
    [] e.op = "crash" -> Crash(s, e)
    [] e.op = "path"  -> R([s EXCEPT !.dir = e.d], <<>>)
    [] OTHER          -> LET r == ND!Do(s.nd, e) IN R([Saves(s, r.exp) EXCEPT !.nd = r.s], r.exp)

(* ---- properties of the design ---- *)
Inv(s) ==
  /\ ND!Inv(s.nd)
  /\ Len(s.ids) = Len(s.nd.nd)
  /\ \A j, k \in 1..Len(s.disk) : j # k => s.disk[j].dir # s.disk[k].dir \/ s.disk[j].id # s.disk[k].id
  /\ \A k \in 1..Len(s.disk) : s.disk[k].alts # <<>>
StepOK(s, e) ==
  LET r == Do(s, e)
      keys == {<<d, s.disk[k].id>> : d \in 1..2, k \in 1..Len(s.disk)} \cup {<<d, s.ids[k]>> : d \in 1..2, k \in 1..Len(s.ids)}
      ann == IF e.op = "crash" THEN ND!Do(s.nd, e.ops[1] @@ [nxt |-> 0, obs |-> <<>>]).exp ELSE IF e.op \in {"boot", "path"} THEN <<>> ELSE r.exp
      told(id) == SelectSeq(ann, LAMBDA o : o.k = "nodeUpdated" /\ s.ids[o.n] = id)
      live(id) == e.op = "boot" /\ \E k \in 1..Len(e.early) : e.early[k].live = 1 /\ r.s.ids[e.early[k].n] = id
      contents(x, y) == {At(x, y[1], y[2])[j] : j \in 1..Len(At(x, y[1], y[2]))}
  IN /\ \A y \in keys :
          /\ (y[1] # s.dir \/ told(y[2]) = <<>>) /\ e.op # "crash" /\ ~live(y[2]) => contents(r.s, y) \subseteq contents(s, y)
          \* a crash leaves the old settings or new ones that were announced
          /\ e.op = "crash" => contents(r.s, y) \subseteq contents(s, y) \cup {Some(told(y[2])[j].cls) : j \in 1..Len(told(y[2]))} \/ Len(e.ops) > 1
          /\ e.op = "crash" /\ e.final = "kill" => contents(s, y) \subseteq contents(r.s, y)
          \* a save is of the node's present settings
          /\ e.op = "msg" /\ y[1] = s.dir /\ told(y[2]) # <<>> =>
               \E n \in 1..Len(s.ids) : s.ids[n] = y[2] /\ contents(r.s, y) = {Some(r.s.nd.nd[n].cls)}
     \* after a restart every class has its saved settings
     /\ e.op = "boot" /\ e.early = <<>> => \A n \in 1..Len(r.s.ids) :
          LET c == r.s.nd.nd[n].cls
              a == At(r.s, s.dir, r.s.ids[n])
          IN Len(a) >= 1 /\ (Len(a) = 1 /\ a[1].has = 1 => \A k \in 1..Len(c) : \A j \in 1..Len(a[1].cls) :
                 a[1].cls[j].id = c[k].id => [a[1].cls[j] EXCEPT !.sec = c[k].sec] = c[k])
=============================================================================
