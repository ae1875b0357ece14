------------------------------- MODULE System -------------------------------
(* The whole system: an application with a gateway connection and a storage folder on one side, *)
(* a Z/IP gateway with its network of nodes on the other.  The gateway side answers at once       *)
(* (confirmations of commands to nodes aside); what happens in between is the matter of the other *)
(* modules.  An entry is numbered root * 1000 + end point.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
W == INSTANCE Wire
N == INSTANCE Node

(* net: the nodes of the network [id, ip, lst, eps, vers, reps, grp, typ]; reg: registry entries  *)
(* [id, cls]; saved: what the storage folder holds; con: nodes a connection is open to; out:      *)
(* commands of the user not ended yet                                                             *)
Init0(cfg) == [ctl |-> cfg.ctl, on |-> FALSE, net |-> cfg.net, reg |-> <<>>, saved |-> <<>>, con |-> {}, out |-> <<>>]

R(s, x) == [s |-> s, exp |-> x]
Then(r, F(_)) == LET q == F(r.s) IN R(q.s, r.exp \o q.exp)
No == <<0>>

(* ---- observations ---- *)
Ret(d, res, v, at) == [k |-> "ret", id |-> d, res |-> res, v |-> v, at |-> at]
TxO(ip, ep, body) == [k |-> "tx", ip |-> ip, sep |-> 0, dep |-> ep, body |-> body, at |-> 0]
AckO(ip, body) == [k |-> "uack", ip |-> ip, body |-> body, at |-> 0]
LsnO(d, c, m) == [k |-> "lsn", id |-> d, c |-> c, m |-> m, at |-> 0]
IdO(kind, d) == [k |-> kind, id |-> d, at |-> 0]
IdsO(kind, q) == [k |-> kind, ids |-> q, at |-> 0]
MsgO(kind, m) == [k |-> kind, m |-> m, at |-> 0]
AddO(d, cls) == [k |-> "nodeAdded", id |-> d, cls |-> cls, at |-> 0]

(* ---- network and registry ---- *)
Root(d) == d \div 1000
EpOf(d) == d % 1000
InNet(s, n) == \E k \in 1..Len(s.net) : s.net[k].id = n
NodeOf(s, n) == s.net[CHOOSE k \in 1..Len(s.net) : s.net[k].id = n]
InReg(s, d) == \E k \in 1..Len(s.reg) : s.reg[k].id = d
Entry(s, d) == s.reg[CHOOSE k \in 1..Len(s.reg) : s.reg[k].id = d]
SetEntry(s, x) == [s EXCEPT !.reg = [k \in 1..Len(@) |-> IF @[k].id = x.id THEN x ELSE @[k]]]
HasC(q, c) == \E k \in 1..Len(q) : q[k].id = c
GetC(q, c) == q[CHOOSE k \in 1..Len(q) : q[k].id = c]
MultiChannel == 96
Gateway == 0                 \* its address

(* what the storage folder holds for entry d *)
Saved(s, d) == LET q == SelectSeq(s.saved, LAMBDA x : x.id = d) IN IF q = <<>> THEN <<>> ELSE q[1].cls
Save(s, d) == [s EXCEPT !.saved = Append(SelectSeq(@, LAMBDA x : x.id # d), Entry(s, d))]
Restored(s, d, cls) == [k \in 1..Len(cls) |-> IF HasC(Saved(s, d), cls[k].id) THEN GetC(Saved(s, d), cls[k].id) ELSE cls[k]]

Fresh(s, d, lst) == [id |-> d, cls |-> Restored(s, d, N!Classes(lst, TRUE))]
Entries(s, x) == LET root == Fresh(s, x.id * 1000, x.lst)
                 IN <<root>> \o (IF HasC(root.cls, MultiChannel) THEN [e \in 1..Len(x.eps) |-> Fresh(s, x.id * 1000 + e, x.eps[e])] ELSE <<>>)
RECURSIVE Loaded(_, _)
Loaded(s, q) == IF q = <<>> THEN <<>> ELSE Entries(s, Head(q)) \o Loaded(s, Tail(q))
EntryIds(q) == SortSeq([k \in 1..Len(q) |-> q[k].id], <)

(* the registry follows the network *)
Follow(s, first) ==
  LET gone == SelectSeq(s.reg, LAMBDA x : ~InNet(s, Root(x.id)))
      s1 == [s EXCEPT !.reg = SelectSeq(@, LAMBDA x : InNet(s, Root(x.id))), !.con = {n \in @ : InNet(s, n)}]
      new == Loaded(s, SelectSeq(s.net, LAMBDA x : ~InReg(s, x.id * 1000)))
  IN R([s1 EXCEPT !.reg = @ \o new],
       [k \in 1..Len(gone) |-> IdO("nodeRemoved", gone[k].id)]
       \o (IF gone = <<>> THEN <<>> ELSE <<IdsO("nodesRemoved", EntryIds(gone))>>)
       \o (IF new = <<>> /\ ~first THEN <<>> ELSE <<IdsO("nodesAdded", EntryIds(new))>>)
       \o [k \in 1..Len(new) |-> AddO(new[k].id, new[k].cls)])

Start(s, e) == Then(Follow([s EXCEPT !.on = TRUE], TRUE), LAMBDA x : R(x, <<Ret(e.id, "none", <<>>, 0)>>))
Change(s, e) == IF s.on THEN Follow([s EXCEPT !.net = e.net], FALSE) ELSE R([s EXCEPT !.net = e.net], <<>>)
Restart(s, e) == R([s EXCEPT !.on = FALSE, !.reg = <<>>, !.con = {}, !.out = <<>>], <<>>)

(* ---- commands of the user ---- *)
Cmd(s, e) ==
  IF ~InReg(s, e.ent) THEN R(s, <<>>)
  ELSE R([s EXCEPT !.con = @ \cup {Root(e.ent)},
                   !.out = Append(@, [id |-> e.id, ent |-> e.ent, st |-> "ack", rem |-> IF e.want = 0 THEN e.to ELSE 30, to |-> e.to, want |-> e.want, got |-> <<>>])],
         <<TxO(NodeOf(s, Root(e.ent)).ip, EpOf(e.ent), e.body)>>)
Drop(s, o) == [s EXCEPT !.out = SelectSeq(@, LAMBDA x : x.id # o.id)]
PutOut(s, o) == [s EXCEPT !.out = [k \in 1..Len(@) |-> IF @[k].id = o.id THEN o ELSE @[k]]]
Ack(s, e) ==                 \* the delivery of command e.id is confirmed
  LET q == SelectSeq(s.out, LAMBDA o : o.id = e.id /\ o.st = "ack" /\ Root(o.ent) \in s.con) IN
  IF q = <<>> THEN R(s, <<>>)
  ELSE LET o == q[1] IN
       IF o.want = 0 THEN R(Drop(s, o), <<Ret(o.id, "true", <<>>, 0)>>)
       ELSE IF o.got # <<>> THEN R(Drop(s, o), <<Ret(o.id, "msg", o.got[1], 0)>>)
       ELSE R(PutOut(s, [o EXCEPT !.st = "rsp", !.rem = o.to]), <<>>)
Queued(s, e) ==              \* it waits for a sleeping node
  LET q == SelectSeq(s.out, LAMBDA o : o.id = e.id /\ o.st = "ack" /\ Root(o.ent) \in s.con) IN
  IF q = <<>> THEN R(s, <<>>) ELSE R(PutOut(s, [q[1] EXCEPT !.rem = 10 * e.delay + 600]), <<>>)

(* ---- commands of the nodes ---- *)
RECURSIVE Wake(_, _, _)
Wake(s, q, m) ==
  IF q = <<>> THEN R(s, <<>>)
  ELSE LET o == Head(q)
       IN Then(IF o.st = "rsp" THEN R(Drop(s, o), <<Ret(o.id, "msg", m, 0)>>) ELSE R(PutOut(s, [o EXCEPT !.got = <<m>>]), <<>>),
               LAMBDA x : Wake(x, Tail(q), m))
(* the user listens to the classes 32 (and takes its commands) and 49 of every entry, and to the entry itself *)
Heard(s, d, m, h) ==         \* h: whether a request of the user took it
  LET c == m.hid \div 256
      flat == W!Flat(m)
      cls == Entry(s, d).cls
      node == [s |-> s, exp |-> IF h THEN <<>> ELSE <<LsnO(d, 0, flat)>>, h |-> h]
  IN IF ~HasC(cls, c) \/ ~W!Known(m.hid) THEN node
     ELSE CASE c = 32 -> [s |-> s, exp |-> <<LsnO(d, 32, flat)>>, h |-> TRUE]
            [] m.hid = 12549 ->
                 IF N!Suppressed(GetC(cls, 49), m) THEN [s |-> s, exp |-> <<>>, h |-> TRUE]
                 ELSE [node EXCEPT !.exp = <<LsnO(d, 49, flat)>> \o @]
            [] m.hid = 28678 /\ m.f[1] # No /\ m.f[3] # No ->
                 LET x == GetC(cls, 112)
                     y == [x EXCEPT !.par = N!PutBy(@, [id |-> m.f[1][2], val |-> Tail(m.f[3]), size |-> m.f[2][2]], N!IdOf)]
                     s1 == SetEntry(s, [id |-> d, cls |-> [k \in 1..Len(cls) |-> IF cls[k].id = 112 THEN y ELSE cls[k]]])
                 IN [s |-> Save(s1, d), exp |-> <<>>, h |-> TRUE]
            [] OTHER -> node
Handle(s, d, m) ==
  LET live == SelectSeq(s.out, LAMBDA o : o.ent = d /\ o.want # 0 /\ o.want = m.hid /\ o.got = <<>>)
      w == Wake(s, live, W!Flat(m))
      r == Heard(w.s, d, m, live # <<>>)
  IN [s |-> r.s, exp |-> w.exp \o r.exp, h |-> r.h]
Arrived(s, n, ep, body) ==
  LET d == n * 1000 + ep
      m == W!Decode(body)
  IN IF ~InReg(s, d) THEN R(s, <<>>)
     ELSE IF m.hid # 27649 THEN LET r == Handle(s, d, m) IN R(r.s, r.exp)
     ELSE IF m.f[2] = No THEN R(s, <<>>)
     ELSE LET r == IF m.f[3] = No THEN [s |-> s, exp |-> <<>>, h |-> FALSE]
                   ELSE Handle(s, d, [hid |-> m.f[3][2], f |-> W!Unflat(SubSeq(m.f[3], 3, Len(m.f[3])))])
          IN R([r.s EXCEPT !.con = @ \cup {n}],
               Append(r.exp, TxO(NodeOf(s, n).ip, ep, <<108, 2, m.f[2][2], IF r.h THEN 255 ELSE 0, 0>>)))
Uns(s, e) ==                 \* on the unsolicited port, from address e.ip
  LET q == SelectSeq(s.net, LAMBDA x : x.ip = e.ip) IN
  IF ~s.on \/ (q = <<>> /\ e.ip # Gateway) THEN R(s, <<>>)
  ELSE Then(R(s, IF e.ask = 1 THEN <<AckO(e.ip, <<35, 2, 64, 16, e.seq, e.dep, e.sep>>)>> ELSE <<>>),
            LAMBDA x : IF e.ip = Gateway THEN R(x, <<MsgO("messageReceived", W!Flat(W!Decode(e.body)))>>)
                       ELSE Arrived(x, q[1].id, e.sep, e.body))
Con(s, e) == IF e.node \in s.con THEN Arrived(s, e.node, e.sep, e.body) ELSE R(s, <<>>)   \* on the node's own connection

Ctl(s, e) ==                 \* the controller itself, on the gateway's connection
  LET m == W!Decode(e.body)
  IN R(s, IF ~s.on THEN <<>>
          ELSE <<MsgO(CASE m.hid = 13314 -> "addNodeStatus" [] m.hid = 13316 -> "removeNodeStatus" [] OTHER -> "messageReceived", W!Flat(m))>>)

(* ---- an interview, with a node that answers everything ---- *)
VerOf(x, c) == LET q == SelectSeq(x.vers, LAMBDA v : v[1] = c) IN IF q = <<>> THEN 0 ELSE q[1][2]
RepOf(x, c) == LET q == SelectSeq(x.reps, LAMBDA v : v[1] = c) IN IF q = <<>> THEN <<>> ELSE SubSeq(q[1], 2, Len(q[1]))
(* the groups the node has once its lifeline is set *)
Lifeline(s, cls, grp) ==
  IF ~HasC(cls, 94) \/ ~HasC(grp, 1) THEN grp
  ELSE IF N!HasMember(GetC(grp, 1).mem, s.ctl) THEN grp
  ELSE [k \in 1..Len(grp) |-> IF grp[k].id = 1 THEN [grp[k] EXCEPT !.mem = @ \o <<s.ctl, -1>>] ELSE grp[k]]
Learned(s, cls, x, c0) ==
  LET v == IF c0.ver # 0 THEN c0.ver ELSE VerOf(x, c0.id)
      c == [c0 EXCEPT !.ver = v, !.iv = 1]
      m == W!Decode(RepOf(x, c.id))
  IN IF v = 0 THEN c0
     ELSE CASE c.id \in {134, 94, 114} ->
                 LET y == [c EXCEPT !.num = N!SetNums(@, m.f, 1)]
                 IN IF \E k \in 1..Len(c.num) : m.f[k] = No THEN [y EXCEPT !.iv = 0] ELSE y
            [] c.id = 49 /\ v >= 5 -> [c EXCEPT !.typ = x.typ]
            [] c.id = 133 -> [c EXCEPT !.grp = Lifeline(s, cls, x.grp)]
            [] OTHER -> c
Interview(s, e) ==
  IF ~InReg(s, e.ent) THEN R(s, <<>>)
  ELSE LET n == Root(e.ent)
           x == NodeOf(s, n)
           cls == Entry(s, e.ent).cls
           y == [k \in 1..Len(cls) |-> Learned(s, cls, x, cls[k])]
           grp == IF HasC(y, 133) /\ GetC(y, 133).ver # 0 THEN Lifeline(s, cls, x.grp) ELSE x.grp
           s1 == [SetEntry(s, [id |-> e.ent, cls |-> y]) EXCEPT !.con = @ \cup {n},
                    !.net = [k \in 1..Len(@) |-> IF @[k].id = n THEN [@[k] EXCEPT !.grp = grp] ELSE @[k]]]
           asked == \E k \in 1..Len(cls) : cls[k].ver = 0 \/ cls[k].id \in {134, 94, 114, 133, 89} \/ (cls[k].id = 49 /\ cls[k].ver >= 5)
           saved == \E k \in 1..Len(cls) : y[k].ver # 0 \/ cls[k].ver = 0
       IN R(LET s2 == IF saved THEN Save(s1, e.ent) ELSE s1 IN IF asked THEN s2 ELSE [s2 EXCEPT !.con = s.con],
            <<Ret(e.id, "none", <<>>, 0)>>)

(* ---- time ---- *)
RECURSIVE MinRem(_, _)
MinRem(q, m) == IF q = <<>> THEN m ELSE MinRem(Tail(q), IF Head(q).rem < m THEN Head(q).rem ELSE m)
RECURSIVE Elapse(_, _, _)
Elapse(s, d, at) ==
  LET n == MinRem(s.out, 1000000000) IN
  IF n > d THEN R([s EXCEPT !.out = [k \in 1..Len(@) |-> [@[k] EXCEPT !.rem = @ - d]]], <<>>)
  ELSE LET dead == SelectSeq(s.out, LAMBDA o : o.rem = n)
           s1 == [s EXCEPT !.out = LET q == SelectSeq(@, LAMBDA o : o.rem # n) IN [k \in 1..Len(q) |-> [q[k] EXCEPT !.rem = @ - n]]]
       IN Then(R(s1, [k \in 1..Len(dead) |-> Ret(dead[k].id, IF dead[k].want = 0 THEN "false" ELSE "timeout", <<>>, at + n)]),
               LAMBDA x : Elapse(x, d - n, at + n))

Look(s, e) == R(s, [k \in 1..Len(s.reg) |-> [k |-> "rec", id |-> s.reg[k].id, cls |-> s.reg[k].cls, at |-> 0]])

Do(s, e) ==
  CASE e.op = "start"   -> Start(s, e)
    [] e.op = "restart" -> Restart(s, e)
    [] e.op = "change"  -> Change(s, e)
    [] e.op = "cmd"     -> Cmd(s, e)
    [] e.op = "ack"     -> Ack(s, e)
    [] e.op = "queued"  -> Queued(s, e)
    [] e.op = "uns"     -> Uns(s, e)
    [] e.op = "con"     -> Con(s, e)
    [] e.op = "ctl"     -> Ctl(s, e)
    [] e.op = "iv"      -> Interview(s, e)
    [] e.op = "adv"     -> Elapse(s, e.dt, 0)
    [] e.op = "look"    -> Look(s, e)
    [] OTHER -> R(s, <<>>)

(* ---- properties of the design ---- *)
Regs(s) == {s.reg[k].id : k \in 1..Len(s.reg)}
Inv(s) ==
  /\ Cardinality(Regs(s)) = Len(s.reg)
  /\ (s.on => {Root(d) : d \in Regs(s)} = {s.net[k].id : k \in 1..Len(s.net)})
  /\ (~s.on => s.reg = <<>> /\ s.out = <<>> /\ s.con = {})
  /\ \A n \in s.con : InNet(s, n)
  /\ \A k \in 1..Len(s.out) : s.out[k].rem > 0 /\ (s.out[k].st = "rsp" => s.out[k].want # 0 /\ s.out[k].got = <<>>)
  (* what the registry knows is what the folder holds, or nothing worth saving was learned yet *)
  /\ \A k \in 1..Len(s.reg) : LET d == s.reg[k].id IN Saved(s, d) # <<>> => Saved(s, d) = s.reg[k].cls
StepOK(s, e) ==
  LET r == Do(s, e)
      txs == SelectSeq(r.exp, LAMBDA o : o.k = "tx")
      lsn == SelectSeq(r.exp, LAMBDA o : o.k = "lsn")
      rets == SelectSeq(r.exp, LAMBDA o : o.k = "ret")
  IN /\ Len(txs) <= 1                                     \* everything goes to exactly one address and end point
     /\ \A k \in 1..Len(txs) : \E n \in r.s.con : NodeOf(r.s, n).ip = txs[k].ip /\
            CASE e.op = "cmd" -> n = Root(e.ent) /\ txs[k].dep = EpOf(e.ent) /\ txs[k].body = e.body
              [] e.op = "uns" -> e.ip = txs[k].ip /\ txs[k].dep = e.sep
              [] e.op = "con" -> n = e.node /\ txs[k].dep = e.sep
              [] OTHER -> FALSE
     /\ \A k \in 1..Len(lsn) : /\ lsn[k].id \in Regs(s)   \* and comes from exactly one entry
                               /\ EpOf(lsn[k].id) = e.sep
                               /\ (e.op = "uns" => NodeOf(s, Root(lsn[k].id)).ip = e.ip)
     /\ Cardinality({rets[k].id : k \in 1..Len(rets)}) = Len(rets)
     /\ \A k \in 1..Len(rets) : rets[k].res = "true" => e.op = "ack" /\ rets[k].id = e.id
=============================================================================
