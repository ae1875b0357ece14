-------------------------------- MODULE App --------------------------------
(* The application: its registry of nodes, the announcements about it, and the routing of      *)
(* messages.  Startup and updates of the node list are worked on one after the other; every    *)
(* step that asks the adapter (or waits for slow listeners) ends at st and goes on when the    *)
(* answer arrives.  A node entry is numbered root * 1000 + end point; 0 stands for a node      *)
(* outside the network.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
W == INSTANCE Wire

(* reg: known entries in order; ann: those announced; q: startups and updates, the first one being worked on; *)
(* rem: calls removing a failed node that wait for the gateway's answer; loose: a startup was given up and     *)
(* nothing has been processed since                                                                            *)
Init0(cfg) == [slow |-> cfg.slow, ctl |-> cfg.ctl, reg |-> <<>>, ann |-> {}, q |-> <<>>,
               st |-> "idle", todo |-> {}, new |-> <<>>, rm |-> <<>>, rmd |-> <<>>, cur |-> 0, ep |-> 0, cnt |-> 0, rem |-> <<>>, loose |-> 0]

R(s, x) == [s |-> s, exp |-> x]
Then(r, F(_)) == LET q == F(r.s) IN R(q.s, r.exp \o q.exp)
AskO(what, a, b) == [k |-> "ask", what |-> what, a |-> a, b |-> b, at |-> 0]
IdO(kind, d) == [k |-> kind, id |-> d, at |-> 0]
IdsO(kind, q) == [k |-> kind, ids |-> q, at |-> 0]
AddO(x) == [k |-> "nodeAdded", entry |-> x, at |-> 0]
MsgO(kind, d, m) == [k |-> kind, id |-> d, m |-> m, at |-> 0]
RetO(d) == [k |-> "ret", id |-> d, res |-> "none", at |-> 0]
DoneO(d, b) == [k |-> "ret", id |-> d, res |-> IF b THEN "true" ELSE "false", at |-> 0]
RegO(q) == [k |-> "reg", list |-> q, at |-> 0]

Insert(q, x) == SelectSeq(q, LAMBDA y : y < x) \o <<x>> \o SelectSeq(q, LAMBDA y : y > x)
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE Insert(Sorted(Tail(q)), Head(q))
InsEntry(q, x) == SelectSeq(q, LAMBDA y : y.id < x.id) \o <<x>> \o SelectSeq(q, LAMBDA y : y.id > x.id)
RECURSIVE SortedReg(_)
SortedReg(q) == IF q = <<>> THEN <<>> ELSE InsEntry(SortedReg(Tail(q)), Head(q))
Regs(s) == {s.reg[k].id : k \in 1..Len(s.reg)}
Entry(s, d) == s.reg[CHOOSE k \in 1..Len(s.reg) : s.reg[k].id = d]
RegIds(s) == [k \in 1..Len(s.reg) |-> s.reg[k].id]

(* ---- content of the replies ---- *)
NumAt(m, k) == IF m.f[k] = W!No THEN 0 ELSE m.f[k][2]
BytesAt(m, k) == Tail(m.f[k])
MultiChannel == 96
Mark == 239
(* the classes before the support/control mark *)
Supported(b) == LET p == SelectInSeq(b, LAMBDA x : x = Mark) IN Sorted(IF p = 0 THEN b ELSE SubSeq(b, 1, p - 1))
Root(n, m) == [id |-> n * 1000, basic |-> NumAt(m, 6), gen |-> NumAt(m, 7), spec |-> NumAt(m, 8), lis |-> NumAt(m, 4), fl |-> 0, fd |-> 0,
               sup |-> Supported(BytesAt(m, 9))]
Sub(n, e, root, m) == [id |-> n * 1000 + e, basic |-> root.basic, gen |-> NumAt(m, 5), spec |-> NumAt(m, 6), lis |-> root.lis, fl |-> root.fl, fd |-> root.fd,
                       sup |-> Supported(BytesAt(m, 7))]

(* ---- the steps of a startup or an update ---- *)
RECURSIVE Load(_, _), Rm(_, _), Announce(_, _), Add(_, _), End(_, _), Begin(_, _), Caps(_, _)
Pause(s, st) == [s EXCEPT !.st = st]
Begin(s, e) == R(Pause([s EXCEPT !.new = <<>>, !.rmd = <<>>, !.rm = <<>>, !.todo = {}], "list"), <<AskO("list", 0, 0)>>)
(* after an announcement the work goes on at st, with slow listeners not before they are done *)
Told(r, st, e, F(_, _)) == IF r.s.slow = 1 THEN R(Pause(r.s, st), r.exp) ELSE Then(r, LAMBDA x : F(x, e))
Rm(s, e) ==
  IF s.rm # <<>> THEN LET d == Head(s.rm) IN
       Told(R([s EXCEPT !.rm = Tail(@), !.rmd = Append(@, d), !.ann = @ \ {d}, !.reg = SelectSeq(@, LAMBDA x : x.id # d)],
              <<IdO("nodeRemoved", d)>>), "go:rm", e, Rm)
  ELSE IF s.rmd # <<>> THEN Told(R([s EXCEPT !.rmd = <<>>], <<IdsO("nodesRemoved", Sorted(s.rmd))>>), "go:load", e, Load)
  ELSE Load(s, e)
(* which of the missing nodes is next is up to the code *)
Load(s, e) ==
  IF s.todo = {} THEN IF Head(s.q).kind = "start" THEN R(Pause(s, "failed"), <<AskO("failed", 0, 0)>>) ELSE Announce(s, e)
  ELSE LET n == IF e.nxt \in s.todo THEN e.nxt ELSE CHOOSE x \in s.todo : \A y \in s.todo : x <= y
       IN R(Pause([s EXCEPT !.todo = @ \ {n}, !.cur = n, !.ep = 0, !.cnt = 0], "info"), <<AskO("info", n, 0)>>)
Caps(s, e) == IF s.ep = s.cnt THEN Load(s, e)
              ELSE R(Pause([s EXCEPT !.ep = @ + 1], "cap"), <<AskO("cap", s.cur, s.ep + 1)>>)
Announce(s, e) ==
  IF s.new = <<>> /\ Head(s.q).kind = "upd" THEN End(s, e)
  ELSE Told(R(s, <<IdsO("nodesAdded", Sorted(s.new))>>), "go:add", e, Add)
Add(s, e) ==
  IF s.new = <<>> THEN End(s, e)
  ELSE LET d == Head(s.new)
       IN Told(R([s EXCEPT !.new = Tail(@), !.ann = @ \cup {d}], <<AddO(Entry(s, d))>>), "go:add", e, Add)
End(s, e) ==
  LET j == Head(s.q)
      s1 == [s EXCEPT !.q = Tail(@), !.st = "idle", !.cur = 0, !.ep = 0, !.cnt = 0, !.loose = 0]
      r == R(s1, IF j.kind = "start" THEN <<RetO(j.id)>> ELSE <<>>)
  IN IF s1.q = <<>> THEN r ELSE Then(r, LAMBDA x : Begin(x, e))

Ask(s, e) == LET s1 == [s EXCEPT !.q = Append(@, [kind |-> e.kind, id |-> e.id])]
             IN IF s.q = <<>> THEN Begin(s1, e) ELSE R(s1, <<>>)
Reply(s, e) ==
  CASE s.st # e.what -> R(s, <<>>)
    [] e.what = "list" ->
         LET L == {e.v[k] : k \in 1..Len(e.v)}
             keep(d) == d \div 1000 \in L
         IN Rm([s EXCEPT !.rm = SelectSeq(RegIds(s), LAMBDA d : ~keep(d)),
                         !.todo = {n \in L : n # s.ctl /\ n * 1000 \notin Regs(s)}], e)
    [] e.what = "info" ->
         LET x == Root(s.cur, W!Decode(e.v))
             s1 == [s EXCEPT !.reg = Append(@, x), !.new = Append(@, x.id)]
         IN IF \E k \in 1..Len(x.sup) : x.sup[k] = MultiChannel THEN R(Pause(s1, "eps"), <<AskO("eps", s.cur, 0)>>) ELSE Load(s1, e)
    [] e.what = "eps" -> Caps([s EXCEPT !.cnt = e.v[1]], e)
    [] e.what = "cap" ->
         LET x == Sub(s.cur, s.ep, Entry(s, s.cur * 1000), W!Decode(e.v))
         IN Caps([s EXCEPT !.reg = Append(@, x), !.new = Append(@, x.id)], e)
    [] e.what = "failed" -> Announce(s, e)
Go(s, e) ==                  \* the slow listeners are done
  CASE s.st = "go:rm" -> Rm(s, e) [] s.st = "go:load" -> Load(s, e) [] s.st = "go:add" -> Add(s, e) [] OTHER -> R(s, <<>>)

(* a startup given up: what was not announced yet has to be loaded again *)
Cancel(s, e) ==
  LET head == s.q # <<>> /\ Head(s.q).id = e.id
      s1 == [s EXCEPT !.q = SelectSeq(@, LAMBDA j : j.id # e.id)]
      s2 == [s1 EXCEPT !.st = "idle", !.reg = SelectSeq(@, LAMBDA x : x.id \in s.ann), !.new = <<>>, !.todo = {}, !.rm = <<>>, !.rmd = <<>>,
                       !.cur = 0, !.ep = 0, !.cnt = 0, !.loose = 1]
      x == <<[RetO(e.id) EXCEPT !.res = "cancelled"]>>
  IN IF ~\E k \in 1..Len(s.q) : s.q[k].id = e.id /\ s.q[k].kind = "start" THEN R(s, <<>>)
     ELSE IF ~head THEN R(s1, x)
     ELSE IF s1.q = <<>> THEN R(s2, x) ELSE Then(R(s2, x), LAMBDA y : Begin(y, e))

(* ---- routing ---- *)
Msg(s, e) ==
  LET d == e.node * 1000 + e.ep
      m == W!Flat(W!Decode(e.body))
      x == <<MsgO("onMessage", d, m)>>
  IN IF d \in s.ann THEN R(s, IF \E k \in 1..Len(s.rm) : s.rm[k] = d THEN (IF e.obs = <<>> THEN <<>> ELSE x) ELSE x)
     ELSE IF e.node = s.ctl THEN R(s, <<MsgO("messageReceived", 0, m)>>)
     ELSE R(s, <<>>)
Ctl(s, e) ==
  LET m == W!Decode(e.body)
      f == W!Flat(m)
  IN CASE e.wrap = 0 -> R(s, <<>>)
       [] m.hid = 13314 -> R(s, <<MsgO("addNodeStatus", 0, f)>>)
       [] m.hid = 13316 -> R(s, <<MsgO("removeNodeStatus", 0, f)>>
                                \o IF NumAt(m, 2) = 6 /\ m.f[3] # W!No /\ NumAt(m, 3) = 0 THEN <<IdO("nodeRemoved", 0), IdsO("nodesRemoved", <<0>>)>> ELSE <<>>)
       [] OTHER -> R(s, <<MsgO("messageReceived", 0, f)>>)
(* ---- what becomes known about a node: shared with its end points, except the kind of device ---- *)
Known(s, e) ==
  LET same(x) == IF e.what \in {"gen", "spec"} THEN x.id = e.n * 1000 ELSE x.id \div 1000 = e.n
      put(x) == CASE e.what = "gen" -> [x EXCEPT !.gen = e.v] [] e.what = "spec" -> [x EXCEPT !.spec = e.v]
                  [] e.what = "basic" -> [x EXCEPT !.basic = e.v] [] e.what = "lis" -> [x EXCEPT !.lis = e.v]
                  [] e.what = "fl" -> [x EXCEPT !.fl = e.v] [] OTHER -> [x EXCEPT !.fd = e.v]
  IN R([s EXCEPT !.reg = [k \in 1..Len(@) |-> IF same(@[k]) THEN put(@[k]) ELSE @[k]]], <<>>)
(* ---- removing a failed node: the gateway is asked to remove the root node ---- *)
AskRemove(s, e) ==
  IF e.n * 1000 + e.ep \notin Regs(s) THEN R(s, <<>>)
  ELSE R([s EXCEPT !.rem = Append(@, e.id)], <<AskO("removeFailedNode", e.n, 0)>>)
(* its answer: a status message, or no answer at all *)
Removed(s, e) ==
  IF s.rem = <<>> THEN R(s, <<>>)
  ELSE R([s EXCEPT !.rem = Tail(@)], <<DoneO(Head(s.rem), Len(e.v) > 3 /\ NumAt(W!Decode(e.v), 2) = 1)>>)
Look(s, e) == R(s, IF s.st = "idle" /\ s.loose = 0 THEN <<RegO(SortedReg(s.reg))>> ELSE e.obs)

Do(s, e) ==
  CASE e.op = "begin" -> Ask(s, e)
    [] e.op = "reply" -> Reply(s, e)
    [] e.op = "go"    -> Go(s, e)
    [] e.op = "cancel" -> Cancel(s, e)
    [] e.op = "msg"   -> Msg(s, e)
    [] e.op = "ctl"   -> Ctl(s, e)
    [] e.op = "known" -> Known(s, e)
    [] e.op = "remove" -> AskRemove(s, e)
    [] e.op = "removed" -> Removed(s, e)
    [] e.op = "look"  -> Look(s, e)
    [] OTHER -> R(s, <<>>)

(* ---- properties of the design ---- *)
Inv(s) == /\ Cardinality(Regs(s)) = Len(s.reg)
          /\ s.ann \subseteq Regs(s)
          /\ (s.st = "idle" => s.ann = Regs(s))                       \* everything in the registry has been announced
          /\ (s.st = "idle") = (s.q = <<>>)
          /\ \A d \in Regs(s) : (d \div 1000) * 1000 \in Regs(s) \/ s.rm # <<>> \/ s.rmd # <<>>
          /\ \A d \in Regs(s) : d \div 1000 # s.ctl
          \* an end point knows of its node what its root entry knows
          /\ \A j, k \in 1..Len(s.reg) : LET x == s.reg[j] y == s.reg[k] IN x.id \div 1000 = y.id \div 1000 =>
                x.basic = y.basic /\ x.lis = y.lis /\ x.fl = y.fl /\ x.fd = y.fd
Kinds(x, kk) == SelectSeq(x, LAMBDA o : o.k = kk)
(* each entry is announced as removed exactly when it leaves, as added only when it was not announced *)
StepOK(s, e) ==
  LET r == Do(s, e)
      adds == Kinds(r.exp, "nodeAdded")
      rms == SelectSeq(Kinds(r.exp, "nodeRemoved"), LAMBDA o : o.id # 0)
      A == {adds[k].entry.id : k \in 1..Len(adds)}
      D == {rms[k].id : k \in 1..Len(rms)}
  IN /\ Cardinality(A) = Len(adds) /\ Cardinality(D) = Len(rms)
     /\ r.s.ann = (s.ann \ D) \cup A /\ D \subseteq s.ann
     /\ Regs(r.s) \cap (D \ A) = {}
     /\ (e.op = "reply" /\ e.what = "list" /\ s.st = "list" /\ s.slow = 0 =>
           \A d \in Regs(r.s) : \E k \in 1..Len(e.v) : e.v[k] = d \div 1000)
     \* only a node list changes which entries there are, and a success is only what the gateway said
     /\ (e.op \in {"known", "remove", "removed"} => Regs(r.s) = Regs(s) /\ r.s.ann = s.ann)
     /\ (e.op = "known" => \A k \in 1..Len(s.reg) : s.reg[k].id \div 1000 # e.n => r.s.reg[k] = s.reg[k])
     /\ \A k \in 1..Len(r.exp) : r.exp[k].k = "ret" /\ r.exp[k].res = "true" => e.op = "removed" /\ e.v[4] = 1
     /\ Len(Kinds(r.exp, "onMessage")) + Len(Kinds(r.exp, "messageReceived")) <= 1
=============================================================================
