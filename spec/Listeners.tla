------------------------------ MODULE Listeners ------------------------------
(* Announcements of an object to its listeners (pyzwave.util.Listenable).                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* regs[o]: the listeners of object o in registration order, each [l, a, b, x] - what it does with   *)
(* the messages "a" and "b": "none" (does not implement it), "val" (answers), "raise", "coro"  *)
(* (a coroutine, ended by the driver), "adds" (registers listener l + 50, which does b with    *)
(* both messages), "says" (announces "b" itself). x: its answer.                                *)
(* open: the calls of coroutines that have not ended [id, l]                                    *)
(* asks: waiting announcements [id, ans]; ans: per listener called [l, st, v]                   *)
Init0(cfg) == [regs |-> <<<<>>, <<>>>>, open |-> <<>>, asks |-> <<>>]
R(s, x) == [s |-> s, exp |-> x]
Kind(q, m) == IF m = "a" THEN q.a ELSE q.b
Added(q) == [l |-> q.l + 50, a |-> q.b, b |-> q.b, x |-> q.x + 50]
IsCo(kind) == kind = "coro"
Call(e, o, q, m, nth, c) == [k |-> "call", at |-> 0, id |-> e.id, l |-> q.l, o |-> o, m |-> m, v |-> e.v, ord |-> nth, co |-> c]

(* the listeners of q are called; an announcement they make is announced in between.            *)
(* n: calls so far of plain functions and of coroutines                                         *)
RECURSIVE Calls(_, _, _, _, _, _)
Calls(s, e, o, m, q, n) ==
  IF q = <<>> THEN [s |-> s, exp |-> <<>>, ans |-> <<>>]
  ELSE LET x == q[1]
           kind == Kind(x, m)
           co == IsCo(kind)
           c == Call(e, o, x, m, IF co THEN n[2] ELSE n[1], IF co THEN 1 ELSE 0)
           \* whether a listener that is registered by another one during the announcement hears it is left open
           heard == \E k \in 1..Len(e.obs) : e.obs[k].k = "call" /\ e.obs[k].id = e.id /\ e.obs[k].l = x.l + 50
           new == kind = "adds" /\ ~\E k \in 1..Len(s.regs[o]) : s.regs[o][k].l = x.l + 50
           e2 == [e EXCEPT !.id = e.id * 100 + x.l, !.v = e.v + 1]
           sub == IF kind = "says" THEN Calls(s, e2, o, "b", s.regs[o], <<1, 1>>) ELSE [s |-> s, exp |-> <<>>, ans |-> <<>>]
           s1 == IF new THEN [s EXCEPT !.regs[o] = Append(@, Added(x))]
                 ELSE IF co THEN [s EXCEPT !.open = Append(@, [id |-> e.id, l |-> x.l])]
                 ELSE sub.s
           a == CASE kind = "raise" -> <<>>
                  [] co -> <<[l |-> x.l, st |-> "wait", v |-> 0]>>
                  [] OTHER -> <<[l |-> x.l, st |-> "done", v |-> x.x]>>
           more == IF new /\ heard THEN Append(Tail(q), Added(x)) ELSE Tail(q)
           n2 == IF co THEN <<n[1], n[2] + 1>> ELSE <<n[1] + 1, n[2]>>
           t == Calls(s1, e, o, m, more, n2)
       IN IF kind = "none" THEN Calls(s, e, o, m, Tail(q), n)
          ELSE [s |-> t.s, exp |-> <<c>> \o sub.exp \o t.exp, ans |-> a \o t.ans]
Ready(a) == \A k \in 1..Len(a.ans) : a.ans[k].st # "wait"
Answers(a) == LET q == SelectSeq(a.ans, LAMBDA x : x.st = "done") IN [k \in 1..Len(q) |-> q[k].v]
Ret(a) == [k |-> "ret", at |-> 0, id |-> a.id, res |-> "val", ans |-> Answers(a)]
Settle(s) == LET done == SelectSeq(s.asks, Ready) IN R([s EXCEPT !.asks = SelectSeq(@, LAMBDA a : ~Ready(a))], [k \in 1..Len(done) |-> Ret(done[k])])
Announce(s, e) ==
  LET t == Calls(s, e, e.o, e.m, s.regs[e.o], <<1, 1>>)
  IN IF e.how = "speak" THEN R(t.s, t.exp)
     ELSE LET r == Settle([t.s EXCEPT !.asks = Append(@, [id |-> e.id, ans |-> t.ans])]) IN R(r.s, t.exp \o r.exp)
End(s, e) ==
  LET s1 == [s EXCEPT !.open = SelectSeq(@, LAMBDA c : ~(c.id = e.id /\ c.l = e.l)),
                      !.asks = [k \in 1..Len(@) |-> IF @[k].id # e.id THEN @[k]
                                 ELSE [@[k] EXCEPT !.ans = [j \in 1..Len(@) |-> IF @[j].l # e.l \/ @[j].st # "wait" THEN @[j]
                                                              ELSE [@[j] EXCEPT !.st = IF e.how = "val" THEN "done" ELSE "gone", !.v = e.v]]]]]
  IN Settle(s1)
Do(s, e) ==
  CASE e.op = "add" -> R([s EXCEPT !.regs[e.o] = Append(@, [l |-> e.l, a |-> e.a, b |-> e.b, x |-> e.x])], <<>>)
    [] e.op = "say" -> Announce(s, e)
    [] e.op = "end" -> IF \E k \in 1..Len(s.open) : s.open[k] = [id |-> e.id, l |-> e.l] THEN End(s, e) ELSE R(s, <<>>)

(* ---- properties of the design ---- *)
Inv(s) ==
  /\ \A k \in 1..Len(s.asks) : ~Ready(s.asks[k])
  /\ \A k \in 1..Len(s.asks) : \A j \in 1..Len(s.asks[k].ans) :
        s.asks[k].ans[j].st = "wait" => \E c \in 1..Len(s.open) : s.open[c] = [id |-> s.asks[k].id, l |-> s.asks[k].ans[j].l]
  /\ \A o \in 1..2 : \A j, k \in 1..Len(s.regs[o]) : j # k => s.regs[o][j].l # s.regs[o][k].l
StepOK(s, e) ==
  LET r == Do(s, e)
      calls == SelectSeq(r.exp, LAMBDA x : x.k = "call")
      mine == SelectSeq(calls, LAMBDA x : x.id = e.id)
      impl(o, m) == SelectSeq(s.regs[o], LAMBDA q : Kind(q, m) # "none")
  IN /\ e.op # "say" => calls = <<>>
     /\ e.op = "say" =>
          \* every registered listener implementing it, once, in order
          /\ Len(mine) >= Len(impl(e.o, e.m))
          /\ \A k \in 1..Len(impl(e.o, e.m)) : mine[k].l = impl(e.o, e.m)[k].l
          /\ \A j, k \in 1..Len(calls) : j # k => <<calls[j].id, calls[j].l>> # <<calls[k].id, calls[k].l>>
          /\ \A k \in 1..Len(mine) : mine[k].o = e.o /\ mine[k].m = e.m /\ mine[k].v = e.v
     \* a waiting announcement ends when the last coroutine ends
     /\ e.op = "end" /\ (\E k \in 1..Len(s.asks) : s.asks[k].id = e.id /\ Cardinality({j \in 1..Len(s.asks[k].ans) : s.asks[k].ans[j].st = "wait"}) > 1) => r.exp = <<>>
     /\ e.op = "end" /\ (\E k \in 1..Len(s.asks) : s.asks[k].id = e.id /\ {s.asks[k].ans[j].l : j \in {i \in 1..Len(s.asks[k].ans) : s.asks[k].ans[i].st = "wait"}} = {e.l})
           => Len(r.exp) = 1 /\ r.exp[1].k = "ret" /\ r.exp[1].id = e.id
=============================================================================
