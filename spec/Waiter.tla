------------------------------- MODULE Waiter -------------------------------
(* Waiting requests: send a command, then wait for a message of a given type.  The same       *)
(* contract holds for an adapter (mode "adapter": a failed delivery still waits) and for a    *)
(* node (mode "node": a failed delivery raises a timeout).                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* req: [id, typ, ph ("send" | "wait"), to, rem, got]   got = -1: nothing arrived yet *)
Init0(cfg) == [mode |-> cfg.mode, req |-> <<>>]

R(s, x) == [s |-> s, exp |-> x]
Ret(d, r, v, at) == [k |-> "ret", id |-> d, res |-> r, val |-> v, at |-> at]
Timeout(d, at) == Ret(d, "timeout", -1, at)
Up(typ, val, at) == [k |-> "up", typ |-> typ, val |-> val, at |-> at]
Tx(d) == [k |-> "tx", id |-> d, at |-> 0]
Handled(n, h, at) == [k |-> "handled", n |-> n, h |-> h, at |-> at]

Without(s, P(_)) == [s EXCEPT !.req = SelectSeq(@, LAMBDA q : ~P(q))]
Ids(s) == {s.req[k].id : k \in 1..Len(s.req)}
Get(s, d) == s.req[CHOOSE k \in 1..Len(s.req) : s.req[k].id = d]
Live(s, typ) == SelectSeq(s.req, LAMBDA q : q.typ = typ /\ q.got = -1)

Request(s, e) == R([s EXCEPT !.req = Append(@, [id |-> e.id, typ |-> e.typ, ph |-> "send", to |-> e.to, rem |-> 0, got |-> -1])],
                   <<Tx(e.id)>>)
WaitOnly(s, e) == R([s EXCEPT !.req = Append(@, [id |-> e.id, typ |-> e.typ, ph |-> "wait", to |-> e.to, rem |-> e.to, got |-> -1])], <<>>)

(* the delivery of request d is settled: ok, fail (unconfirmed) or raise (no route: timeout) *)
Settle(s, e) ==
  IF e.id \notin Ids(s) \/ Get(s, e.id).ph # "send" THEN R(s, <<>>)
  ELSE LET q == Get(s, e.id)
           gone == Without(s, LAMBDA x : x.id = e.id)
       IN CASE e.how = "raise" \/ (e.how = "fail" /\ s.mode = "node") -> R(gone, <<Timeout(e.id, 0)>>)
            [] q.got # -1 -> R(gone, <<Ret(e.id, "val", q.got, 0)>>)
            [] OTHER -> R([s EXCEPT !.req = [k \in 1..Len(@) |->
                              IF @[k].id = e.id THEN [@[k] EXCEPT !.ph = "wait", !.rem = q.to] ELSE @[k]]], <<>>)

(* a message arrives: every live request for its type takes it, those already waiting return *)
Msg(s, e, at) ==
  LET live == Live(s, e.typ)
      done == SelectSeq(live, LAMBDA q : q.ph = "wait")
      s1 == Without(s, LAMBDA q : q.typ = e.typ /\ q.got = -1 /\ q.ph = "wait")
      s2 == [s1 EXCEPT !.req = [k \in 1..Len(@) |->
                 IF @[k].typ = e.typ /\ @[k].got = -1 THEN [@[k] EXCEPT !.got = e.val] ELSE @[k]]]
  IN R(s2, [k \in 1..Len(done) |-> Ret(done[k].id, "val", e.val, at)]
           \o (IF live = <<>> THEN <<Up(e.typ, e.val, at)>> ELSE <<>>)
           \o (IF s.mode = "node" THEN <<Handled(e.n, live # <<>>, at)>> ELSE <<>>))

Cancel(s, e) == IF e.id \in Ids(s) THEN R(Without(s, LAMBDA q : q.id = e.id), <<Ret(e.id, "cancelled", -1, 0)>>)
                ELSE R(s, <<>>)

(* ---- time ---- *)
RECURSIVE MinRem(_, _)
MinRem(q, m) == IF q = <<>> THEN m
                ELSE MinRem(Tail(q), IF Head(q).ph = "wait" /\ Head(q).rem < m THEN Head(q).rem ELSE m)
NextDue(s) == MinRem(s.req, 1000000000)
Shift(s, d) == [s EXCEPT !.req = [k \in 1..Len(@) |-> IF @[k].ph = "wait" THEN [@[k] EXCEPT !.rem = @ - d] ELSE @[k]]]
Expire(s, at) == LET dead == SelectSeq(s.req, LAMBDA q : q.ph = "wait" /\ q.rem <= 0)
                 IN R(Without(s, LAMBDA q : q.ph = "wait" /\ q.rem <= 0), [k \in 1..Len(dead) |-> Timeout(dead[k].id, at)])
RECURSIVE Elapse(_, _, _, _)
Elapse(s, d, at, incl) ==
  LET n == NextDue(s) IN
  IF n > d \/ (n = d /\ ~incl) THEN R(Shift(s, d), <<>>)
  ELSE LET x == Expire(Shift(s, n), at + n)
           r == Elapse(x.s, d - n, at + n, incl)
       IN R(r.s, x.exp \o r.exp)
Adv(s, e) == Elapse(s, e.dt, 0, TRUE)
(* a message in the very instant e.dt from now, before the deadlines of that instant *)
Race(s, e) == LET a == Elapse(s, e.dt, 0, FALSE)
                  b == Msg(a.s, e, e.dt)
                  c == Expire(b.s, e.dt)
              IN R(c.s, a.exp \o b.exp \o c.exp)

Do(s, e) == CASE e.op = "req"    -> Request(s, e)
              [] e.op = "wait"   -> WaitOnly(s, e)
              [] e.op = "settle" -> Settle(s, e)
              [] e.op = "msg"    -> Msg(s, e, 0)
              [] e.op = "cancel" -> Cancel(s, e)
              [] e.op = "adv"    -> Adv(s, e)
              [] e.op = "race"   -> Race(s, e)
              [] OTHER           -> R(s, <<>>)

(* ---- properties of the design ---- *)
TypeOK(s) == /\ \A k \in 1..Len(s.req) : s.req[k].ph = "wait" => s.req[k].got = -1 /\ s.req[k].rem > 0
             /\ \A a, b \in 1..Len(s.req) : a # b => s.req[a].id # s.req[b].id
StepOK(s, e) ==
  LET r == Do(s, e)
      rets == SelectSeq(r.exp, LAMBDA o : o.k = "ret")
      ups == SelectSeq(r.exp, LAMBDA o : o.k = "up")
      done == {rets[k].id : k \in 1..Len(rets)}
      new == IF e.op = "req" THEN {e.id} ELSE {}
      awaited == \E k \in 1..Len(s.req) : s.req[k].typ = e.typ /\ s.req[k].got = -1
                                          /\ ~(e.op = "race" /\ s.req[k].ph = "wait" /\ s.req[k].rem < e.dt)
  IN /\ Cardinality(done) = Len(rets)
     /\ done \cap Ids(r.s) = {} /\ done \cup Ids(r.s) = Ids(s) \cup new    \* each request ends exactly once
     /\ \A k \in 1..Len(rets) : LET q == Get(s, rets[k].id) IN
          CASE rets[k].res = "val" -> \/ e.op \in {"msg", "race"} /\ e.typ = q.typ /\ rets[k].val = e.val /\ q.got = -1
                                      \/ e.op = "settle" /\ e.id = q.id /\ rets[k].val = q.got
            [] rets[k].res = "timeout" -> \/ e.op \in {"adv", "race"} /\ q.rem = rets[k].at /\ q.got = -1 /\ q.ph = "wait"
                                          \/ e.op = "settle" /\ e.id = q.id /\ e.how # "ok"
            [] OTHER -> e.op = "cancel" /\ e.id = q.id
     /\ (e.op \in {"msg", "race"} => ((ups = <<>>) = awaited))            \* an unawaited message is passed on
     /\ \A k \in 1..Len(s.req) : s.req[k].id \in Ids(r.s) /\ e.op \notin {"adv", "race"} /\ ~(e.op = "settle" /\ e.id = s.req[k].id)
                                  => Get(r.s, s.req[k].id).rem = s.req[k].rem  \* nobody waits longer
=============================================================================
