------------------------------- MODULE M_App -------------------------------
(* Bounded design model of App: controller 1, nodes 2 and 3.                                   *)
EXTENDS App, TLC, Json
CONSTANTS Slow, MaxJobs, MaxLevel, Ent
VARIABLES s, n, lab
View == <<s, n>>
Init == s = Init0([slow |-> Slow, ctl |-> 1]) /\ n = 0 /\ lab = [op |-> "none"]
Base == [nxt |-> 0, obs |-> <<>>]
Step(l) == s' = Do(s, l).s /\ lab' = l
BeginL == /\ n < MaxJobs /\ n' = n + 1
          /\ \E kind \in {"start", "upd"} : (kind = "start" => ~\E k \in 1..Len(s.q) : s.q[k].kind = "start")
                                            /\ Step([op |-> "begin", kind |-> kind, id |-> n + 1] @@ Base)
Info(mc) == <<82, 4, 0, 15, 128, 0, 0, 4, 16, 1>> \o (IF mc THEN <<37, 96>> ELSE <<37>>)
Replies == CASE s.st = "list" -> {<<1, 2>>, <<1, 2, 3>>, <<1, 3>>}
             [] s.st = "info" -> IF s.cur = 2 THEN (IF Ent = 1 THEN {Info(TRUE)} ELSE {Info(TRUE), Info(FALSE)}) ELSE {Info(FALSE)}
             [] s.st = "eps" -> IF Ent = 1 THEN {<<2>>} ELSE {<<0>>, <<2>>}
             [] s.st = "cap" -> {<<82, 8, 0, s.cur, 1, s.ep, 16, 1, 37>>}
             [] s.st = "failed" -> {<<>>}
             [] OTHER -> {}
ReplyL == \E v \in Replies : Step([op |-> "reply", what |-> s.st, v |-> v] @@ Base) /\ UNCHANGED n
GoL == s.st \in {"go:rm", "go:load", "go:add"} /\ Step([op |-> "go"] @@ Base) /\ UNCHANGED n
MsgL == Ent = 0 /\ \E d \in {<<2, 0>>, <<2, 1>>, <<1, 0>>, <<3, 0>>} :
          /\ ~\E k \in 1..Len(s.rm) : s.rm[k] = d[1] * 1000 + d[2]
          /\ Step([op |-> "msg", node |-> d[1], ep |-> d[2], body |-> <<32, 3, 1>>] @@ Base) /\ UNCHANGED n
CancelL == /\ Slow = 0 /\ Ent = 0 /\ UNCHANGED n
           /\ \E k \in 1..Len(s.q) : s.q[k].kind = "start" /\ Step([op |-> "cancel", id |-> s.q[k].id] @@ Base)
KnownL == /\ Ent = 1 /\ s.st = "idle" /\ UNCHANGED n
          /\ \E d \in {2, 3} : \E w \in {"basic", "gen", "lis", "fl", "fd"} : d * 1000 \in Regs(s)
                /\ Step([op |-> "known", n |-> d, what |-> w, v |-> 1] @@ Base)
RemoveL == /\ Ent = 1 /\ s.st = "idle" /\ Len(s.rem) < 2 /\ n < 9 /\ n' = n + 1
           /\ \E d \in Regs(s) : Step([op |-> "remove", n |-> d \div 1000, ep |-> d % 1000, id |-> n + 1] @@ Base)
RemovedL == /\ s.rem # <<>> /\ UNCHANGED n
            /\ \E v \in {<<>>, <<52, 8, 1, 0>>, <<52, 8, 1, 1>>, <<52, 8, 1, 2>>} : Step([op |-> "removed", v |-> v] @@ Base)
LookL == s.st = "idle" /\ Step([op |-> "look"] @@ Base) /\ UNCHANGED n
Next == BeginL \/ ReplyL \/ GoL \/ CancelL \/ MsgL \/ KnownL \/ RemoveL \/ RemovedL \/ LookL
Limit == TLCGet("level") <= MaxLevel
Emit == /\ Assert(StepOK(s, lab'), <<"step violates the design properties", s, lab'>>)
        /\ PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>))
MInv == Inv(s)
=============================================================================
