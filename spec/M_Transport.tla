----------------------------- MODULE M_Transport -----------------------------
(* Bounded design model: connection 1 is connected, 2 listens or is connected too.             *)
EXTENDS Transport, TLC, Json
CONSTANTS Delay, MaxId, MaxLevel
VARIABLES s, n, lab
View == <<s, n>>
Init == s = Init0([n |-> 2, delay |-> Delay]) /\ n = 0 /\ lab = [op |-> "none"]
Step(l) == s' = Do(s, l @@ [obs |-> <<>>]).s /\ lab' = l
Busy(c) == \E k \in 1..Len(s.opening) : s.opening[k].c = c
StartL == n < MaxId /\ \E c \in {1, 2} : \E f \in {0, 1} : \E a \in {0, 5, 6} :
            /\ ~Busy(c) /\ (a = 0 => c = 2 /\ s.con[2].mode # "client") /\ (c = 2 /\ a # 0 => s.con[2].mode # "server" /\ a = 6) /\ (c = 1 => a = 5)
            /\ Step([op |-> "start", id |-> n + 1, c |-> c, addr |-> a, port |-> IF a = 0 THEN 4126 ELSE 4123, fail |-> f]) /\ n' = n + 1
SendL == n < MaxId /\ \E c \in {1, 2} : \E t \in {0, 9} :
            /\ (s.con[c].mode = "client" => t = 0) /\ (s.con[c].mode = "server" => t # 0)
            /\ Step([op |-> "send", id |-> n + 1, c |-> c, data |-> <<1, 2>>, to |-> t]) /\ n' = n + 1
RxL == n < MaxId /\ \E i \in 1..Len(s.socks) : Open(s, i) /\ Step([op |-> "rx", sock |-> i, data |-> <<3>>, from |-> IF s.socks[i].addr = 0 THEN 8 ELSE s.socks[i].addr]) /\ n' = n + 1
EndL == \/ \E i \in 1..Len(s.socks) : Open(s, i) /\ Step([op |-> "lost", sock |-> i]) /\ UNCHANGED n
        \/ \E i \in 1..Len(s.socks) : Open(s, i) /\ n < MaxId /\ Step([op |-> "error", sock |-> i]) /\ n' = n + 1
        \/ \E c \in {1, 2} : s.con[c].sock # 0 /\ Step([op |-> "stop", c |-> c]) /\ UNCHANGED n
RecvL == \E c \in {1, 2} : \E k \in {"plain", "echo", "next", "raise"} : s.con[c].recv = 0 /\ Step([op |-> "onmsg", c |-> c, recv |-> 1, kind |-> k]) /\ UNCHANGED n
AdvL == Len(s.opening) > 0 /\ \E d \in {1, 2} : Step([op |-> "adv", dt |-> d]) /\ UNCHANGED n
Next == StartL \/ SendL \/ RxL \/ EndL \/ RecvL \/ AdvL
Limit == TLCGet("level") <= MaxLevel
MInv == Inv(s)
Emit == /\ Assert(StepOK(s, lab' @@ [obs |-> <<>>]), <<"step violates the design properties", s, lab'>>)
        /\ PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>))
=============================================================================
