------------------------------ MODULE M_Storage ------------------------------
(* Bounded design model: two nodes whose class lists change from one start to the next,        *)
(* updates, early updates, interrupted saves and a second folder.                              *)
EXTENDS Storage, TLC, Json
CONSTANTS Crashes, MaxLevel
VARIABLES s, n, c, lab
View == <<s, n, c>>
Init == s = Init0([ctl |-> 1]) /\ n = 0 /\ c = 0 /\ lab = [op |-> "none"]
Nd(root, ep, list) == [root |-> root, ep |-> ep, list |-> list]
Nets == {<<Nd(5, 0, <<112, 134>>), Nd(6, 0, <<112>>)>>, <<Nd(5, 0, <<134, 241, 0, 112>>)>>, <<Nd(5, 0, <<134>>), Nd(6, 0, <<96, 112>>), Nd(6, 1, <<112>>)>>}
Body(p, v) == <<112, 6, p, 1, v>>
Step(l) == s' = Do(s, l @@ [nxt |-> 0, obs |-> <<>>]).s /\ lab' = l
Confs == {k \in 1..Len(s.ids) : ND!Has(s.nd, k, 112)}
BootL == \E t \in Nets : \E x \in {<<>>} \cup {<<[n |-> k, body |-> Body(1, 9), at |-> "nodesAdded", i |-> 0, live |-> 0]>> : k \in {j \in 1..Len(t) : t[j].list # <<134>>}}
                              \cup {<<[n |-> 1, body |-> Body(1, 8), at |-> "nodeAdded", i |-> 1, live |-> 1]>> : k \in {j \in {1} : t[j].list # <<134>>}} :
           Step([op |-> "boot", net |-> t, early |-> x]) /\ UNCHANGED <<n, c>>
MsgL == \E k \in Confs : \E p \in {1, 2} : n' = n + 1 /\ Step([op |-> "msg", id |-> n + 1, n |-> k, body |-> Body(p, n + 1)]) /\ UNCHANGED c
Down == s.ids = <<>>
Cur == [k \in 1..Len(s.ids) |-> Nd(s.nd.nd[k].root, s.nd.nd[k].ep, LET q == s.nd.nd[k].cls IN [j \in 1..Len(q) |-> q[j].id])]
Plain == \A k \in 1..Len(s.ids) : \A j \in 1..Len(s.nd.nd[k].cls) : s.nd.nd[k].cls[j].sec = 0
CrashL == c < Crashes /\ Plain /\ \E k \in Confs : \E f \in {"kill", "err", "none"} : \E more \in {0, 1} :
            /\ c' = c + 1 /\ n' = n + 2
            /\ Step([op |-> "crash", net |-> Cur, final |-> f, pts |-> 8, seed |-> n + k,
                     ops |-> <<[op |-> "msg", id |-> 100, n |-> k, body |-> Body(1, n + 1)]>> \o
                             (IF more = 1 THEN <<[op |-> "msg", id |-> 101, n |-> k, body |-> Body(2, n + 2)]>> ELSE <<>>)])
PathL == ~Down /\ Step([op |-> "path", d |-> 3 - s.dir]) /\ UNCHANGED <<n, c>>
Next == BootL \/ (~Down /\ (MsgL \/ CrashL \/ PathL))
Limit == TLCGet("level") <= MaxLevel
MInv == Inv(s)
Emit == /\ Assert(StepOK(s, lab' @@ [nxt |-> 0, obs |-> <<>>]), <<"step violates the design properties", s, lab'>>)
        /\ PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n, c |-> c], [s |-> s', n |-> n', c |-> c'], lab'>>))
=============================================================================
