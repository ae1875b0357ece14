------------------------------ MODULE M_System ------------------------------
(* Bounded design model of System: a node with end points and two plain ones that come and go.   *)
EXTENDS System, TLC, Json
CONSTANTS MaxId, MaxLevel
VARIABLES s, n, lab
View == <<s, n>>
Vers == <<<<32, 1>>, <<112, 1>>, <<133, 2>>>>
Node2 == [id |-> 2, ip |-> 1, lst |-> <<32, 112, 96>>, eps |-> <<<<32>>, <<112>>>>, vers |-> Vers, reps |-> <<>>, grp |-> <<>>, typ |-> <<>>]
Node3 == [id |-> 3, ip |-> 5, lst |-> <<94, 133>>, eps |-> <<>>, vers |-> Append(Vers, <<94, 2>>), reps |-> <<<<94, 94, 2, 2, 5, 0, 7, 0, 1, 2>>>>,
          grp |-> <<[id |-> 1, max |-> 3, mem |-> <<9, -1>>]>>, typ |-> <<>>]
Node4 == [Node3 EXCEPT !.id = 4, !.ip = 2, !.lst = <<32>>]
Cfg == [ctl |-> 1, net |-> <<Node2, Node3>>]
Nets == {<<Node2>>, <<Node2, Node4>>}
Init == s = Init0(Cfg) /\ n = 0 /\ lab = [op |-> "none"]
Step(l) == s' = Do(s, l).s /\ lab' = l
New(l) == n < MaxId /\ n' = n + 1 /\ Step(l)
Old(l) == UNCHANGED n /\ Step(l)
StartL == ~s.on /\ New([op |-> "start", id |-> n + 1])
RestartL == s.on /\ s.saved # <<>> /\ Old([op |-> "restart"])
ChangeL == s.on /\ \E x \in Nets : (Len(x) # Len(s.net) \/ (Len(s.net) = 2 /\ s.net[2].id = 3))
                                    /\ (s.net # <<Node2>> \/ x[Len(x)].id = 4) /\ Old([op |-> "change", net |-> x])
Ents == Regs(s) \cap {2000, 2001, 4000}
CmdL == s.on /\ \E d \in Ents, w \in {0, 8195} : New([op |-> "cmd", id |-> n + 1, ent |-> d, body |-> <<32, 2>>, want |-> w, to |-> 50])
AckL == \E k \in 1..Len(s.out) : Old([op |-> "ack", id |-> s.out[k].id])
Bodies == {<<32, 3, 1>>, <<112, 6, 3, 1, 7>>, <<108, 1, 5, 3, 32, 1, 255>>}
UnsL == s.on /\ \E p \in {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<5, 0>>} : \E b \in Bodies :
          Old([op |-> "uns", ip |-> p[1], ask |-> p[2] % 2, seq |-> 9, sep |-> p[2], dep |-> 0, body |-> b])
ConL == \E d \in s.con, b \in Bodies : Old([op |-> "con", node |-> d, sep |-> 0, body |-> b])
IvL == s.on /\ \E d \in Regs(s) \cap {2000, 3000} : New([op |-> "iv", id |-> n + 1, ent |-> d])
AdvL == s.out # <<>> /\ \E d \in {MinRem(s.out, 1000000000)} : Old([op |-> "adv", dt |-> d])
Next == StartL \/ RestartL \/ ChangeL \/ CmdL \/ AckL \/ UnsL \/ ConL \/ IvL \/ AdvL
Limit == TLCGet("level") <= MaxLevel
Emit == /\ Assert(StepOK(s, lab'), <<"step violates the design properties", s, lab'>>)
        /\ PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>))
MInv == Inv(s)
=============================================================================
