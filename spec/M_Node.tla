------------------------------- MODULE M_Node -------------------------------
(* Bounded design models of Node.  Mode selects the configuration and what is explored.        *)
EXTENDS Node, TLC, Json
CONSTANTS Mode, MaxId, MaxLevel
VARIABLES s, n, lab
View == <<s, n>>
Nd(root, ep, list, vers) == [root |-> root, ep |-> ep, list |-> list, vers |-> vers]
Ls(id, node, c, ans, slow) == [id |-> id, n |-> node, c |-> c, ans |-> ans, slow |-> slow]
Cfg ==
  CASE Mode = "lock"   -> [nodes |-> <<Nd(2, 0, <<112>>, <<>>), Nd(2, 1, <<112>>, <<>>)>>, lsn |-> <<>>, ctl |-> 1]
    [] Mode = "again"  -> [nodes |-> <<Nd(2, 0, <<112>>, <<>>)>>, lsn |-> <<>>, ctl |-> 1, again |-> <<1>>]
    [] Mode = "disp1"  -> [nodes |-> <<Nd(2, 0, <<32, 112>>, <<>>)>>, lsn |-> <<Ls(1, 1, 32, 0, 0), Ls(2, 1, 32, 1, 0), Ls(3, 1, 0, 1, 0)>>, ctl |-> 1]
    [] Mode = "disp2"  -> [nodes |-> <<Nd(2, 3, <<32, 112>>, <<>>)>>, lsn |-> <<Ls(1, 1, 32, 2, 0), Ls(2, 1, 0, 0, 0), Ls(3, 1, 0, 2, 0)>>, ctl |-> 1]
    [] Mode = "disp3"  -> [nodes |-> <<Nd(2, 0, <<32>>, <<>>)>>, lsn |-> <<Ls(1, 1, 32, 0, 1), Ls(2, 1, 0, 1, 1)>>, ctl |-> 1]
    [] Mode = "iv"     -> [nodes |-> <<Nd(2, 0, <<134, 37, 114>>, <<<<37, 1>>>>)>>, lsn |-> <<>>, ctl |-> 1]
    [] Mode = "assoc"  -> [nodes |-> <<Nd(2, 0, <<133, 94>>, <<<<133, 2>>>>)>>, lsn |-> <<>>, ctl |-> 1]
    [] Mode = "massoc" -> [nodes |-> <<Nd(2, 1, <<133, 94, 96, 142>>, <<<<133, 2>>>>)>>, lsn |-> <<>>, ctl |-> 1]
    [] Mode = "conf"   -> [nodes |-> <<Nd(2, 0, <<112>>, <<<<112, 1>>>>)>>, lsn |-> <<>>, ctl |-> 1]
    [] Mode = "sensor" -> [nodes |-> <<Nd(2, 0, <<49>>, <<<<49, 5>>>>)>>, lsn |-> <<Ls(1, 1, 49, 1, 0)>>, ctl |-> 1]
    [] Mode = "agi"    -> [nodes |-> <<Nd(2, 0, <<89>>, <<<<89, 1>>>>)>>, lsn |-> <<>>, ctl |-> 1]
Init == s = Init0(Cfg) /\ n = 0 /\ lab = [op |-> "none"]
Base == [nxt |-> 0, obs |-> <<>>]
Step(l) == s' = Do(s, l @@ Base).s /\ lab' = l
NewL(l) == n < MaxId /\ n' = n + 1 /\ Step(l @@ [id |-> n + 1])
OldL(l) == Step(l) /\ UNCHANGED n
Pend == {s.tk[k] : k \in {j \in 1..Len(s.tk) : s.tk[j].st = "snd"}}
Hows == IF Mode \in {"disp1", "disp2", "disp3", "lock"} THEN {"ok", "raise"} ELSE {"ok", "fail", "raise"}
SettleL == \E t \in Pend : \E how \in Hows : OldL([op |-> "settle", root |-> s.nd[t.n].root, ep |-> s.nd[t.n].ep, m |-> t.cmd, how |-> how])
TimeL == \E k \in 1..Len(s.tk) : s.tk[k].st = "rsp" /\ \E d \in {s.tk[k].rem} \cup (IF Mode = "conf" THEN {10} ELSE {}) : OldL([op |-> "adv", dt |-> d])
Bodies ==
  CASE Mode \in {"lock", "again"} -> {<<112, 6, 1, 1, 7>>}
    [] Mode \in {"disp1", "disp2", "disp3"} -> {<<32, 3, 1>>, <<37, 3, 255>>, <<32, 99>>}
    [] Mode = "iv" -> {<<134, 20, 134, 2>>, <<134, 20, 114, 1>>, <<134, 18, 3, 4, 5, 6, 7>>, <<114, 5, 0, 1, 0, 2, 0, 3>>, <<114, 5, 0, 9>>}
    [] Mode = "assoc" -> {<<133, 6, 2>>, <<133, 3, 1, 5, 0, 1>>, <<133, 3, 1, 5, 0, 9>>, <<133, 3, 1, 5, 1, 7>>, <<133, 3, 2, 4, 0, 3>>}
    [] Mode = "massoc" -> {<<133, 6, 1>>, <<142, 3, 1, 5, 0, 0, 1, 0>>, <<142, 3, 1, 5, 0, 0, 1, 2>>, <<142, 3, 1, 5, 1, 7, 0, 1, 0>>, <<142, 3, 2, 4, 0, 3>>}
    [] Mode = "conf" -> {<<112, 6, 1, 1, 7>>, <<112, 6, 1, 2, 0, 9>>, <<112, 6, 2, 1, 8>>}
    [] Mode = "sensor" -> {<<49, 2, 9>>, <<49, 2, 1>>, <<49, 6, 1, 2>>, <<49, 6, 4, 1>>, <<49, 5, 1, 10, 0, 22>>, <<49, 5, 1, 1, 22>>, <<49, 5, 4, 1, 22>>}
    [] Mode = "agi" -> {<<89, 4, 129, 1, 0, 0, 1, 0, 0, 0>>, <<89, 4, 130, 1, 0, 0, 1, 0, 0, 0, 2, 0, 32, 1, 0, 0, 0>>, <<89, 2, 1, 2, 65, 66>>, <<89, 6, 1, 2, 32, 1>>, <<89, 2, 2, 1, 67>>}
Open == Cardinality({t \in {s.tk[k] : k \in 1..Len(s.tk)} : t.kind = "msg"})
MsgL == /\ Open < 2
        /\ \E b \in Bodies : \E c \in 1..Len(s.nd) : NewL([op |-> "msg", n |-> c, body |-> b])
SupL == /\ Mode \in {"disp1", "disp2", "disp3"} /\ Open < 2
        /\ \E b \in Bodies : NewL([op |-> "msg", n |-> 1, body |-> <<108, 1, 5, Len(b)>> \o b])
GoL == (\E k \in 1..Len(s.tk) : s.tk[k].st = "lsn") /\ OldL([op |-> "go"])
LookL == s.tk = <<>> /\ lab.op # "look" /\ Mode \notin {"lock", "again"} /\ \E c \in 1..Len(s.nd) : OldL([op |-> "look", n |-> c])
Locks == /\ Mode \in {"lock", "again"}
         /\ \E c \in 1..Len(s.nd) : \/ s.nd[c].depth < 3 /\ OldL([op |-> "lock", n |-> c])
                                    \/ s.nd[c].depth > 0 /\ \E x \in {0, 1} : OldL([op |-> "unlock", n |-> c, exc |-> x, first |-> x])
                                    \/ OldL([op |-> "upd", n |-> c])
NoIv == ~\E k \in 1..Len(s.tk) : s.tk[k].kind \in {"iv", "civ"}
CancelL == Mode # "lock" /\ \E k \in 1..Len(s.tk) : s.tk[k].kind # "msg" /\ OldL([op |-> "cancel", id |-> s.tk[k].id])
NewAct ==
  CASE Mode \in {"disp1", "disp2"} -> /\ ~\E k \in 1..Len(s.tk) : s.tk[k].kind = "req"
                                      /\ NewL([op |-> "req", n |-> 1, body |-> <<32, 2>>, want |-> 8195, to |-> 30])
    [] Mode = "iv" -> NoIv /\ NewL([op |-> "iv", n |-> 1])
    [] Mode \in {"assoc", "massoc"} -> NoIv /\ NewL([op |-> "civ", n |-> 1, c |-> 133])
    [] Mode = "sensor" -> NoIv /\ NewL([op |-> "civ", n |-> 1, c |-> 49])
    [] Mode = "agi" -> NoIv /\ NewL([op |-> "civ", n |-> 1, c |-> 89])
    [] Mode = "conf" -> \/ \E ca \in {0, 1} : \E p \in {1, 2} : NewL([op |-> "cget", n |-> 1, par |-> p, cached |-> ca])
                        \/ NewL([op |-> "cset", n |-> 1, par |-> 1, size |-> 2, val |-> <<1, 0>>])
    [] OTHER -> FALSE
Next == SettleL \/ TimeL \/ MsgL \/ SupL \/ GoL \/ Locks \/ NewAct \/ CancelL
Limit == TLCGet("level") <= MaxLevel
MInv == Inv(s)
Emit == /\ Assert(StepOK(s, lab' @@ Base), <<"step violates the design properties", s, lab'>>)
        /\ PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>))
=============================================================================
