----------------------------- MODULE M_Gateway -----------------------------
(* Bounded design model of Gateway, starting after a successful connect with nodes 1 and 2     *)
(* known.  Acts selects what is explored: "send", "list", "uns", "nm", "stop", "time".                 *)
EXTENDS Gateway, TLC, Json
CONSTANTS Open, Acts, MaxId, MaxLevel, Graph
VARIABLES s, n, lab

View == <<s, n>>
Base == [op |-> "", pk |-> "", nm |-> -1, rep |-> 0]
Bytes(kk) == [k \in 1..kk |-> 0]
Mask(S) == <<(IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 3 \in S THEN 4 ELSE 0)>> \o Bytes(28)
ListRep(q, S) == <<82, 2, q, 0, 1>> \o Mask(S)
AdvBody(node, val, ip) == <<88, 1, val, node, 253>> \o Bytes(6) \o <<ip % 3>> \o Bytes(7) \o <<ip \div 3 + 1, 222, 173, 190, 239>>
CallL(id, kind, node, arg) == [op |-> "call", id |-> id, kind |-> kind, node |-> node, arg |-> arg, sep |-> 0, dep |-> 0, to |-> 30] @@ Base
CmdL(con, b, ref) == [op |-> "rx", pk |-> "cmd", con |-> con, sep |-> 0, body |-> b, ref |-> ref] @@ Base
AckL(con, k, ref) == [op |-> "rx", pk |-> "ack", con |-> con, n |-> k, ref |-> ref] @@ Base
AdvL(node, val, ip) == [op |-> "rx", pk |-> "adv", node |-> node, val |-> val, ip |-> ip, body |-> AdvBody(node, val, ip)] @@ Base
UnsL(ip, b, rep) == [op |-> "rx", pk |-> "uns", ip |-> ip, body |-> b, rep |-> rep] @@ Base
Packet(fl0, fl1, q, sep, dep, b) == <<35, 2, fl0, fl1, q, sep, dep>> \o b

Prefix == <<CallL(100, "connect", 0, <<0>>), CmdL(1, <<95, 3, 1>>, 100), AckL(1, 1, 100), AckL(1, 2, 100) @@ [x |-> 0],
            AckL(1, 3, 100), CmdL(1, ListRep(1, {1, 2}), 100), AdvL(1, 0, 1), AdvL(2, 0, 2)>>
WithNm(l, k) == [l EXCEPT !.nm = IF k = 4 THEN 1 ELSE -1]
RECURSIVE Run(_, _)
Run(z, k) == IF k > Len(Prefix) THEN z ELSE Run(Do(z, WithNm(Prefix[k], k)).s, k + 1)

Init == s = Run(Init0([open |-> Open]), 1) /\ n = 0 /\ lab = Base
StepL(l) == s' = Do(s, l).s /\ lab' = l
NextNm == IF s.nms = <<>> THEN 1 ELSE s.nms[Len(s.nms)] + 1
NewL(kind, node, arg) == n < MaxId /\ n' = n + 1 /\ StepL([CallL(n + 1, kind, node, arg) EXCEPT !.nm = NextNm])

SendL == "send" \in Acts /\ \E node \in {2, 3} : NewL("send", node, <<32, 1, n + 1>>)
NmL == "nm" \in Acts /\ \/ NewL("eps", 0, <<2>>)
                        \/ NewL("rmFailed", 0, <<2>>)
                        \/ NewL("failed", 0, <<0>>)
                        \/ NewL("mode", 0, <<1>>)
                        \/ NewL("remNode", 0, <<0>>)
CancelL == \E d \in CallIds(s) : StepL([op |-> "cancel", id |-> d] @@ Base) /\ UNCHANGED n
Outstanding == UNION {{<<k, s.con[k].out[j].n, s.con[k].out[j].id>> : j \in 1..Len(s.con[k].out)} : k \in 1..Len(s.con)}
AckAct == \E p \in Outstanding : StepL(AckL(p[1], p[2], p[3])) /\ UNCHANGED n
Replies(c) == CASE c.kind = "eps" -> {<<82, 6, c.nm, 2, 0, 3, 1>>} [] c.kind = "rmFailed" -> {<<52, 8, c.nm, 1, 2>>, <<52, 8, c.nm, 2, 2>>}
                [] c.kind = "failed" -> {<<82, 12, c.nm>> \o Mask({2})} [] c.kind = "mode" -> {<<95, 3, 1>>, <<95, 3, 2>>}
                [] c.kind = "cmode" -> {<<95, 3, 1>>}
                [] OTHER -> {}
ReplyAct == \E c \in {s.calls[k] : k \in {j \in 1..Len(s.calls) : s.calls[j].nm # -3}} : \E b \in Replies(c) : StepL(CmdL(s.main, b, c.id)) /\ UNCHANGED n
Reports == {{1, 2}, {1, 3}, {1, 2, 3}}
UnsReport(S) == UnsL(9, Packet(0, 80, 5, 0, 0, ListRep(0, S)), 1)
ListAct == "list" \in Acts /\ n < MaxId + 2 /\ n' = n + 1 /\ \E S \in Reports : StepL(UnsReport(S))
UnsAct == "uns" \in Acts /\ \E ip \in {1, 2, 3} : \E fl \in {0, 128} : StepL(UnsL(ip, Packet(fl, 80, 7, 1, 2, <<32, 1, 255>>), 0)) /\ UNCHANGED n
Looks == {s.cres[k].node : k \in {j \in 1..Len(s.cres) : s.cres[j].ip = -1}} \cup (IF s.jobs = <<>> THEN {} ELSE {Head(s.jobs).cur})
AdvAct == /\ ({"send", "list"} \cap Acts) # {} /\ Looks # {}
          /\ \E node \in Looks \cup {2} : \E val \in {0, 2} :
               (* which of the two lookups of one node ends first when a further list waits is left open *)
               /\ ~(Resolving(s, node) /\ Len(s.jobs) > 1 /\ Head(s.jobs).cur = node)
               /\ StepL(AdvL(node, val, node)) /\ UNCHANGED n
TimeAct == "time" \in Acts /\ NextDue(s) < 200 /\ \E d \in {NextDue(s), NextDue(s) - 1} : d > 0 /\ StepL([op |-> "adv", dt |-> d] @@ Base) /\ UNCHANGED n
RaceAct == /\ "time" \in Acts /\ NextDue(s) < 200
           /\ \E l \in {AckL(p[1], p[2], p[3]) : p \in Outstanding} \cup {AdvL(node, 0, node) : node \in {x \in Looks : Len(s.jobs) < 2}} :
                 StepL(([op |-> "race", dt |-> NextDue(s)] @@ l)) /\ UNCHANGED n
Connecting == \E k \in 1..Len(s.calls) : s.calls[k].kind \in {"cmode", "cset", "cuds", "clist", "cjob"}
StopL == "stop" \in Acts /\ IF Up(s) THEN ~Connecting /\ StepL([op |-> "stop"] @@ Base) /\ UNCHANGED n
                             ELSE ~Connecting /\ NewL("connect", 0, <<0>>)
Next == StopL \/ SendL \/ NmL \/ CancelL \/ AckAct \/ ReplyAct \/ ListAct \/ UnsAct \/ AdvAct \/ TimeAct \/ RaceAct
Limit == TLCGet("level") <= MaxLevel
Inv == OneConnection(s) /\ Timely(s) /\ OneJob(s) /\ Distinct(s) /\ Waited(s)
Check == Assert(StepOK(s, lab'), <<"step violates the design properties", s, lab'>>)
Emit == Check /\ (Graph => PrintT("@@E" \o ToJson(<<[s |-> s, n |-> n], [s |-> s', n |-> n'], lab'>>)))
============================================================================
