------------------------------ MODULE Gateway ------------------------------
(* The Z/IP gateway: network management calls over the main connection, resolution of node    *)
(* addresses, one connection per node, unsolicited packets and the node list.                  *)
(* Connection main leads to the gateway (address 0); -1 stands for an unknown address and for a   *)
(* timer that is not running.  Times in deciseconds; now is the time since the event began.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
W == INSTANCE Wire

KeepAlive == 250
AckTime == 30
ReplyTime == 30

(* con: [ip, node, n (commands sent so far), out (sequence of [n, id, rem]), ka, open]          *)
(* calls: [id, kind, st, con, node, hid, nm, rem, wto, got, arg, sep, dep, to], st one of      *)
(*   plain (delivery is all that matters), send (a reply is awaited as well), wait, conn, job  *)
(* cres: connections being made [node, rem, ip]: looking for the address (ip = -1), then        *)
(*   opening the socket, which takes the time open; jobs: node lists to process, the first one *)
(*   being worked on                                                                           *)
Init0(cfg) == [open |-> cfg.open, nodes |-> <<>>, con |-> <<>>, calls |-> <<>>, cres |-> <<>>, jobs |-> <<>>, main |-> 1,
               listen |-> FALSE, nms |-> <<>>, nm |-> -1, now |-> 0]

R(s, x) == [s |-> s, exp |-> x]
Then(r, F(_)) == LET q == F(r.s) IN R(q.s, r.exp \o q.exp)

(* ---- observations ---- *)
TxO(s, k, n, b, sep, dep) == [k |-> "tx", ip |-> s.con[k].ip, pk |-> "cmd", n |-> n, sep |-> sep, dep |-> dep,
                              fl |-> <<128, 80>>, body |-> b, at |-> s.now]
RawO(s, k, b) == [k |-> "tx", ip |-> s.con[k].ip, pk |-> "raw", n |-> -1, sep |-> -1, dep |-> -1, fl |-> <<>>,
                  body |-> b, at |-> s.now]
OpenO(s, ip) == [k |-> "open", ip |-> ip, at |-> s.now]
CloseO(s, ip) == [k |-> "close", ip |-> ip, at |-> s.now]
ListenO(s) == [k |-> "listen", at |-> s.now]
AckO(s, ip, b) == [k |-> "uack", ip |-> ip, body |-> b, at |-> s.now]
MsgO(s, node, sep, m, ext) == [k |-> "msg", node |-> node, sep |-> sep, m |-> m, ext |-> ext, at |-> s.now]
UpO(s, sep, m) == [k |-> "up", sep |-> sep, m |-> m, at |-> s.now]
ListO(s, l) == [k |-> "nlu", list |-> l, at |-> s.now]
RetO(s, d, r, v) == [k |-> "ret", id |-> d, res |-> r, v |-> v, at |-> s.now]

(* ---- lookups ---- *)
NodeAt(s, n) == {k \in 1..Len(s.nodes) : s.nodes[k].id = n}
Known(s, n) == NodeAt(s, n) # {}
IpOf(s, n) == IF Known(s, n) THEN s.nodes[CHOOSE k \in NodeAt(s, n) : TRUE].ip ELSE -1
Ids(s) == [k \in 1..Len(s.nodes) |-> s.nodes[k].id]
SetIp(s, n, ip) == [s EXCEPT !.nodes = [k \in 1..Len(@) |-> IF @[k].id = n THEN [@[k] EXCEPT !.ip = ip] ELSE @[k]]]
ConOf(s, n) == {k \in 2..Len(s.con) : s.con[k].node = n /\ s.con[k].open}
CallAt(s, d) == {k \in 1..Len(s.calls) : s.calls[k].id = d}
Call(s, d) == s.calls[CHOOSE k \in CallAt(s, d) : TRUE]
PutCall(s, c) == [s EXCEPT !.calls = [k \in 1..Len(@) |-> IF @[k].id = c.id THEN c ELSE @[k]]]
DropCall(s, d) == [s EXCEPT !.calls = SelectSeq(@, LAMBDA c : c.id # d),
                            !.con = [k \in 1..Len(@) |-> [@[k] EXCEPT !.out = SelectSeq(@, LAMBDA o : o.id # d)]]]
Ret(s, c, r, v) == R(DropCall(s, c.id), <<RetO(s, c.id, r, v)>>)
Resolving(s, n) == \E k \in 1..Len(s.cres) : s.cres[k].node = n
Looking(s, n) == \E k \in 1..Len(s.cres) : s.cres[k].node = n /\ s.cres[k].ip = -1
Insert(q, x) == SelectSeq(q, LAMBDA y : y < x) \o <<x>> \o SelectSeq(q, LAMBDA y : y > x)
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE Insert(Sorted(Tail(q)), Head(q))

(* ---- transmitting ---- *)
Up(s) == s.con # <<>> /\ s.con[s.main].open        \* connected to the gateway
RECURSIVE Settle(_, _, _)
Put(s, d, k, b, sep, dep, to) ==
  IF ~s.con[k].open THEN Settle(s, d, FALSE) ELSE
  LET n == s.con[k].n + 1
  IN R([s EXCEPT !.con[k] = [@ EXCEPT !.n = n, !.ka = KeepAlive, !.out = Append(@, [n |-> n, id |-> d, rem |-> to])]],
       <<TxO(s, k, n, b, sep, dep)>>)
Solicit(s, node) == IF Up(s) THEN <<RawO(s, s.main, <<88, 4, 0, node>>)>> ELSE <<>>

(* ---- network management commands: content, awaited reply and how long it is awaited ---- *)
Body(kind, q, a) ==
  CASE kind = "addNode"  -> <<52, 1, q, 0, 7, a[1]>>
    [] kind = "addStop"  -> <<52, 1, q, 0, 5, 0>>
    [] kind = "dskSet"   -> <<52, 20, q, a[1] * 128 + a[2]>> \o SubSeq(a, 3, Len(a))
    [] kind = "keysSet"  -> <<52, 18, q, a[1] * 2 + a[2], a[3]>>
    [] kind = "remNode"  -> <<52, 3, q, 0, 1>>
    [] kind = "remStop"  -> <<52, 3, q, 0, 5>>
    [] kind \in {"rmFailed", "rmNode"} -> <<52, 7, q, a[1]>>
    [] kind = "failed"   -> <<82, 11, q>>
    [] kind = "eps"      -> <<82, 5, q, a[1]>>
    [] kind = "cap"      -> <<82, 7, q, a[1], a[2]>>
    [] kind = "info"     -> <<82, 3, q, 15, a[1]>>
    [] kind \in {"list", "clist"} -> <<82, 1, q>>
    [] kind \in {"mode", "cmode"} -> <<95, 2>>
    [] kind \in {"mset", "cset"} -> <<95, 1, a[1]>>
    [] kind = "cuds"     -> <<95, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 192, 168, 0, 49, 16, 27>>
Awaits(kind) ==
  CASE kind \in {"rmFailed", "rmNode"} -> 13320 [] kind = "failed" -> 21004 [] kind = "eps" -> 20998 [] kind = "cap" -> 21000
    [] kind = "info" -> 20996 [] kind \in {"list", "clist"} -> 20994 [] kind \in {"mode", "cmode"} -> 24323
    [] OTHER -> 0
Numbered(kind) == kind \notin {"mode", "cmode", "mset", "cset", "cuds", "send"}
WaitTime(kind) == IF kind \in {"rmFailed", "rmNode"} THEN 100 ELSE ReplyTime
Fresh(s) == IF s.nm \in 0..255 /\ ~\E k \in 1..Len(s.nms) : s.nms[k] = s.nm THEN s.nm ELSE -2
Recent(q) == IF Len(q) > 200 THEN Tail(q) ELSE q

(* call c (already in the list) sends its command *)
Issue(s, c) ==
  LET num == Numbered(c.kind) /\ Up(s)
      q == IF num THEN Fresh(s) ELSE IF Numbered(c.kind) THEN -3 ELSE -1   \* -3: never sent, never answered
      st == IF Awaits(c.kind) = 0 THEN "plain" ELSE "send"
      s1 == IF num THEN [s EXCEPT !.nms = Recent(Append(@, q))] ELSE s
  IN Put(PutCall(s1, [c EXCEPT !.st = st, !.con = s.main, !.hid = Awaits(c.kind), !.nm = q, !.wto = WaitTime(c.kind), !.got = <<>>, !.rem = -1]),
         c.id, s.main, Body(c.kind, q, c.arg), 0, 0, AckTime)

(* ---- node list ---- *)
SetNodes(s, list) ==
  LET gone == {k \in 2..Len(s.con) : s.con[k].open /\ Known(s, s.con[k].node) /\ ~\E j \in 1..Len(list) : list[j] = s.con[k].node}
      l == Sorted(list)
  IN R([s EXCEPT !.nodes = [k \in 1..Len(l) |-> [id |-> l[k], ip |-> IpOf(s, l[k])]],
                 !.con = [k \in 1..Len(@) |-> IF k \in gone THEN [@[k] EXCEPT !.open = FALSE, !.ka = -1] ELSE @[k]]],
       [k \in 1..Cardinality(gone) |-> CloseO(s, s.con[SetToSortSeq(gone, <)[k]].ip)])

(* one list is worked on at a time, its nodes of unknown address are looked up one by one *)
RECURSIVE JobNext(_), JobStart(_)
JobEnd(s) ==
  LET j == Head(s.jobs)
      s1 == [s EXCEPT !.jobs = Tail(@)]
      r == IF j.kind = "init" THEN Ret(s1, Call(s1, j.id), "none", <<>>) ELSE R(s1, <<ListO(s1, Ids(s1))>>)
  IN IF r.s.jobs = <<>> THEN r ELSE Then(r, JobStart)
JobNext(s) ==
  LET j == Head(s.jobs) IN
  IF j.todo = <<>> THEN JobEnd(s)
  ELSE LET n == Head(j.todo) IN
       IF ~Known(s, n) \/ IpOf(s, n) # -1
       THEN JobNext([s EXCEPT !.jobs[1] = [@ EXCEPT !.todo = Tail(@)]])
       ELSE R([s EXCEPT !.jobs[1] = [@ EXCEPT !.todo = Tail(@), !.cur = n, !.rem = ReplyTime]], Solicit(s, n))
JobStart(s) ==
  LET j == Head(s.jobs)
      r == IF j.kind = "init" THEN R(s, <<>>) ELSE SetNodes(s, j.list)
  IN Then(R([r.s EXCEPT !.jobs[1] = [@ EXCEPT !.todo = Ids(r.s)]], r.exp), JobNext)
JobAdd(s, kind, d, list) ==
  LET s1 == [s EXCEPT !.jobs = Append(@, [kind |-> kind, id |-> d, list |-> list, todo |-> <<>>, cur |-> -1, rem |-> -1])]
  IN IF s.jobs = <<>> THEN JobStart(s1) ELSE R(s1, <<>>)
JobGot(s, n, ip) ==          \* ip = -1: no address
  LET s1 == [s EXCEPT !.jobs[1] = [@ EXCEPT !.cur = -1, !.rem = -1]]
  IN JobNext(IF ip = -1 THEN s1 ELSE SetIp(s1, n, ip))

(* ---- results ---- *)
NumAt(m, k) == IF m.f[k] = W!No THEN 0 ELSE m.f[k][2]
SetAt(m, k) == IF m.f[k] = W!No THEN <<>> ELSE Tail(m.f[k])
CJob(s, c) == JobAdd(PutCall(s, [c EXCEPT !.kind = "cjob", !.st = "job", !.rem = -1]), "init", c.id, <<>>)
CList(s, c) == IF s.nodes # <<>> THEN CJob(s, c) ELSE Issue(s, [c EXCEPT !.kind = "clist"])
CUds(s, c) == Then(R([s EXCEPT !.listen = TRUE], <<ListenO(s)>>), LAMBDA x : Issue(x, [c EXCEPT !.kind = "cuds"]))

(* the request of call c got the reply m, or none (m = <<>>) *)
Replied(s, c, q) ==
  LET none == q = <<>>
      m == IF none THEN W!Decode(<<c.hid \div 256, c.hid % 256>>) ELSE q[1]
      known == NumAt(m, 1) = c.arg[1]
  IN CASE c.kind = "failed"   -> Ret(s, c, "val", SetAt(m, 2))
       [] c.kind = "eps"      -> Ret(s, c, "val", <<NumAt(m, 3) + NumAt(m, 4)>>)
       [] c.kind \in {"cap", "info"} -> Ret(s, c, "val", W!Flat(m))
       [] c.kind = "rmFailed" -> Ret(s, c, "val", <<IF none THEN 2 ELSE NumAt(m, 2)>>)
       [] c.kind = "rmNode"   -> Ret(s, c, IF ~none /\ NumAt(m, 2) = 1 THEN "true" ELSE "false", <<>>)
       [] c.kind = "list"     -> Then(IF m.f[4] = W!No THEN R(s, <<>>) ELSE SetNodes(s, SetAt(m, 4)),
                                      LAMBDA x : Ret(x, c, "val", SetAt(m, 4)))
       [] c.kind = "mode"     -> IF none THEN Ret(s, c, "false", <<>>)
                                 ELSE IF known THEN Ret(s, c, "true", <<>>)
                                 ELSE Issue(s, [c EXCEPT !.kind = "mset"])
       [] c.kind = "cmode"    -> IF none \/ known THEN CUds(s, c) ELSE Issue(s, [c EXCEPT !.kind = "cset"])
       [] c.kind = "clist"    -> Then(IF m.f[4] = W!No THEN R(s, <<>>) ELSE SetNodes(s, SetAt(m, 4)), LAMBDA x : CJob(x, c))

(* the delivery of the command of call d is settled *)
Settle(s, d, ok) ==
  IF CallAt(s, d) = {} THEN R(s, <<>>)
  ELSE LET c == Call(s, d) IN
       CASE c.st = "plain" -> IF c.kind = "cset" THEN CUds(s, c)
                              ELSE IF c.kind = "cuds" THEN CList(s, c)
                              ELSE Ret(s, c, IF ok THEN "true" ELSE "false", <<>>)
         [] c.st = "send"  -> IF c.got # <<>> THEN Replied(s, c, c.got)
                              ELSE R(PutCall(s, [c EXCEPT !.st = "wait", !.rem = c.wto]), <<>>)
         [] OTHER -> R(s, <<>>)

(* ---- connections to nodes ---- *)
RECURSIVE SendAll(_, _, _)
SendAll(s, k, ds) ==         \* those waiting for connection k send their commands
  IF ds = <<>> THEN R(s, <<>>)
  ELSE LET c == Call(s, Head(ds))
       IN Then(Put(PutCall(s, [c EXCEPT !.st = "plain", !.con = k]), c.id, k, c.arg, c.sep, c.dep, c.to),
               LAMBDA x : SendAll(x, k, Tail(ds)))
Callers(s, n) == LET q == SelectSeq(s.calls, LAMBDA c : c.st = "conn" /\ c.node = n) IN [k \in 1..Len(q) |-> q[k].id]
RECURSIVE FailAll(_, _)
FailAll(s, ds) == IF ds = <<>> THEN R(s, <<>>)
                  ELSE Then(Ret(s, Call(s, Head(ds)), "timeout", <<>>), LAMBDA x : FailAll(x, Tail(ds)))
NoCres(s, n) == [s EXCEPT !.cres = SelectSeq(@, LAMBDA x : x.node # n)]
Opened(s, n, ip) ==          \* the socket is open
  LET s1 == [NoCres(s, n) EXCEPT !.con = Append(@, [ip |-> ip, node |-> n, n |-> 0, out |-> <<>>, ka |-> IF Up(s) THEN KeepAlive ELSE -1, open |-> Up(s)])]
  IN IF ~Up(s) THEN Then(R(s1, <<OpenO(s, ip), CloseO(s, ip)>>), LAMBDA x : FailAll(x, Callers(x, n))) ELSE
     Then(R(s1, <<OpenO(s, ip)>>), LAMBDA x : SendAll(x, Len(x.con), Callers(x, n)))
Looked(s, n, ip) ==          \* the lookup of node n for a connection ended
  IF ip = -1 THEN LET s1 == NoCres(s, n) IN FailAll(s1, Callers(s1, n))
  ELSE IF s.open = 0 THEN Opened(SetIp(s, n, ip), n, ip)
  ELSE R([SetIp(NoCres(s, n), n, ip) EXCEPT !.cres = Append(@, [node |-> n, ip |-> ip, rem |-> s.open])], <<>>)

(* ---- calls ---- *)
NewCall(e) == [id |-> e.id, kind |-> e.kind, st |-> "new", con |-> 0, node |-> e.node, hid |-> 0, nm |-> -1, rem |-> -1,
               wto |-> 0, got |-> <<>>, arg |-> e.arg, sep |-> e.sep, dep |-> e.dep, to |-> e.to]
Start(s, e) ==
  LET c == NewCall(e)
      s1 == [s EXCEPT !.calls = Append(@, c)]
  IN CASE e.kind = "connect" ->
            Then(R([s1 EXCEPT !.main = Len(s.con) + 1, !.con = @ \o <<[ip |-> 0, node |-> 0, n |-> 0, out |-> <<>>, ka |-> KeepAlive, open |-> TRUE]>>], <<OpenO(s, 0)>>),
                 LAMBDA x : Issue(x, [c EXCEPT !.kind = "cmode", !.arg = <<1>>]))
       [] e.kind = "list" /\ s.nodes # <<>> -> R(s, <<RetO(s, e.id, "val", Ids(s))>>)
       [] e.kind = "send" /\ ~Up(s) -> R(s, <<RetO(s, e.id, "false", <<>>)>>)
       [] e.kind = "send" /\ ConOf(s, e.node) # {} ->
            SendAll(s1, CHOOSE k \in ConOf(s, e.node) : TRUE, <<e.id>>)
       [] e.kind = "send" ->
            LET s2 == PutCall(s1, [c EXCEPT !.st = "conn"])
            IN IF Resolving(s, e.node) THEN R(s2, <<>>)
               ELSE R([s2 EXCEPT !.cres = Append(@, [node |-> e.node, rem |-> ReplyTime, ip |-> -1])], Solicit(s, e.node))
       [] OTHER -> Issue(s1, c)
Cancel(s, e) == IF CallAt(s, e.id) = {} THEN R(s, <<>>) ELSE Ret(s, Call(s, e.id), "cancelled", <<>>)

(* ---- inbound ---- *)
Answers(c, m) == c.hid = m.hid /\ c.got = <<>> /\ (c.nm = -1 \/ m.f[1] = <<1, c.nm>>) /\ c.st \in {"send", "wait"}
RECURSIVE Give(_, _, _)
Give(s, ds, m) ==
  IF ds = <<>> THEN R(s, <<>>)
  ELSE LET c == Call(s, Head(ds))
       IN Then(IF c.st = "wait" THEN Replied(s, c, <<m>>) ELSE R(PutCall(s, [c EXCEPT !.got = <<m>>]), <<>>),
               LAMBDA x : Give(x, Tail(ds), m))
(* a command on the main connection: whoever awaits it takes it *)
MainCmd(s, sep, m) ==
  LET q == SelectSeq(s.calls, LAMBDA c : Answers(c, m))
  IN IF q = <<>> THEN R(s, <<UpO(s, sep, W!Flat(m))>>) ELSE Give(s, [k \in 1..Len(q) |-> q[k].id], m)
Advert(s, e) ==
  LET ip == IF e.val = 2 THEN -1 ELSE e.ip
      job == s.jobs # <<>> /\ Head(s.jobs).cur = e.node
      look == Looking(s, e.node)
  IN IF ~job /\ ~look THEN R(s, <<UpO(s, -1, W!Flat(W!Decode(e.body)))>>)
     ELSE Then(IF look THEN Looked(s, e.node, ip) ELSE R(s, <<>>), LAMBDA x : IF job THEN JobGot(x, e.node, ip) ELSE R(x, <<>>))
Outs(s, k, n) == SelectSeq(s.con[k].out, LAMBDA o : o.n = n)
Acked(s, k, n) ==
  LET q == Outs(s, k, n) IN
  IF q = <<>> THEN R(s, <<>>)
  ELSE Settle([s EXCEPT !.con[k] = [@ EXCEPT !.out = SelectSeq(@, LAMBDA o : o.n # n)]], q[1].id, TRUE)
Waiting(s, k, n, delay) ==
  R([s EXCEPT !.con[k] = [@ EXCEPT !.out = [j \in 1..Len(@) |-> IF @[j].n = n THEN [@[j] EXCEPT !.rem = 10 * delay + 600] ELSE @[j]]]], <<>>)
Unsolicited(s, e) ==
  LET d == W!Decode(e.body)
      inner == [hid |-> d.f[15][2], f |-> W!Unflat(SubSeq(d.f[15], 3, Len(d.f[15])))]
      from == SelectSeq(s.nodes, LAMBDA x : x.ip = e.ip)
      secure == IF d.f[10] = <<1, 1>> THEN 16 ELSE 0
  IN CASE ~s.listen \/ ~d.ok -> R(s, <<>>)
       [] d.hid # 8962 -> R(s, <<>>)
       [] d.f[15] = W!No -> R(s, <<>>)
       [] inner.hid = 20994 -> IF inner.f[4] = W!No THEN R(s, <<>>) ELSE JobAdd(s, "report", 0, SetAt(inner, 4))
       [] from = <<>> -> R(s, <<>>)
       [] OTHER -> R(s, (IF d.f[1] = <<1, 1>> THEN <<AckO(s, e.ip, <<35, 2, 64, secure, d.f[11][2], d.f[13][2], d.f[12][2]>>)>> ELSE <<>>)
                        \o <<MsgO(s, from[1].id, d.f[12][2], d.f[15], d.f[14])>>)
Rx(s, e) ==
  CASE e.pk \in {"ack", "wait", "nack", "cmd"} /\ ~s.con[e.con].open -> R(s, <<>>)
    [] e.pk = "adv" /\ ~Up(s) -> R(s, <<>>)
    [] e.pk = "ack"  -> Acked(s, e.con, e.n)
    [] e.pk = "wait" -> Waiting(s, e.con, e.n, e.delay)
    [] e.pk = "adv"  -> Advert(s, e)
    [] e.pk = "uns"  -> Unsolicited(s, e)
    [] e.pk = "cmd"  -> LET m == W!Decode(e.body) IN
                        IF ~m.ok THEN R(s, <<>>)
                        ELSE IF e.con = s.main THEN MainCmd(s, e.sep, m)
                        ELSE R(s, <<MsgO(s, s.con[e.con].node, e.sep, W!Flat(m), <<0>>)>>)
    [] OTHER -> R(s, <<>>)

(* ---- all connections are closed and nothing is received any more; what is awaited is not heard of ---- *)
Stop(s) ==
  LET open == SelectSeq([k \in 1..Len(s.con) |-> k], LAMBDA k : s.con[k].open)
  IN R([s EXCEPT !.listen = FALSE, !.con = [k \in 1..Len(@) |-> [@[k] EXCEPT !.open = FALSE, !.ka = -1]]],
       [j \in 1..Len(open) |-> CloseO(s, s.con[open[j]].ip)] \o IF s.listen THEN <<[k |-> "unlisten", at |-> s.now]>> ELSE <<>>)

(* ---- time ---- *)
Timers(s) == UNION {{s.con[k].out[j].rem : j \in 1..Len(s.con[k].out)} \cup {s.con[k].ka} : k \in 1..Len(s.con)}
             \cup {s.calls[k].rem : k \in 1..Len(s.calls)} \cup {s.cres[k].rem : k \in 1..Len(s.cres)}
             \cup {s.jobs[k].rem : k \in 1..Len(s.jobs)}
Never == 1000000000
NextDue(s) == LET T == {t \in Timers(s) : t >= 0} IN IF T = {} THEN Never ELSE CHOOSE t \in T : \A u \in T : t <= u
Less(t, d) == IF t < 0 THEN t ELSE t - d
Shift(s, d) == [s EXCEPT !.now = @ + d,
                         !.con = [k \in 1..Len(@) |-> [@[k] EXCEPT !.ka = Less(@, d), !.out = [j \in 1..Len(@) |-> [@[j] EXCEPT !.rem = @ - d]]]],
                         !.calls = [k \in 1..Len(@) |-> [@[k] EXCEPT !.rem = Less(@, d)]],
                         !.cres = [k \in 1..Len(@) |-> [@[k] EXCEPT !.rem = @ - d]],
                         !.jobs = [k \in 1..Len(@) |-> [@[k] EXCEPT !.rem = Less(@, d)]]]
(* everything due at this instant *)
RECURSIVE Fire(_)
Fire(s) ==
  LET outs == {p \in (1..Len(s.con)) \X (1..20) : p[2] <= Len(s.con[p[1]].out) /\ s.con[p[1]].out[p[2]].rem = 0}
      kas == {k \in 1..Len(s.con) : s.con[k].ka = 0}
      waits == {k \in 1..Len(s.calls) : s.calls[k].rem = 0}
      looks == {k \in 1..Len(s.cres) : s.cres[k].rem = 0}
  IN IF kas # {} THEN LET k == CHOOSE k \in kas : TRUE
                           IN Then(R([s EXCEPT !.con[k] = [@ EXCEPT !.ka = KeepAlive]], <<RawO(s, k, <<35, 3, 128>>)>>), Fire)
     ELSE IF outs # {} THEN LET p == CHOOSE p \in outs : TRUE
                           o == s.con[p[1]].out[p[2]]
                       IN Then(Settle([s EXCEPT !.con[p[1]] = [@ EXCEPT !.out = SelectSeq(@, LAMBDA x : x.n # o.n)]], o.id, FALSE), Fire)
     ELSE IF waits # {} THEN Then(Replied(s, s.calls[CHOOSE k \in waits : TRUE], <<>>), Fire)
     ELSE IF looks # {} THEN LET c == s.cres[CHOOSE k \in looks : \A j \in looks : k <= j]   \* in the order they began
                             IN Then(IF c.ip = -1 THEN Looked(s, c.node, -1) ELSE Opened(s, c.node, c.ip), Fire)
     ELSE IF s.jobs # <<>> /\ Head(s.jobs).rem = 0 THEN Then(JobGot(s, Head(s.jobs).cur, -1), Fire)
     ELSE R(s, <<>>)
RECURSIVE Elapse(_, _, _)
Elapse(s, d, incl) ==
  LET n == NextDue(s) IN
  IF n > d \/ (n = d /\ ~incl) THEN R(Shift(s, d), <<>>)
  ELSE Then(Fire(Shift(s, n)), LAMBDA x : Elapse(x, d - n, incl))

Step(s, e) ==
  CASE e.op = "call"   -> Start(s, e)
    [] e.op = "cancel" -> Cancel(s, e)
    [] e.op = "stop"   -> Stop(s)
    [] e.op = "rx"     -> Rx(s, e)
    [] e.op = "adv"    -> Elapse(s, e.dt, TRUE)
    [] e.op = "race"   -> Then(Then(Elapse(s, e.dt, FALSE), LAMBDA x : Rx(x, e)), Fire)
    [] OTHER -> R(s, <<>>)
Do(s, e) == LET r == Step([s EXCEPT !.nm = e.nm, !.now = 0], e) IN R([r.s EXCEPT !.nm = -1, !.now = 0], r.exp)

(* ---- properties of the design ---- *)
OneConnection(s) == \A n \in {s.con[k].node : k \in 2..Len(s.con)} : Cardinality(ConOf(s, n)) <= 1
Timely(s) == \A t \in Timers(s) : t = -1 \/ t > 0
OneJob(s) == \A k \in 2..Len(s.jobs) : s.jobs[k].cur = -1
Distinct(s) == \A a, b \in 1..Len(s.calls) : a # b => /\ s.calls[a].id # s.calls[b].id
                                                      /\ (s.calls[a].nm \notin {-1, -3} => s.calls[a].nm # s.calls[b].nm)
Waited(s) == \A k \in 1..Len(s.calls) : s.calls[k].st = "conn" => Resolving(s, s.calls[k].node)
Kinds(x, kk) == SelectSeq(x, LAMBDA o : o.k = kk)
CallIds(s) == {s.calls[k].id : k \in 1..Len(s.calls)}
StepOK(s, e) ==
  LET r == Do(s, e)
      rets == Kinds(r.exp, "ret")
      done == {rets[k].id : k \in 1..Len(rets)}
      before == CallIds(s) \cup (IF e.op = "call" THEN {e.id} ELSE {})
      cmds == SelectSeq(r.exp, LAMBDA o : o.k = "tx" /\ o.pk = "cmd" /\ o.ip # 0)
      msgs == Kinds(r.exp, "msg")
      acks == Kinds(r.exp, "uack")
      nlus == Kinds(r.exp, "nlu")
  IN /\ Cardinality(done) = Len(rets)
     /\ CallIds(r.s) \cap done = {} /\ CallIds(r.s) \cup done = before         \* every call ends exactly once
     (* a command for a node goes out on a connection of that node, to the address it was opened for *)
     /\ \A k \in 1..Len(cmds) : \E j \in 2..Len(r.s.con) :
            LET c == r.s.con[j] IN
            /\ c.ip = cmds[k].ip
            /\ \E o \in {c.out[i] : i \in 1..Len(c.out)} : CallAt(r.s, o.id) # {} => Call(r.s, o.id).node = c.node
     /\ \A k \in 1..Len(rets) : rets[k].res = "true" => e.op \in {"rx", "race"} \/ Call(s, rets[k].id).got # <<>>
     (* once stopped, nothing is sent and nothing heard *)
     /\ (~Up(r.s) /\ e.op # "stop" => \A k \in 1..Len(r.exp) : r.exp[k].k \notin {"tx", "uack", "msg", "up", "listen"})
     /\ (e.op = "stop" => ~r.s.listen /\ \A k \in 1..Len(r.s.con) : ~r.s.con[k].open)
     (* unsolicited packets: announced once, from the node of that address, acknowledged if asked *)
     /\ (e.pk = "uns" /\ e.op = "rx" => Len(msgs) <= 1 /\ Len(acks) <= Len(msgs))
     /\ \A k \in 1..Len(msgs) : e.pk = "uns" => IpOf(s, msgs[k].node) = e.ip \/ IpOf(r.s, msgs[k].node) = e.ip
     /\ \A k \in 1..Len(acks) : acks[k].ip = e.ip
     (* each processed report is announced with the list it left behind *)
     /\ Len(nlus) = Cardinality({k \in 1..Len(s.jobs) : s.jobs[k].kind = "report"})
                    - Cardinality({k \in 1..Len(r.s.jobs) : r.s.jobs[k].kind = "report"})
                    + (IF e.pk = "uns" /\ e.rep = 1 /\ s.listen THEN 1 ELSE 0)
     /\ (nlus # <<>> /\ r.s.jobs = <<>> => nlus[Len(nlus)].list = Ids(r.s))
============================================================================
