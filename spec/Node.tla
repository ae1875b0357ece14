-------------------------------- MODULE Node --------------------------------
(* Nodes and their command classes: the command class list, the dispatch of messages,        *)
(* supervision, storage locks, interviews and what the classes record.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
W == INSTANCE Wire
No == <<0>>
N(x) == <<1, x>>

(* ---- the command class list ---- *)
KnownClasses == {32, 49, 50, 89, 94, 105, 112, 114, 128, 133, 134, 135}
Width(c) == CASE c = 134 -> 5 [] c = 94 -> 5 [] c = 114 -> 3 [] OTHER -> 0
Class0(c, sec) == [id |-> c, sec |-> sec, ver |-> 0, iv |-> 0, num |-> [k \in 1..Width(c) |-> 0],
                   grp |-> <<>>, inf |-> <<>>, par |-> <<>>, typ |-> <<>>]
PutClass(q, x) == IF \E k \in 1..Len(q) : q[k].id = x.id THEN [k \in 1..Len(q) |-> IF q[k].id = x.id THEN x ELSE q[k]] ELSE Append(q, x)
RECURSIVE Split(_, _, _, _)
(* lone: whether a security mark whose second byte is missing counts as a class *)
Split(b, sup, sec, lone) ==
  IF b = <<>> THEN <<>>
  ELSE IF Len(b) >= 2 /\ b[1] = 241 /\ b[2] = 0 THEN Split(SubSeq(b, 3, Len(b)), TRUE, 1, lone)
  ELSE IF b[1] = 239 THEN Split(Tail(b), FALSE, sec, lone)
  ELSE IF Len(b) = 1 /\ b[1] = 241 /\ ~lone THEN <<>>
  ELSE (IF sup THEN <<<<b[1], sec>>>> ELSE <<>>) \o Split(Tail(b), sup, sec, lone)
RECURSIVE Collect(_, _)
Collect(p, q) == IF p = <<>> THEN q ELSE Collect(Tail(p), PutClass(q, Class0(p[1][1], p[1][2])))
Classes(b, lone) == Collect(Split(b, TRUE, 0, lone), <<>>)
ClassesO(q) == [k |-> "classes", at |-> 0, list |-> [j \in 1..Len(q) |-> [id |-> q[j].id, sec |-> q[j].sec, known |-> IF q[j].id \in KnownClasses THEN 1 ELSE 0]]]

(* ---- state ---- *)
(* nd: nodes; lsn: listeners [id, n, c (0: of the node), ans, slow]; tk: suspended activities  *)
WithVers(q, v) == [k \in 1..Len(q) |-> LET L == SelectSeq(v, LAMBDA x : x[1] = q[k].id)
                                        IN IF L = <<>> THEN q[k] ELSE [q[k] EXCEPT !.ver = L[1][2]]]
Init0(cfg) == [nd |-> [k \in 1..Len(cfg.nodes) |-> [root |-> cfg.nodes[k].root, ep |-> cfg.nodes[k].ep,
                        cls |-> WithVers(Classes(cfg.nodes[k].list, TRUE), cfg.nodes[k].vers), depth |-> 0, dirty |-> 0, again |-> IF "again" \in DOMAIN cfg THEN cfg.again[k] ELSE 0]],
               lsn |-> cfg.lsn, ctl |-> cfg.ctl, tk |-> <<>>, snap |-> 0]
NoMsg == [hid |-> 0, f |-> <<>>]
Task0 == [id |-> 0, kind |-> "", n |-> 0, c |-> 0, st |-> "", wait |-> 0, hid |-> 0, key |-> -1, to |-> 30, rem |-> 0,
          ph |-> "", cls |-> <<>>, rest |-> <<>>, cmd |-> <<>>, has |-> 0, acc |-> <<>>, m |-> NoMsg, h |-> FALSE, sup |-> 0, ses |-> 0]

R(s, x) == [s |-> s, exp |-> x]
Then(r, F(_)) == LET q == F(r.s) IN R(q.s, r.exp \o q.exp)
Ret(d, res, v, at) == [k |-> "ret", id |-> d, res |-> res, v |-> v, at |-> at]
(* snap: whether what the classes record at that moment is observed as well *)
UpdatedO(s, n, at) == [k |-> "nodeUpdated", n |-> n, at |-> at, cls |-> IF s.snap = 1 THEN s.nd[n].cls ELSE <<>>]
(* a listener of the node may answer an announcement with another update, which is one more announcement *)
UpdatedQ(s, n, at) == IF s.nd[n].again > 0 THEN <<UpdatedO(s, n, at), UpdatedO(s, n, at)>> ELSE <<UpdatedO(s, n, at)>>
BoolS(b) == IF b THEN "true" ELSE "false"

Has(s, n, c) == \E k \in 1..Len(s.nd[n].cls) : s.nd[n].cls[k].id = c
Cls(s, n, c) == LET q == s.nd[n].cls IN q[CHOOSE k \in 1..Len(q) : q[k].id = c]
SetCls(s, n, x) == [s EXCEPT !.nd[n].cls = [k \in 1..Len(@) |-> IF @[k].id = x.id THEN x ELSE @[k]]]
(* something about node n changed: saved at once, or when the last lock ends *)
Updated(s, n, at) == IF s.nd[n].depth = 0 THEN R(s, UpdatedQ(s, n, at)) ELSE R([s EXCEPT !.nd[n].dirty = 1], <<>>)

(* lists kept in increasing order of their first element *)
PutBy(q, x, K(_)) == SelectSeq(q, LAMBDA y : K(y) < K(x)) \o <<x>> \o SelectSeq(q, LAMBDA y : K(y) > K(x))
IdOf(x) == x.id
HeadOf(x) == x[1]
HasId(q, d) == \E k \in 1..Len(q) : q[k].id = d
ById(q, d) == q[CHOOSE k \in 1..Len(q) : q[k].id = d]
IdsOf(q) == [k \in 1..Len(q) |-> q[k].id]

(* ---- suspended activities ---- *)
Suspend(s, t, x) == R([s EXCEPT !.tk = Append(@, t)], x)
Drop(s, t) == [s EXCEPT !.tk = SelectSeq(@, LAMBDA y : y # t)]
Transmit(s, t, wait, hid, f, whid, key, ph, at) ==
  LET flat == W!Flat([hid |-> hid, f |-> f])
  IN Suspend(s, [t EXCEPT !.st = "snd", !.wait = wait, !.cmd = flat, !.hid = whid, !.key = key, !.ph = ph, !.has = 0, !.m = NoMsg, !.acc = <<>>],
             <<[k |-> "send", n |-> s.nd[t.n].root, ep |-> s.nd[t.n].ep, m |-> flat, at |-> at]>>)
Ask(s, t, hid, f, whid, key, ph, at) == Transmit(s, t, 1, hid, f, whid, key, ph, at)
Send(s, t, hid, f, ph, at) == Transmit(s, t, 0, hid, f, 0, -1, ph, at)
(* whether message m is the answer awaited with key *)
Accept(t, m) ==
  /\ t.hid = m.hid
  /\ (t.key = -1 \/ CASE m.hid = 34324 -> m.f[1] = N(t.key) /\ m.f[2] # No
                      [] m.hid = 28678 -> m.f[1] = N(t.key) /\ m.f[3] # No
                      [] m.hid \in {34051, 36355} -> m.f[1] = N(t.key) /\ m.f[2] # No
                      [] m.hid = 12550 -> m.f[1] = N(t.key)
                      [] OTHER -> TRUE)

(* the members of a group may take several reports: all but the last one announce that more follow *)
Partial(t, m) == t.key # -1 /\ m.hid \in {34051, 36355} /\ m.f[3] \notin {No, N(0)}

(* ---- interviews ---- *)
RECURSIVE NextClass(_, _, _, _)
Success(s, t, e, at) == LET s1 == SetCls(s, t.n, [Cls(s, t.n, t.c) EXCEPT !.iv = 1])
                        IN Then(Updated(s1, t.n, at), LAMBDA x : NextClass(x, t, e, at))
Fail(s, t, e, at) == NextClass(s, t, e, at)
GroupGet(s, t, g, ph, at) ==
  IF Has(s, t.n, 142) THEN Ask(s, t, 36354, <<N(g)>>, 36355, g, ph, at) ELSE Ask(s, t, 34050, <<N(g)>>, 34051, g, ph, at)
HasMember(mem, n) == \E k \in 1..(Len(mem) \div 2) : mem[2 * k - 1] = n /\ mem[2 * k] \in {-1, 0}
LifeLine(s, t, e, at) ==
  LET g == Cls(s, t.n, 133).grp
  IN IF ~Has(s, t.n, 94) \/ ~HasId(g, 1) THEN Success(s, t, e, at)
     ELSE IF HasMember(ById(g, 1).mem, s.ctl) THEN Success(s, t, e, at)
     ELSE IF Has(s, t.n, 96) /\ Has(s, t.n, 142) THEN Send(s, t, 36353, <<N(1), <<4, s.ctl, 0>>>>, "life", at)
     ELSE Send(s, t, 34049, <<N(1), <<4, s.ctl, -1>>>>, "life", at)
NextGroup(s, t, e, at) ==
  IF t.rest = <<>> THEN LifeLine(s, t, e, at)
  ELSE GroupGet(s, [t EXCEPT !.rest = Tail(@)], Head(t.rest), "grp", at)
NextScale(s, t, e, at) ==
  IF t.rest = <<>> THEN Success(s, t, e, at)
  ELSE LET x == IF \E k \in 1..Len(t.rest) : t.rest[k] = e.nxt THEN e.nxt ELSE Head(t.rest)  \* in which order is up to the code
       IN Ask(s, [t EXCEPT !.rest = SelectSeq(@, LAMBDA y : y # x)], 12547, <<N(x)>>, 12550, x, "scale", at)
Body(s0, t, e, at) ==
  LET s == SetCls(s0, t.n, [Cls(s0, t.n, t.c) EXCEPT !.iv = 0])
  IN CASE t.c = 134 -> Ask(s, t, 34321, <<>>, 34322, -1, "main", at)
       [] t.c = 94  -> Ask(s, t, 24065, <<>>, 24066, -1, "main", at)
       [] t.c = 114 -> Ask(s, t, 29188, <<>>, 29189, -1, "main", at)
       [] t.c = 49  -> IF Cls(s, t.n, 49).ver < 5 THEN Success(s, t, e, at) ELSE Ask(s, t, 12545, <<>>, 12546, -1, "types", at)
       [] t.c = 133 -> Ask(s, t, 34053, <<>>, 34054, -1, "count", at)
       [] t.c = 89  -> Send(s, t, 22787, <<N(0), N(1), N(0)>>, "agi", at)
       [] OTHER -> Success(s, t, e, at)
StartClass(s, t, e, at) ==
  IF Cls(s, t.n, t.c).ver = 0 THEN Ask(s, t, 34323, <<N(t.c)>>, 34324, t.c, "ver", at) ELSE Body(s, t, e, at)
NextClass(s, t, e, at) ==
  IF t.cls = <<>> THEN R(s, <<Ret(t.id, "none", <<>>, at)>>)
  ELSE StartClass(s, [t EXCEPT !.cls = Tail(@), !.c = Head(t.cls)], e, at)

RECURSIVE SetNums(_, _, _)                         \* the values present at the beginning of the report
SetNums(q, f, k) == IF k > Len(q) \/ f[k] = No THEN q ELSE SetNums([q EXCEPT ![k] = f[k][2]], f, k + 1)
SetGroup(s, t, m) ==
  LET x == Cls(s, t.n, 133)
  IN SetCls(s, t.n, [x EXCEPT !.grp = PutBy(@, [id |-> m.f[1][2], max |-> m.f[2][2], mem |-> t.acc \o Tail(m.f[4])], IdOf)])
RECURSIVE NewGroups(_, _)
NewGroups(q, n) == IF n = 0 THEN q ELSE LET r == NewGroups(q, n - 1)
                                        IN IF HasId(r, n) THEN r ELSE PutBy(r, [id |-> n, max |-> 0, mem |-> <<>>], IdOf)
SetClsThen(s, n, x, F(_)) == F(SetCls(s, n, x))

(* activity t got the report m it asked for *)
Got(s, t, m, e, at) ==
  CASE t.kind = "req" -> R(s, <<Ret(t.id, "msg", W!Flat(m), at)>>)
    [] t.kind = "cget" -> R(s, <<Ret(t.id, "val", Tail(m.f[3]), at)>>)
    [] t.ph = "ver" ->
         LET s1 == SetCls(s, t.n, [Cls(s, t.n, t.c) EXCEPT !.ver = m.f[2][2]])
         IN Then(Updated(s1, t.n, at), LAMBDA x : IF m.f[2][2] = 0 THEN NextClass(x, t, e, at) ELSE Body(x, t, e, at))
    [] t.ph = "main" ->
         LET c == Cls(s, t.n, t.c)
             s1 == SetCls(s, t.n, [c EXCEPT !.num = SetNums(@, m.f, 1)])
         IN IF \E k \in 1..Len(c.num) : m.f[k] = No THEN Fail(s1, t, e, at) ELSE Success(s1, t, e, at)
    [] t.ph = "types" ->
         IF m.f[1] = No THEN Fail(s, t, e, at)
         ELSE LET L == Tail(m.f[1])
                  c == Cls(s, t.n, 49)
                  s1 == SetCls(s, t.n, [c EXCEPT !.typ = SelectSeq(@, LAMBDA x : \E k \in 1..Len(L) : L[k] = x[1])])
              IN NextScale(s1, [t EXCEPT !.rest = L], e, at)
    [] t.ph = "scale" ->
         IF m.f[2] = No THEN Fail(s, t, e, at)
         ELSE LET c == Cls(s, t.n, 49)
              IN NextScale(SetCls(s, t.n, [c EXCEPT !.typ = PutBy(@, <<m.f[1][2], m.f[2][2]>>, HeadOf)]), t, e, at)
    [] t.ph = "count" ->
         IF m.f[1] = No THEN Fail(s, t, e, at)
         ELSE LET c == Cls(s, t.n, 133)
                  g == NewGroups(c.grp, m.f[1][2])
              IN NextGroup(SetCls(s, t.n, [c EXCEPT !.grp = g]), [t EXCEPT !.rest = IdsOf(g)], e, at)
    [] t.ph = "grp" -> NextGroup(SetGroup(s, t, m), t, e, at)
    [] t.ph = "lifeget" -> Success(SetGroup(s, t, m), t, e, at)
    [] OTHER -> R(s, <<>>)
(* activity t gets no answer *)
TimedOut(s, t, e, at) ==
  CASE t.kind \in {"req", "cget"} -> R(s, <<Ret(t.id, "timeout", <<>>, at)>>)
    [] t.ph = "ver" -> NextClass(s, t, e, at)
    [] t.ph = "grp" -> NextGroup(s, t, e, at)
    [] OTHER -> Fail(s, t, e, at)

(* ---- group information ---- *)
(* rest of an information report: group, profile pairs *)
NextInfo(s, t, at, F(_, _)) ==
  IF t.rest = <<>> THEN F(s, t)
  ELSE LET c == Cls(s, t.n, 89)
           s1 == SetCls(s, t.n, [c EXCEPT !.inf = PutBy(@, [id |-> t.rest[1], name |-> <<>>, prof |-> t.rest[3], cmds |-> <<>>], IdOf)])
       IN Then(Updated(s1, t.n, at), LAMBDA x : Send(x, t, 22785, <<N(t.rest[1])>>, "inf1", at))

(* ---- messages ---- *)
Finish(s, t, h, at) ==
  IF t.sup = 1 THEN Send(s, [t EXCEPT !.h = h], 27650, <<N(0), N(0), N(t.ses), N(IF h THEN 255 ELSE 0), N(0)>>, "rep", at)
  ELSE R(s, <<Ret(t.id, BoolS(h), <<>>, at)>>)
(* tell the listeners of class c of the node (0: of the node itself) *)
Tell(s, t, c, at, F(_, _, _)) ==
  LET L == SelectSeq(s.lsn, LAMBDA l : l.n = t.n /\ l.c = c)
      h == \E k \in 1..Len(L) : L[k].ans = 1
      x == [k \in 1..Len(L) |-> [k |-> "lsn", id |-> L[k].id, good |-> 1, m |-> W!Flat(t.m), at |-> at]]
  IN IF \E k \in 1..Len(L) : L[k].slow = 1
     THEN Suspend(s, [t EXCEPT !.st = "lsn", !.wait = 0, !.ph = IF c = 0 THEN "node" ELSE "cls"], x)
     ELSE LET q == F(s, t, h) IN R(q.s, x \o q.exp)
Heard(s, t, c) == \E k \in 1..Len(s.lsn) : s.lsn[k].n = t.n /\ s.lsn[k].c = c /\ s.lsn[k].ans = 1
NodeTold(s, t, h, at) == Finish(s, t, h, at)
NodeStage(s, t, at) == IF t.h THEN Finish(s, t, TRUE, at) ELSE Tell(s, t, 0, at, LAMBDA x, y, h : NodeTold(x, y, h, at))
ClsTold(s, t, h, at) == IF h THEN Finish(s, t, TRUE, at) ELSE NodeStage(s, t, at)
ClsStage(s, t, at) == Tell(s, t, t.m.hid \div 256, at, LAMBDA x, y, h : ClsTold(x, y, h, at))
InfoDone(s, t, at) == Finish(s, t, TRUE, at)
Suppressed(c, m) ==
  /\ c.ver >= 5
  /\ LET L == SelectSeq(c.typ, LAMBDA x : m.f[1] = N(x[1]))
     IN \/ L = <<>> \/ m.f[2] = No
        \/ (L[1][2] \div W!P2(m.f[2][Len(m.f[2])])) % 2 = 0
Handler(s, t, at) ==
  LET m == t.m
      c == Cls(s, t.n, m.hid \div 256)
      listed == HasId(c.inf, m.f[1][2])
  IN CASE m.hid = 28678 ->                         \* configuration report
            IF m.f[1] = No \/ m.f[3] = No THEN ClsStage(s, t, at)
            ELSE LET s1 == SetCls(s, t.n, [c EXCEPT !.par = PutBy(@, [id |-> m.f[1][2], val |-> Tail(m.f[3]), size |-> m.f[2][2]], IdOf)])
                 IN Then(Updated(s1, t.n, at), LAMBDA x : Finish(x, t, TRUE, at))
       [] m.hid = 22788 ->                         \* group information
            NextInfo(s, [t EXCEPT !.rest = IF m.f[4] = No THEN <<>> ELSE Tail(m.f[4])], at, LAMBDA x, y : InfoDone(x, y, at))
       [] m.hid = 22786 ->                         \* group name
            IF m.f[1] = No \/ m.f[2] = No \/ ~listed THEN Finish(s, t, TRUE, at)
            ELSE LET s1 == SetCls(s, t.n, [c EXCEPT !.inf = PutBy(@, [ById(c.inf, m.f[1][2]) EXCEPT !.name = Tail(m.f[2])], IdOf)])
                 IN Then(Updated(s1, t.n, at), LAMBDA x : Finish(x, t, TRUE, at))
       [] m.hid = 22790 ->                         \* group command list
            IF m.f[1] = No \/ m.f[2] = No \/ ~listed THEN Finish(s, t, TRUE, at)
            ELSE LET s1 == SetCls(s, t.n, [c EXCEPT !.inf = PutBy(@, [ById(c.inf, m.f[1][2]) EXCEPT !.cmds = Tail(m.f[2])], IdOf)])
                 IN Then(Updated(s1, t.n, at), LAMBDA x : Finish(x, t, TRUE, at))
       [] m.hid = 12549 -> IF Suppressed(c, m) THEN Finish(s, t, TRUE, at) ELSE ClsStage(s, t, at)
       [] OTHER -> ClsStage(s, t, at)
RECURSIVE WakeAll(_, _, _, _, _)
WakeAll(s, q, m, e, at) ==
  IF q = <<>> THEN R(s, <<>>)
  ELSE LET t == Head(q)
           r == IF t.st = "snd" THEN R([s EXCEPT !.tk = [k \in 1..Len(@) |-> IF @[k] = t THEN [t EXCEPT !.has = 1, !.m = m] ELSE @[k]]], <<>>)
                ELSE Got(Drop(s, t), t, m, e, at)
       IN Then(r, LAMBDA x : WakeAll(x, Tail(q), m, e, at))
Route(s, t0, m, e, at) ==
  LET waits(y) == y.n = t0.n /\ y.wait = 1 /\ y.has = 0 /\ Accept(y, m)
      live == SelectSeq(s.tk, LAMBDA y : waits(y) /\ ~Partial(y, m))
      sa == [s EXCEPT !.tk = [k \in 1..Len(@) |-> IF waits(@[k]) /\ Partial(@[k], m) THEN [@[k] EXCEPT !.acc = @ \o Tail(m.f[4])] ELSE @[k]]]
      t == [t0 EXCEPT !.m = m, !.h = live # <<>>]
  IN Then(WakeAll(sa, live, m, e, at),
          LAMBDA x : IF Has(x, t.n, m.hid \div 256) /\ W!Known(m.hid) THEN Handler(x, t, at) ELSE NodeStage(x, t, at))
Msg(s, e) ==
  LET m == W!Decode(e.body)
      t == [Task0 EXCEPT !.id = e.id, !.kind = "msg", !.n = e.n]
  IN IF m.hid # 27649 THEN Route(s, t, m, e, 0)
     ELSE IF m.f[2] = No THEN R(s, <<Ret(e.id, "false", <<>>, 0)>>)
     ELSE LET u == [t EXCEPT !.sup = 1, !.ses = m.f[2][2]]
          IN IF m.f[3] = No THEN Finish(s, u, FALSE, 0)
             ELSE Route(s, u, [hid |-> m.f[3][2], f |-> W!Unflat(SubSeq(m.f[3], 3, Len(m.f[3])))], e, 0)

(* ---- the delivery of a command is settled: ok, fail (not delivered) or raise ---- *)
Sent(s, t, how, e) ==
  CASE t.kind = "cset" -> R(s, <<Ret(t.id, CASE how = "ok" -> "true" [] how = "fail" -> "false" [] OTHER -> "timeout", <<>>, 0)>>)
    [] t.ph = "agi" -> IF how = "raise" THEN Fail(s, t, e, 0) ELSE Success(s, t, e, 0)
    [] t.ph = "life" -> IF how = "raise" THEN Fail(s, t, e, 0) ELSE GroupGet(s, t, 1, "lifeget", 0)
    [] t.ph = "inf1" -> Send(s, t, 22789, <<N(1), N(t.rest[1])>>, "inf2", 0)
    [] t.ph = "inf2" -> NextInfo(s, [t EXCEPT !.rest = SubSeq(@, 5, Len(@))], 0, LAMBDA x, y : InfoDone(x, y, 0))
    [] t.ph = "rep" -> R(s, <<Ret(t.id, BoolS(t.h), <<>>, 0)>>)
    [] OTHER -> R(s, <<>>)
Settle(s, e) ==
  LET Q == SelectSeq(s.tk, LAMBDA t : t.st = "snd" /\ s.nd[t.n].root = e.root /\ s.nd[t.n].ep = e.ep /\ t.cmd = e.m)
  IN IF Q = <<>> THEN R(s, <<>>)
     ELSE LET t == Q[1]
              s1 == Drop(s, t)
          IN IF t.wait = 0 THEN Sent(s1, t, e.how, e)
             ELSE IF e.how # "ok" THEN TimedOut(s1, t, e, 0)
             ELSE IF t.has = 1 THEN Got(s1, t, t.m, e, 0)
             ELSE Suspend(s1, [t EXCEPT !.st = "rsp", !.rem = t.to], <<>>)

(* ---- whoever asked gives up: nothing more comes of it, and nothing else is changed ---- *)
Cancel(s, e) ==
  LET Q == SelectSeq(s.tk, LAMBDA t : t.id = e.id /\ t.kind # "msg")
  IN IF Q = <<>> THEN R(s, <<>>) ELSE R(Drop(s, Q[1]), <<Ret(e.id, "cancelled", <<>>, 0)>>)

(* ---- the slow listeners are done ---- *)
RECURSIVE GoAll(_, _)
GoAll(s, q) ==
  IF q = <<>> THEN R(s, <<>>)
  ELSE LET t == Head(q)
           s1 == Drop(s, t)
           r == IF t.ph = "node" THEN NodeTold(s1, t, Heard(s, t, 0), 0) ELSE ClsTold(s1, t, Heard(s, t, t.m.hid \div 256), 0)
       IN Then(r, LAMBDA x : GoAll(x, Tail(q)))

(* ---- time ---- *)
RECURSIVE MinRem(_, _)
MinRem(q, m) == IF q = <<>> THEN m ELSE MinRem(Tail(q), IF Head(q).st = "rsp" /\ Head(q).rem < m THEN Head(q).rem ELSE m)
Shift(s, d) == [s EXCEPT !.tk = [k \in 1..Len(@) |-> IF @[k].st = "rsp" THEN [@[k] EXCEPT !.rem = @ - d] ELSE @[k]]]
RECURSIVE ExpireAll(_, _, _, _)
ExpireAll(s, q, e, at) == IF q = <<>> THEN R(s, <<>>)
                          ELSE Then(TimedOut(Drop(s, Head(q)), Head(q), e, at), LAMBDA x : ExpireAll(x, Tail(q), e, at))
RECURSIVE Elapse(_, _, _, _)
Elapse(s, d, e, at) ==
  LET n == MinRem(s.tk, 1000000000) IN
  IF n > d THEN R(Shift(s, d), <<>>)
  ELSE LET s1 == Shift(s, n)
       IN Then(ExpireAll(s1, SelectSeq(s1.tk, LAMBDA t : t.st = "rsp" /\ t.rem <= 0), e, at + n), LAMBDA x : Elapse(x, d - n, e, at + n))

(* ---- stimuli ---- *)
Task(e, kind) == [Task0 EXCEPT !.id = e.id, !.kind = kind, !.n = e.n]
Request(s, e) == LET m == W!Decode(e.body) IN Ask(s, [Task(e, "req") EXCEPT !.to = e.to], m.hid, m.f, e.want, -1, "", 0)
WaitFor(s, e) == Suspend(s, [Task(e, "req") EXCEPT !.st = "rsp", !.wait = 1, !.hid = e.want, !.to = e.to, !.rem = e.to], <<>>)
ConfGet(s, e) ==
  LET P == Cls(s, e.n, 112).par
  IN IF e.cached = 1 /\ HasId(P, e.par) THEN R(s, <<Ret(e.id, "val", ById(P, e.par).val, 0)>>)
     ELSE Ask(s, Task(e, "cget"), 28677, <<N(e.par)>>, 28678, e.par, "", 0)
ConfSet(s, e) == Send(s, Task(e, "cset"), 28676, <<N(e.par), N(0), N(e.size), <<2>> \o e.val>>, "", 0)
Lock(s, e) == R([s EXCEPT !.nd[e.n].depth = @ + 1], <<>>)
Unlock(s, e) ==
  LET d == s.nd[e.n]
  IN IF d.depth = 0 THEN R(s, <<>>)
     ELSE IF d.depth = 1 /\ d.dirty = 1 THEN R([s EXCEPT !.nd[e.n].depth = 0, !.nd[e.n].dirty = 0], UpdatedQ(s, e.n, 0))
     ELSE R([s EXCEPT !.nd[e.n].depth = @ - 1], <<>>)
LoadO(s, e) == LET a == ClassesO(Classes(e.list, TRUE))
                   b == ClassesO(Classes(e.list, FALSE))
               IN R(s, IF e.obs = <<b>> THEN <<b>> ELSE <<a>>)

Do(s, e) ==
  CASE e.op = "load"  -> LoadO(s, e)
    [] e.op = "look"  -> R(s, <<[k |-> "cls", at |-> 0, list |-> s.nd[e.n].cls]>>)
    [] e.op = "iv"    -> NextClass(s, [Task(e, "iv") EXCEPT !.cls = IdsOf(s.nd[e.n].cls)], e, 0)
    [] e.op = "civ"   -> NextClass(s, [Task(e, "civ") EXCEPT !.cls = <<e.c>>], e, 0)
    [] e.op = "req"   -> Request(s, e)
    [] e.op = "wait"  -> WaitFor(s, e)
    [] e.op = "cget"  -> ConfGet(s, e)
    [] e.op = "cset"  -> ConfSet(s, e)
    [] e.op = "msg"   -> Msg(s, e)
    [] e.op = "settle" -> Settle(s, e)
    [] e.op = "cancel" -> Cancel(s, e)
    [] e.op = "go"    -> GoAll(s, SelectSeq(s.tk, LAMBDA t : t.st = "lsn"))
    [] e.op = "adv"   -> Elapse(s, e.dt, e, 0)
    [] e.op = "lock"  -> Lock(s, e)
    [] e.op = "unlock" -> Unlock(s, e)
    [] e.op = "upd"   -> Updated(s, e.n, 0)
    [] OTHER -> R(s, <<>>)

(* ---- properties of the design ---- *)
Kinds(x, kk) == SelectSeq(x, LAMBDA o : o.k = kk)
Inv(s) ==
  /\ \A n \in 1..Len(s.nd) : s.nd[n].dirty = 1 => s.nd[n].depth > 0
  /\ \A k \in 1..Len(s.tk) : /\ s.tk[k].st \in {"snd", "rsp", "lsn"}
                             /\ (s.tk[k].st = "rsp" => s.tk[k].rem > 0 /\ s.tk[k].wait = 1 /\ s.tk[k].has = 0)
  /\ \A n \in 1..Len(s.nd) : \A k \in 1..Len(s.nd[n].cls) :
        LET c == s.nd[n].cls[k] IN c.iv = 1 => c.ver > 0    \* nothing is interviewed before its version is known
StepOK(s, e) ==
  LET r == Do(s, e)
      ups(n) == Len(SelectSeq(r.exp, LAMBDA o : o.k = "nodeUpdated" /\ o.n = n))
      one(n) == IF s.nd[n].again > 0 THEN 2 ELSE 1
      reports == SelectSeq(r.exp, LAMBDA o : o.k = "send" /\ o.m[2] = 27650)
      rets == Kinds(r.exp, "ret")
      ids(q) == {q[k].id : k \in 1..Len(q)}
      lsn == Kinds(r.exp, "lsn")
  IN /\ \A n \in 1..Len(s.nd) :
          /\ (s.nd[n].depth > 0 /\ e.op # "unlock" => ups(n) = 0)
          /\ (e.op = "unlock" => ups(n) = (IF e.n = n /\ s.nd[n].depth = 1 /\ s.nd[n].dirty = 1 THEN one(n) ELSE 0))
          /\ (s.nd[n].dirty = 1 /\ r.s.nd[n].dirty = 0 => ups(n) = one(n))
          \* a change of a recorded value is announced (or remembered), other than during an interview
          /\ (e.op = "msg" /\ s.tk = <<>> /\ s.nd[n].cls # r.s.nd[n].cls => ups(n) >= 1 \/ r.s.nd[n].dirty = 1)
     \* every started activity is either suspended or has ended, once
     /\ Cardinality(ids(rets)) = Len(rets) /\ ids(rets) \cap ids(r.s.tk) = {}
     /\ ids(rets) \cup ids(r.s.tk) = ids(s.tk) \cup (IF e.op \in {"iv", "civ", "req", "wait", "cget", "cset", "msg"} THEN {e.id} ELSE {})
     \* one truthful report for each supervised command, none otherwise
     /\ Len(reports) <= Len(SelectSeq(r.s.tk, LAMBDA t : t.sup = 1 /\ t.ph = "rep"))
     /\ \A k \in 1..Len(rets) : \A j \in 1..Len(s.tk) :
          s.tk[j].id = rets[k].id /\ s.tk[j].sup = 1 =>
             s.tk[j].ph = "rep" /\ s.tk[j].cmd = W!Flat([hid |-> 27650, f |-> <<N(0), N(0), N(s.tk[j].ses), N(IF rets[k].res = "true" THEN 255 ELSE 0), N(0)>>])
     \* no listener hears a message twice
     /\ (e.op = "msg" => Cardinality(ids(lsn)) = Len(lsn))
=============================================================================
