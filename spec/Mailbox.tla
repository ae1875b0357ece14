------------------------------- MODULE Mailbox -------------------------------
(* The mailbox service: entries pushed by a mailbox proxy, kept until they are delivered, with *)
(* a heartbeat for each of them.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
W == INSTANCE Wire
No == <<0>>
N(x) == <<1, x>>
Beat == 600                                        \* ds between heartbeats

(* ---- checksum: CRC-16 with polynomial 0x1021 and initial value 0x1D0F ---- *)
RECURSIVE Xor(_, _)
Xor(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE ((a + b) % 2) + 2 * Xor(a \div 2, b \div 2)
RECURSIVE Shift8(_, _)
Shift8(c, k) == IF k = 0 THEN c ELSE Shift8(IF c >= 32768 THEN Xor((2 * c) % 65536, 4129) ELSE 2 * c, k - 1)
CrcTab == [k \in 0..255 |-> Shift8(k * 256, 8)]
RECURSIVE Crc(_, _)
Crc(b, c) == IF b = <<>> THEN c ELSE Crc(Tail(b), Xor((c % 256) * 256, CrcTab[Xor(c \div 256, Head(b))]))
Checksum(b) == Crc(b, 7439)

(* ---- commands ---- *)
PUSH == 0 POP == 1 WAITING == 2 PING == 3 ACK == 4
Queue(last, op, h, data) == W!Flat([hid |-> 26884, f |-> <<N(last), N(op), N(h), <<2>> \o data>>])
SendO(n, m, at) == [k |-> "send", n |-> n, m |-> m, at |-> at]
R(s, x) == [s |-> s, exp |-> x]
Then(r, F(_)) == LET q == F(r.s) IN R(q.s, r.exp \o q.exp)

(* q: stored entries, oldest first [id, h, n, data, rem, beats, snd (heartbeat being sent)]    *)
(* pop / push: requests in order of arrival; the first one of a mailbox is being served         *)
(* snd: commands whose delivery is not settled [n, m, what, h, id]                              *)
Init0(cfg) == [q |-> <<>>, pop |-> <<>>, push |-> <<>>, snd |-> <<>>, last |-> 0, nid |-> 1]
Of(q, h) == SelectSeq(q, LAMBDA x : x.h = h)
Send(s, n, m, what, h, id, at) == R([s EXCEPT !.snd = Append(@, [n |-> n, m |-> m, what |-> what, h |-> h, id |-> id])], <<SendO(n, m, at)>>)

(* hand out the oldest entry of mailbox h for the first request *)
ServePop(s, h) ==
  LET P == Of(s.pop, h)
      E == Of(s.q, h)
  IN IF P = <<>> THEN R(s, <<>>)
     ELSE IF E = <<>> THEN Send(s, P[1].n, Queue(1, POP, h, <<>>), "empty", h, 0, 0)
     ELSE Send(s, P[1].n, Queue(IF Len(E) = 1 THEN 1 ELSE 0, POP, h, E[1].data), "pop", h, E[1].id, 0)
Pop(s, h, n) ==
  LET s1 == [s EXCEPT !.pop = Append(@, [h |-> h, n |-> n])]
  IN IF Of(s.pop, h) = <<>> THEN ServePop(s1, h) ELSE R(s1, <<>>)
Stored(s, h, data) == \E k \in 1..Len(s.q) : s.q[k].h = h /\ Checksum(s.q[k].data) = Checksum(data)
DropFirst(q, h) == LET k == CHOOSE k \in 1..Len(q) : q[k].h = h /\ \A j \in 1..(k - 1) : q[j].h # h
                     IN SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
RECURSIVE ServePush(_, _)
ServePush(s, h) ==
  LET P == Of(s.push, h)
  IN IF P = <<>> THEN R(s, <<>>)
     ELSE IF Stored(s, h, P[1].data) THEN ServePush([s EXCEPT !.push = DropFirst(@, h)], h)
     ELSE Send(s, P[1].n, Queue(0, WAITING, h, P[1].data), "push", h, 0, 0)
Push(s, h, n, data) ==
  LET s1 == [s EXCEPT !.push = Append(@, [h |-> h, n |-> n, data |-> data])]
  IN IF Of(s.push, h) = <<>> THEN ServePush(s1, h) ELSE R(s1, <<>>)

Msg(s, e) ==
  LET m == W!Decode(e.body) IN
  IF m.hid = 26885 /\ m.f[1] # No THEN Pop([s EXCEPT !.last = m.f[1][2]], m.f[1][2], e.n)
  ELSE IF m.hid = 26884 /\ m.f[2] = N(ACK)
       THEN Pop(s, IF m.f[3] = No \/ m.f[3][2] = 0 THEN s.last ELSE m.f[3][2], e.n)
  ELSE IF m.hid = 26884 /\ m.f[2] = N(PUSH) /\ m.f[3] # No THEN Push(s, m.f[3][2], e.n, Tail(m.f[4]))
  ELSE R(s, <<>>)

Settle(s, e) ==
  LET Q == SelectSeq(s.snd, LAMBDA x : x.n = e.n /\ x.m = e.m)
  IN IF Q = <<>> THEN R(s, <<>>)
     ELSE LET x == Q[1]
              k == CHOOSE k \in 1..Len(s.snd) : s.snd[k] = x
              s1 == [s EXCEPT !.snd = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
              ok == e.how = "ok"
          IN CASE x.what = "empty" -> ServePop([s1 EXCEPT !.pop = DropFirst(@, x.h)], x.h)
               [] x.what = "pop" ->
                    LET s2 == [s1 EXCEPT !.pop = DropFirst(@, x.h)]
                    IN ServePop(IF ok THEN [s2 EXCEPT !.q = SelectSeq(@, LAMBDA y : y.id # x.id),
                                                      !.snd = SelectSeq(@, LAMBDA y : ~(y.what = "beat" /\ y.id = x.id))] ELSE s2, x.h)
               [] x.what = "push" ->
                    LET P == Of(s.push, x.h)[1]
                        s2 == [s1 EXCEPT !.push = DropFirst(@, x.h)]
                    IN ServePush(IF ok THEN [s2 EXCEPT !.q = Append(@, [id |-> s.nid, h |-> x.h, n |-> P.n, data |-> P.data, rem |-> Beat, beats |-> 0, snd |-> 0]),
                                                       !.nid = @ + 1] ELSE s2, x.h)
               [] x.what = "beat" -> R([s1 EXCEPT !.q = [j \in 1..Len(@) |-> IF @[j].id = x.id THEN [@[j] EXCEPT !.rem = Beat, !.snd = 0] ELSE @[j]]], <<>>)
               [] x.what = "init" -> R(s1, <<[k |-> "ret", id |-> x.id, res |-> CASE ok -> "true" [] e.how = "fail" -> "false" [] e.how = "error" -> "exc:OSError" [] OTHER -> "timeout", at |-> 0]>>)

(* ---- time ---- *)
RECURSIVE MinRem(_, _)
MinRem(q, m) == IF q = <<>> THEN m ELSE MinRem(Tail(q), IF Head(q).snd = 0 /\ Head(q).rem < m THEN Head(q).rem ELSE m)
RECURSIVE BeatAll(_, _, _)
BeatAll(s, k, at) ==
  IF k > Len(s.q) THEN R(s, <<>>)
  ELSE LET x == s.q[k]
       IN IF x.snd = 1 \/ x.rem > 0 THEN BeatAll(s, k + 1, at)
          ELSE LET b == x.beats + 1
                   m == Queue(0, IF b % 10 = 0 THEN PING ELSE WAITING, x.h, x.data)
               IN Then(Send([s EXCEPT !.q[k].beats = b, !.q[k].snd = 1], x.n, m, "beat", x.h, x.id, at), LAMBDA y : BeatAll(y, k + 1, at))
RECURSIVE Elapse(_, _, _)
Elapse(s, d, at) ==
  LET n == MinRem(s.q, 1000000000)
      shift(z, v) == [z EXCEPT !.q = [k \in 1..Len(@) |-> IF @[k].snd = 0 THEN [@[k] EXCEPT !.rem = @ - v] ELSE @[k]]]
  IN IF n > d THEN R(shift(s, d), <<>>)
     ELSE Then(BeatAll(shift(s, n), 1, at + n), LAMBDA x : Elapse(x, d - n, at + n))

Do(s, e) ==
  CASE e.op = "msg"    -> Msg(s, e)
    [] e.op = "settle" -> Settle(s, e)
    [] e.op = "adv"    -> Elapse(s, e.dt, 0)
    [] e.op = "init"   -> Send(s, 0, W!Flat([hid |-> 26882, f |-> <<N(2), <<2>> \o e.ip, N(e.port)>>]), "init", 0, e.id, 0)
    [] OTHER -> R(s, <<>>)

(* ---- properties of the design ---- *)
Inv(s) ==
  /\ \A j, k \in 1..Len(s.q) : j < k => s.q[j].id < s.q[k].id /\ ~(s.q[j].h = s.q[k].h /\ Checksum(s.q[j].data) = Checksum(s.q[k].data))
  /\ \A k \in 1..Len(s.q) : s.q[k].snd = 1 \/ s.q[k].rem \in 1..Beat
  /\ \A h \in {s.pop[k].h : k \in 1..Len(s.pop)} : Cardinality({k \in 1..Len(s.snd) : s.snd[k].what \in {"pop", "empty"} /\ s.snd[k].h = h}) = 1
  /\ \A h \in {s.push[k].h : k \in 1..Len(s.push)} : Cardinality({k \in 1..Len(s.snd) : s.snd[k].what = "push" /\ s.snd[k].h = h}) = 1
StepOK(s, e) ==
  LET r == Do(s, e)
      gone == {k \in 1..Len(s.q) : ~\E j \in 1..Len(r.s.q) : r.s.q[j].id = s.q[k].id}
      new == {k \in 1..Len(r.s.q) : ~\E j \in 1..Len(s.q) : s.q[j].id = r.s.q[k].id}
      pops == {k \in 1..Len(r.s.snd) : r.s.snd[k].what = "pop"}
  IN \* an entry leaves only when it was delivered, and then it was the oldest of its mailbox
     /\ \A k \in gone : e.op = "settle" /\ e.how = "ok" /\ (\A j \in 1..(k - 1) : s.q[j].h # s.q[k].h) /\ Cardinality(gone) = 1
     \* an entry is stored only when its confirmation was delivered
     /\ \A k \in new : e.op = "settle" /\ e.how = "ok" /\ e.m = Queue(0, WAITING, r.s.q[k].h, r.s.q[k].data) /\ Cardinality(new) = 1
     \* what is being handed out is the oldest entry of that mailbox, and is still stored
     /\ \A k \in pops : \E j \in 1..Len(r.s.q) : /\ r.s.q[j].id = r.s.snd[k].id /\ r.s.q[j].h = r.s.snd[k].h
                                                 /\ \A i \in 1..(j - 1) : r.s.q[i].h # r.s.q[j].h
     \* no heartbeat of anything that is not stored
     /\ \A k \in 1..Len(r.s.snd) : r.s.snd[k].what = "beat" => \E j \in 1..Len(r.s.q) : r.s.q[j].id = r.s.snd[k].id
     \* time does nothing but send heartbeats, at most one for each entry and minute
     /\ e.op = "adv" => Len(r.exp) <= Len(s.q) * (1 + e.dt \div Beat) /\ gone = {} /\ new = {}
     \* every request gets its reply in the end: requests waiting or being served are never dropped silently
     /\ e.op # "settle" => Len(r.s.pop) >= Len(s.pop)
     /\ e.op = "settle" => Len(r.s.pop) >= Len(s.pop) - 1
=============================================================================
