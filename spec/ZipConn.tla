------------------------------ MODULE ZipConn ------------------------------
(* One Z/IP connection: reliable sends, sleeping-node notices, sequence numbers, keep-alive  *)
(* and the dispatch of inbound packets.  Time is in deciseconds; timers are kept relative.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
W == INSTANCE Wire           \* what the bytes of a datagram mean

(* ---- constants of the protocol ---- *)
KeepAlive   == 250          \* keep-alive period
Wiggle      == 600          \* added to every announced delay
Overdue     == 1200         \* used for a negative announced delay

(* ---- state ----                                                                         *)
(* cap: how many sequence numbers exist; out: outstanding commands [id, seq, rem];           *)
(* ka: time to the next keep-alive, 0 = not connected                                       *)
Init0(cfg) == [cap |-> cfg.cap, out |-> <<>>, ka |-> 0]

Used(s) == {s.out[k].seq : k \in 1..Len(s.out)}
Free(s) == (0..(s.cap - 1)) \ Used(s)
HasSeq(s, q) == \E k \in 1..Len(s.out) : s.out[k].seq = q
HasId(s, d) == \E k \in 1..Len(s.out) : s.out[k].id = d
Drop(s, P(_)) == [s EXCEPT !.out = SelectSeq(@, LAMBDA o : ~P(o))]
Pick(s, P(_)) == SelectSeq(s.out, P)

(* ---- observations ---- *)
Ret(d, r, at) == [k |-> "ret", id |-> d, res |-> r, at |-> at]
TxCmd(e, q, at) == [k |-> "tx", pk |-> "cmd", seq |-> q, sep |-> e.sep, dep |-> e.dep,
                    fl |-> <<128, 80>>, body |-> e.body, at |-> at]
TxKa(at) == [k |-> "tx", pk |-> "raw", seq |-> -1, sep |-> -1, dep |-> -1, fl |-> <<>>,
             body |-> <<35, 3, 128>>, at |-> at]
(* a command handed upward: end points (-1: none) and content *)
Up(sep, dep, m, at) == [k |-> "up", sep |-> sep, dep |-> dep, m |-> m, at |-> at]

R(s, x) == [s |-> s, exp |-> x]

(* ---- time ---- *)
RECURSIVE MinRem(_, _)
MinRem(q, m) == IF q = <<>> THEN m ELSE MinRem(Tail(q), IF Head(q).rem < m THEN Head(q).rem ELSE m)
NextDue(s) == MinRem(s.out, IF s.ka > 0 THEN s.ka ELSE 1000000000)
Shift(s, d) == [s EXCEPT !.out = [k \in 1..Len(@) |-> [@[k] EXCEPT !.rem = @ - d]],
                         !.ka = IF @ > 0 THEN @ - d ELSE 0]
(* everything due now: expired commands fail, an expired keep-alive is sent and restarts *)
Expire(s, kaDue, at) ==
  LET dead == Pick(s, LAMBDA o : o.rem <= 0)
      s1 == Drop(s, LAMBDA o : o.rem <= 0)
  IN R([s1 EXCEPT !.ka = IF kaDue THEN KeepAlive ELSE @],
       [k \in 1..Len(dead) |-> Ret(dead[k].id, "false", at)] \o (IF kaDue THEN <<TxKa(at)>> ELSE <<>>))

(* run the timers that are due within d (strictly before d if ~incl) *)
RECURSIVE Elapse(_, _, _, _)
Elapse(s, d, at, incl) ==
  LET n == NextDue(s) IN
  IF n > d \/ (n = d /\ ~incl) THEN R(Shift(s, d), <<>>)
  ELSE LET s1 == Shift(s, n)
           x == Expire(s1, s.ka > 0 /\ s1.ka = 0, at + n)
           r == Elapse(x.s, d - n, at + n, incl)
       IN R(r.s, x.exp \o r.exp)

(* a race: keep-alive due at this very instant must survive a Shift to 0 *)
ElapseBefore(s, d) == Elapse(s, d, 0, FALSE)
FireNow(s, wasKa, at) == Expire(s, wasKa /\ s.ka = 0, at)

(* ---- actions ---- *)
Connect(s, e) == R([s EXCEPT !.ka = KeepAlive], <<>>)

(* stopping closes the socket: nothing is sent any more, outstanding commands still end in time *)
Stop(s, e) == R([s EXCEPT !.ka = 0], <<>>)

Refused(s) == s.ka = 0 \/ Free(s) = {}    \* stopped, or all numbers are taken
Send(s, e) ==
  IF Refused(s) THEN R(s, <<Ret(e.id, "false", 0)>>)
  ELSE LET q == IF e.seq \in Free(s) THEN e.seq ELSE -2   \* -2: the code had to pick a free one
       IN R([s EXCEPT !.out = Append(@, [id |-> e.id, seq |-> q, rem |-> e.to]), !.ka = KeepAlive],
            <<TxCmd(e, q, 0)>>)

Cancel(s, e) == IF HasId(s, e.id)
                THEN R(Drop(s, LAMBDA o : o.id = e.id), <<Ret(e.id, "cancelled", 0)>>)
                ELSE R(s, <<>>)

RxAck(s, e, at) ==
  LET hit == Pick(s, LAMBDA o : o.seq = e.seq)
  IN R(Drop(s, LAMBDA o : o.seq = e.seq), [k \in 1..Len(hit) |-> Ret(hit[k].id, "true", at)])

Extended(delay) == (IF delay < 0 THEN Overdue ELSE 10 * delay) + Wiggle
RxWait(s, e) ==
  R([s EXCEPT !.out = [k \in 1..Len(@) |->
        IF @[k].seq = e.seq THEN [@[k] EXCEPT !.rem = Extended(e.delay)] ELSE @[k]]], <<>>)

RxUp(s, e, at) == R(s, <<Up(e.sep, 0, W!Flat(W!Decode(e.body)), at)>>)

(* any datagram at all, by what its bytes say.  Fields of a Z/IP packet: 2 ack response, 3 and 4  *)
(* nack and waiting, 1 ack request, 8 command included, 11 sequence number, 12/13 end points,     *)
(* 14 header extension (option 1: expected delay), 15 command                                     *)
RxBytes(s, b, at) ==
  LET d == W!Decode(b)
      On(k) == d.f[k] = <<1, 1>>
      q == IF Len(d.f[11]) = 2 THEN d.f[11][2] ELSE -1
      x == d.f[14]
      delay == IF Len(x) >= 5 /\ x[2] = 1 THEN x[5] ELSE 0
  IN CASE ~d.ok -> R(s, <<>>)
       [] d.hid = 8962 /\ On(3) /\ On(4) -> RxWait(s, [seq |-> q, delay |-> delay])
       [] d.hid = 8962 /\ On(2) /\ ~(On(3) /\ On(4)) -> RxAck(s, [seq |-> q], at)
       [] d.hid = 8962 /\ ~On(1) /\ ~On(2) /\ ~On(3) /\ On(8) /\ d.f[15] # <<0>> ->
            R(s, <<Up(d.f[12][2], d.f[13][2], d.f[15], at)>>)
       [] d.hid = 22529 -> R(s, <<Up(-1, -1, W!Flat(d), at)>>)
       [] OTHER -> R(s, <<>>)

Rx(s, e, at) == CASE e.pk = "ack"  -> RxAck(s, e, at)
                  [] e.pk = "wait" -> RxWait(s, e)
                  [] e.pk = "cmd"  -> RxUp(s, e, at)
                  [] e.pk = "raw"  -> RxBytes(s, e.body, at)
                  [] OTHER         -> R(s, <<>>)   \* plain nack, keep-alive reply, junk, unknown

Adv(s, e) == Elapse(s, e.dt, 0, TRUE)

(* a packet arriving in the very instant e.dt from now, before the timers of that instant *)
Race(s, e) ==
  LET a == ElapseBefore(s, e.dt)
      kaDue == s.ka > 0 /\ a.s.ka = 0
      b == Rx(a.s, e, e.dt)
      c == FireNow(b.s, kaDue, e.dt)
  IN R(c.s, a.exp \o b.exp \o c.exp)

Do(s, e) == CASE e.op = "connect" -> Connect(s, e)
              [] e.op = "stop"    -> Stop(s, e)
              [] e.op = "send"    -> Send(s, e)
              [] e.op = "cancel"  -> Cancel(s, e)
              [] e.op = "rx"      -> Rx(s, e, 0)
              [] e.op = "adv"     -> Adv(s, e)
              [] e.op = "race"    -> Race(s, e)
              [] OTHER            -> R(s, <<>>)

(* ---- properties of the design ---- *)
TypeOK(s) == /\ \A k \in 1..Len(s.out) : s.out[k].rem > 0
             /\ s.ka \in 0..KeepAlive
UniqueSeq(s) == \A a, b \in 1..Len(s.out) : a # b => s.out[a].seq # s.out[b].seq /\ s.out[a].id # s.out[b].id
Bounded(s) == Len(s.out) <= s.cap

Ids(s) == {s.out[k].id : k \in 1..Len(s.out)}
Rets(x) == SelectSeq(x, LAMBDA o : o.k = "ret")
Txs(x) == SelectSeq(x, LAMBDA o : o.k = "tx")
(* what one step may do, whatever the label *)
StepOK(s, e) ==
  LET r == Do(s, e)
      rets == Rets(r.exp)
      txs == Txs(r.exp)
      done == {rets[k].id : k \in 1..Len(rets)}
      cmds == SelectSeq(txs, LAMBDA o : o.pk = "cmd")
      before == Ids(s) \cup (IF e.op = "send" THEN {e.id} ELSE {})
  IN /\ Cardinality(done) = Len(rets)                        \* nobody completes twice
     /\ Ids(r.s) \cap done = {} /\ Ids(r.s) \cup done = before    \* nobody is forgotten
     /\ \A k \in 1..Len(rets) :
          CASE rets[k].res = "true"  -> e.op \in {"rx", "race"} /\ e.pk \in {"ack", "raw"} /\
                                         \E j \in 1..Len(s.out) : s.out[j].id = rets[k].id /\ (e.pk = "ack" => s.out[j].seq = e.seq)
            [] rets[k].res = "false" -> \/ e.op \in {"adv", "race"} /\
                                            \E j \in 1..Len(s.out) : s.out[j].id = rets[k].id /\ s.out[j].rem = rets[k].at
                                        \/ e.op = "send" /\ Refused(s)
            [] OTHER                 -> e.op = "cancel"
     /\ Len(cmds) = (IF e.op = "send" /\ ~Refused(s) THEN 1 ELSE 0)
     /\ \A k \in 1..Len(cmds) : ~HasSeq(s, cmds[k].seq)
     /\ (e.op \notin {"adv", "race"} => Len(txs) = Len(cmds))  \* keep-alives only by time
     /\ (s.ka = 0 => txs = <<>>)                              \* a stopped connection is silent
     /\ (e.op = "rx" => r.s.ka = s.ka)                       \* inbound traffic never shifts them
============================================================================
