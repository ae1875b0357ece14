------------------------------- MODULE Transport -------------------------------
(* Datagram connections (pyzwave.connection.Connection): connected ones and listening ones.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* con[c]: [mode, recv, kind, sock]: mode "idle", "client" or "server"; recv/kind the receiver   *)
(* (0: none) and what it does besides recording: "plain", "echo" (sends the datagram back),    *)
(* "raise", "next" (puts receiver recv + 100 in its place); sock: the socket it sends on, 0 if *)
(* none was ever made.                                                                          *)
(* n: datagrams handed over so far. socks: [con, addr, open, n]; addr 0: listening; n: sent so far *)
(* opening: attempts under way [id, c, addr, rem, fail]                                         *)
Idle == [mode |-> "idle", recv |-> 0, kind |-> "plain", sock |-> 0, n |-> 0]
Init0(cfg) == [con |-> [k \in 1..cfg.n |-> Idle], socks |-> <<>>, opening |-> <<>>, delay |-> cfg.delay]
R(s, x) == [s |-> s, exp |-> x]
Obs(k, at) == [k |-> k, at |-> at]
Open(s, i) == s.socks[i].open = 1

(* ---- opening sockets ---- *)
Opened(s, x, at) ==
  IF x.fail = 1 THEN R(s, <<[k |-> "ret", at |-> at, id |-> x.id, res |-> "failed"]>>)
  ELSE LET s1 == [s EXCEPT !.socks = Append(@, [con |-> x.c, addr |-> x.addr, open |-> 1, n |-> 0])]
           s2 == [s1 EXCEPT !.con[x.c].sock = Len(s1.socks), !.con[x.c].mode = IF x.addr = 0 THEN "server" ELSE "client"]
       IN R(s2, <<[k |-> "open", at |-> at, addr |-> x.addr, port |-> x.port], [k |-> "ret", at |-> at, id |-> x.id, res |-> "none"]>>)
Start(s, e) ==
  LET x == [id |-> e.id, c |-> e.c, addr |-> e.addr, port |-> e.port, rem |-> s.delay, fail |-> e.fail]
  IN IF s.delay = 0 THEN Opened(s, x, 0) ELSE R([s EXCEPT !.opening = Append(@, x)], <<>>)
RECURSIVE Due(_, _, _)
Due(s, q, dt) == IF q = <<>> THEN R(s, <<>>)
                 ELSE LET x == q[1]
                          r == Opened(s, x, x.rem)
                          t == Due(r.s, Tail(q), dt)
                      IN R(t.s, r.exp \o t.exp)
Adv(s, dt) ==
  LET due == SelectSeq(s.opening, LAMBDA x : x.rem <= dt)
      left == SelectSeq(s.opening, LAMBDA x : x.rem > dt)
  IN Due([s EXCEPT !.opening = [k \in 1..Len(left) |-> [left[k] EXCEPT !.rem = @ - dt]]], due, dt)

(* ---- datagrams ---- *)
SendOn(s, c, data, to) == LET i == s.con[c].sock
                          IN IF i = 0 \/ ~Open(s, i) THEN R(s, <<>>)
                             ELSE R([s EXCEPT !.socks[i].n = @ + 1], <<[k |-> "tx", at |-> 0, sock |-> i, nth |-> s.socks[i].n + 1, data |-> data, to |-> to]>>)
Res(e, v) == <<[k |-> "sent", at |-> 0, id |-> e.id, res |-> v]>>
\* what a send reports on a socket that was closed is left open
Told(e) == LET q == SelectSeq(e.obs, LAMBDA o : o.k = "sent" /\ o.id = e.id /\ o.res \in {"true", "false"}) IN IF q = <<>> THEN "true" ELSE q[1].res
Send(s, e) ==
  LET i == s.con[e.c].sock
  IN IF i = 0 THEN R(s, Res(e, "false"))
     ELSE IF ~Open(s, i) THEN R(s, Res(e, Told(e)))
     ELSE LET r == SendOn(s, e.c, e.data, e.to) IN R(r.s, r.exp \o Res(e, "true"))
Rx(s, e) ==
  LET c == s.socks[e.sock].con
      x == s.con[c]
      from == IF s.socks[e.sock].addr = 0 THEN e.from ELSE 0
      got == [k |-> "got", at |-> 0, con |-> c, recv |-> x.recv, nth |-> x.n + 1, data |-> e.data, from |-> from]
  IN IF ~Open(s, e.sock) \/ x.recv = 0 THEN R(s, <<>>)
     ELSE LET s1 == [s EXCEPT !.con[c].n = @ + 1]
              r == SendOn(s1, c, e.data, from)
          IN CASE x.kind = "echo" -> R(r.s, <<got>> \o r.exp)
               [] x.kind = "next" -> R([s1 EXCEPT !.con[c].recv = @ + 100, !.con[c].kind = "plain"], <<got>>)
               [] OTHER -> R(s1, <<got>>)

(* ---- ends ---- *)
\* whether a listening socket that was lost is closed once more makes no difference
Lost(s, e) == IF ~Open(s, e.sock) THEN R(s, <<>>)
              ELSE R([s EXCEPT !.socks[e.sock].open = 0], IF s.socks[e.sock].addr = 0 THEN SelectSeq(e.obs, LAMBDA o : o.k = "close" /\ o.sock = e.sock) ELSE <<[k |-> "close", at |-> 0, sock |-> e.sock]>>)
Stop(s, e) == LET i == s.con[e.c].sock IN IF i = 0 \/ ~Open(s, i) THEN R(s, <<>>) ELSE R([s EXCEPT !.socks[i].open = 0], <<[k |-> "close", at |-> 0, sock |-> i]>>)

Do(s, e) ==
  CASE e.op = "onmsg" -> R([s EXCEPT !.con[e.c].recv = e.recv, !.con[e.c].kind = e.kind], <<>>)
    [] e.op = "start" -> Start(s, e)
    [] e.op = "adv"   -> Adv(s, e.dt)
    [] e.op = "send"  -> Send(s, e)
    [] e.op = "rx"    -> Rx(s, e)
    [] e.op = "lost"  -> Lost(s, e)
    [] e.op = "error" -> R(s, <<>>)
    [] e.op = "stop"  -> Stop(s, e)

(* ---- properties of the design ---- *)
Inv(s) ==
  /\ \A c \in 1..Len(s.con) : s.con[c].sock # 0 => s.socks[s.con[c].sock].con = c
  /\ \A c \in 1..Len(s.con) : (s.con[c].mode = "idle") = (s.con[c].sock = 0)
StepOK(s, e) ==
  LET r == Do(s, e)
      tx == SelectSeq(r.exp, LAMBDA o : o.k = "tx")
      got == SelectSeq(r.exp, LAMBDA o : o.k = "got")
  IN /\ \A k \in 1..Len(tx) : /\ Open(s, tx[k].sock) /\ tx[k].data = e.data
                              /\ (tx[k].to = 0) = (s.socks[tx[k].sock].addr # 0)
     /\ Len(tx) <= 1 /\ Len(got) <= 1
     /\ \A k \in 1..Len(got) : got[k].data = e.data /\ (got[k].from = 0) = (s.socks[e.sock].addr # 0)
     /\ e.op \in {"lost", "stop"} => \A i \in 1..Len(s.socks) : s.socks[i].con # (IF e.op = "stop" THEN e.c ELSE s.socks[e.sock].con) => r.s.socks[i] = s.socks[i]
     /\ e.op = "send" /\ s.con[e.c].sock = 0 => tx = <<>> /\ r.exp[1].res = "false"
     /\ e.op = "send" /\ tx # <<>> => r.exp[2].res = "true"
=============================================================================
