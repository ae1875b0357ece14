------------------------------- MODULE M_Wire -------------------------------
(* Design check: every command at boundary values of its fields.  Decoding what was encoded gives *)
(* back the message, and a truncated encoding is refused or leaves exactly the missing fields at  *)
(* their defaults.                                                                                *)
EXTENDS Wire
CONSTANT Rich
VARIABLES h, sel
Kinds == {"u", "ip", "u32", "dsk", "rest", "assoc", "szval", "msg", "msgl", "nfail", "ext"}
Hids == {x \in DOMAIN Tab : \A k \in 1..Len(Tab[x]) : Tab[x][k].t \in Kinds \cup {"r"}}
Run(n, lo) == [k \in 1..n |-> (lo + 37 * k) % 256]
Choices == IF Rich THEN 0..3 ELSE 0..2
U(w, c) == LET top == IF w = 16 THEN 65535 ELSE P2(w) - 1 IN
           CASE c = 0 -> 0 [] c = 1 -> top [] c = 2 -> (top + 1) \div 2 [] OTHER -> top \div 3
RECURSIVE Val(_, _, _, _), Vals(_, _, _)
Val(x, c, d, size) ==
  CASE x.n = "headerExtIncluded" -> Num(0)
    [] x.n = "size" -> Num(size)
    [] x.t = "u" -> Num(U(x.w, c))
    [] x.t = "nfail" -> Num(U(8, c))
    [] x.t \in {"ip", "u32", "dsk"} -> Bytes(Run(x.w, 60 * c))
    [] x.t = "rest" -> Bytes(Run(IF d = 0 THEN 3 * c ELSE c, 200))
    [] x.t = "ext" -> <<7>>
    [] x.t = "szval" -> Bytes(Run(IF c = 0 THEN 0 ELSE size, 90))
    [] x.t = "assoc" -> CASE c = 0 -> <<4>> [] c = 1 -> <<4, 1, -1, 232, -1>> [] c = 2 -> <<4, 7, 0>> [] OTHER -> <<4, 5, -1, 5, 3, 6, 255>>
    [] OTHER -> IF d = 1 THEN <<6, 0>> ELSE LET y == <<32770, 8195, 28676>>[(c % 3) + 1]
                                           IN IF y \in Hids THEN Flat([hid |-> y, f |-> Vals(y, [k \in 1..9 |-> c], 1)]) ELSE <<6, 0>>
Vals(hid, cs, d) == LET fs == Visible(hid) IN [k \in 1..Len(fs) |-> Val(fs[k], cs[k], d, IF cs[1] = 1 THEN 4 ELSE 1)]
N(hid) == Len(Visible(hid))
Sel(hid) == {f \in [1..N(hid) -> Choices] : Rich \/ Cardinality({k \in 1..N(hid) : f[k] # f[1]}) <= 1}
Init == h \in Hids /\ sel = [k \in 1..N(h) |-> 0]
Next == /\ UNCHANGED h
        /\ \E k \in 1..N(h) : \E c \in Choices : /\ sel' = [sel EXCEPT ![k] = c]
        /\ IF Rich THEN Cardinality({k \in 1..N(h) : sel'[k] # sel'[1]}) <= 2
                   ELSE Cardinality({k \in 1..N(h) : sel'[k] # sel'[1]}) <= 1
\* two messages differing in a field differ on the wire
Told == \A k \in 1..N(h) : \A c \in Choices :
          LET v == Vals(h, sel, 0) w == Vals(h, [sel EXCEPT ![k] = c], 0)
          IN Same([hid |-> h, v |-> v], [hid |-> h, v |-> w]) <=> v = w
Open == {"rest", "assoc", "msg"}     \* fields taking whatever is left
Inv ==
  LET v == Vals(h, sel, 0)
      e == Encode(h, v)
      d == Decode(e.b)
      fs == Visible(h)
  IN /\ e.ok
     /\ \A k \in 1..Len(e.b) : e.b[k] \in 0..255
     /\ d.ok /\ d.hid = h
     /\ \A k \in 1..Len(fs) : IsKey(fs[k].t) => Len(Words(v[k])) = 8 /\ \A j \in 1..8 : Words(v[k])[j] \in 0..65535
     /\ \A k \in 1..Len(fs) : d.f[k] = v[k] \/ v[k] = <<6, 0>> \/ (fs[k].t = "nfail" /\ FALSE)
     /\ \A c \in 2..(Len(e.b) - 1) : LET x == Decode(SubSeq(e.b, 1, c)) IN
          x.ok => /\ x.hid = h
                  /\ \A k \in 1..Len(fs) : x.f[k] = v[k] \/ x.f[k] = Default(fs[k].t) \/ fs[k].t \in Open
=============================================================================
