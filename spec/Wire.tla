------------------------------- MODULE Wire -------------------------------
(* The wire format of all commands: encoding and decoding of byte strings.                   *)
(* A message is [hid, f]: its command identification (class * 256 + command) and the values of *)
(* its fields (reserved ones left out) in table order.  A value is a sequence of integers      *)
(* whose head is a tag:                                                                        *)
(*   <<0>> absent   <<1, n>> number   <<2, bytes..>>   <<3, set in increasing order..>>        *)
(*   <<4, list..>>  <<5, sign, exponent, decimal digits.., scale>>                             *)
(*   <<6, hid, (length, value)..>> message   <<7, (key, length, value)..>> dictionary          *)
EXTENDS Integers, Sequences, FiniteSets, WireTab

No == <<0>>
Num(n) == <<1, n>>
Bytes(b) == <<2>> \o b
Fields(hid) == Tab[hid]
Known(hid) == hid \in DOMAIN Tab
Visible(hid) == SelectSeq(Fields(hid), LAMBDA x : x.t # "r")
Default(t) == CASE t \in {"rest"} -> <<2>> [] t = "ext" -> <<7>> [] t = "assoc" -> <<4>> [] OTHER -> No

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>     \* Pow2[k + 1] = 2^k
P2(k) == Pow2[k + 1]
Sub(b, p, n) == SubSeq(b, p + 1, p + n)            \* n bytes from offset p
From(b, p) == SubSeq(b, p + 1, Len(b))
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
Flat(m) == <<6, m.hid>> \o Flatten([k \in 1..Len(m.f) |-> <<Len(m.f[k])>> \o m.f[k]])
RECURSIVE Unflat(_)
Unflat(q) == IF q = <<>> THEN <<>> ELSE <<SubSeq(q, 2, 1 + Head(q))>> \o Unflat(SubSeq(q, 2 + Head(q), Len(q)))
RECURSIVE Strip0(_)
Strip0(b) == IF b # <<>> /\ Head(b) = 0 THEN Strip0(Tail(b)) ELSE b
RECURSIVE DictFrom(_, _)
DictFrom(d, k) == IF k > 127 THEN <<>> ELSE (IF k \in DOMAIN d THEN <<k, Len(d[k])>> \o d[k] ELSE <<>>) \o DictFrom(d, k + 1)
Dict(d) == <<7>> \o DictFrom(d, 0)

(* results of reading one field: ok, value, next byte *)
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Err == [ok |-> FALSE, v |-> No, p |-> 0]

(* ---- numbers wider than TLC's integers: little-endian decimal digits ---- *)
RECURSIVE MulAdd(_, _)                             \* digits * 256 + carry
MulAdd(d, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(<<>>, c \div 10))
                ELSE LET x == Head(d) * 256 + c IN <<x % 10>> \o MulAdd(Tail(d), x \div 10)
RECURSIVE Digits(_, _)
Digits(b, d) == IF b = <<>> THEN d ELSE Digits(Tail(b), MulAdd(d, Head(b)))
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF Head(d) = 9 THEN <<0>> \o Inc(Tail(d)) ELSE <<Head(d) + 1>> \o Tail(d)
RECURSIVE StripHi(_)
StripHi(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripHi(SubSeq(d, 1, Len(d) - 1)) ELSE d
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
(* a signed big-endian number divided by 10^prec, as sign, exponent, digits *)
RECURSIVE Norm(_, _)
Norm(d, e) == IF d # <<>> /\ Head(d) = 0 THEN Norm(Tail(d), e + 1) ELSE <<d, e>>
Decimal(b, prec, scale) ==
  LET neg == b # <<>> /\ b[1] >= 128
      mag == IF neg THEN Inc(Digits([k \in 1..Len(b) |-> 255 - b[k]], <<>>)) ELSE Digits(b, <<>>)
      d == StripHi(mag)
      n == Norm(d, -prec)
  IN IF d = <<>> THEN <<5, 0, 0, 0, scale>> ELSE <<5, IF neg THEN 1 ELSE 0, n[2]>> \o Rev(n[1]) \o <<scale>>

(* ---- text must be well-formed UTF-8 ---- *)
RECURSIVE Utf8(_)
Cont(b, n) == Len(b) >= n /\ \A k \in 2..n : b[k] \in 128..191
Utf8(b) ==
  IF b = <<>> THEN TRUE
  ELSE LET c == b[1] IN
    IF c < 128 THEN Utf8(Tail(b))
    ELSE IF c \in 194..223 THEN Cont(b, 2) /\ Utf8(From(b, 2))
    ELSE IF c \in 224..239 THEN /\ Cont(b, 3) /\ (c = 224 => b[2] >= 160) /\ (c = 237 => b[2] < 160)
                                /\ Utf8(From(b, 3))
    ELSE IF c \in 240..244 THEN /\ Cont(b, 4) /\ (c = 240 => b[2] >= 144) /\ (c = 244 => b[2] < 144)
                                /\ Utf8(From(b, 4))
    ELSE FALSE

(* ---- header extension of a Z/IP packet: options type, length, data ---- *)
Signed24(b) == LET n == b[1] * 65536 + b[2] * 256 + b[3] IN IF b[1] >= 128 THEN n - 16777216 ELSE n
U8At(b, k) == IF Len(b) >= k THEN b[k] ELSE 0
RECURSIVE ImeScan(_, _)                            \* maintenance report: type, length, value
ImeScan(b, d) ==
  IF b = <<>> THEN Ok(Dict(d), 0)
  ELSE IF Len(b) < 2 \/ Len(b) < 2 + b[2] THEN Err
  ELSE LET v == Sub(b, 2, b[2])
           rest == From(b, 2 + b[2])
       IN CASE b[1] > 8 -> ImeScan(rest, d)        \* not known: skipped
            [] b[1] \in {0, 4, 5} -> IF Len(v) < 1 THEN Err ELSE ImeScan(rest, (b[1] :> Num(v[1])) @@ d)
            [] b[1] = 1 -> IF Len(v) < 2 THEN Err ELSE ImeScan(rest, (1 :> Num(v[1] * 256 + v[2])) @@ d)
            [] b[1] = 2 -> ImeScan(rest, (2 :> <<4, U8At(v, 1), U8At(v, 2), U8At(v, 3), U8At(v, 4), U8At(v, 5)>>) @@ d)
            [] OTHER -> ImeScan(rest, (b[1] :> Bytes(v)) @@ d)
Option(t, v) ==
  CASE t = 1 -> IF Len(v) < 3 THEN Err ELSE Ok(Num(Signed24(v)), 0)
    [] t = 3 -> ImeScan(v, <<>>)
    [] t = 4 -> Ok(<<4, U8At(v, 1), U8At(v, 2) % 2>>, 0)
    [] OTHER -> Ok(No, 0)
RECURSIVE ExtScan(_, _)
ExtScan(b, d) ==
  IF b = <<>> THEN Ok(Dict(d), 0)
  ELSE IF Len(b) < 2 \/ Len(b) < 2 + b[2] THEN Err
  ELSE LET t == b[1] % 128
           o == Option(t, Sub(b, 2, b[2]))
           rest == From(b, 2 + b[2])
       IN IF t \notin 1..5 THEN (IF b[1] >= 128 THEN Err ELSE ExtScan(rest, d))
          ELSE IF ~o.ok THEN Err
          ELSE ExtScan(rest, (t :> o.v) @@ d)

(* ---- meta data of a provisioning entry: type/critical, length, value ---- *)
MetaTypes == {0, 1, 2, 3} \cup 50..55
RECURSIVE MetaScan(_, _)
MetaScan(b, d) ==
  IF b = <<>> THEN Ok(Dict(d), 0)
  ELSE IF Len(b) < 2 \/ Len(b) < 2 + b[2] THEN Err
  ELSE LET t == b[1] \div 2
           rest == From(b, 2 + b[2])
       IN IF t \notin MetaTypes THEN (IF b[1] % 2 = 1 THEN Err ELSE MetaScan(rest, d))
          ELSE MetaScan(rest, (t :> Bytes(Sub(b, 2, b[2]))) @@ d)

(* ---- association members: plain nodes, then after a zero pairs of node and end point ---- *)
RECURSIVE Plain(_), Pairs(_)
Pairs(b) == IF b = <<>> THEN [ok |-> TRUE, v |-> <<>>]
            ELSE IF Len(b) = 1 THEN [ok |-> FALSE, v |-> <<>>]
            ELSE LET r == Pairs(From(b, 2)) IN [r EXCEPT !.v = <<b[1], b[2]>> \o @]
Plain(b) == IF b = <<>> THEN [ok |-> TRUE, v |-> <<>>]
            ELSE IF b[1] = 0 THEN Pairs(Tail(b))
            ELSE LET r == Plain(Tail(b)) IN [r EXCEPT !.v = <<b[1], -1>> \o @]

(* bit masks: bit j of byte k stands for element 8 k + j + 1 *)
MaskList(b, most) == SelectSeq([n \in 1..(IF 8 * Len(b) < most THEN 8 * Len(b) ELSE most) |-> n],
                               LAMBDA n : b[((n - 1) \div 8) + 1] # 0 /\ (b[((n - 1) \div 8) + 1] \div P2((n - 1) % 8)) % 2 = 1)

RECURSIVE Decode(_)
(* the value of a whole-byte field of kind t starting at offset p of b; prev: the number in the *)
(* field before (a size or a length)                                                            *)
Read(t, w, b, p, prev, lenOf) ==
  LET left == Len(b) - p IN
  CASE t = "u" /\ w = 16 -> IF left < 2 THEN Err ELSE Ok(Num(b[p + 1] * 256 + b[p + 2]), p + 2)
    [] t \in {"ip", "u32", "dsk"} -> IF left < w THEN Err ELSE Ok(Bytes(Sub(b, p, w)), p + w)
    [] t = "rest" -> Ok(Bytes(From(b, p)), Len(b))
    [] t = "msg" -> LET m == Decode(From(b, p)) IN IF m.ok THEN Ok(Flat(m), Len(b)) ELSE Err
    [] t = "msgl" -> IF left < 1 + b[p + 1] THEN Err
                     ELSE LET m == Decode(Sub(b, p + 1, b[p + 1])) IN
                          IF m.ok THEN Ok(Flat(m), p + 1 + b[p + 1]) ELSE Err
    [] t = "ext" -> IF lenOf = 0 THEN Ok(<<7>>, p)           \* no header extension in this packet
                    ELSE IF b[p + 1] < 1 \/ left < b[p + 1] THEN Err
                    ELSE LET r == ExtScan(Sub(b, p + 1, b[p + 1] - 1), <<>>) IN
                         IF r.ok THEN Ok(r.v, p + b[p + 1]) ELSE Err
    [] t = "str" -> IF left < 1 + b[p + 1] \/ ~Utf8(Sub(b, p + 1, b[p + 1])) THEN Err
                    ELSE Ok(Bytes(Sub(b, p + 1, b[p + 1])), p + 1 + b[p + 1])
    [] t = "nodemask" -> IF left < 29 THEN Err ELSE Ok(<<3>> \o MaskList(Sub(b, p, 29), 232), p + 29)
    [] t = "sensmask" -> Ok(<<3>> \o MaskList(From(b, p), 8 * left), Len(b))
    [] t = "assoc" -> LET r == Plain(From(b, p)) IN IF r.ok THEN Ok(<<4>> \o r.v, Len(b)) ELSE Err
    [] t = "float" -> LET n == b[p + 1] % 8 IN
                      IF left < 1 + n THEN Err
                      ELSE Ok(Decimal(Sub(b, p + 1, n), b[p + 1] \div 32, (b[p + 1] \div 8) % 4), p + 1 + n)
    [] t \in {"szval", "szvalrx"} -> IF left < prev THEN Err ELSE Ok(Bytes(Strip0(Sub(b, p, prev))), p + prev)
    [] t = "cmdlist" -> LET n == 2 * ((b[p + 1] + 1) \div 2) IN
                        IF left < 1 + n THEN Err ELSE Ok(<<4>> \o Sub(b, p + 1, n), p + 1 + n)
    [] t = "groups" -> IF left < 7 * prev THEN Err
                       ELSE Ok(<<4>> \o Flatten([k \in 1..prev |->
                                 LET q == p + 7 * (k - 1) IN
                                 <<b[q + 1], b[q + 2], b[q + 3] * 256 + b[q + 4], b[q + 6] * 256 + b[q + 7]>>]), p + 7 * prev)
    [] t = "nif" -> LET want == IF lenOf < 7 THEN 0 ELSE lenOf - 7
                        n == IF want > left THEN left ELSE want
                    IN Ok(<<4>> \o Sub(b, p, n), p + n)
    [] t = "nfail" -> IF left = 16 THEN Ok(Num(b[p + 16]), p + 16) ELSE Ok(Num(b[p + 1]), p + 1)
    [] t = "dskn" -> IF prev = 0 THEN Ok(<<2>>, p)
                     ELSE IF prev # 16 \/ left < 16 THEN Err ELSE Ok(Bytes(Sub(b, p, 16)), p + 16)
    [] t = "meta" -> LET r == MetaScan(From(b, p), <<>>) IN IF r.ok THEN Ok(r.v, Len(b)) ELSE Err

(* the length or flag governing field k: nodeInfoLength for a node information list, the "header *)
(* extension included" flag for a header extension                                               *)
Governor(fs, vals, k) ==
  LET name == IF fs[k].t = "nif" THEN "nodeInfoLength" ELSE IF fs[k].t = "ext" THEN "headerExtIncluded" ELSE ""
      vis == SelectSeq(SubSeq(fs, 1, k - 1), LAMBDA x : x.t # "r")
      at == {j \in 1..Len(vis) : vis[j].n = name}
  IN IF at = {} THEN 0 ELSE vals[CHOOSE j \in at : TRUE][2]

RECURSIVE DecF(_, _, _, _, _, _)
DecF(fs, k, b, p, o, vals) ==
  IF k > Len(fs) THEN [ok |-> TRUE, vals |-> vals]
  ELSE IF p >= Len(b)          \* the end of the data: the remaining fields keep their defaults
  THEN LET miss == SelectSeq(SubSeq(fs, k, Len(fs)), LAMBDA x : x.t # "r")
       IN [ok |-> TRUE, vals |-> vals \o [j \in 1..Len(miss) |-> Default(miss[j].t)]]
  ELSE LET x == fs[k] IN
       IF x.t \in {"r", "u"} /\ x.w <= 8
       THEN LET v == (b[p + 1] \div P2(8 - o - x.w)) % P2(x.w)
                e == o + x.w
            IN DecF(fs, k + 1, b, IF e = 8 THEN p + 1 ELSE p, IF e = 8 THEN 0 ELSE e,
                    IF x.t = "r" THEN vals ELSE Append(vals, Num(v)))
       ELSE LET last == IF vals = <<>> \/ Head(vals[Len(vals)]) # 1 THEN 0 ELSE vals[Len(vals)][2]
                r == Read(x.t, x.w, b, p, last, Governor(fs, vals, k))
            IN IF r.ok THEN DecF(fs, k + 1, b, r.p, 0, Append(vals, r.v))
               ELSE [ok |-> FALSE, vals |-> <<>>]

(* decoding a byte string: [ok, hid, f] *)
Decode(b) ==
  IF Len(b) < 2 THEN [ok |-> TRUE, hid |-> 0, f |-> <<>>]
  ELSE LET hid == b[1] * 256 + b[2] IN
       IF ~Known(hid) THEN [ok |-> TRUE, hid |-> hid, f |-> <<>>]
       ELSE LET r == DecF(Fields(hid), 1, b, 2, 0, <<>>)
            IN [ok |-> r.ok, hid |-> IF r.ok THEN hid ELSE 0, f |-> r.vals]

(* ---- encoding ---- *)
Encodable(t) == t \notin {"ext", "str", "nodemask", "sensmask", "float", "cmdlist", "groups", "nif", "meta", "szvalrx"}
RECURSIVE PlainOut(_), PairsOut(_)
PlainOut(v) == IF v = <<>> THEN <<>> ELSE (IF v[2] = -1 THEN <<v[1]>> ELSE <<>>) \o PlainOut(From(v, 2))
PairsOut(v) == IF v = <<>> THEN <<>> ELSE (IF v[2] # -1 THEN <<v[1], v[2]>> ELSE <<>>) \o PairsOut(From(v, 2))
Pad(b, n) == [k \in 1..n |-> IF k <= n - Len(b) THEN 0 ELSE b[k - (n - Len(b))]]
RECURSIVE Encode(_, _)
Write(t, w, v, prev) ==
  CASE t = "u" /\ w = 16 -> <<v[2] \div 256, v[2] % 256>>
    [] t = "nfail" -> <<v[2]>>
    [] t \in {"ip", "u32", "dsk", "dskn", "rest"} -> Tail(v)
    [] t = "assoc" -> LET a == PlainOut(Tail(v)) m == PairsOut(Tail(v)) IN a \o (IF m = <<>> THEN <<>> ELSE <<0>> \o m)
    [] t = "szval" -> Pad(Tail(v), prev)
    [] t = "msg" -> Encode(v[2], Unflat(From(v, 2))).b
    [] t = "msgl" -> LET c == Encode(v[2], Unflat(From(v, 2))).b IN <<Len(c)>> \o c
    [] OTHER -> <<>>
RECURSIVE EncF(_, _, _, _, _, _, _)
EncF(fs, k, vals, out, acc, o, prev) ==
  IF k > Len(fs) THEN [ok |-> TRUE, b |-> out]
  ELSE LET x == fs[k]
           given == IF x.t = "r" THEN Num(0) ELSE Head(vals)
           v == IF given = No THEN Default(x.t) ELSE given
           vs == IF x.t = "r" THEN vals ELSE Tail(vals)
       IN IF v = No THEN [ok |-> FALSE, b |-> <<>>]                  \* a mandatory field is missing
          ELSE IF x.t \in {"r", "u"} /\ x.w <= 8
          THEN LET a == acc + v[2] * P2(8 - o - x.w)
                   e == o + x.w
               IN IF e = 8 THEN EncF(fs, k + 1, vs, Append(out, a), 0, 0, v[2])
                  ELSE EncF(fs, k + 1, vs, out, a, e, v[2])
          ELSE EncF(fs, k + 1, vs, out \o Write(x.t, x.w, v, prev), 0, 0, 0)
Encode(hid, vals) ==
  IF ~Known(hid) THEN [ok |-> TRUE, b |-> <<>>]
  ELSE LET r == EncF(Fields(hid), 1, vals, <<>>, 0, 0, 0)
       IN IF r.ok THEN [ok |-> TRUE, b |-> <<hid \div 256, hid % 256>> \o r.b] ELSE r

(* ---- printing: a line for every field that came with the data, in order, with its depth; ---- *)
(* whether a field at its default gets a line is left open                                       *)
RECURSIVE Lines(_, _, _), Match(_, _)
Lines(fs, f, d) ==
  IF f = <<>> THEN <<>>
  ELSE LET x == Head(fs)
           v == Head(f)
       IN <<[d |-> d, n |-> x.n, must |-> v # Default(x.t)]>>
          \o (IF x.t \in {"msg", "msgl"} /\ v # No /\ Known(v[2]) THEN Lines(Visible(v[2]), Unflat(From(v, 2)), d + 1) ELSE <<>>)
          \o Lines(Tail(fs), Tail(f), d)
Match(want, seen) ==
  IF want = <<>> THEN seen = <<>>
  ELSE IF seen # <<>> /\ Head(seen).n = Head(want).n /\ Head(seen).d = Head(want).d THEN Match(Tail(want), Tail(seen))
  ELSE ~Head(want).must /\ Match(Tail(want), seen)
Show(b, seen) ==
  LET m == Decode(b)
      want == IF m.ok /\ Known(m.hid) THEN Lines(Visible(m.hid), m.f, 1) ELSE <<>>
      must == SelectSeq(want, LAMBDA x : x.must)
  IN <<[k |-> "show", ok |-> m.ok, named |-> m.ok, same |-> m.ok,
        lines |-> IF Len(seen) = 1 /\ Match(want, seen[1].lines) THEN seen[1].lines
                  ELSE [k \in 1..Len(must) |-> [d |-> must[k].d, n |-> must[k].n]]]>>

(* the scale of a meter reading has a further bit *)
Derived(m) == IF m.hid = 12802 /\ m.f[4] # No THEN <<m.f[4][Len(m.f[4])] + 4 * m.f[1][2]>> ELSE <<>>

(* ---- equality: messages are equal exactly when they are the same on the wire; keys are shown ---- *)
(* as numbers of two bytes each                                                                      *)
Same(a, b) == Encode(a.hid, a.v).b = Encode(b.hid, b.v).b
(* so are the values of fields: the field values of two messages of one class *)
SameF(a, b) ==
  IF a.hid # b.hid \/ ~Known(a.hid) THEN <<>>
  ELSE LET at == SelectSeq([k \in 1..Len(a.v) |-> k], LAMBDA k : Visible(a.hid)[k].t \in {"u", "u32", "ip", "dsk"})
       IN [j \in 1..Len(at) |-> a.v[at[j]] = b.v[at[j]]]
IsKey(t) == t \in {"dsk", "dskn"}
Words(v) == [k \in 1..(Len(v) \div 2) |-> v[2 * k] * 256 + v[2 * k + 1]]
Key(b) ==
  LET m == Decode(b)
      at == IF m.ok /\ Known(m.hid) THEN {k \in 1..Len(m.f) : IsKey(Visible(m.hid)[k].t)} ELSE {}
  IN <<[k |-> "key", ok |-> m.ok, words |-> IF at = {} THEN <<>> ELSE Words(m.f[CHOOSE k \in at : TRUE]), like |-> m.ok]>>

(* ---- the specification of a run: a stateless component ---- *)
Init0(cfg) == [n |-> 0]
Do(s, e) ==
  [s |-> s,
   exp |-> CASE e.op = "enc" -> LET r == Encode(e.hid, e.v) IN <<[k |-> "enc", ok |-> r.ok, b |-> r.b, stable |-> TRUE]>>
             [] e.op = "dec" -> LET r == Decode(e.b) IN <<[k |-> "dec", ok |-> r.ok, hid |-> r.hid, f |-> r.f, x |-> IF r.ok THEN Derived(r) ELSE <<>>]>>
             [] e.op = "eq" -> <<[k |-> "eq", eq |-> Same(e.a, e.b), sure |-> TRUE, none |-> FALSE, f |-> SameF(e.a, e.b)]>>
             [] e.op = "key" -> Key(e.b)
             [] e.op = "show" -> Show(e.b, e.obs)
             [] OTHER -> <<>>]

(* ---- sanity of the table: bit fields fill whole bytes, whole-byte fields start aligned ---- *)
RECURSIVE Aligned(_, _, _)
Aligned(fs, k, o) == IF k > Len(fs) THEN o = 0
                     ELSE IF fs[k].t \in {"r", "u"} /\ fs[k].w <= 8
                          THEN o + fs[k].w <= 8 /\ Aligned(fs, k + 1, (o + fs[k].w) % 8)
                          ELSE o = 0 /\ Aligned(fs, k + 1, 0)
ASSUME \A hid \in DOMAIN Tab : Aligned(Tab[hid], 1, 0)
=============================================================================
