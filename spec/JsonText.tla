----------------------------- MODULE JsonText -----------------------------
(* The value a JSON text denotes.  Texts are sequences of bytes.  Values:    *)
(*   <<"n">>  <<"i", decimal digits>>  <<"d", bits of the double>>           *)
(*   <<"s", text>>  <<"a", values>>  <<"o", sequence of <<key, value>>>>     *)
(*   <<"b", truth value>> (not supported by the database)                    *)
(* Comments are allowed (a last line may be one), text after the value is not.  A text is supported   *)
(* when its value is an array or an object nested at most DEPTH deep, its    *)
(* numbers are in range and its strings hold no NUL.                         *)
(* The reader goes through the text once, byte by byte, with a stack of the  *)
(* containers that are open.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT DEPTH
Digit(c) == c >= 48 /\ c <= 57
Hex(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Space(c) == c \in {9, 10, 13, 32}
NumChar(c) == Digit(c) \/ c \in {43, 45, 46, 69, 101}          \* + - . E e
Letter(c) == c >= 97 /\ c <= 122
(* ---- numbers ---- *)
AllDigits(s) == \A k \in 1..Len(s) : Digit(s[k])
Body(s) == IF Len(s) > 0 /\ s[1] = 45 THEN Tail(s) ELSE s
IsIntText(s) == LET b == Body(s) IN Len(b) > 0 /\ AllDigits(b) /\ (b[1] # 48 \/ Len(b) = 1)
First(s, S) == IF \E k \in 1..Len(s) : s[k] \in S THEN CHOOSE k \in 1..Len(s) : s[k] \in S /\ \A j \in 1..(k - 1) : s[j] \notin S ELSE Len(s) + 1
IsNumText(s) ==
  LET p == First(s, {46})
      e == First(s, {69, 101})
      int == SubSeq(s, 1, (IF p < e THEN p ELSE e) - 1)
      frac == IF p < e THEN SubSeq(s, p + 1, e - 1) ELSE << >>
      ex == IF e <= Len(s) THEN SubSeq(s, e + 1, Len(s)) ELSE << >>
      exd == IF Len(ex) > 0 /\ ex[1] \in {43, 45} THEN Tail(ex) ELSE ex
  IN /\ IsIntText(int)
     /\ p < e => Len(frac) > 0 /\ AllDigits(frac)
     /\ e <= Len(s) => Len(exd) > 0 /\ AllDigits(exd)
Max63 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = << >> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
MagLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
(* num: the double nearest to each decimal that occurs, "inf" if there is none *)
NumOf(s, num) == LET S == {k \in 1..Len(num) : num[k][1] = s} IN IF S = {} THEN "inf" ELSE num[CHOOSE k \in S : TRUE][2]
Number(s, num) == IF IsIntText(s) THEN (IF MagLe(Body(s), Max63) THEN <<"i", IF s = <<45, 48>> THEN <<48>> ELSE s>> ELSE <<"?">>)
                  ELSE IF IsNumText(s) /\ NumOf(s, num) # "inf" THEN <<"d", NumOf(s, num)>> ELSE <<"?">>
(* ---- text of a character number ---- *)
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
(* ---- the reader ---- *)
Start == [m |-> "val", st |-> << >>, buf |-> << >>, u |-> 0, k |-> 0, hi |-> 0, ret |-> "", val |-> <<"?">>, bad |-> FALSE, deep |-> FALSE, max |-> DEPTH]
Bad(r) == [r EXCEPT !.bad = TRUE]
Top(r) == r.st[Len(r.st)]
Give(r, v) ==              \* a complete value v
  IF r.st = << >> THEN [r EXCEPT !.m = "end", !.val = v]
  ELSE [r EXCEPT !.m = "after", !.st = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.v = Append(@, IF Top(r).t = "a" THEN v ELSE <<Top(r).key, v>>)]]]
Open(r, t) == IF Len(r.st) >= r.max THEN [Bad(r) EXCEPT !.deep = TRUE]
              ELSE [r EXCEPT !.m = IF t = "a" THEN "val0" ELSE "key0", !.st = Append(@, [t |-> t, v |-> << >>, key |-> << >>])]
Close(r, t) == IF r.st = << >> \/ Top(r).t # t THEN Bad(r)
               ELSE LET v == <<Top(r).t, Top(r).v>> IN Give([r EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], v)
BeginValue(r, c) ==
  CASE c = 91 -> Open(r, "a")
    [] c = 123 -> Open(r, "o")
    [] c = 34 -> [r EXCEPT !.m = "str", !.buf = << >>, !.ret = "val"]
    [] c = 45 \/ Digit(c) -> [r EXCEPT !.m = "num", !.buf = <<c>>]
    [] Letter(c) -> [r EXCEPT !.m = "lit", !.buf = <<c>>]
    [] OTHER -> Bad(r)
Literal(r) == CASE r.buf = <<110, 117, 108, 108>> -> Give(r, <<"n">>)
                [] r.buf = <<116, 114, 117, 101>> -> Give(r, <<"b", TRUE>>)
                [] r.buf = <<102, 97, 108, 115, 101>> -> Give(r, <<"b", FALSE>>)
                [] OTHER -> Bad(r)
EndNumber(r, num) == LET v == Number(r.buf, num) IN IF v = <<"?">> THEN Bad(r) ELSE Give(r, v)
EndString(r) == IF \E k \in 1..Len(r.buf) : r.buf[k] = 0 THEN Bad(r)
                ELSE IF r.ret = "val" THEN Give(r, <<"s", r.buf>>)
                ELSE [r EXCEPT !.m = "colon", !.st = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.key = r.buf]]]
Between(r, c) ==           \* outside strings and comments
  CASE Space(c) -> r
    [] c = 47 -> [r EXCEPT !.ret = r.m, !.m = "slash"]
    [] r.m = "val" -> BeginValue(r, c)
    [] r.m = "val0" -> IF c = 93 THEN Close(r, "a") ELSE BeginValue(r, c)
    [] r.m = "key0" -> IF c = 125 THEN Close(r, "o") ELSE IF c = 34 THEN [r EXCEPT !.m = "str", !.buf = << >>, !.ret = "key"] ELSE Bad(r)
    [] r.m = "key" -> IF c = 34 THEN [r EXCEPT !.m = "str", !.buf = << >>, !.ret = "key"] ELSE Bad(r)
    [] r.m = "colon" -> IF c = 58 THEN [r EXCEPT !.m = "val"] ELSE Bad(r)
    [] r.m = "after" -> IF c = 44 THEN [r EXCEPT !.m = IF Top(r).t = "a" THEN "val" ELSE "key"]
                        ELSE IF c = 93 THEN Close(r, "a") ELSE IF c = 125 THEN Close(r, "o") ELSE Bad(r)
    [] OTHER -> Bad(r)     \* after the end
Escape(r, c) ==
  LET put(x) == [r EXCEPT !.m = "str", !.buf = Append(@, x)]
  IN CASE c \in {34, 92, 47} -> put(c)
       [] c = 98 -> put(8) [] c = 102 -> put(12) [] c = 110 -> put(10) [] c = 114 -> put(13) [] c = 116 -> put(9)
       [] c = 117 -> [r EXCEPT !.m = "hex", !.u = 0, !.k = 4]
       [] OTHER -> Bad(r)
HexDigit(r, c) ==          \* \uXXXX; a pair of surrogates is one character
  IF Hex(c) < 0 THEN Bad(r)
  ELSE LET u == r.u * 16 + Hex(c)
       IN IF r.k > 1 THEN [r EXCEPT !.u = u, !.k = @ - 1]
          ELSE IF u >= 55296 /\ u < 56320 THEN [r EXCEPT !.m = "pair", !.hi = u]
          ELSE IF r.hi > 0 THEN [r EXCEPT !.m = "str", !.hi = 0, !.buf = @ \o Utf8(65536 + (r.hi - 55296) * 1024 + u - 56320)]
          ELSE [r EXCEPT !.m = "str", !.buf = @ \o Utf8(u)]
InString(r, c) ==          \* k > 0: that many more bytes of this character
  IF r.k > 0 /\ r.m = "str" /\ r.u = -1
  THEN IF c >= 128 /\ c < 192 THEN [r EXCEPT !.buf = Append(@, c), !.k = @ - 1, !.u = IF r.k = 1 THEN 0 ELSE -1] ELSE Bad(r)
  ELSE CASE c = 34 -> EndString(r)
         [] c = 92 -> [r EXCEPT !.m = "esc"]
         [] c < 32 -> Bad(r)
         [] c < 128 -> [r EXCEPT !.buf = Append(@, c)]
         [] c >= 192 /\ c < 224 -> [r EXCEPT !.buf = Append(@, c), !.k = 1, !.u = -1]
         [] c >= 224 /\ c < 240 -> [r EXCEPT !.buf = Append(@, c), !.k = 2, !.u = -1]
         [] c >= 240 /\ c < 248 -> [r EXCEPT !.buf = Append(@, c), !.k = 3, !.u = -1]
         [] OTHER -> Bad(r)
Read(num, r, c) ==
  IF r.bad THEN r
  ELSE CASE r.m = "str" -> InString(r, c)
         [] r.m = "esc" -> Escape(r, c)
         [] r.m = "hex" -> HexDigit(r, c)
         [] r.m = "pair" -> IF c = 92 THEN [r EXCEPT !.m = "pair2"] ELSE Bad(r)
         [] r.m = "pair2" -> IF c = 117 THEN [r EXCEPT !.m = "hex", !.u = 0, !.k = 4] ELSE Bad(r)
         [] r.m = "num" -> IF NumChar(c) THEN [r EXCEPT !.buf = Append(@, c)] ELSE Between(EndNumber(r, num), c)
         [] r.m = "lit" -> IF Letter(c) THEN [r EXCEPT !.buf = Append(@, c)] ELSE Between(Literal(r), c)
         [] r.m = "slash" -> IF c = 47 THEN [r EXCEPT !.m = "line"] ELSE IF c = 42 THEN [r EXCEPT !.m = "block"] ELSE Bad(r)
         [] r.m = "line" -> IF c = 10 THEN [r EXCEPT !.m = r.ret] ELSE r
         [] r.m = "block" -> IF c = 42 THEN [r EXCEPT !.m = "star"] ELSE r
         [] r.m = "star" -> IF c = 47 THEN [r EXCEPT !.m = r.ret] ELSE IF c = 42 THEN r ELSE [r EXCEPT !.m = "block"]
         [] OTHER -> Between(r, c)
ReadText(s, num, max) == FoldLeft(LAMBDA r, c : Read(num, r, c), [Start EXCEPT !.max = max], s)
(* [ok, val]: an array or object, complete and nested at most max deep; ok is FALSE for everything else *)
DenotesTo(s, num, max) == LET r == ReadText(s, num, max)
                   IN [ok |-> ~ r.bad /\ (r.m = "end" \/ (r.m = "line" /\ r.ret = "end")) /\ r.val[1] \in {"a", "o"}, val |-> r.val]
Denotes(s, num) == DenotesTo(s, num, DEPTH)
=============================================================================
