----------------------------- MODULE CsvTrace -----------------------------
(* Tables, their CSV text and the values texts denote.  Values are           *)
(*   <<"n">>  <<"i", decimal digits>>  <<"d", bits of the double>>           *)
(*   <<"f", ten thousandths>> <<"s", text>> <<"x", text>> <<"u", text, prefix>> *)
(*   <<"c", character>> <<"D", day number>> <<"T", hundredths>> <<"o">> others *)
(* texts are sequences of character codes                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES l, tab, exp     \* tab: the rows of the database; exp: rows and text of the last export
vars == <<l, tab, exp>>
LastYear == 1
LastTick == 0
C == INSTANCE Calendar WITH date <- <<1, 1, 1>>, n <- 1, time <- <<0, 0, 0, 0>>, t <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1

(* ---------------- the text: lines of fields <<quoted, text>> ---------------- *)
Commit(st, q) == [st EXCEPT !.row = Append(@, <<q, st.buf>>), !.buf = << >>, !.mode = "start"]
EndLine(st) == [st EXCEPT !.rows = Append(@, st.row), !.row = << >>]
Read(st, c) ==
  CASE st.mode = "start" -> (CASE c = 34 -> [st EXCEPT !.mode = "quoted"]
                               [] c = 44 -> Commit(st, FALSE)
                               [] c = 13 -> st
                               [] c = 10 -> EndLine(Commit(st, FALSE))
                               [] OTHER -> [st EXCEPT !.mode = "plain", !.buf = <<c>>])
    [] st.mode = "plain" -> (CASE c = 44 -> Commit(st, FALSE)
                               [] c = 13 -> st
                               [] c = 10 -> EndLine(Commit(st, FALSE))
                               [] OTHER -> [st EXCEPT !.buf = Append(@, c)])
    [] st.mode = "quoted" -> IF c = 34 THEN [st EXCEPT !.mode = "quote"] ELSE [st EXCEPT !.buf = Append(@, c)]
    [] st.mode = "quote" -> (CASE c = 34 -> [st EXCEPT !.mode = "quoted", !.buf = Append(@, 34)]
                               [] c = 44 -> Commit(st, TRUE)
                               [] c = 13 -> st
                               [] c = 10 -> EndLine(Commit(st, TRUE))
                               [] OTHER -> [st EXCEPT !.bad = TRUE])
AtEnd(st) == CASE st.mode = "start" -> IF st.row = << >> THEN st ELSE EndLine(Commit(st, FALSE))
               [] st.mode = "plain" -> EndLine(Commit(st, FALSE))
               [] st.mode = "quote" -> EndLine(Commit(st, TRUE))
               [] st.mode = "quoted" -> [st EXCEPT !.bad = TRUE]
Lines(s) == AtEnd(FoldLeft(Read, [rows |-> << >>, row |-> << >>, buf |-> << >>, mode |-> "start", bad |-> FALSE], s))
EmptyLine == << <<FALSE, << >> >> >>

(* ---------------- what an unquoted text denotes ---------------- *)
Digit(c) == c >= 48 /\ c <= 57
AllDigits(s) == \A k \in 1..Len(s) : Digit(s[k])
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
Body(s) == IF s[1] = 45 THEN Tail(s) ELSE s
LooksNumeric(s) == Len(s) > 0 /\ (Digit(s[1]) \/ (s[1] = 45 /\ Len(s) > 1 /\ Digit(s[2])))
IsInteger(s) == LooksNumeric(s) /\ AllDigits(Body(s))
Points(s) == {k \in 1..Len(s) : s[k] = 46}
IsDecimal(s) == LooksNumeric(s) /\ Cardinality(Points(s)) = 1 /\ \A k \in 1..Len(Body(s)) : Digit(Body(s)[k]) \/ Body(s)[k] = 46
Max64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
Min64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = << >> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
MagLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
Canon(s) == LET m == Strip(Body(s)) IN IF s[1] = 45 /\ m # <<48>> THEN <<45>> \o m ELSE m
IntFits(s) == MagLe(Strip(Body(s)), IF s[1] = 45 THEN Min64 ELSE Max64)
RECURSIVE ToInt(_, _)
ToInt(s, v) == IF s = << >> THEN v ELSE ToInt(Tail(s), v * 10 + s[1] - 48)
Sub(s, a, b) == ToInt(SubSeq(s, a, b), 0)
HasForm(s, form) == Len(s) = Len(form) /\ \A k \in 1..Len(s) : IF form[k] = 57 THEN Digit(s[k]) ELSE s[k] = form[k]
DateForm == <<57, 57, 57, 57, 45, 57, 57, 45, 57, 57>>
TimeForm == <<57, 57, 58, 57, 57, 58, 57, 57>>
IsDateText(s) == HasForm(s, DateForm) /\ C!IsDate(Sub(s, 1, 4), Sub(s, 6, 7), Sub(s, 9, 10))
IsTimeText(s) == /\ Len(s) >= 8 /\ HasForm(SubSeq(s, 1, 8), TimeForm)
                 /\ (Len(s) = 8 \/ (Len(s) >= 10 /\ s[9] = 46 /\ AllDigits(SubSeq(s, 10, Len(s)))))
Frac(s) == IF Len(s) = 8 THEN 0 ELSE IF Len(s) = 10 THEN Sub(s, 10, 10) * 10 ELSE Sub(s, 10, 11)
IsTimeOk(s) == C!IsTime(Sub(s, 1, 2), Sub(s, 4, 5), Sub(s, 7, 8), Frac(s))
(* num: <<text, bits>> of every decimal, as the machine's own conversion (correctly rounded) gives it; "inf" if too big *)
Bits(num, s) == (CHOOSE p \in num : p[1] = s)[2]
Denotes(s, num) ==
  IF s = << >> THEN <<"n">>
  ELSE IF IsDateText(s) THEN <<"D", C!DayNumber(Sub(s, 1, 4), Sub(s, 6, 7), Sub(s, 9, 10))>>
  ELSE IF IsTimeText(s) /\ IsTimeOk(s) THEN <<"T", C!Hundredths(Sub(s, 1, 2), Sub(s, 4, 5), Sub(s, 7, 8), Frac(s))>>
  ELSE IF IsInteger(s) /\ IntFits(s) THEN <<"i", Canon(s)>>
  ELSE IF IsDecimal(s) /\ Bits(num, s) # "inf" THEN <<"d", Bits(num, s)>>
  ELSE <<"s", s>>
FieldValue(f, num) == IF f[1] THEN <<"s", f[2]>> ELSE Denotes(f[2], num)
Imported(s, num) == LET L == SelectSeq(Lines(s).rows, LAMBDA r : r # EmptyLine) IN [k \in 1..Len(L) |-> [j \in 1..Len(L[k]) |-> FieldValue(L[k][j], num)]]

(* ---------------- how a value is written ---------------- *)
Dashes(s) == {k \in 1..Len(s) : s[k] = 45}
Writes(f, v, num) ==
  LET s == f[2] IN
  CASE v[1] = "n" -> ~ f[1] /\ s = << >>
    [] v[1] = "i" -> ~ f[1] /\ s = v[2]
    [] v[1] = "d" -> ~ f[1] /\ IsDecimal(s) /\ Bits(num, s) = v[2]
    [] v[1] = "f" -> ~ f[1] /\ IsDecimal(s)
                     /\ LET b == Body(s)  p == CHOOSE k \in Points(b) : TRUE  q == Len(b) - p IN
                          q = 6 /\ (IF v[2] < 0 THEN -v[2] ELSE v[2]) * 100 = Sub(b, 1, p - 1) * 1000000 + Sub(b, p + 1, Len(b)) /\ (v[2] < 0) = (s[1] = 45)
    [] v[1] \in {"s", "x"} -> f[1] /\ s = v[2]
    [] v[1] = "u" -> f[1] /\ s = v[3] \o v[2]
    [] v[1] = "c" -> f[1] /\ s = <<v[2]>>
    [] v[1] = "D" -> ~ f[1] /\ Cardinality(Dashes(s)) = 2 /\ Len(s) >= 10 /\ s[Len(s) - 5] = 45 /\ s[Len(s) - 2] = 45
                     /\ v[2] = C!DayNumber(Sub(s, 1, Len(s) - 6), Sub(s, Len(s) - 4, Len(s) - 3), Sub(s, Len(s) - 1, Len(s)))
    [] v[1] = "T" -> ~ f[1] /\ IsTimeText(s) /\ Len(s) = 11 /\ v[2] = C!Hundredths(Sub(s, 1, 2), Sub(s, 4, 5), Sub(s, 7, 8), Frac(s))
    [] v[1] = "o" -> f[1]                          \* references, blobs, variables: some text
AsRow(r) == IF r = << >> THEN << <<"n">> >> ELSE r
Exported(s, rows, num) ==
  LET L == Lines(s) IN
    /\ ~ L.bad /\ (IF s = << >> THEN TRUE ELSE s[Len(s)] = 10) /\ Len(L.rows) = Len(rows)
    /\ \A k \in 1..Len(rows) : Len(L.rows[k]) = Len(AsRow(rows[k])) /\ \A j \in 1..Len(AsRow(rows[k])) : Writes(L.rows[k][j], AsRow(rows[k])[j], num)

(* ---------------- events ---------------- *)
(* stored doubles and short strings are exactly those of the rows (URIs and the like have further strings) *)
Fields(T, P(_)) == FoldLeft(LAMBDA a, r : a + Len(SelectSeq(r, P)), 0, T)
Owned(T) == Ev.dw = Fields(T, LAMBDA v : v[1] = "d") /\ (Fields(T, LAMBDA v : v[1] \in {"u", "x", "o"}) = 0 => Ev.sh = Fields(T, LAMBDA v : v[1] = "s" /\ Len(v[2]) < 32))
Nums(x) == {x[k] : k \in 1..Len(x)}
Count(S, r) == Cardinality({k \in 1..Len(S) : S[k] = r})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
Rows(r, want) == IF Ev.ordered = 1 THEN r = want ELSE SameBag(r, want)
Fresh == Is("fresh") /\ tab' = << >> /\ UNCHANGED exp
Fill == Is("fill") /\ tab' = tab \o Ev.rows /\ Rows(Ev.all, tab \o Ev.rows) /\ UNCHANGED exp
(* Ev.all: the rows in the order of a scan, which is the order of the file *)
Export == Is("export") /\ Rows(Ev.all, tab) /\ Exported(Ev.s, Ev.all, Nums(Ev.num)) /\ exp' = <<Ev.all, Ev.s>> /\ UNCHANGED tab
Import == /\ Is("import") /\ ~ Lines(Ev.s).bad /\ Ev.r = 0
          /\ LET new == Imported(Ev.s, Nums(Ev.num)) IN tab' = tab \o new /\ Rows(Ev.all, tab \o new) /\ Owned(tab')
          /\ UNCHANGED exp
(* importing what was exported: the rows themselves, if their values are of the kinds that can be told apart *)
Kept(v) == v[1] \in {"n", "i", "d", "s", "T"} \/ (v[1] = "D" /\ v[2] <= C!DayNumber(9999, 12, 31))
Back == /\ Is("back") /\ Ev.r = 0 /\ tab = << >>
        /\ tab' = Imported(exp[2], Nums(Ev.num)) /\ Rows(Ev.all, tab')
        /\ LET K == SelectSeq(exp[1], LAMBDA r : r # << >> /\ r # << <<"n">> >>) IN
             (\A k \in 1..Len(K) : \A j \in 1..Len(K[k]) : Kept(K[k][j])) => Rows(Ev.all, K)
        /\ UNCHANGED exp
(* a text with an unclosed quote or text after a closing one: no row before it is lost, nothing else is said *)
Junk == /\ Is("junk") /\ Lines(Ev.s).bad /\ Len(Ev.all) >= Len(tab) /\ tab' = Ev.all /\ Owned(tab') /\ UNCHANGED exp
NoFile == Is("nofile") /\ Ev.r # 0 /\ Rows(Ev.all, tab) /\ UNCHANGED <<tab, exp>>
Parse == Is("parse") /\ Ev.v = Denotes(Ev.s, Nums(Ev.num)) /\ Ev.p = Ev.v /\ UNCHANGED <<tab, exp>>
TraceInit == l = 1 /\ tab = << >> /\ exp = <<<< >>, << >>>>
TraceNext == Fresh \/ Fill \/ Export \/ Import \/ Back \/ Junk \/ NoFile \/ Parse
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
