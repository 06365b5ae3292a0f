----------------------------- MODULE CalTrace -----------------------------
(* Recorded conversions of dates and times against Calendar.tla              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l, cur
LastYear == 1
LastTick == 0
C == INSTANCE Calendar WITH date <- <<1, 1, 1>>, n <- 1, time <- <<0, 0, 0, 0>>, t <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Date(y, m, d) == IF C!IsDate(y, m, d) THEN C!DayNumber(y, m, d) ELSE -1
Time(h, mi, s, p) == IF C!IsTime(h, mi, s, p) THEN C!Hundredths(h, mi, s, p) ELSE -1
(* ---- walking through the calendar ---- cur = <<day number, <<y, m, d>> >> of the next day *)
Start == Is("start") /\ cur' = <<C!DayNumber(Ev.y, Ev.m, 1), <<Ev.y, Ev.m, 1>> >>
(* enc[k]: number of day k - 1 of the month, dec[k]: date and stored form of the k-th following day number *)
Month == /\ Is("month") /\ cur # << >>
         /\ LET y == cur[2][1]  m == cur[2][2]  L == C!Days(y, m) IN
              /\ Ev.y = y /\ Ev.m = m /\ cur[2][3] = 1
              /\ Len(Ev.enc) = 34
              /\ \A k \in 1..34 : Ev.enc[k] = IF k >= 2 /\ k <= L + 1 THEN cur[1] + k - 2 ELSE -1
              /\ Len(Ev.dec) = L + 1
              /\ \A k \in 1..L : Ev.dec[k] = <<y, m, k, cur[1] + k - 1>>
              /\ LET nx == C!NextDay(<<y, m, L>>) IN
                   /\ ((y = C!MaxYear /\ m = 12) \/ Ev.dec[L + 1] = nx \o <<cur[1] + L>>)
                   /\ cur' = <<cur[1] + L, nx>>
(* ---- and through the day ---- cur = <<hundredths, <<h, m, s, p>> >> *)
TStart == Is("tstart") /\ cur' = <<C!Hundredths(Ev.h, Ev.mi, Ev.s, 0), <<Ev.h, Ev.mi, Ev.s, 0>> >>
Second == /\ Is("second") /\ cur # << >>
          /\ LET h == cur[2][1]  mi == cur[2][2]  s == cur[2][3] IN
               /\ Ev.h = h /\ Ev.mi = mi /\ Ev.s = s
               /\ Len(Ev.enc) = 103 /\ \A k \in 1..103 : Ev.enc[k] = IF k >= 2 /\ k <= 101 THEN cur[1] + k - 2 ELSE -1
               /\ Len(Ev.dec) = 101 /\ \A k \in 1..100 : Ev.dec[k] = <<h, mi, s, k - 1, cur[1] + k - 1>>
               /\ LET nx == C!NextTick(<<h, mi, s, 99>>) IN Ev.dec[101] = nx \o <<cur[1] + 100>> /\ cur' = <<cur[1] + 100, nx>>
(* ---- single conversions, of anything ---- *)
Ymd == Is("ymd") /\ Ev.r = Date(Ev.y, Ev.m, Ev.d) /\ UNCHANGED cur
Hms == Is("hms") /\ Ev.r = Time(Ev.h, Ev.mi, Ev.s, Ev.p) /\ UNCHANGED cur
(* ---- printing: text of date d and time t with its length, and what it is read back as ---- *)
Iso == /\ Is("iso")
       /\ Ev.d = C!DayNumber(Ev.x[1], Ev.x[2], Ev.x[3]) /\ C!IsDate(Ev.x[1], Ev.x[2], Ev.x[3])
       /\ Ev.t = C!Hundredths(Ev.x[4], Ev.x[5], Ev.x[6], Ev.x[7]) /\ C!IsTime(Ev.x[4], Ev.x[5], Ev.x[6], Ev.x[7])
       /\ Ev.text = C!IsoDate(Ev.x) \o "T" \o C!IsoTime(SubSeq(Ev.x, 4, 7))
       /\ Ev.len = Len(Ev.text)
       /\ (Ev.x[1] <= 9999 => Ev.pd = Ev.d /\ Ev.pt = Ev.t)
       /\ UNCHANGED cur
(* ---- reading any text (as character codes) ---- *)
Digit(c) == c >= 48 /\ c <= 57
Space(c) == c = 32 \/ c \in 9..13
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE Skip(_, _)
Skip(s, i) == IF Space(At(s, i)) THEN Skip(s, i + 1) ELSE i
RECURSIVE Num(_, _, _, _)
Num(s, i, w, v) == IF w > 0 /\ Digit(At(s, i)) THEN Num(s, i + 1, w - 1, v * 10 + At(s, i) - 48) ELSE <<v, i>>
(* a number of at most w characters, read leniently: <<found, value, next position>> *)
Lenient(s, i0, w) ==
  LET i == Skip(s, i0)  sg == At(s, i) \in {43, 45}  j == IF sg THEN i + 1 ELSE i  r == Num(s, j, IF sg THEN w - 1 ELSE w, 0)
  IN <<r[2] > j, IF At(s, i) = 45 THEN -r[1] ELSE r[1], r[2]>>
Exact(s, i, w) == i + w - 1 <= Len(s) /\ \A k \in i..(i + w - 1) : Digit(s[k])
NumAt(s, i, w) == Num(s, i, w, 0)[1]
StrictDate(s) == Exact(s, 1, 4) /\ At(s, 5) = 45 /\ Exact(s, 6, 2) /\ At(s, 8) = 45 /\ Exact(s, 9, 2) /\ (Len(s) = 10 \/ At(s, 11) = 84)
LenientDate(s) == LET a == Lenient(s, 1, 4)  b == Lenient(s, a[3] + 1, 2)  c == Lenient(s, b[3] + 1, 2) IN
  IF a[1] /\ At(s, a[3]) = 45 /\ b[1] /\ At(s, b[3]) = 45 /\ c[1] THEN Date(a[2], b[2], c[2]) ELSE -1
PDate == /\ Is("pdate")
         /\ LET s == Ev.s IN IF StrictDate(s) THEN Ev.r = Date(NumAt(s, 1, 4), NumAt(s, 6, 2), NumAt(s, 9, 2)) ELSE Ev.r \in {-1, LenientDate(s)}
         /\ UNCHANGED cur
HourMinSec(s) == Exact(s, 1, 2) /\ At(s, 3) = 58 /\ Exact(s, 4, 2) /\ At(s, 6) = 58 /\ Exact(s, 7, 2)
StrictTime(s) == HourMinSec(s) /\ (Len(s) = 8 \/ (At(s, 9) = 46 /\ Len(s) > 9 /\ Exact(s, 10, Len(s) - 9)))
Fraction(s) == IF Len(s) = 8 THEN 0 ELSE IF Len(s) = 10 THEN NumAt(s, 10, 1) * 10 ELSE NumAt(s, 10, 2)
(* what can be read of a text of another form: hours, minutes, seconds and any decimals *)
LenientTimes(s) == LET a == Lenient(s, 1, 2)  b == Lenient(s, a[3] + 1, 2)  c == Lenient(s, b[3] + 1, 2) IN
  IF a[1] /\ At(s, a[3]) = 58 /\ b[1] /\ At(s, b[3]) = 58 /\ c[1] THEN {-1} \cup {Time(a[2], b[2], c[2], p) : p \in 0..99} ELSE {-1}
PTime == /\ Is("ptime")
         /\ LET s == Ev.s IN IF StrictTime(s) THEN Ev.r = Time(NumAt(s, 1, 2), NumAt(s, 4, 2), NumAt(s, 7, 2), Fraction(s)) ELSE Ev.r \in LenientTimes(s)
         /\ UNCHANGED cur
(* ---- the clock: <<date, hundredths>> of the machine before and after, and what the database says ---- *)
Now == /\ Is("now")
       /\ LET a == Ev.a  b == Ev.b  da == C!DayNumber(a[1], a[2], a[3])  db == C!DayNumber(b[1], b[2], b[3]) IN
            IF Ev.k = "date" THEN Ev.r \in da..db ELSE IF da = db THEN Ev.r >= a[4] /\ Ev.r <= b[4] ELSE (Ev.r >= a[4] \/ Ev.r <= b[4])
       /\ UNCHANGED cur
TraceInit == l = 1 /\ cur = << >>
TraceNext == Start \/ Month \/ TStart \/ Second \/ Ymd \/ Hms \/ Iso \/ PDate \/ PTime \/ Now
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cur>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
