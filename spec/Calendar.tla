----------------------------- MODULE Calendar -----------------------------
(* The Gregorian calendar and the time of day, as a clock that is advanced   *)
(* by one day or one hundredth of a second at a time.  n counts the days     *)
(* (1 January of year 1 is day 1), t the hundredths since midnight; the      *)
(* closed forms are checked against the counting on the whole 400 year cycle *)
EXTENDS Integers, Sequences, TLC
CONSTANTS LastYear, LastTick
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
MaxYear == 22788                        \* the last year all days of which can be encoded
IsDate(y, m, d) == y >= 1 /\ y <= MaxYear /\ m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= Days(y, m)
NextDay(x) == IF x[3] < Days(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>> ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>
(* closed forms *)
BeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayNumber(y, m, d) == (y - 1) * 365 + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400 + BeforeMonth[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d
IsTime(h, mi, s, p) == mi >= 0 /\ s >= 0 /\ p >= 0 /\ h >= 0 /\ mi <= 59 /\ s <= 59 /\ p <= 99 /\ (h <= 23 \/ (h = 24 /\ mi = 0 /\ s = 0 /\ p = 0))
Hundredths(h, mi, s, p) == ((h * 60 + mi) * 60 + s) * 100 + p
DayEnd == 8640000
NextTick(x) == IF x[4] < 99 THEN [x EXCEPT ![4] = @ + 1] ELSE IF x[3] < 59 THEN <<x[1], x[2], x[3] + 1, 0>> ELSE IF x[2] < 59 THEN <<x[1], x[2] + 1, 0, 0>> ELSE <<x[1] + 1, 0, 0, 0>>
(* text *)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n) ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
IsoDate(x) == Pad4(x[1]) \o "-" \o Pad2(x[2]) \o "-" \o Pad2(x[3])
IsoTime(x) == Pad2(x[1]) \o ":" \o Pad2(x[2]) \o ":" \o Pad2(x[3]) \o "." \o Pad2(x[4])

VARIABLES date, n, time, t
vars == <<date, n, time, t>>
Init == date = <<1, 1, 1>> /\ n = 1 /\ time = <<0, 0, 0, 0>> /\ t = 0
Day == date[1] <= LastYear /\ t = 0 /\ date' = NextDay(date) /\ n' = n + 1 /\ UNCHANGED <<time, t>>
Tick == n = 1 /\ t < LastTick /\ time' = NextTick(time) /\ t' = t + 1 /\ UNCHANGED <<date, n>>
Next == Day \/ Tick
Spec == Init /\ [][Next]_vars
(* counting and closed form agree, so the day number is a bijection; each day has the form of a date, and no other does *)
DayOk == n = DayNumber(date[1], date[2], date[3]) /\ IsDate(date[1], date[2], date[3])
TimeOk == t = Hundredths(time[1], time[2], time[3], time[4]) /\ IsTime(time[1], time[2], time[3], time[4])
CycleOk == DayNumber(401, 1, 1) = DayNumber(1, 1, 1) + 146097
=============================================================================
