------------------------------- MODULE Dates -------------------------------
(***************************************************************************)
(* Dates and times as closed forms (Calendar checks them).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                  [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] OTHER -> 31

\* Closed forms, for d days after 1970-01-01; 0 is Sunday.
Weekday(d) == (d + 4) % 7
Date(d) ==
  LET z == d + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]

\* The wall clock s seconds (below a day) past midnight.
Clock(s) == [h |-> s \div 3600, mi |-> (s \div 60) % 60, s |-> s % 60]
=============================================================================
