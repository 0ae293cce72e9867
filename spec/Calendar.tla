------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The calendar.  Steps of one day from 1970-01-01, a Thursday, define it; *)
(* TLC checks that the closed forms of Dates agree with the steps.         *)
(***************************************************************************)
EXTENDS Dates
CONSTANT Days
VARIABLES day, date, wd
vars == <<day, date, wd>>
CalInit == day = 0 /\ date = [y |-> 1970, m |-> 1, d |-> 1] /\ wd = 4
CalNext ==
  /\ day < Days /\ day' = day + 1 /\ wd' = (wd + 1) % 7
  /\ date' = IF date.d < DaysIn(date.y, date.m) THEN [date EXCEPT !.d = @ + 1]
             ELSE IF date.m < 12 THEN [y |-> date.y, m |-> date.m + 1, d |-> 1]
             ELSE [y |-> date.y + 1, m |-> 1, d |-> 1]
ClosedForms == Date(day) = date /\ Weekday(day) = wd
=============================================================================
