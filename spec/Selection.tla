------------------------------ MODULE Selection ------------------------------
(* Which of a set of registered encodings decodes a word. An encoding is      *)
(* [id, f |-> bits of its pattern, Free where any bit will do]; a set of      *)
(* encodings is a sequence in order of registration.                          *)
EXTENDS Pattern
\* indices of encodings that match, most fixed bits first, then in order of registration
Before(ds, i, j) == LET a == Weight(ds[i].f) b == Weight(ds[j].f) IN a > b \/ (a = b /\ i < j)
RECURSIVE Sorted(_, _)
Sorted(ds, S) == IF S = {} THEN << >>
                 ELSE LET i == CHOOSE x \in S : \A y \in S \ {x} : Before(ds, x, y) IN <<i>> \o Sorted(ds, S \ {i})
Turns(ds, ws) == Sorted(ds, {i \in 1..Len(ds) : Match(ds[i].f, ws)})
\* what happens when they take their turns; does[i] is what encoding i does with the word
RECURSIVE Walk(_, _, _, _)
Walk(ds, order, calls, does) ==
  IF order = << >> THEN [calls |-> calls, st |-> "undef", id |-> 0]
  ELSE LET i == Head(order) c == Append(calls, ds[i].id) IN
       CASE does[i] = "ok" -> [calls |-> c, st |-> "ok", id |-> ds[i].id]
         [] does[i] = "decline" -> Walk(ds, Tail(order), c, does)
         [] OTHER -> [calls |-> c, st |-> does[i], id |-> 0]      \* unpredictable, or any other error
Select(ds, ws, does) == Walk(ds, Turns(ds, ws), << >>, does)
=============================================================================
