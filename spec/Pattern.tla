------------------------------- MODULE Pattern -------------------------------
(* The language of encoding patterns: fixed bits, named fields with a number  *)
(* of bits, and named fields with fixed bits, most significant bit first.     *)
(* A text is a sequence of characters. Reading it gives                       *)
(*   [st |-> "ok", items |-> <<[n |-> name or "", f |-> <<0, 1 or Free, ...>>], ...>>] *)
(*   [st |-> "err"] for texts that must be rejected                           *)
(*   [st |-> "any"] for texts the description says nothing about              *)
EXTENDS Integers, Sequences, FiniteSets
Free == 2
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
DigitSet == {Digits[i] : i \in 1..10}
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
Blank == {" ", "\t", "\n"}

Item(n, f) == [n |-> n, f |-> f]
Frees(k) == [i \in 1..k |-> Free]
Start == [m |-> "top", id |-> "", k |-> 0, bs |-> << >>, items |-> << >>]
Emit(s, n, f) == [s EXCEPT !.m = "top", !.id = "", !.k = 0, !.bs = << >>, !.items = Append(@, Item(n, f))]
Stop(s, m) == [s EXCEPT !.m = m]
Flush(s) == IF s.m \in {"id", "aft"} THEN Emit(s, s.id, Frees(1)) ELSE s

Top(s, c) == IF c \in {"0", "1"} THEN Emit(s, "", <<DigitVal(c)>>)
             ELSE IF c \in Letters THEN [s EXCEPT !.m = "id", !.id = c]
             ELSE IF c \in Blank THEN s
             \* nothing is said of a second number of bits
             ELSE Stop(s, IF c = "(" /\ s.items # << >> /\ s.items[Len(s.items)].n # "" THEN "any" ELSE "err")
Read1(s, c) ==
  CASE s.m \in {"err", "any"} -> s
    [] s.m = "top" -> Top(s, c)
    [] s.m = "id" -> (IF c \in Letters \cup DigitSet THEN [s EXCEPT !.id = @ \o c]
                      ELSE IF c = "(" THEN Stop(s, "open")
                      ELSE IF c = "=" THEN Stop(s, "bits")
                      ELSE IF c \in Blank THEN Stop(s, "aft")
                      ELSE Stop(s, "err"))
    [] s.m = "aft" -> (IF c = "(" THEN Stop(s, "open")
                       ELSE IF c \in Blank THEN s
                       ELSE Top(Flush(s), c))
    [] s.m = "open" -> (IF c \in DigitSet THEN [s EXCEPT !.m = "num", !.k = DigitVal(c)]
                        ELSE IF c \in Blank THEN s
                        ELSE Stop(s, IF c = ")" THEN "any" ELSE "err"))
    [] s.m = "num" -> (IF c \in DigitSet THEN [s EXCEPT !.k = IF @ > 99 THEN @ ELSE @ * 10 + DigitVal(c)]
                       ELSE IF c = ")" THEN Emit(s, s.id, Frees(s.k))
                       ELSE IF c \in Blank THEN Stop(s, "close")
                       ELSE Stop(s, "err"))
    [] s.m = "close" -> (IF c = ")" THEN Emit(s, s.id, Frees(s.k))
                         ELSE IF c \in Blank THEN s
                         ELSE Stop(s, "err"))
    [] s.m = "bits" -> (IF c \in {"0", "1"} THEN [s EXCEPT !.bs = Append(@, DigitVal(c))]
                        ELSE IF s.bs = << >> THEN Stop(s, "any")
                        ELSE Top(Emit(s, s.id, s.bs), c))
RECURSIVE ReadAll(_, _)
ReadAll(s, cs) == IF cs = << >> THEN s ELSE ReadAll(Read1(s, Head(cs)), Tail(cs))
Finish(s) == CASE s.m \in {"err", "any", "top"} -> s
               [] s.m \in {"id", "aft"} -> Flush(s)
               [] s.m = "bits" /\ s.bs # << >> -> Emit(s, s.id, s.bs)
               [] OTHER -> Stop(s, "any")
Parse(cs) == LET s == Finish(ReadAll(Start, cs)) IN
             [st |-> IF s.m = "top" THEN "ok" ELSE s.m, items |-> s.items]

RECURSIVE Width(_)
Width(items) == IF items = << >> THEN 0 ELSE Len(Head(items).f) + Width(Tail(items))
Names(items) == {i \in 1..Len(items) : items[i].n # ""}
Plain(items) == /\ \A i \in 1..Len(items) : Len(items[i].f) > 0
                /\ \A i, j \in Names(items) : items[i].n = items[j].n => i = j
\* all bits of a list of items, most significant first
RECURSIVE AllBits(_)
AllBits(items) == IF items = << >> THEN << >> ELSE Head(items).f \o AllBits(Tail(items))
Match(fs, ws) == \A i \in 1..Len(fs) : fs[i] \in {Free, ws[i]}
Weight(fs) == Cardinality({i \in 1..Len(fs) : fs[i] # Free})
\* what each named item delivers: {<<name, bits>>}
FieldsOf(items, ws) == { <<items[i].n, LET at == Width(SubSeq(items, 1, i - 1)) IN SubSeq(ws, at + 1, at + Len(items[i].f))>> : i \in Names(items) }
\* one pattern of N bits
Pattern(cs, N) == LET p == Parse(cs) IN
  IF p.st = "err" THEN p
  ELSE IF p.st = "any" THEN p
  ELSE IF Width(p.items) # N THEN [p EXCEPT !.st = "err"]
  ELSE IF ~Plain(p.items) THEN [p EXCEPT !.st = "any"] ELSE p
=============================================================================
