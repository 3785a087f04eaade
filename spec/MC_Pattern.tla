------------------------------ MODULE MC_Pattern ------------------------------
(* Patterns of N bits: every list of items, written in every way, is read     *)
(* back; every character of the alphabet after every text keeps the verdict   *)
(* monotone; the items of a pattern divide every word among themselves.       *)
EXTENDS Pattern
CONSTANTS N, MaxText
VARIABLES vKind, vItems, vText
vars == <<vKind, vItems, vText>>
ItemSet == { Item("", <<b>>) : b \in {0, 1} } \cup { Item(n, Frees(k)) : n \in {"a", "B1"}, k \in 1..3 }
             \cup { Item("c", f) : f \in UNION {[1..k -> {0, 1}] : k \in 1..2} }
Chars == <<"0", "1", "2", "3">>
Sp == << << >>, <<" ">>, <<"\t", "\n">> >>
IdChars(n) == IF n = "B1" THEN <<"B", "1">> ELSE <<n>>
RECURSIVE Bits2Chars(_)
Bits2Chars(f) == IF f = << >> THEN << >> ELSE <<Chars[Head(f) + 1]>> \o Bits2Chars(Tail(f))
\* style 1: nothing superfluous; style 2, 3: white space wherever it may be
Text1(it, style) == LET s == Sp[style] IN
  IF it.n = "" THEN Bits2Chars(it.f) \o s
  ELSE IF it.f[1] # Free THEN IdChars(it.n) \o <<"=">> \o Bits2Chars(it.f) \o (IF style = 1 THEN <<" ">> ELSE s)
  ELSE IF Len(it.f) = 1 /\ style = 1 THEN IdChars(it.n) \o <<" ">>
  ELSE IdChars(it.n) \o s \o <<"(">> \o s \o <<Chars[Len(it.f) + 1]>> \o s \o <<")">> \o s
RECURSIVE Write(_, _)
Write(items, style) == IF items = << >> THEN << >> ELSE Text1(Head(items), style) \o Write(Tail(items), style)
Alphabet == {"0", "1", "5", "a", "(", ")", "=", " ", ";"}
Init == \/ vKind = "items" /\ vItems = << >> /\ vText = << >>
        \/ vKind = "text" /\ vItems = << >> /\ vText = << >>
Next == \/ /\ vKind = "items" /\ Width(vItems) < N
           /\ \E it \in ItemSet : Len(it.f) + Width(vItems) <= N /\ vItems' = Append(vItems, it)
           /\ UNCHANGED <<vKind, vText>>
        \/ /\ vKind = "text" /\ Len(vText) < MaxText
           /\ \E c \in Alphabet : vText' = Append(vText, c)
           /\ UNCHANGED <<vKind, vItems>>
Spec == Init /\ [][Next]_vars
Words == [1..N -> {0, 1}]
ItemsInv ==
  /\ \A style \in 1..3 : Parse(Write(vItems, style)) = [st |-> "ok", items |-> vItems]
  /\ (Width(vItems) = N /\ Plain(vItems)) =>
       \A ws \in Words :
         LET fs == AllBits(vItems) F == FieldsOf(vItems, ws) IN
         /\ Cardinality(F) = Cardinality(Names(vItems))
         \* a word is determined by its fields where the pattern does not fix it
         /\ \A w2 \in Words : (Match(fs, ws) /\ Match(fs, w2) /\ FieldsOf(vItems, w2) = F) => w2 = ws
         \* flipping a fixed bit stops the match
         /\ Match(fs, ws) => \A i \in 1..N : (fs[i] # Free) <=> ~Match(fs, [ws EXCEPT ![i] = 1 - @])
TextInv ==
  LET p == Parse(vText) IN
  /\ p.st \in {"ok", "err", "any"}
  /\ ("5" \in {vText[i] : i \in 1..Len(vText)} /\ "a" \notin {vText[i] : i \in 1..Len(vText)}) => p.st # "ok"
  /\ (";" \in {vText[i] : i \in 1..Len(vText)}) => p.st # "ok"
  /\ LET Cnt(c) == Cardinality({i \in 1..Len(vText) : vText[i] = c}) IN
     /\ p.st = "ok" => Cnt("(") = Cnt(")") /\ Cnt("(") + Cnt("=") <= Cardinality(Names(p.items))
     /\ (vText # << >> /\ vText[1] \in {"(", ")", "="}) => p.st = "err"
  /\ (p.st = "ok") => LET q == Write(p.items, 2) IN
        ({p.items[i].n : i \in 1..Len(p.items)} \subseteq {"", "a"} /\ \A i \in 1..Len(p.items) : Len(p.items[i].f) \in 1..3)
          => Parse(q) = p
Inv == IF vKind = "items" THEN ItemsInv ELSE TextInv
=============================================================================
