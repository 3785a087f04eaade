------------------------------- MODULE Decode -------------------------------
(* What a word decodes to: the most specific encoding that does not hand over *)
(* to another one ("see"), or "undef", or "unpred".                           *)
EXTENDS Encodings

SpecialRegs == {0,1,2,3,5,6,7,8,9,16,17,18,19,20}
CondNames == <<"eq","ne","cs","cc","mi","pl","vs","vc","hi","ls","ge","lt","gt","le","","">>

\* Register list of a push/pop/ldm/stm as a 16-bit number
RegList(e, f) ==
  CASE e.k = "push"  -> f["r"] + f["M"] * 16384
    [] e.k = "pop"   -> f["r"] + f["P"] * 32768 + (IF e.is32 THEN f["M"] * 16384 ELSE 0)
    [] e.k \in {"push1", "pop1"} -> 2^f["t"]
    [] e.k \in {"stm", "ldm"} -> f["r"]
    [] e.k = "stmw"  -> f["r"] + f["M"] * 16384
    [] e.k = "ldmw"  -> f["r"] + f["M"] * 16384 + f["P"] * 32768
InList(l, n) == (l \div 2^n) % 2 = 1
BadR == {13, 15}

Status(e, f) ==
  CASE e.k = "addspr2" -> IF f["m"] = 13 THEN "see" ELSE "ok"
    [] e.k = "rsbw" -> IF f["d"] \in BadR \/ f["n"] \in BadR THEN "unpred" ELSE "ok"
    [] e.k = "mul3" -> IF f["d"] \in BadR \/ f["n"] \in BadR \/ f["m"] \in BadR THEN "unpred" ELSE "ok"
    [] e.k = "rev"  -> IF e.is32 THEN (IF f["m"] # f["n"] THEN "unpred" ELSE "ok") ELSE "ok"
    [] e.k = "tstw" -> IF f["n"] \in BadR \/ f["m"] \in BadR THEN "unpred" ELSE "ok"
    [] e.k = "lsrw" -> IF f["n"] = 15 THEN "see" ELSE "ok"
    [] e.k = "litw" -> IF f["t"] = 15 THEN "see" ELSE "ok"
    [] e.k = "push" -> IF RegList(e, f) = 0 THEN "unpred" ELSE "ok"
    [] e.k = "push1" -> IF f["t"] \in BadR THEN "unpred" ELSE "ok"
    [] e.k = "pop" -> IF Weight(RegList(e, f)) < e.a \/ RegList(e, f) \div 16384 = 3 THEN "unpred" ELSE "ok"
    [] e.k \in {"stm", "ldm"} -> IF f["r"] = 0 THEN "unpred" ELSE "ok"
    [] e.k = "stmw" -> IF \/ f["n"] = 15 \/ Weight(RegList(e, f)) < 2
                          \/ (f["W"] = 1 /\ InList(RegList(e, f), f["n"])) THEN "unpred" ELSE "ok"
    [] e.k = "ldmw" -> IF f["W"] = 1 /\ f["n"] = 13 THEN "see"
                       ELSE IF \/ f["n"] = 15 \/ Weight(RegList(e, f)) < 2
                               \/ RegList(e, f) \div 16384 = 3
                               \/ (f["W"] = 1 /\ InList(RegList(e, f), f["n"])) THEN "unpred" ELSE "ok"
    [] e.k = "cps" -> IF f["I"] = 0 /\ f["F"] = 0 THEN "unpred" ELSE "ok"
    [] e.k = "mrs" -> IF f["d"] \in BadR \/ f["s"] \notin SpecialRegs THEN "unpred" ELSE "ok"
    [] e.k = "msr" -> IF \/ f["x"] = 0 \/ (f["x"] # 2 /\ f["s"] \notin 0..3)
                         \/ f["n"] \in BadR \/ f["s"] \notin SpecialRegs THEN "unpred" ELSE "ok"
    [] OTHER -> "ok"

Mnem(e, f) ==
  CASE e.k \in {"rsbw", "movw3", "moviw", "mvnw"} -> e.mn \o (IF f["S"] = 1 THEN "s.w" ELSE ".w")
    [] e.k = "bcond" -> "b" \o CondNames[f["c"] + 1]
    [] e.k = "cps" -> IF f["x"] = 0 THEN "cpsie" ELSE "cpsid"
    [] OTHER -> e.mn

Undef  == [st |-> "undef", id |-> 0]
Unpred(i) == [st |-> "unpred", id |-> i]
RECURSIVE Pick(_, _, _)
Pick(cands, h1, h2) ==
  IF cands = << >> THEN Undef
  ELSE LET i == Head(cands)  e == Enc[i]  f == Fields(e, h1, h2)  st == Status(e, f) IN
       CASE st = "see" -> Pick(Tail(cands), h1, h2)
         [] st = "unpred" -> Unpred(i)
         [] OTHER -> [st |-> "ok", id |-> i, e |-> e, f |-> f]

\* decoding the first instruction of a byte sequence of n >= 2 bytes whose first
\* halfwords are h1 and (if n >= 4) h2
DecodeN(h1, h2, n) ==
  IF Is32(h1) THEN (IF n < 4 THEN Undef ELSE Pick(Candidates(h1, h2), h1, h2))
  ELSE Pick(Candidates(h1, 0), h1, 0)
Size(e) == IF e.is32 THEN 4 ELSE 2
=============================================================================
