------------------------------- MODULE BitHeap -------------------------------
(* A heap of bitstring objects and what each public operation does to it.     *)
(* An operation is <<kind, sub, args>>; an argument is                        *)
(*   <<"o", id>> object   <<"n", s, bits>> integer   <<"k", n>> small integer *)
(*   <<"t", bits>> bit text   <<"l", bits>> bit list (most significant first) *)
(*   <<"y", bytes>> byte array   <<"x">> any other object   <<"-">> not given *)
(* Its outcome: [h |-> heap afterwards, exc |-> exceptions allowed ({} = must *)
(* return), res |-> what is returned, any |-> no claim about res]             *)
(*   <<"o", bits>> a new object    <<"same", id>> the object itself           *)
(*   <<"n", s, bits>>, <<"k", n>>, <<"B", b>>, <<"s", text>>, <<"y", bytes>>, *)
(*   <<"l", list>>, <<"-">>, <<"T", <<bits, ...>>>> several values            *)
EXTENDS Bits, TLC

Val(h, a) == CASE a[1] = "o" -> h[a[2]]
               [] a[1] = "t" -> a[2]
               [] a[1] = "n" -> FromInt2(Num2(a[2], a[3]))
               [] a[1] = "l" -> Rev(a[2])
               [] a[1] = "y" -> FromBytes(a[2])
               [] a[1] = "-" -> << >>
IsObj(a) == a[1] = "o"
\* canonical integer: no superfluous sign bits
RECURSIVE TrimTo(_, _, _)
TrimTo(b, s, n) == IF n > 0 /\ b[n] = s THEN TrimTo(b, s, n - 1) ELSE SubSeq(b, 1, n)
Canon(n) == <<"n", n.s, TrimTo(n.b, n.s, Len(n.b))>>
CanonArg(a) == Num2(a[2], a[3])
IsBit(a) == a[2] = 0 /\ Len(TrimTo(a[3], 0, Len(a[3]))) <= 1
Boolean(b) == <<"B", IF b THEN 1 ELSE 0>>

Ret(h, r) == [h |-> h, exc |-> {}, res |-> r, any |-> FALSE]
Free(h) == [h |-> h, exc |-> {}, res |-> << >>, any |-> TRUE]
Fail(h, es) == [h |-> h, exc |-> es, res |-> << >>, any |-> FALSE]
New(h, b) == Ret(h, <<"o", b>>)
Into(h, i, b) == Ret([h EXCEPT ![i] = b], <<"same", i>>)
Assign(h, i, b) == Ret([h EXCEPT ![i] = b], <<"-">>)

\* value of left op right
Binary(h, op, l, r) ==
  CASE op \in {"lsh", "rsh"} -> IF op = "lsh" THEN Lsh(Val(h, l), r[2]) ELSE Rsh(Val(h, l), r[2])
    [] op = "mod" -> Concat(Val(h, l), IF IsObj(l) /\ r[1] = "n" THEN Low2(CanonArg(r), 1) ELSE Val(h, r))
    [] ~IsObj(l) -> BinOpB(op, Val(h, l), Val(h, r))
    [] r[1] = "n" -> BinOp(op, Val(h, l), CanonArg(r))
    [] IsObj(r) -> BinOpB(op, Val(h, l), Val(h, r))
    [] OTHER -> BinOp(op, Val(h, l), UInt(Val(h, r)))
ByZero(h, op, l, r) == op = "floordiv" /\ (IF r[1] = "n" THEN IsZeroI(CanonArg(r)) ELSE ~Any1(Val(h, r)))

Ordering(op, c) == CASE op = "lt" -> c < 0 [] op = "le" -> c <= 0 [] op = "gt" -> c > 0
                     [] op = "ge" -> c >= 0 [] op = "eq" -> c = 0 [] op = "ne" -> c # 0
Opt(a) == IF a[1] = "-" THEN << >> ELSE <<a[2]>>
Shifts == <<"none", "lsl", "lsr", "asr", "ror", "rrx">>

\* operands, indexes and values of a kind that an operation does not take
Foreign(h, kind, sub, a) ==
  \/ kind \in {"bin", "ibin"} /\ (a[1][1] = "x" \/ a[2][1] = "x")
  \/ kind = "new" /\ a[1][1] = "x"
  \/ kind \in {"un", "put"} /\ sub \in {"bit", "slice"} /\ \E j \in 2..Len(a) : a[j][1] = "x"
Rejected(h, kind, sub, a) ==
  \/ kind \in {"bin", "ibin"} /\ sub = "mod" /\ a[1][1] = "o" /\ a[2][1] = "n" /\ ~IsBit(a[2])
  \/ kind = "put" /\ sub = "slice" /\ Len(a) = 5 /\ a[5] # <<"k", 1>>
Apply(h, kind, sub, a) ==
  IF Foreign(h, kind, sub, a) THEN Fail(h, {"TypeError"})
  ELSE IF Rejected(h, kind, sub, a) THEN Fail(h, {"ValueError"})
  ELSE
  LET X == Val(h, a[1])  i == a[1][2] IN
  CASE kind = "new" -> New(h, LET b == Val(h, a[1]) IN
                              IF a[2][1] = "-" THEN b
                              ELSE IF a[1][1] = "n" THEN Low2(CanonArg(a[1]), a[2][2]) ELSE Fit(b, a[2][2]))
    [] kind = "zeros" -> New(h, Zeros(a[1][2]))
    [] kind = "ones" -> New(h, BNot(Zeros(a[1][2])))
    [] kind = "bin" -> IF ByZero(h, sub, a[1], a[2]) THEN Fail(h, {"ZeroDivisionError"})
                       ELSE New(h, Binary(h, sub, a[1], a[2]))
    [] kind = "ibin" -> IF ByZero(h, sub, a[1], a[2]) THEN Fail(h, {"ZeroDivisionError"})
                        ELSE Into(h, i, Binary(h, sub, a[1], a[2]))
    [] kind = "un" -> (CASE sub \in {"invert", "inverted"} -> New(h, BNot(X))
                        [] sub = "reversed" -> New(h, Rev(X))
                        [] sub = "sext" -> IF a[2][2] < Len(X) THEN Fail(h, {"ValueError"}) ELSE New(h, SFit(X, a[2][2]))
                        [] sub = "zext" -> IF a[2][2] < Len(X) THEN Fail(h, {"ValueError"}) ELSE New(h, Fit(X, a[2][2]))
                        [] sub = "iszerobit" -> New(h, <<IF Any1(X) THEN 0 ELSE 1>>)
                        [] sub = "isonesbit" -> New(h, <<IF Any1(BNot(X)) THEN 0 ELSE 1>>)
                        [] sub = "bit" -> New(h, <<At(X, Index(Len(X), a[2][2]))>>)
                        [] sub = "slice" -> New(h, Slice(X, Opt(a[2]), Opt(a[3]), Opt(a[4]))))
    [] kind = "iun" -> (CASE sub = "invert" -> Into(h, i, BNot(X))
                         [] sub = "reverse" -> Into(h, i, Rev(X)))
    [] kind = "put" -> (CASE sub = "value" -> Assign(h, i, Low2(CanonArg(a[2]), Len(X)))
                         [] sub = "width" -> Assign(h, i, Fit(X, a[2][2]))
                         [] sub = "set" -> IF IsObj(a[2]) THEN Assign(h, i, Val(h, a[2])) ELSE Fail(h, {"TypeError"})
                         [] sub = "bit" ->
                              IF a[2][2] >= Len(X) THEN Fail(h, {"IndexError"})
                              ELSE IF IsObj(a[3]) /\ Len(Val(h, a[3])) # 1 THEN Fail(h, {"ValueError"})
                              ELSE Assign(h, i, [X EXCEPT ![Index(Len(X), a[2][2]) + 1] =
                                                   IF IsObj(a[3]) THEN Val(h, a[3])[1] ELSE Low2(CanonArg(a[3]), 1)[1]])
                         [] sub = "slice" -> Assign(h, i, SetSlice(X, Opt(a[2]), Opt(a[3]), Val(h, a[4]))))
    [] kind = "get" -> (CASE sub \in {"value", "unsigned", "int", "index"} -> Ret(h, Canon(UInt(X)))
                         [] sub = "mask" -> Ret(h, Canon(UInt(BNot(Zeros(Len(X))))))
                         [] sub = "signed" -> Ret(h, Canon(Signed(X)))
                         [] sub \in {"len", "width"} -> Ret(h, <<"k", Len(X)>>)
                         [] sub = "count" -> Ret(h, <<"k", BitCount(X)>>)
                         [] sub = "lowest" -> Ret(h, <<"k", Lowest(X)>>)
                         [] sub = "highest" -> Ret(h, <<"k", Highest(X)>>)
                         [] sub = "bitvalue" -> Ret(h, <<"k", At(X, a[2][2])>>)
                         [] sub = "bool" -> Ret(h, Boolean(Any1(X)))
                         [] sub = "iszero" -> Ret(h, Boolean(~Any1(X)))
                         [] sub = "isones" -> Ret(h, Boolean(~Any1(BNot(X))))
                         [] sub = "list" -> Ret(h, <<"l", X>>)
                         [] sub = "bytes" -> Ret(h, <<"y", ToBytes(X)>>)
                         [] sub = "text" -> Ret(h, <<"s", BinText(X)>>)
                         [] sub = "repr" -> Ret(h, <<"s", BaseText(X, 2)>>)
                         [] sub = "base" -> IF a[2][2] \in {2, 8, 10, 16} THEN Ret(h, <<"s", BaseText(X, a[2][2])>>)
                                            ELSE Fail(h, {"ValueError"}))
    [] kind = "cmp" -> IF a[2][1] = "x" \/ a[1][1] = "x"
                       THEN (IF sub \in {"eq", "ne"} THEN Ret(h, Boolean(sub = "ne")) ELSE Fail(h, {"TypeError"}))
                       ELSE IF a[1][1] = "n" THEN Ret(h, Boolean(Ordering(sub, -BCmpI(Val(h, a[2]), CanonArg(a[1])))))
                       ELSE IF a[2][1] = "n" THEN Ret(h, Boolean(Ordering(sub, BCmpI(X, CanonArg(a[2])))))
                       ELSE Ret(h, Boolean(Ordering(sub, BCmp(X, Val(h, a[2])))))
    [] kind = "hash" -> IF X = Val(h, a[2]) THEN Ret(h, Boolean(TRUE)) ELSE Free(h)
    [] kind = "prim" ->
         LET K == a[2][2] IN
         CASE sub = "align" -> Ret(h, <<"T", <<AlignB(X, K)>>>>)
           [] sub = "aligni" -> Ret(h, Canon(Num2(a[1][2], AlignB(Low2(CanonArg(a[1]), Max2(Len(a[1][3]), K)), K))))
           [] sub = "addc" -> LET r == AddCarry(X, Val(h, a[2]), Val(h, a[3])[1]) IN Ret(h, <<"T", <<r.r, <<r.c>>, <<r.v>>>>>>)
           [] sub \in {"lsl_c", "lsr_c", "asr_c", "ror_c"} ->
                LET r == ShiftBC(SubSeq(sub, 1, 3), X, K, 0) IN Ret(h, <<"T", <<r[1], <<r[2]>>>>>>)
           [] sub \in {"lsl", "lsr", "asr", "ror"} -> Ret(h, <<"T", <<ShiftB(sub, X, K, 0)[1]>>>>)
           [] sub \in {"rrx_c", "rrx"} ->
                LET r == ShiftBC("rrx", X, 1, Val(h, a[2])[1]) IN
                Ret(h, <<"T", IF sub = "rrx" THEN <<r[1]>> ELSE <<r[1], <<r[2]>>>>>>)
           [] sub \in {"shift_c", "shift"} ->
                LET r == ShiftB(Shifts[a[4][2] + 1], X, K, Val(h, a[3])[1]) IN
                Ret(h, <<"T", IF sub = "shift" THEN <<r[1]>> ELSE <<r[1], <<r[2]>>>>>>)
           [] sub = "immshift" -> LET r == ImmShift(ToNat(X), ToNat(Val(h, a[2]))) IN Ret(h, <<"P", r[1], r[2]>>)
           [] sub = "expand_c" -> LET r == ExpandImm(X, Val(h, a[2])[1]) IN Ret(h, <<"T", <<r[1], <<r[2]>>>>>>)
           [] sub = "expand" -> Ret(h, <<"T", <<ExpandImm(X, 0)[1]>>>>)
=============================================================================
