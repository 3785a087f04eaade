----------------------------- MODULE MC_Selection -----------------------------
(* A search tree over the bits that all encodings of a node fix reaches, for  *)
(* every set of encodings and every word, exactly the encodings that match in *)
(* the order in which they take their turns.                                  *)
EXTENDS Selection
CONSTANTS W, MaxDecs
VARIABLES vDecs
Pats == [1..W -> {0, 1, Free}]
Init == vDecs = << >>
Next == Len(vDecs) < MaxDecs /\ \E p \in Pats : vDecs' = Append(vDecs, [id |-> Len(vDecs) + 1, f |-> p])
Spec == Init /\ [][Next]_vDecs
\* the tree: a leaf [mask |-> {}, ds] or a node [mask, kids |-> function of values]
Common(ds) == {b \in 1..W : \A i \in 1..Len(ds) : ds[i].f[b] # Free}
Under(f, mask) == [b \in mask |-> f[b]]
Group(ds, mask, v) == SelectSeq(ds, LAMBDA d : Under(d.f, mask) = v)
RECURSIVE Tree(_)
Tree(ds) ==
  LET c == Common(ds) vs == {Under(ds[i].f, c) : i \in 1..Len(ds)} IN
  IF Len(ds) < 2 \/ c = {} \/ Cardinality(vs) = 1 THEN [mask |-> {}, ds |-> ds, kids |-> << >>]
  ELSE [mask |-> c, ds |-> << >>, kids |-> [v \in vs |-> Tree(Group(ds, c, v))]]
RECURSIVE Find(_, _)
Find(t, ws) == IF t.mask = {} THEN SelectSeq(t.ds, LAMBDA d : Match(d.f, ws))
               ELSE LET v == Under(ws, t.mask) IN IF v \in DOMAIN t.kids THEN Find(t.kids[v], ws) ELSE << >>
ByWeight == LET o == Sorted(vDecs, 1..Len(vDecs)) IN [k \in 1..Len(o) |-> vDecs[o[k]]]
Words == [1..W -> {0, 1}]
Ids(s) == [k \in 1..Len(s) |-> s[k].id]
Inv == vDecs = << >> \/ LET t == Tree(ByWeight) IN
  \A ws \in Words : LET turns == Turns(vDecs, ws) IN
    /\ Ids(Find(t, ws)) = [k \in 1..Len(turns) |-> vDecs[turns[k]].id]
    \* no encoding that takes its turn later fixes more bits; ties keep their order
    /\ \A j, k \in 1..Len(turns) : j < k => Weight(vDecs[turns[j]].f) >= Weight(vDecs[turns[k]].f)
    /\ \A j, k \in 1..Len(turns) : (j < k /\ Weight(vDecs[turns[j]].f) = Weight(vDecs[turns[k]].f)) => turns[j] < turns[k]
    \* an encoding that all words of another one match takes its turn after it
    /\ \A j, k \in 1..Len(turns) :
         LET p == vDecs[turns[j]].f q == vDecs[turns[k]].f IN
         (p # q /\ \A b \in 1..W : q[b] \in {Free, p[b]}) => j < k
    \* a word that no encoding matches is undefined; declining goes on
    /\ Select(vDecs, ws, [i \in 1..Len(vDecs) |-> "ok"]).st = (IF turns = << >> THEN "undef" ELSE "ok")
    /\ LET s == Select(vDecs, ws, [i \in 1..Len(vDecs) |-> "decline"]) IN s.st = "undef" /\ Len(s.calls) = Len(turns)
    /\ LET s == Select(vDecs, ws, [i \in 1..Len(vDecs) |-> IF i = 1 THEN "unpred" ELSE "decline"]) IN
       s.st = (IF Match(vDecs[1].f, ws) THEN "unpred" ELSE "undef")
=============================================================================
