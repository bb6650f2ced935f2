------------------------------- MODULE Values -------------------------------
(* Events as values: making, associating, copying, dropping and comparing    *)
(* them. A slot holds an event or nothing; an event is a record which may    *)
(* have another one inside.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS N, Paths, Effects, Types, Times, MaxOps, GEN

VARIABLES slot, nops, hist, turn
vars == <<slot, nops, hist, turn>>
View == <<slot, nops>>
Ss == 1 .. N
None == [no |-> TRUE]
Is(s) == slot[s] # None

Event(p, e, k, t) == [p |-> p, e |-> e, k |-> k, t |-> t, as |-> <<>>]
Depth(v) == IF v.as = <<>> THEN 0 ELSE 1 + (IF v.as[1].as = <<>> THEN 0 ELSE 1 + Len(v.as[1].as[1].as))

(* two events are equal exactly when all fields are *)
RECURSIVE Eq(_, _)
Eq(a, b) ==
  /\ a.p = b.p /\ a.e = b.e /\ a.k = b.k /\ a.t = b.t
  /\ Len(a.as) = Len(b.as)
  /\ (Len(a.as) = 1 => Eq(a.as[1], b.as[1]))

Init == slot = [s \in Ss |-> None] /\ nops = 0 /\ hist = <<>> /\ turn = "on"
H(c) == hist' = IF GEN THEN Append(hist, c) ELSE hist
Op(o, s, a, b, v) == [o |-> o, s |-> s, a |-> a, b |-> b, v |-> v]
Nothing == [p |-> 0, e |-> 0, k |-> 0, t |-> 0]

New(s) ==
  /\ ~ Is(s)
  /\ \E p \in Paths, e \in Effects, k \in Types, t \in Times :
       /\ slot' = [slot EXCEPT ![s] = Event(p, e, k, t)]
       /\ H(Op("new", s, 0, 0, [p |-> p, e |-> e, k |-> k, t |-> t]))
(* base with an associated event; made at time t; what was associated with base does not matter *)
With(s, a, b) ==
  /\ ~ Is(s) /\ Is(a) /\ Is(b) /\ Depth(slot[b]) < 2
  /\ \E t \in Times :
       /\ slot' = [slot EXCEPT ![s] = [slot[a] EXCEPT !.t = t, !.as = <<slot[b]>>]]
       /\ H(Op("with", s, a, b, [Nothing EXCEPT !.t = t]))
Copy(s, a) ==
  /\ ~ Is(s) /\ Is(a)
  /\ slot' = [slot EXCEPT ![s] = slot[a]]
  /\ H(Op("copy", s, a, 0, Nothing))
Drop(s) ==
  /\ Is(s)
  /\ slot' = [slot EXCEPT ![s] = None]
  /\ H(Op("drop", s, 0, 0, Nothing))
Compare(a, b) ==
  /\ Is(a) /\ Is(b)
  /\ H(Op("eq", 0, a, b, Nothing))
  /\ UNCHANGED slot
Show(s) ==
  /\ Is(s)
  /\ H(Op("show", s, 0, 0, Nothing))
  /\ UNCHANGED slot

Do ==
  /\ turn = "on" /\ nops < MaxOps
  /\ \E s \in Ss : \/ New(s) \/ Drop(s) \/ Show(s)
                   \/ \E a \in Ss : Copy(s, a) \/ Compare(s, a)
                   \/ \E a, b \in Ss : With(s, a, b)
  /\ nops' = nops + 1 /\ UNCHANGED turn
Emit ==
  /\ GEN /\ turn = "on" /\ nops = MaxOps
  /\ PrintT("@@" \o ToJson(hist))
  /\ turn' = "done" /\ UNCHANGED <<slot, nops, hist>>
Next == Do \/ Emit
Spec == Init /\ [][Next]_vars

Full == {s \in Ss : Is(s)}
Reflexive == \A s \in Full : Eq(slot[s], slot[s])
Same      == \A s, r \in Full : Eq(slot[s], slot[r]) <=> slot[s] = slot[r]
Shallow   == \A s \in Full : Depth(slot[s]) <= 3
Alone     == [][Cardinality({s \in Ss : slot[s] # slot'[s]}) <= 1]_vars
=============================================================================
