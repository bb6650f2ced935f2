------------------------------- MODULE Handles -------------------------------
(* Handles of the C interface (and of the bindings over it): what a caller   *)
(* may do with them, rightly or wrongly, and which verdict each close owes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  N,         \* handles
  MaxCalls,  \* calls
  Kinds,     \* what may be opened: "ok", "missing", "file", "broken" (opened well, fails later)
  GEN

VARIABLES st, kind, trues, ncalls, hist, turn
vars == <<st, kind, trues, ncalls, hist, turn>>
View == <<st, kind, trues, ncalls>>
Hs == 1 .. N

Init ==
  /\ st = [h \in Hs |-> "none"] /\ kind = [h \in Hs |-> "ok"] /\ trues = [h \in Hs |-> 0]
  /\ ncalls = 0 /\ hist = <<>> /\ turn = "on"

H(c) == hist' = IF GEN THEN Append(hist, c) ELSE hist

Open(h) ==
  /\ st[h] = "none" /\ \A g \in Hs : g < h => st[g] # "none"
  /\ \E k \in Kinds :
       /\ kind' = [kind EXCEPT ![h] = k]
       /\ H([c |-> "open", h |-> h, k |-> k, v |-> FALSE])
  /\ st' = [st EXCEPT ![h] = "open"]
  /\ UNCHANGED trues

(* A handle which is closed stays closed, whatever was opened since. *)
Verdict(h) == st[h] = "open" /\ kind[h] = "ok"
Close(h) ==
  /\ st[h] # "none"
  /\ trues' = [trues EXCEPT ![h] = @ + IF Verdict(h) THEN 1 ELSE 0]
  /\ st' = [st EXCEPT ![h] = "closed"]
  /\ H([c |-> "close", h |-> h, k |-> "", v |-> Verdict(h)])
  /\ UNCHANGED kind

CloseNull == H([c |-> "null", h |-> 0, k |-> "", v |-> FALSE]) /\ UNCHANGED <<st, kind, trues>>

(* something happens in what is watched *)
Event == H([c |-> "event", h |-> 0, k |-> "", v |-> FALSE]) /\ UNCHANGED <<st, kind, trues>>

Call ==
  /\ turn = "on" /\ ncalls < MaxCalls
  /\ \/ \E h \in Hs : Open(h) \/ Close(h)
     \/ CloseNull
     \/ Event
  /\ ncalls' = ncalls + 1
  /\ UNCHANGED turn

Emit ==
  /\ GEN /\ turn = "on" /\ ncalls = MaxCalls
  /\ PrintT("@@" \o ToJson(hist))
  /\ turn' = "done"
  /\ UNCHANGED <<st, kind, trues, ncalls, hist>>

Next == Call \/ Emit
Spec == Init /\ [][Next]_vars

Once == \A h \in Hs : trues[h] <= 1 /\ (trues[h] = 1 => st[h] = "closed" /\ kind[h] = "ok")
Final == [][\A h \in Hs : st[h] = "closed" => st'[h] = "closed" /\ trues'[h] = trues[h]]_vars
=============================================================================
