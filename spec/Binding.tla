------------------------------- MODULE Binding -------------------------------
(* A language binding over the C interface: watch objects of the binding,    *)
(* the C watchers behind them, the events on their way from one to the other *)
(* (a binding may queue them), and everything a caller can do.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  N,        \* watch objects
  MaxCalls, \* calls and emissions
  Bursts,   \* how many events one emission is made of
  Queued,   \* the binding queues events; they arrive when the caller looks (otherwise they arrive at once)
  Hows,     \* ways of ending: "close", "drop", "leave"
  GEN

VARIABLES st, cst, verdict, sent, queue, got, last, ncalls, hist, turn
vars == <<st, cst, verdict, sent, queue, got, last, ncalls, hist, turn>>
View == <<st, cst, verdict, queue, last, ncalls>>
Bs == 1 .. N

Init ==
  /\ st = [b \in Bs |-> "none"]     \* the object: none, open, closed, failed, gone
  /\ cst = [b \in Bs |-> "none"]    \* the C watcher behind it: none, open, closed
  /\ verdict = [b \in Bs |-> TRUE]
  /\ sent = [b \in Bs |-> 0]        \* events the C watcher reported
  /\ queue = [b \in Bs |-> 0]       \* events on their way
  /\ got = [b \in Bs |-> 0]         \* events which arrived
  /\ last = [b \in Bs |-> "none"]   \* what the last ending answered
  /\ ncalls = 0 /\ hist = <<>> /\ turn = "on"

H(c) == hist' = IF GEN THEN Append(hist, c) ELSE hist

Report(b, n) ==
  /\ sent' = [sent EXCEPT ![b] = @ + n]
  /\ IF Queued THEN queue' = [queue EXCEPT ![b] = @ + n] /\ UNCHANGED got
     ELSE got' = [got EXCEPT ![b] = @ + n] /\ UNCHANGED queue

(* n: how many events the C watcher reports while it is being opened. A C     *)
(* watcher which can not be had is null. A path which C can not be given (one *)
(* with a null character in it) is refused and never reaches C.               *)
Open(b) ==
  /\ st[b] = "none" /\ \A c \in Bs : c < b => st[c] # "none"
  /\ \E ok \in BOOLEAN, n \in 0 .. 1, whole \in BOOLEAN :
       /\ ok \/ n = 0
       /\ whole \/ ~ ok
       /\ st' = [st EXCEPT ![b] = IF ok THEN "open" ELSE "failed"]
       /\ cst' = [cst EXCEPT ![b] = IF ok THEN "open" ELSE "none"]
       /\ Report(b, n)
       /\ H([c |-> "open", b |-> b, n |-> n, v |-> ok, how |-> IF whole THEN "" ELSE "nul"])
  /\ UNCHANGED <<verdict, last>>

Emit(b) ==
  /\ cst[b] = "open"
  /\ \E n \in Bursts : Report(b, n) /\ H([c |-> "emit", b |-> b, n |-> n, v |-> TRUE, how |-> ""])
  /\ UNCHANGED <<st, cst, verdict, last>>

(* The C watcher ends with a verdict, reporting n last events meanwhile.      *)
End(b) ==
  /\ st[b] \in {"open", "closed"}
  /\ \E how \in Hows, v \in BOOLEAN, n \in 0 .. 1 :
       /\ st[b] = "closed" => v /\ n = 0
       /\ cst' = [cst EXCEPT ![b] = "closed"]
       /\ verdict' = IF cst[b] = "open" THEN [verdict EXCEPT ![b] = v] ELSE verdict
       /\ IF cst[b] = "open" THEN Report(b, n) ELSE UNCHANGED <<sent, queue, got>>
       /\ st' = [st EXCEPT ![b] = IF how = "drop" THEN "gone" ELSE "closed"]
       /\ last' = [last EXCEPT ![b] = IF how # "close" THEN "none" ELSE IF cst[b] = "open" /\ v THEN "true" ELSE "false"]
       /\ H([c |-> "end", b |-> b, n |-> IF cst[b] = "open" THEN n ELSE 0, v |-> v, how |-> how])

(* the caller looks: everything on its way arrives *)
Look(b) ==
  /\ Queued /\ st[b] \in {"open", "closed"} /\ queue[b] > 0
  /\ got' = [got EXCEPT ![b] = @ + queue[b]]
  /\ queue' = [queue EXCEPT ![b] = 0]
  /\ H([c |-> "look", b |-> b, n |-> 0, v |-> TRUE, how |-> ""])
  /\ UNCHANGED <<st, cst, verdict, sent, last>>

Call ==
  /\ turn = "on" /\ ncalls < MaxCalls
  /\ \E b \in Bs : Open(b) \/ Emit(b) \/ End(b) \/ Look(b)
  /\ ncalls' = ncalls + 1
  /\ UNCHANGED turn

EmitHist ==
  /\ GEN /\ turn = "on" /\ ncalls = MaxCalls
  /\ PrintT("@@" \o ToJson(hist))
  /\ turn' = "done"
  /\ UNCHANGED <<st, cst, verdict, sent, queue, got, last, ncalls, hist>>

Next == Call \/ EmitHist
Spec == Init /\ [][Next]_vars

Conserved == \A b \in Bs : sent[b] = queue[b] + got[b]
Together  == \A b \in Bs : (st[b] = "open" <=> cst[b] = "open") /\ (st[b] = "failed" => cst[b] = "none")
Told      == \A b \in Bs : last[b] = "true" => cst[b] = "closed" /\ verdict[b]
Quiet     == ~ Queued => \A b \in Bs : queue[b] = 0
Final     == [][\A b \in Bs : cst[b] = "closed" => cst'[b] = "closed" /\ sent'[b] = sent[b]]_vars
=============================================================================
