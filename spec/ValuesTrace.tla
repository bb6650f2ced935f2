----------------------------- MODULE ValuesTrace -----------------------------
(* Judges what the real event type did with a history of Values.tla, and     *)
(* what the parts of events, and numbers, were converted to.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, slot, res
vars == <<tid, i, slot, res>>
Ev == Traces[tid].ev[i]
None == [no |-> TRUE]
V == INSTANCE Values WITH N <- 8, Paths <- {}, Effects <- {}, Types <- {}, Times <- {}, MaxOps <- 0, GEN <- FALSE, nops <- 0, hist <- <<>>, turn <- "on"

Effects == <<"rename", "modify", "create", "destroy", "owner", "other">>
PathTypes == <<"dir", "file", "hard_link", "sym_link", "watcher", "other">>

Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ slot = [s \in 1 .. 8 |-> None] /\ res = "run"
Say(what, why) == PrintT("@@" \o ToJson([r |-> what, id |-> Traces[tid].id, i |-> i, why |-> why]))
Reject(why) == Say("REJECT", why) /\ res' = "rej" /\ UNCHANGED <<tid, i, slot>>
Go(s2) == i' = i + 1 /\ slot' = s2 /\ UNCHANGED <<tid, res>>

Plain(v) == [p |-> v.p, e |-> v.e, k |-> v.k, t |-> v.t, as |-> <<>>]
Step ==
  CASE Ev.o = "new" -> Go([slot EXCEPT ![Ev.s] = Plain(Ev.v)])
    [] Ev.o = "with" -> Go([slot EXCEPT ![Ev.s] = [slot[Ev.a] EXCEPT !.t = Ev.v.t, !.as = <<slot[Ev.b]>>]])
    [] Ev.o = "copy" -> Go([slot EXCEPT ![Ev.s] = slot[Ev.a]])
    [] Ev.o = "drop" -> Go([slot EXCEPT ![Ev.s] = None])
    [] Ev.o = "eq" -> IF Ev.eq # V!Eq(slot[Ev.a], slot[Ev.b]) THEN Reject("comparison of two events")
                      ELSE IF Ev.ne = Ev.eq THEN Reject("two events are both equal and different, or neither")
                      ELSE Go(slot)
    [] Ev.o = "show" -> IF Ev.v # slot[Ev.s] THEN Reject("an event lost its value: " \o ToString(slot[Ev.s])) ELSE Go(slot)
    \* texts of one event's parts, in every string type: each must be the documented one
    [] Ev.o = "effect" -> IF \E x \in Range(Ev.texts) : x # Effects[Ev.v + 1] THEN Reject("name of an effect") ELSE Go(slot)
    [] Ev.o = "type" -> IF \E x \in Range(Ev.texts) : x # PathTypes[Ev.v + 1] THEN Reject("name of a path type") ELSE Go(slot)
    [] Ev.o = "number" -> IF \E x \in Range(Ev.texts) : x # Ev.v THEN Reject("text of a number") ELSE Go(slot)
    [] Ev.o = "path" -> IF \E x \in Range(Ev.texts) : x # Ev.v THEN Reject("text of a path") ELSE Go(slot)
    [] Ev.o = "bad" -> Reject(Ev.what)
    [] OTHER -> Reject("unknown event")
Next ==
  /\ res = "run"
  /\ IF i > Len(Traces[tid].ev) THEN Say("ACCEPT", "") /\ res' = "acc" /\ UNCHANGED <<tid, i, slot>> ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
