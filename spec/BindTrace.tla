------------------------------ MODULE BindTrace ------------------------------
(* Judges recordings of a language binding over a stand-in C library: what   *)
(* Binding.tla demands of every history, on the values which were passed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, bs, cs, cur, res
vars == <<tid, i, bs, cs, cur, res>>
Ev == Traces[tid].ev[i]
Lang == Traces[tid].ev[1].lang   \* the first event names the language

Effects == <<"rename", "modify", "create", "destroy", "owner", "other">>
PathTypes == IF Lang = "node" THEN <<"dir", "file", "hardLink", "symLink", "watcher", "other">>
             ELSE <<"dir", "file", "hard_link", "sym_link", "watcher", "other">>
(* what the user must see of an event of the C interface *)
Seen(v) == [t |-> v.t, p |-> v.p, has |-> v.has, a |-> v.a, e |-> Effects[v.e + 1], k |-> PathTypes[v.k + 1]]

(* bs: binding objects; cs: C watchers (by number); cur: the object a call is being made on *)
Obj == [st |-> "opening", c |-> 0, path |-> "", whole |-> TRUE, pend |-> <<>>, verdict |-> FALSE]
CW == [st |-> "open", b |-> 0, v |-> FALSE]

Init ==
  /\ tid \in 1 .. Len(Traces) /\ i = 2
  /\ bs = <<>> /\ cs = <<>> /\ cur = 0 /\ res = "run"

Say(what, why) == PrintT("@@" \o ToJson([r |-> what, id |-> Traces[tid].id, i |-> i, why |-> why]))
Reject(why) == Say("REJECT", why) /\ res' = "rej" /\ UNCHANGED <<tid, i, bs, cs, cur>>
Go == i' = i + 1 /\ UNCHANGED <<tid, res>>

(* a call on the binding begins *)
StepOpen ==
  bs' = Append(bs, [Obj EXCEPT !.path = Ev.p, !.whole = Ev.whole]) /\ cur' = Len(bs) + 1 /\ UNCHANGED cs /\ Go
(* the C library is asked for a watcher *)
StepCOpen ==
  IF cur = 0 THEN Reject("a C watcher is opened although nobody asked for one")
  ELSE IF bs[cur].st # "opening" \/ bs[cur].c # 0 THEN Reject("a second C watcher is opened for one object")
  ELSE IF ~ bs[cur].whole \/ Ev.p # bs[cur].path THEN Reject("another path is watched than the one which was asked for")
  ELSE /\ cs' = Append(cs, [CW EXCEPT !.b = cur, !.st = IF Ev.ok THEN "open" ELSE "null"])
       /\ bs' = [bs EXCEPT ![cur].c = Len(cs) + 1]
       /\ UNCHANGED cur /\ Go
StepOpened ==
  LET b == Ev.b IN
  IF bs[b].c = 0 /\ (bs[b].whole \/ Ev.ok) THEN Reject("no C watcher was opened")
  ELSE IF bs[b].c = 0 THEN bs' = [bs EXCEPT ![b].st = "failed"] /\ cur' = 0 /\ UNCHANGED cs /\ Go
  ELSE IF Ev.ok # (cs[bs[b].c].st # "null") THEN Reject("opening does not tell whether the C interface opened a watcher")
  ELSE bs' = [bs EXCEPT ![b].st = IF Ev.ok THEN "open" ELSE "failed"] /\ cur' = 0 /\ UNCHANGED cs /\ Go

(* the C watcher reports an event (by its number) *)
StepCEv ==
  LET b == cs[Ev.c].b IN
  bs' = [bs EXCEPT ![b].pend = Append(@, Seen(Ev.v))] /\ UNCHANGED <<cs, cur>> /\ Go
(* the user gets one *)
StepEv ==
  LET b == Ev.b IN
  IF bs[b].pend = <<>> THEN Reject("an event which the C interface did not report, or reported only once")
  ELSE IF Ev.v # Head(bs[b].pend) THEN Reject("an event differs from what the C interface reported: " \o ToString(Head(bs[b].pend)))
  ELSE IF Ev.j # Ev.v THEN Reject("the JSON of an event differs from it")
  ELSE IF Lang = "py" /\ bs[b].st = "closed" THEN Reject("a callback after close")
  ELSE bs' = [bs EXCEPT ![b].pend = Tail(@)] /\ UNCHANGED <<cs, cur>> /\ Go

(* everything reported so far must have arrived *)
StepLooked ==
  IF bs[Ev.b].pend # <<>> THEN Reject("events were lost: " \o ToString(Len(bs[Ev.b].pend)))
  ELSE Go /\ UNCHANGED <<bs, cs, cur>>

StepCClose ==
  IF Ev.c = 0 THEN Go /\ UNCHANGED <<bs, cs, cur>>      \* closing null is harmless
  ELSE IF Ev.c \notin DOMAIN cs THEN Reject("something which is no watcher is closed")
  ELSE IF cs[Ev.c].st # "open" THEN Reject("a watcher is closed twice")
  ELSE cs' = [cs EXCEPT ![Ev.c].st = "closing"] /\ UNCHANGED <<bs, cur>> /\ Go
StepCClosed ==
  IF Ev.c = 0 THEN Go /\ UNCHANGED <<bs, cs, cur>>
  ELSE cs' = [cs EXCEPT ![Ev.c].st = "closed", ![Ev.c].v = Ev.v] /\ UNCHANGED <<bs, cur>> /\ Go

StepEnd == \* of one object: how it ended and what the binding answered
  LET b == Ev.b
      c == bs[b].c
      first == bs[b].st = "open"
      owed == IF first THEN cs[c].v ELSE FALSE
  IN
  IF cs[c].st # "closed" THEN Reject("the watcher still runs after " \o Ev.how)
  ELSE IF Ev.how = "close" /\ Lang # "py" /\ Ev.r # owed THEN Reject("close does not tell the verdict")
  ELSE IF Lang = "py" /\ bs[b].pend # <<>> THEN Reject("events were lost: " \o ToString(Len(bs[b].pend)))
  ELSE bs' = [bs EXCEPT ![b].st = "closed", ![b].pend = IF Ev.how = "drop" THEN <<>> ELSE @] /\ UNCHANGED <<cs, cur>> /\ Go

StepFin ==
  IF \E c \in DOMAIN cs : cs[c].st \in {"open", "closing"} THEN Reject("a watcher was never closed")
  ELSE IF \E b \in DOMAIN bs : bs[b].pend # <<>> THEN Reject("events were lost")
  ELSE Go /\ UNCHANGED <<bs, cs, cur>>

Step ==
  CASE Ev.k = "bopen" -> StepOpen
    [] Ev.k = "copen" -> StepCOpen
    [] Ev.k = "bopened" -> StepOpened
    [] Ev.k = "cev" -> StepCEv
    [] Ev.k = "bev" -> StepEv
    [] Ev.k = "looked" -> StepLooked
    [] Ev.k = "cclose" -> StepCClose
    [] Ev.k = "cclosed" -> StepCClosed
    [] Ev.k = "ended" -> StepEnd
    [] Ev.k = "fin" -> StepFin
    [] Ev.k = "bad" -> Reject(Ev.what)
    [] OTHER -> Reject("unknown event")

Next ==
  /\ res = "run"
  /\ IF i > Len(Traces[tid].ev) THEN Say("ACCEPT", "") /\ res' = "acc" /\ UNCHANGED <<tid, i, bs, cs, cur>>
     ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
