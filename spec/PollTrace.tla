------------------------------ MODULE PollTrace ------------------------------
(* Validates recordings of the watcher which polls against PollOracle and   *)
(* Life: every recorded step must be one the specification allows.          *)
EXTENDS PollOracle, Life, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, t, o, l, res
vars == <<tid, i, t, o, l, res>>

Ev == Traces[tid].ev[i]

Init ==
  /\ tid \in 1 .. Len(Traces)
  /\ i = 1 /\ t = EmptyPt /\ o = <<>> /\ l = <<>> /\ res = "run"

Say(what, why) == PrintT("@@" \o ToJson([r |-> what, id |-> Traces[tid].id, i |-> i, why |-> why]))
Reject(why) == Say("REJECT", why) /\ res' = "rej" /\ UNCHANGED <<tid, i, t, o, l>>

Both(w, why, l2, os, why2) ==
  IF why # "" THEN Reject(why)
  ELSE IF os = {} THEN Reject(why2)
  ELSE l' = [l EXCEPT ![w] = l2] /\ o' = [o EXCEPT ![w] = CHOOSE x \in os : TRUE] /\ i' = i + 1 /\ UNCHANGED <<tid, t, res>>
KeepL(w, why, l2) == Both(w, why, l2, {o[w]}, "")
Skip == i' = i + 1 /\ UNCHANGED <<tid, t, o, l, res>>

StepOp ==
  LET t2 == PApply(t, Ev)
  IN /\ t' = t2
     /\ o' = [w \in DOMAIN o |-> POp(t, t2, o[w], Ev)]
     /\ i' = i + 1
     /\ UNCHANGED <<tid, l, res>>

StepOpen ==
  /\ o' = Append(o, PNew(t, Ev.path))
  /\ l' = Append(l, NewLife(Ev.path, Ev.path))
  /\ i' = i + 1
  /\ UNCHANGED <<tid, t, res>>

StepCb ==
  LET w == Ev.w
      why == IF Ev.bad # "" THEN Ev.bad ELSE IF Ev.as THEN "associated" ELSE EvWhy(l[w])
  IN Both(w, why, [l[w] EXCEPT !.incb = TRUE], PTell(t, o[w], Ev.et, Ev.pt, Ev.p), "untrue:" \o Ev.et \o " " \o Ev.pt)

(* It may end by itself when what it watches is gone, and says so then.     *)
StepMsg ==
  LET w == Ev.w
      m == Ev.m
      x == o[w]
      why == IF Ev.bad # "" THEN Ev.bad ELSE MsgWhy(l[w], m, Ev.et, Ev.p, Kind(t, l[w].path) = "dir")
      lw == MsgDo(l[w], m)
  IN IF m = "e/self/die" /\ why = "die-untrue" /\ x.mayend THEN (IF Told(t, x) THEN KeepL(w, "", lw) ELSE Reject("untold"))
     ELSE IF m = "e/self/live" /\ why = "live-untrue" /\ x.mayend THEN KeepL(w, "", lw)
     ELSE IF IsLive(m) \/ IsDie(m) \/ why # "" THEN KeepL(w, why, lw)
     ELSE Reject("message")

StepBegin ==
  LET w == Ev.w
  IN IF l[w].late >= 1 THEN Reject("late-stop")
     ELSE Both(w, "", IF l[w].late >= 0 THEN [l[w] EXCEPT !.late = @ + 1] ELSE l[w], {PBegin(t, o[w])}, "")

Step ==
  CASE Ev.k = "op"    -> StepOp
    [] Ev.k = "open"  -> StepOpen
    [] Ev.k = "cb"    -> StepCb
    [] Ev.k = "msg"   -> StepMsg
    [] Ev.k = "cbend" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.incb = FALSE])
    [] Ev.k = "begin" -> StepBegin
    [] Ev.k = "end"   -> Both(Ev.w, "", l[Ev.w], PEnd(t, o[Ev.w]), "untold")
    [] Ev.k = "fault" -> Both(Ev.w, "", l[Ev.w], {PBlind(o[Ev.w])}, "")
    [] Ev.k = "request" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.late = IF @ < 0 THEN 0 ELSE @])
    [] Ev.k = "idle"  -> IF o[Ev.w].look THEN Reject("looks-still") ELSE Skip
    [] Ev.k = "close" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.closing = TRUE])
    [] Ev.k = "closed" -> KeepL(Ev.w, CloseWhy(l[Ev.w], Ev.v), [l[Ev.w] EXCEPT !.nclosed = @ + 1, !.gone = TRUE])
    [] Ev.k = "destroyed" ->
         KeepL(Ev.w, IF l[Ev.w].ph # "dead" \/ l[Ev.w].incb THEN "destroyed-alive" ELSE "", [l[Ev.w] EXCEPT !.gone = TRUE])
    [] Ev.k = "ended" ->
         KeepL(Ev.w, IF l[Ev.w].ph # "dead" THEN "ended-silently" ELSE IF l[Ev.w].liveok /\ l[Ev.w].dieok /\ ~l[Ev.w].closing THEN "died-alone" ELSE "", l[Ev.w])
    [] Ev.k = "bad"   -> Reject(Ev.what)
    [] Ev.k = "nop"   -> Skip

Next ==
  /\ res = "run"
  /\ IF i > Len(Traces[tid].ev)
     THEN Say("ACCEPT", "") /\ res' = "acc" /\ UNCHANGED <<tid, i, t, o, l>>
     ELSE Step

Spec == Init /\ [][Next]_vars
=============================================================================
