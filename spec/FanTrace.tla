------------------------------ MODULE FanTrace ------------------------------
(* Validates recordings of the watcher on a (simulated) privileged facility *)
(* against the oracle for it and that of a watcher's life.                  *)
EXTENDS FanOracle, Life, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, t, o, l, res
vars == <<tid, i, t, o, l, res>>

Ev == Traces[tid].ev[i]

Init ==
  /\ tid \in 1 .. Len(Traces)
  /\ i = 1 /\ t = EmptyFs /\ o = <<>> /\ l = <<>> /\ res = "run"

Say(what, why) == PrintT("@@" \o ToJson([r |-> what, id |-> Traces[tid].id, i |-> i, why |-> why]))
Reject(why) == Say("REJECT", why) /\ res' = "rej" /\ UNCHANGED <<tid, i, t, o, l>>

Both(w, why, l2, os, why2) ==
  IF why # "" THEN Reject(why)
  ELSE IF os = {} THEN Reject(why2)
  ELSE l' = [l EXCEPT ![w] = l2] /\ o' = [o EXCEPT ![w] = os] /\ i' = i + 1 /\ UNCHANGED <<tid, t, res>>
Keep(w, os, why) == Both(w, "", l[w], os, why)
KeepL(w, why, l2) == Both(w, why, l2, o[w], "")

Over(w, F(_)) == UNION {F(x) : x \in o[w]}
RootDir(w) == LET x == Look(t, l[w].root) IN x # 0 /\ t.dir[x]

StepOp ==
  LET op == [op |-> Ev.op, p |-> Ev.p, q |-> Ev.q, dir |-> Ev.dir]
  IN /\ o' = [w \in DOMAIN o |-> {FOp(t, x, op, 2 * i) : x \in o[w]}]
     /\ t' = Apply(t, op, 2 * i).t
     /\ i' = i + 1
     /\ UNCHANGED <<tid, l, res>>

StepOpen ==
  LET r == Look(t, Ev.root)
  IN /\ o' = Append(o, {IF r # 0 /\ t.dir[r] THEN FNew(t, r) ELSE [FNew(t, 1) EXCEPT !.root = 0]})
     /\ l' = Append(l, NewLife(Ev.path, Ev.root))
     /\ i' = i + 1
     /\ UNCHANGED <<tid, t, res>>

EvWhat(e) == e.et \o " " \o e.pt

StepCb ==
  LET w == Ev.w
      why == IF Ev.bad # "" THEN Ev.bad ELSE EvWhy(l[w])
      F(x) == FReport(t, x, Ev)
  IN Both(w, why, [l[w] EXCEPT !.incb = TRUE], Over(w, F), "stream:" \o EvWhat(Ev))

StepMsg ==
  LET w == Ev.w
      m == Ev.m
      why == IF Ev.bad # "" THEN Ev.bad ELSE MsgWhy(l[w], m, Ev.et, Ev.p, RootDir(w))
      fwhy == FatalWhy(l[w], m, Ev.p, RootDir(w))
      F(x) == FWarn(t, x, IF Ev.p = l[w].path THEN l[w].root ELSE Ev.p)
      lw == MsgDo(l[w], m)
  IN IF IsLive(m) \/ IsDie(m) \/ why # "" THEN KeepL(w, why, lw)
     ELSE IF m = "w/sys/not_watched" THEN Both(w, "", lw, Over(w, F), "stream:not_watched")
     ELSE IF m = "w/sys/q_overflow" THEN Both(w, "", lw, Over(w, FOverflow), "stream:overflow")
     ELSE IF Ev.cls = "w" THEN Both(w, "", lw, Over(w, FBad), "stream:warning")
     ELSE IF Ev.cls = "e" THEN KeepL(w, fwhy, FatalDo(lw))
     ELSE Reject("stream:message")

StepFault ==
  LET w == Ev.w
  IN CASE Ev.cls = "fatal" -> KeepL(w, "", [l[w] EXCEPT !.due = @ \cup {Ev.fac}])
       [] Ev.cls = "refuse" -> Keep(w, {FRefuse(t, x, Ev.p) : x \in o[w]}, "")
       [] Ev.cls = "blind" -> Keep(w, {FBlind(t, x, Ev.p) : x \in o[w]}, "")
       [] OTHER -> i' = i + 1 /\ UNCHANGED <<tid, t, o, l, res>>

StepIdle ==
  LET w == Ev.w
      F(x) == IF x.owed # {} THEN {} ELSE FIdle(t, x)
  IN IF l[w].due # {} THEN Reject("failure-untold")
     ELSE IF \A x \in o[w] : x.owed # {} THEN Reject("unwarned")
     ELSE IF \A x \in o[w] : ~Skippable(x.recs) THEN Reject("lost")
     ELSE Keep(w, Over(w, F), "unwatched")

Step ==
  CASE Ev.k = "op"    -> StepOp
    [] Ev.k = "open"  -> StepOpen
    [] Ev.k = "cb"    -> StepCb
    [] Ev.k = "msg"   -> StepMsg
    [] Ev.k = "cbend" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.incb = FALSE])
    [] Ev.k = "mark"  -> Keep(Ev.w, {FMark(t, x, Ev.p) : x \in o[Ev.w]}, "")
    [] Ev.k = "read"  -> Both(Ev.w, ReadWhy(l[Ev.w]), ReadDo(l[Ev.w]), UNION {FRead(t, x, Ev.recs) : x \in o[Ev.w]}, "lost")
    [] Ev.k = "request" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.late = IF @ < 0 THEN 0 ELSE @])
    [] Ev.k = "ready" -> Keep(Ev.w, UNION {FReady(t, x) : x \in o[Ev.w]}, "unwatched")
    [] Ev.k = "idle"  -> StepIdle
    [] Ev.k = "fault" -> StepFault
    [] Ev.k = "close" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.closing = TRUE])
    [] Ev.k = "closed" -> KeepL(Ev.w, CloseWhy(l[Ev.w], Ev.v), [l[Ev.w] EXCEPT !.nclosed = @ + 1, !.gone = TRUE])
    [] Ev.k = "destroyed" ->
         KeepL(Ev.w, IF l[Ev.w].ph # "dead" \/ l[Ev.w].incb THEN "destroyed-alive" ELSE "", [l[Ev.w] EXCEPT !.gone = TRUE])
    [] Ev.k = "ended" ->
         KeepL(Ev.w, IF l[Ev.w].ph # "dead" THEN "ended-silently" ELSE IF l[Ev.w].liveok /\ l[Ev.w].dieok /\ ~l[Ev.w].closing THEN "died-alone" ELSE "", l[Ev.w])
    [] Ev.k = "bad"   -> Reject(Ev.what)
    [] Ev.k = "nop"   -> i' = i + 1 /\ UNCHANGED <<tid, t, o, l, res>>

Least(os) == CHOOSE x \in os : \A y \in os : Cardinality(x.notes) <= Cardinality(y.notes)
Notes == UNION {Least(o[w]).notes : w \in DOMAIN o}

Next ==
  /\ res = "run"
  /\ IF i > Len(Traces[tid].ev)
     THEN Say("ACCEPT", Notes) /\ res' = "acc" /\ UNCHANGED <<tid, i, t, o, l>>
     ELSE Step

Spec == Init /\ [][Next]_vars
=============================================================================
