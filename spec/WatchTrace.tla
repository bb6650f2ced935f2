----------------------------- MODULE WatchTrace -----------------------------
(* Validates traces recorded from the real watcher against the oracles.     *)
(* Each trace is an initial state; a trace that no behaviour of the oracles *)
(* explains ends in a REJECT line naming the first event that cannot be     *)
(* explained, one that is explained to its end in an ACCEPT line.           *)
EXTENDS Oracle, Life, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, t, o, l, refused, res
vars == <<tid, i, t, o, l, refused, res>>

Ev == Traces[tid].ev[i]

Init ==
  /\ tid \in 1 .. Len(Traces)
  /\ i = 1
  /\ t = EmptyFs
  /\ o = <<>>      \* per watcher: set of possible oracle states
  /\ l = <<>>      \* per watcher: life
  /\ refused = {}
  /\ res = "run"

Say(what, why) == PrintT("@@" \o ToJson([r |-> what, id |-> Traces[tid].id, i |-> i, why |-> why]))

Reject(why) == Say("REJECT", why) /\ res' = "rej" /\ UNCHANGED <<tid, i, t, o, l, refused>>

Keep(w, os, why) == \* continue with the oracle states os of watcher w, unless there is none
  IF os = {} THEN Reject(why)
  ELSE o' = [o EXCEPT ![w] = os] /\ i' = i + 1 /\ UNCHANGED <<tid, t, l, refused, res>>

KeepL(w, why, l2) ==
  IF why # "" THEN Reject(why)
  ELSE l' = [l EXCEPT ![w] = l2] /\ i' = i + 1 /\ UNCHANGED <<tid, t, o, refused, res>>

Both(w, why, l2, os, why2) ==
  IF why # "" THEN Reject(why)
  ELSE IF os = {} THEN Reject(why2)
  ELSE l' = [l EXCEPT ![w] = l2] /\ o' = [o EXCEPT ![w] = os] /\ i' = i + 1 /\ UNCHANGED <<tid, t, refused, res>>

Over(w, F(_)) == UNION {F(x) : x \in o[w]}

Pending == [w \in DOMAIN o |->
   LET x == CHOOSE y \in o[w] : TRUE
   IN [k \in 1 .. Len(x.pend) |-> <<x.pend[k].k, x.pend[k].nm, IF x.pend[k].opt THEN "maybe" ELSE "due", x.pend[k].paths>>]]

RootDir(w) == LET x == Look(t, l[w].root) IN x # 0 /\ t.dir[x]

StepOp ==
  LET op == [op |-> Ev.op, p |-> Ev.p, q |-> Ev.q, dir |-> Ev.dir]
  IN /\ o' = [w \in DOMAIN o |-> {OOp(t, x, op, 2 * i) : x \in o[w]}]
     /\ t' = Apply(t, op, 2 * i).t
     /\ i' = i + 1
     /\ UNCHANGED <<tid, l, refused, res>>

StepOpen ==
  LET r == Look(t, Ev.root)
      x == IF r # 0 /\ t.dir[r] THEN NewOracle(t, r) ELSE [NewOracle(t, 1) EXCEPT !.root = 0]
  IN /\ o' = Append(o, {[x EXCEPT !.refuse = refused]})
     /\ l' = Append(l, NewLife(Ev.path, Ev.root))
     /\ i' = i + 1
     /\ UNCHANGED <<tid, t, refused, res>>

EvWhat(e) == e.et \o " " \o e.pt

StepCb ==
  LET w == Ev.w
      why == IF Ev.bad # "" THEN Ev.bad ELSE EvWhy(l[w])
      F(x) == OReport(t, x, Ev)
  IN Both(w, why, [l[w] EXCEPT !.incb = TRUE], Over(w, F), "stream:" \o EvWhat(Ev))

StepMsg ==
  LET w == Ev.w
      m == Ev.m
      why == IF Ev.bad # "" THEN Ev.bad ELSE MsgWhy(l[w], m, Ev.et, Ev.p, RootDir(w))
      fwhy == FatalWhy(l[w], m, Ev.p, RootDir(w) /\ \A x \in o[w] : ~ONothing(t, x))
      F(x) == OWarn(t, x, IF Ev.p = l[w].path THEN l[w].root ELSE Ev.p)
      G(x) == OOverflow(x)
      lw == MsgDo(l[w], m)
  IN IF IsLive(m) \/ IsDie(m) \/ why # "" THEN KeepL(w, why, lw)
     ELSE IF m = "w/sys/not_watched" THEN Both(w, "", lw, Over(w, F), "stream:not_watched")
     ELSE IF m = "w/sys/q_overflow" THEN Both(w, "", lw, Over(w, G), "stream:overflow")
     ELSE IF Ev.cls = "e" THEN KeepL(w, fwhy, FatalDo(lw))
     ELSE Reject("stream:message")

StepFault ==
  LET w == Ev.w
  IN CASE Ev.cls = "fatal" ->
            /\ l' = [l EXCEPT ![w].due = @ \cup {Ev.fac}]
            /\ i' = i + 1 /\ UNCHANGED <<tid, t, o, refused, res>>
       [] Ev.cls = "refuse" ->
            /\ o' = [o EXCEPT ![w] = {ORefuse(t, x, Ev.p) : x \in @}]
            /\ i' = i + 1 /\ UNCHANGED <<tid, t, l, refused, res>>
       [] Ev.cls = "blind" ->
            /\ o' = [o EXCEPT ![w] = {OBlind(t, x, Ev.p) : x \in @}]
            /\ i' = i + 1 /\ UNCHANGED <<tid, t, l, refused, res>>
       [] OTHER -> i' = i + 1 /\ UNCHANGED <<tid, t, o, l, refused, res>>

StepIdle ==
  LET w == Ev.w
      F(x) == OIdle(t, x)
  IN IF l[w].due # {} THEN Reject("failure-untold")
     ELSE IF Over(w, F) = {} /\ \E x \in o[w] : SkipOpt(x.pend)
     THEN Reject(IF \E x \in o[w] : SkipOpt(x.pend) /\ x.loss = <<>> THEN "unwarned" ELSE "loss-untold")
     ELSE Keep(w, Over(w, F), "lost")

Step ==
  CASE Ev.k = "op"    -> StepOp
    [] Ev.k = "open"  -> StepOpen
    [] Ev.k = "cb"    -> StepCb
    [] Ev.k = "msg"   -> StepMsg
    [] Ev.k = "cbend" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.incb = FALSE])
    [] Ev.k = "batch" -> Both(Ev.w, ReadWhy(l[Ev.w]), ReadDo(l[Ev.w]), UNION {OBatch(t, x, Ev.split, Ev.ovf) : x \in o[Ev.w]}, "loss-untold")
    [] Ev.k = "request" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.late = IF @ < 0 THEN 0 ELSE @])
    [] Ev.k = "weave" -> Keep(Ev.w, {OWeave(x, Ev.m) : x \in o[Ev.w]}, "")
    [] Ev.k = "ready" ->
         IF RootDir(Ev.w) /\ \A x \in o[Ev.w] : ONothing(t, x) /\ x.still = DirsBelow(t, x.root)
         THEN Reject("failure-untold") \* it waits, with nothing to wait for
         ELSE Keep(Ev.w, {OReady(t, x) : x \in o[Ev.w]}, "")
    [] Ev.k = "idle"  -> StepIdle
    [] Ev.k = "fault" -> StepFault
    [] Ev.k = "close" -> KeepL(Ev.w, "", [l[Ev.w] EXCEPT !.closing = TRUE])
    [] Ev.k = "closed" -> KeepL(Ev.w, CloseWhy(l[Ev.w], Ev.v), [l[Ev.w] EXCEPT !.nclosed = @ + 1, !.gone = TRUE])
    [] Ev.k = "destroyed" ->
         KeepL(Ev.w, IF l[Ev.w].ph # "dead" \/ l[Ev.w].incb THEN "destroyed-alive" ELSE "", [l[Ev.w] EXCEPT !.gone = TRUE])
    [] Ev.k = "ended" -> \* the watching thread ended by itself
         KeepL(Ev.w, IF l[Ev.w].ph # "dead" THEN "ended-silently" ELSE IF l[Ev.w].liveok /\ l[Ev.w].dieok /\ ~l[Ev.w].closing THEN "died-alone" ELSE "", l[Ev.w])
    [] Ev.k = "bad"   -> Reject(Ev.what)
    [] Ev.k = "nop"   -> i' = i + 1 /\ UNCHANGED <<tid, t, o, l, refused, res>>

Next ==
  /\ res = "run"
  /\ IF i > Len(Traces[tid].ev)
     THEN Say("ACCEPT", "") /\ res' = "acc" /\ UNCHANGED <<tid, i, t, o, l, refused>>
     ELSE Step

Spec == Init /\ [][Next]_vars
=============================================================================
