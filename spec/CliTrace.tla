------------------------------ MODULE CliTrace ------------------------------
(* Judges runs of the real command line tool.                                *)
(*   args   how it was started                                               *)
(*   line   a line of its output: cls "live:ok" "live:bad" "die:ok" "die:bad"*)
(*          "err" "warn" "event", or "?" for what is not one event as JSON;  *)
(*          ours: it names the watched path                                  *)
(*   help   the whole help was written to its output or error output         *)
(*   noise  something else was                                               *)
(*   alive  it was seen running, having slept so long (of the virtual time)  *)
(*   input  it was given a line, or the end of its input                     *)
(*   slept  how long it was there: at least, and at most                     *)
(*   exit   it ended, with a code (-1: by a signal); late: it had to be ended*)
EXTENDS CliArgs, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, a, live, die, nev, helped, input, slept, res
vars == <<tid, i, a, live, die, nev, helped, input, slept, res>>
Ev == Traces[tid].ev[i]

Init == /\ tid \in 1 .. Len(Traces) /\ i = 1 /\ res = "run"
        /\ a = [help |-> "", path |-> "", unit |-> "", n |-> 0]
        /\ live = "" /\ die = "" /\ nev = 0 /\ helped = {} /\ input = FALSE
        /\ slept = [ls |-> 0, lns |-> 0, ms |-> 0, mns |-> 0]

Say(what, why) == PrintT("@@" \o ToJson([r |-> what, id |-> Traces[tid].id, i |-> i, why |-> why]))
Reject(why) == Say("REJECT", why) /\ res' = "rej" /\ UNCHANGED <<tid, i, a, live, die, nev, helped, input, slept>>

K == Kind(a.help, a.path)

LineWhy(e) ==
  IF K # "watch" THEN "output-unasked"
  ELSE IF e.cls = "?" THEN "output-not-json"
  ELSE IF die # "" THEN "output-after-die"
  ELSE IF live = "" /\ e.cls \notin {"live:ok", "live:bad"} THEN "output-before-live"
  ELSE IF live # "" /\ e.cls \in {"live:ok", "live:bad"} THEN "live-again"
  ELSE IF e.cls \in {"live:ok", "live:bad", "die:ok", "die:bad"} /\ ~e.ours THEN "wrong-path"
  ELSE IF e.cls = "die:ok" /\ live # "live:ok" THEN "die-untrue"
  ELSE ""

Less(s1, n1, s2, n2) == s1 < s2 \/ (s1 = s2 /\ n1 < n2)

EndWhy(c) ==
  IF K = "help" THEN (IF helped # {"stdout"} THEN "help-not-shown" ELSE IF c # 0 THEN "help-code" ELSE "")
  ELSE IF K = "usage" THEN (IF helped # {"stderr"} THEN "usage-not-shown" ELSE IF c <= 0 THEN "usage-code" ELSE "")
  ELSE IF helped # {} THEN "help-unasked"
  ELSE IF c < 0 THEN "killed"
  ELSE IF live = "" \/ die = "" THEN "unbracketed"
  ELSE IF (c = 0) # (live = "live:ok" /\ die = "die:ok") THEN "code"
  ELSE IF a.unit = "" THEN (IF ~input THEN "ended-early" ELSE "")
  ELSE LET w == Long(a.unit, a.n)
       IN IF w.s < 0 THEN (IF slept.ms < MaxInt THEN "ended-early" ELSE "")
          ELSE IF Less(slept.ms, slept.mns, w.s, w.ns) THEN "ended-early"
          ELSE IF Less(w.s + 1, w.ns, slept.ls, slept.lns) THEN "ended-late"
          ELSE ""

(* It had to be stopped: *)
LateWhy == IF K # "watch" THEN "stays" ELSE IF a.unit = "" THEN (IF input THEN "stays" ELSE "") ELSE "stays"

Step ==
  CASE Ev.k = "args" -> a' = [help |-> Ev.help, path |-> Ev.path, unit |-> Ev.unit, n |-> Ev.n] /\ i' = i + 1
                        /\ UNCHANGED <<tid, live, die, nev, helped, input, slept, res>>
    [] Ev.k = "line" -> IF LineWhy(Ev) # "" THEN Reject(LineWhy(Ev))
                        ELSE /\ live' = IF Ev.cls \in {"live:ok", "live:bad"} THEN Ev.cls ELSE live
                             /\ die' = IF Ev.cls \in {"die:ok", "die:bad"} THEN Ev.cls ELSE die
                             /\ nev' = IF Ev.cls = "event" THEN nev + 1 ELSE nev
                             /\ i' = i + 1 /\ UNCHANGED <<tid, a, helped, input, slept, res>>
    [] Ev.k = "help" -> helped' = helped \cup {Ev.where} /\ i' = i + 1 /\ UNCHANGED <<tid, a, live, die, nev, input, slept, res>>
    [] Ev.k = "noise" -> IF K = "watch" THEN i' = i + 1 /\ UNCHANGED <<tid, a, live, die, nev, helped, input, slept, res>> ELSE Reject("noise")
    [] Ev.k = "input" -> input' = TRUE /\ i' = i + 1 /\ UNCHANGED <<tid, a, live, die, nev, helped, slept, res>>
    [] Ev.k = "slept" -> slept' = [ls |-> Ev.ls, lns |-> Ev.lns, ms |-> Ev.ms, mns |-> Ev.mns] /\ i' = i + 1
                         /\ UNCHANGED <<tid, a, live, die, nev, helped, input, res>>
    [] Ev.k = "exit" -> IF EndWhy(Ev.code) # "" THEN Reject(EndWhy(Ev.code)) ELSE i' = i + 1 /\ UNCHANGED <<tid, a, live, die, nev, helped, input, slept, res>>
    [] Ev.k = "late" -> IF LateWhy # "" THEN Reject(LateWhy) ELSE i' = i + 1 /\ UNCHANGED <<tid, a, live, die, nev, helped, input, slept, res>>
    [] OTHER -> Reject(Ev.what)

Next == /\ res = "run"
        /\ IF i > Len(Traces[tid].ev) THEN Say("ACCEPT", "") /\ res' = "acc" /\ UNCHANGED <<tid, i, a, live, die, nev, helped, input, slept>>
           ELSE Step
Spec == Init /\ [][Next]_vars
==============================================================================
