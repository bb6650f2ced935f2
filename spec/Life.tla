-------------------------------- MODULE Life --------------------------------
(* What a user of one watcher may see of its life: messages, verdicts, and  *)
(* when callbacks may run. A record per watcher:                            *)
(*   ph     "new" nothing reported, "live" after the live message,          *)
(*          "dead" after the die message                                    *)
(*   liveok, dieok   which kind of message was given                        *)
(*   fatal  messages about a fatal failure so far                           *)
(*   due    the kinds of fatal failure that have occurred and not been told *)
(*   closing a close or destruction has begun;  nclosed closes that returned*)
(*   late   reads since a close request was sent (-1: none was sent)         *)
(*   gone   close or destruction has returned: no callback any more         *)
EXTENDS Integers, Sequences, FiniteSets

NewLife(path, root) ==
  [ph |-> "new", path |-> path, root |-> root, liveok |-> FALSE, dieok |-> FALSE, fatal |-> 0, due |-> {},
   closing |-> FALSE, nclosed |-> 0, late |-> -1, gone |-> FALSE, incb |-> FALSE]

(* Texts by which a fatal failure may be told, per failing facility. *)
FatalText(fac) ==
  CASE fac = "inotify"  -> {"e/sys/api/inotify"}
    [] fac = "epoll"    -> {"e/sys/api/epoll"}
    [] fac = "read"     -> {"e/sys/api/read"}
    [] fac = "eventfd"  -> {"e/sys/api/eventfd", "e/sys/api/epoll"}
    [] fac = "noent"    -> {"e/self/noent"}
    [] OTHER            -> {}

IsDie(m) == m \in {"s/self/die", "e/self/die"}
IsLive(m) == m \in {"s/self/live", "e/self/live"}

(* why a message is not acceptable now; "" if it is. isdir: the watched     *)
(* path is a directory at this moment.                                      *)
MsgWhy(l, m, et, p, isdir) ==
  IF l.gone THEN "after-close"
  ELSE IF l.incb THEN "overlap"
  ELSE IF l.ph = "dead" THEN "after-die"
  ELSE IF l.ph = "new" THEN
       IF ~IsLive(m) THEN "no-live"
       ELSE IF et # "create" THEN "live-effect"
       ELSE IF p # l.path THEN "live-path"
       ELSE IF m = "s/self/live" /\ ~isdir THEN "live-untrue"
       ELSE IF m = "e/self/live" /\ isdir /\ ~l.closing THEN "live-untrue"
       ELSE ""
  ELSE IF IsLive(m) THEN "live-again"
  ELSE IF IsDie(m) THEN
       IF et # "destroy" THEN "die-effect"
       ELSE IF p # l.path THEN "die-path"
       ELSE IF m = "s/self/die" /\ (~l.liveok \/ l.fatal > 0 \/ l.due # {}) THEN "die-untrue"
       ELSE IF m = "e/self/die" /\ l.liveok /\ l.fatal = 0 THEN "die-untrue"
       ELSE IF l.due # {} /\ l.liveok THEN "failure-untold"
       ELSE IF m = "s/self/die" /\ ~l.closing THEN "died-alone"
       ELSE ""
  ELSE IF ~l.liveok THEN "after-failed-live"
  ELSE IF l.fatal > 0 THEN "after-failure"
  ELSE ""

MsgDo(l, m) ==
  IF l.ph = "new" THEN [l EXCEPT !.ph = "live", !.liveok = (m = "s/self/live"), !.incb = TRUE]
  ELSE IF IsDie(m) THEN [l EXCEPT !.ph = "dead", !.dieok = (m = "s/self/die"), !.incb = TRUE]
  ELSE [l EXCEPT !.incb = TRUE]

(* a fatal failure is told *)
FatalWhy(l, m, p, isdir) ==
  IF m = "e/self/noent" /\ ~isdir THEN (IF p # l.path THEN "failure-path" ELSE "") \* it vanished
  ELSE IF l.due = {} THEN "failure-untrue"
  ELSE IF \A f \in l.due : m \notin FatalText(f) THEN "failure-name"
  ELSE IF p # l.path THEN "failure-path"
  ELSE ""
FatalDo(l) == [l EXCEPT !.fatal = @ + 1, !.due = {}]

(* an ordinary event *)
EvWhy(l) ==
  IF l.gone THEN "after-close"
  ELSE IF l.incb THEN "overlap"
  ELSE IF l.ph = "new" THEN "before-live"
  ELSE IF l.ph = "dead" THEN "after-die"
  ELSE IF ~l.liveok THEN "after-failed-live"
  ELSE IF l.fatal > 0 THEN "after-failure"
  ELSE ""

(* Once a request to close was sent, a watcher finishes what it has and     *)
(* stops: it is held at most in the middle of one read and may begin one    *)
(* which the wait had already announced.                                    *)
ReadWhy(l) == IF l.late >= 3 THEN "late-stop" ELSE ""
ReadDo(l) == IF l.late >= 0 THEN [l EXCEPT !.late = @ + 1] ELSE l

Verdict(l) == l.liveok /\ l.dieok

CloseWhy(l, v) ==
  IF l.nclosed = 0
  THEN IF l.ph # "dead" THEN "closed-alive"
       ELSE IF l.incb THEN "closed-in-callback"
       ELSE IF v # Verdict(l) THEN "verdict"
       ELSE ""
  ELSE IF v THEN "verdict-again" ELSE ""
=============================================================================
