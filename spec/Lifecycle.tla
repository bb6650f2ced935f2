------------------------------ MODULE Lifecycle ------------------------------
(* One watcher's thread, the threads which close or destroy it, the stop     *)
(* request between them (an atomic flag and an event counter) and traffic.   *)
(* Every step of a thread ends where it next meets the system or the user,   *)
(* so a behaviour is a schedule that the driver can impose on the real code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  MaxOps,    \* operations in the watched directory
  MaxQ,      \* records that may be queued
  Endless,   \* traffic never ends (no count of operations is kept)
  MaxClose,  \* close calls, one after another
  MaxInt,    \* interrupted calls
  Dir,       \* the watched path is a directory
  GEN

VARIABLES
  wpc,       \* where the watching thread is
  is,        \* the stop flag: "pending", "released"
  ev,        \* the event counter behind it
  kq,        \* records queued by the system
  batch,     \* records read and not reported
  todo,      \* what the last wait found ready and was not handled
  ok,        \* the watcher's own idea: "pending", "complete"
  pre,       \* it started
  cpc,       \* where the closing thread is
  ncl,       \* closes that returned
  fut,       \* the verdict may still be taken
  out,       \* what the user was told
  ver,       \* verdicts of the closes
  ints,      \* interruptions so far
  n, hist
vars == <<ints, wpc, is, ev, kq, batch, todo, ok, pre, cpc, ncl, fut, out, ver, n, hist>>
View == <<ints, wpc, is, ev, kq, batch, todo, ok, pre, cpc, ncl, fut, out, ver, n>>

H(c) == hist' = IF GEN THEN Append(hist, c) ELSE hist

Init ==
  /\ wpc = "start" /\ is = "pending" /\ ev = 0 /\ kq = 0 /\ batch = 0 /\ todo = <<>>
  /\ ok = "pending" /\ pre = TRUE
  /\ cpc = "none" /\ ncl = 0 /\ fut = TRUE /\ out = <<>> /\ ver = <<>> /\ n = 0 /\ hist = <<>> /\ ints = 0

Tell(x) == out' = IF x = "ev" /\ Len(out) > 0 /\ out[Len(out)] = "ev" THEN out ELSE Append(out, x)

Step == [c |-> "W", order |-> 0, n |-> 0]
WStep == H(Step)

(* ---------------------------------------------------- the watching thread *)
Start == \* the path is looked at, then the stop flag
  /\ wpc = "start"
  /\ IF ~Dir THEN wpc' = "live" /\ pre' = FALSE /\ Tell("e-live")
     ELSE IF is = "pending" THEN wpc' = "live" /\ pre' = TRUE /\ Tell("s-live")
     ELSE wpc' = "evr" /\ UNCHANGED <<pre, out>>
  /\ WStep
  /\ UNCHANGED <<is, ev, kq, batch, todo, ok, cpc, ncl, fut, ver, n>>

ReadStop == \* the flag was raised: the counter confirms it
  /\ wpc = "evr"
  /\ ev' = IF ev > 0 THEN ev - 1 ELSE ev
  /\ is' = IF ev > 0 THEN "released" ELSE "pending"
  /\ pre' = (ev = 0)
  /\ wpc' = "evr2"
  /\ WStep
  /\ UNCHANGED <<kq, batch, todo, ok, cpc, ncl, fut, out, ver, n>>

Live ==
  /\ wpc = "evr2"
  /\ wpc' = "live"
  /\ Tell(IF pre THEN "s-live" ELSE "e-live")
  /\ WStep
  /\ UNCHANGED <<is, ev, kq, batch, todo, ok, pre, cpc, ncl, fut, ver, n>>

Scan ==
  /\ wpc \in {"live", "mark", "mark2", "list"}
  /\ wpc' = CASE wpc = "live" -> IF pre THEN "mark" ELSE "die"
              [] wpc = "mark" -> "mark2"
              [] wpc = "mark2" -> "list"
              [] OTHER -> "wait"
  /\ IF wpc = "live" /\ ~pre THEN Tell("e-die") ELSE out' = out
  /\ WStep
  /\ UNCHANGED <<is, ev, kq, batch, todo, ok, pre, cpc, ncl, fut, ver, n>>

Ready == (IF kq > 0 THEN {"fs"} ELSE {}) \cup (IF ev > 0 THEN {"il"} ELSE {})

(* What comes next when everything found ready up to here was handled. *)
Go(rest, o) ==
  IF o = "complete" THEN wpc' = "die" /\ todo' = <<>> /\ Tell("s-die")
  ELSE IF rest = <<>> THEN wpc' = "wait" /\ todo' = <<>> /\ out' = out
  ELSE IF Head(rest) = "fs" THEN wpc' = "read" /\ todo' = Tail(rest) /\ out' = out
  ELSE wpc' = "die" /\ todo' = <<>> /\ Tell("s-die")

GoOk(rest, o) == ok' = IF o = "pending" /\ rest # <<>> /\ Head(rest) = "il" THEN "complete" ELSE o

Wait ==
  /\ wpc = "wait"
  /\ Ready # {}
  /\ \E s \in SetToSeqs(Ready) :
       /\ Go(s, ok) /\ GoOk(s, ok)
       /\ H([Step EXCEPT !.order = IF s[1] = "il" THEN 1 ELSE 0])
  /\ UNCHANGED <<is, ev, kq, batch, pre, cpc, ncl, fut, ver, n>>

Read ==
  /\ wpc = "read"
  /\ \E k \in 1 .. kq :
       /\ kq' = kq - k
       /\ batch' = k - 1
       /\ H([Step EXCEPT !.n = k])
  /\ wpc' = "cb" /\ Tell("ev")
  /\ UNCHANGED <<is, ev, todo, ok, pre, cpc, ncl, fut, ver, n>>

(* A call ends without having done anything. *)
Interrupted ==
  /\ ints < MaxInt
  /\ ints' = ints + 1
  /\ \/ /\ wpc = "wait"
        /\ \E k \in {"epoll_wait 4", "spurious"} : H([c |-> "I", k |-> k])
        /\ UNCHANGED <<wpc, todo, ok, out>>
     \/ /\ wpc = "read"
        /\ Go(todo, ok) /\ GoOk(todo, ok)
        /\ \E k \in {"read 4", "read 11"} : H([c |-> "I", k |-> k])
  /\ UNCHANGED <<is, ev, kq, batch, pre, cpc, ncl, fut, ver, n>>

Cb ==
  /\ wpc = "cb"
  /\ IF batch > 0
     THEN batch' = batch - 1 /\ Tell("ev") /\ UNCHANGED <<wpc, todo, ok>>
     ELSE batch' = 0 /\ Go(todo, ok) /\ GoOk(todo, ok)
  /\ WStep
  /\ UNCHANGED <<is, ev, kq, pre, cpc, ncl, fut, ver, n>>

Die ==
  /\ wpc \in {"die", "exit"}
  /\ wpc' = IF wpc = "die" THEN "exit" ELSE "done"
  /\ WStep
  /\ UNCHANGED <<is, ev, kq, batch, todo, ok, pre, cpc, ncl, fut, out, ver, n>>

Watcher == Start \/ ReadStop \/ Live \/ Scan \/ Wait \/ Read \/ Cb \/ Die

(* ------------------------------------------------------ the closing thread *)
Close ==
  /\ cpc = "none" /\ ncl < MaxClose
  /\ cpc' = IF is = "released" THEN "join" ELSE "evw"
  /\ H([c |-> "close", k |-> ncl])
  /\ UNCHANGED <<wpc, is, ev, kq, batch, todo, ok, pre, ncl, fut, out, ver, n>>

Closer ==
  /\ CASE cpc = "evw" -> cpc' = "evw2" /\ ev' = ev + 1 /\ UNCHANGED <<is, fut, ver, ncl>>
       [] cpc = "evw2" -> cpc' = "join" /\ is' = "released" /\ UNCHANGED <<ev, fut, ver, ncl>>
       [] cpc = "join" -> /\ fut => wpc = "done"
                          /\ cpc' = "none" /\ ncl' = ncl + 1 /\ fut' = FALSE
                          /\ ver' = Append(ver, fut /\ out[1] = "s-live" /\ out[Len(out)] = "s-die")
                          /\ UNCHANGED <<is, ev>>
       [] OTHER -> FALSE
  /\ H([c |-> "C", k |-> ncl])
  /\ UNCHANGED <<wpc, kq, batch, todo, ok, pre, out, n>>

(* ---------------------------------------------------------------- traffic *)
Op ==
  /\ kq < MaxQ
  /\ Endless \/ n < MaxOps
  /\ n' = IF Endless THEN n ELSE n + 1
  /\ kq' = IF wpc \in {"wait", "read", "cb", "list", "mark2"} THEN kq + 1 ELSE kq
  /\ H([c |-> "E"])
  /\ UNCHANGED <<wpc, is, ev, batch, todo, ok, pre, cpc, ncl, fut, out, ver>>

Emit ==
  /\ GEN /\ wpc = "done" /\ cpc = "none" /\ ncl = MaxClose
  /\ PrintT("@@" \o ToJson(hist))
  /\ wpc' = "printed"
  /\ UNCHANGED <<is, ev, kq, batch, todo, ok, pre, cpc, ncl, fut, out, ver, n, hist>>

Next == ((Watcher \/ Close \/ Closer \/ (wpc # "done" /\ Op) \/ Emit) /\ UNCHANGED ints) \/ Interrupted

Spec == Init /\ [][Next]_vars /\ WF_vars(Watcher /\ UNCHANGED ints) /\ WF_vars(Closer /\ UNCHANGED ints)

(* ------------------------------------------------------------- properties *)
Ended == wpc \in {"done", "exit", "die", "printed"}
Bracketed == \* P01
  /\ Len(out) > 0 => out[1] \in {"s-live", "e-live"}
  /\ \A i \in 2 .. Len(out) : out[i] \notin {"s-live", "e-live"}
  /\ \A i \in 1 .. Len(out) : out[i] \in {"s-die", "e-die"} => i = Len(out)
  /\ Len(out) > 0 /\ out[1] = "e-live" => \A i \in 2 .. Len(out) : out[i] = "e-die"
NoneAfterClose == ncl > 0 => wpc \in {"done", "printed"}                 \* P01
Truth ==                                                    \* P02
  /\ Len(ver) > 0 => (ver[1] <=> out[1] = "s-live" /\ out[Len(out)] = "s-die")
  /\ \A i \in 2 .. Len(ver) : ~ver[i]
Answered == (cpc # "none") ~> (cpc = "none")                 \* P03
FewMore == \* P03: nothing is read after a wait that saw the request
  [][wpc = "wait" /\ ev > 0 /\ wpc' # "wait" => wpc' \in {"die", "read"}]_vars
=============================================================================
