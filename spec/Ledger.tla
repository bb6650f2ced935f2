------------------------------- MODULE Ledger -------------------------------
(* What the watchers of one process own: descriptors, directory streams and *)
(* threads. Everything acquired is released exactly once, nothing else is.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i,
  own,    \* descriptors acquired and not released
  dirs,   \* directory streams, likewise
  run,    \* watching threads that run
  alive,  \* watchers that were opened and neither destroyed nor (C interface) closed
  base,   \* counts of descriptors and threads before the first watcher was opened
  nopen,  \* watchers opened so far
  heap,   \* <<blocks on the heap, watchers>> when there was no watcher any more for the first time
  res
vars == <<tid, i, own, dirs, run, alive, base, nopen, heap, res>>
mem == <<nopen, heap>>

Ev == Traces[tid].ev[i]

Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ own = {} /\ dirs = {} /\ run = {} /\ alive = {} /\ base = <<0, 0>> /\ nopen = 0 /\ heap = <<0, 0>> /\ res = "run"

Say(what, why) == PrintT("@@" \o ToJson([r |-> what, id |-> Traces[tid].id, i |-> i, why |-> why]))
Reject(why) == Say("REJECT", why) /\ res' = "rej" /\ UNCHANGED <<tid, i, own, dirs, run, alive, base, nopen, heap>>
On == i' = i + 1 /\ UNCHANGED <<tid, res>>

Acquire == IF Ev.fd \in own THEN Reject("recorded-twice")
           ELSE own' = own \cup {Ev.fd} /\ On /\ UNCHANGED <<dirs, run, alive, base, nopen, heap>>
Release == IF Ev.foreign THEN Reject("foreign-closed")
           ELSE IF ~Ev.ok THEN Reject("closed-twice")
           ELSE own' = own \ {Ev.fd} /\ On /\ UNCHANGED <<dirs, run, alive, base, nopen, heap>>
OpenDir == dirs' = dirs \cup {Ev.fd} /\ On /\ UNCHANGED <<own, run, alive, base, nopen, heap>>
CloseDir == dirs' = dirs \ {Ev.fd} /\ On /\ UNCHANGED <<own, run, alive, base, nopen, heap>>
Begin == run' = run \cup {Ev.w} /\ On /\ UNCHANGED <<own, dirs, alive, base, nopen, heap>>
End == run' = run \ {Ev.w} /\ On /\ UNCHANGED <<own, dirs, alive, base, nopen, heap>>
Open == alive' = alive \cup {Ev.w} /\ nopen' = nopen + 1 /\ On /\ UNCHANGED <<own, dirs, run, base, heap>>
Gone == alive' = alive \ {Ev.w} /\ On /\ UNCHANGED <<own, dirs, run, base, nopen, heap>>
(* what stays is not more for more watchers *)
Grown == Ev.objs - heap[1]

Count ==
  IF base = <<0, 0>> THEN base' = <<Ev.fds, Ev.tasks>> /\ On /\ UNCHANGED <<own, dirs, run, alive, nopen, heap>>
  ELSE IF alive # {} THEN On /\ UNCHANGED <<own, dirs, run, alive, base, nopen, heap>>
  ELSE IF run # {} THEN Reject("thread-leaked")
  ELSE IF own # {} THEN Reject("descriptor-leaked")
  ELSE IF dirs # {} THEN Reject("directory-leaked")
  ELSE IF Ev.fds # base[1] THEN Reject("descriptors-leaked")
  ELSE IF Ev.tasks # base[2] THEN Reject("threads-leaked")
  ELSE IF heap[2] > 0 /\ Grown >= 4 /\ 3 * Grown >= nopen - heap[2] THEN Reject("memory-leaked")
  ELSE heap' = (IF heap[2] = 0 THEN <<Ev.objs, nopen>> ELSE heap) /\ On /\ UNCHANGED <<own, dirs, run, alive, base, nopen>>

Step ==
  CASE Ev.k = "acq" -> Acquire
    [] Ev.k = "rel" -> Release
    [] Ev.k = "opendir" -> OpenDir
    [] Ev.k = "closedir" -> CloseDir
    [] Ev.k = "tstart" -> Begin
    [] Ev.k = "texit" -> End
    [] Ev.k = "open" -> Open
    [] Ev.k = "gone" -> Gone
    [] Ev.k = "snap" -> Count
    [] Ev.k = "bad" -> Reject(Ev.what)

Next ==
  /\ res = "run"
  /\ IF i > Len(Traces[tid].ev)
     THEN Say("ACCEPT", "") /\ res' = "acc" /\ UNCHANGED <<tid, i, own, dirs, run, alive, base, nopen, heap>>
     ELSE Step

Spec == Init /\ [][Next]_vars
=============================================================================
