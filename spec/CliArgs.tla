------------------------------- MODULE CliArgs -------------------------------
(* What the arguments of the command line tool mean, as its help says.       *)
EXTENDS Integers, Sequences

Units == {"-nanoseconds", "-ns", "-microseconds", "-us", "-milliseconds", "-ms", "-seconds", "-s", "-minutes", "-m",
          "-hours", "-h", "-days", "-d", "-weeks", "-w", "-months", "-mts", "-years", "-y"}

Subsec(u) == CASE u \in {"-nanoseconds", "-ns"} -> 1000000000
               [] u \in {"-microseconds", "-us"} -> 1000000
               [] u \in {"-milliseconds", "-ms"} -> 1000
               [] OTHER -> 1
Seconds(u) == CASE u \in {"-seconds", "-s"} -> 1
                [] u \in {"-minutes", "-m"} -> 60
                [] u \in {"-hours", "-h"} -> 3600
                [] u \in {"-days", "-d"} -> 86400
                [] u \in {"-weeks", "-w"} -> 604800
                [] u \in {"-months", "-mts"} -> 2592000
                [] u \in {"-years", "-y"} -> 31536000
                [] OTHER -> 1

MaxInt == 2147483647
(* How long n of a unit is: whole seconds and nanoseconds; -1 seconds is     *)
(* longer than MaxInt seconds.                                               *)
Long(u, n) ==
  IF n < 0 THEN [s |-> -1, ns |-> 0] \* a number too large for this module
  ELSE IF Subsec(u) > 1 THEN [s |-> n \div Subsec(u), ns |-> (n % Subsec(u)) * (1000000000 \div Subsec(u))]
  ELSE IF n > MaxInt \div Seconds(u) THEN [s |-> -1, ns |-> 0]
  ELSE [s |-> n * Seconds(u), ns |-> 0]

Paths == {"none", "dir", "dot", "slash", "relative", "odd", "link", "empty", "missing", "below", "toolong", "loop", "file"}
(* a directory the tool can watch *)
Watchable(p) == p \in {"none", "dir", "dot", "slash", "relative", "odd", "link"}
Helps == {"", "-h", "--help"}

(* What a run of the tool has to be: *)
Kind(help, path) == IF help # "" THEN "help" ELSE IF Watchable(path) \/ path = "file" THEN "watch" ELSE "usage"
==============================================================================
