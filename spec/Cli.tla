--------------------------------- MODULE Cli ---------------------------------
(* The command line tool: its arguments, what is done to it while it runs,    *)
(* and how it must end. Its behaviours are played to the real tool.           *)
EXTENDS CliArgs, Fs, FiniteSets, TLC, Json, SequencesExt

CONSTANTS
  PathForms, UnitNames, Numbers, HelpForms, \* subsets of what may be given
  MaxOps,
  Faults,    \* what may be refused to it: "" nothing, "start", "later"
  Names,
  GEN

VARIABLES ph, a, t, n, ended, broken, out, code, hist, turn
vars == <<ph, a, t, n, ended, broken, out, code, hist, turn>>

Args == [help : HelpForms, path : PathForms, unit : UnitNames \cup {""}, n : Numbers]
Sane(x) == /\ x.unit = "" => x.n = CHOOSE m \in Numbers : TRUE
           /\ x.path = "none" => x.unit = ""     \* a unit comes after a path
           /\ x.help # "" => x.path = "none"

Dirs == {<<"r">>} \cup {<<"r", d>> : d \in Names}
Places == {<<"r", d>> : d \in Names} \cup {<<"r", d, f>> : d \in Names, f \in Names}
Ops == [op : {"mk"}, p : Places, q : {<<>>}, dir : BOOLEAN] \cup [op : {"mod", "rm"}, p : Places, q : {<<>>}, dir : {FALSE}]
       \cup [op : {"mv"}, p : Places, q : Places, dir : {FALSE}]
Root0 == Add(EmptyFs, 1, "r", TRUE)

Init ==
  /\ ph = "start" /\ t = Root0 /\ n = 0 /\ ended = FALSE /\ broken = "" /\ out = <<>> /\ code = -1
  /\ a \in {x \in Args : Sane(x)}
  /\ hist = <<>> /\ turn = "on"

Say(x) == out' = Append(out, x)
H(x) == hist' = IF GEN THEN Append(hist, x) ELSE hist

Start ==
  /\ ph = "start"
  /\ LET k == Kind(a.help, a.path)
     IN CASE k = "help"  -> Say("help:stdout") /\ ph' = "over" /\ code' = 0 /\ UNCHANGED broken
          [] k = "usage" -> Say("help:stderr") /\ ph' = "over" /\ code' = 1 /\ UNCHANGED broken
          [] OTHER -> \E b \in Faults :
                /\ broken' = b
                /\ a.path = "file" => b = "start" \* no directory
                /\ Say(IF b = "start" THEN "live:bad" ELSE "live:ok")
                /\ ph' = "watch" /\ UNCHANGED code
  /\ H([c |-> "start", op |-> broken', p |-> <<>>, q |-> <<>>, dir |-> FALSE])
  /\ UNCHANGED <<a, t, n, ended>>

Op ==
  /\ ph = "watch" /\ ~ended /\ n < MaxOps /\ broken = ""
  /\ \E o \in Ops : /\ CanOp(t, o)
                    /\ t' = Apply(t, o, n + 1).t
                    /\ H([c |-> "op"] @@ o)
  /\ n' = n + 1
  /\ Say("event")
  /\ UNCHANGED <<ph, a, ended, broken, code>>

(* the given time has passed, or the line or the input has come to its end *)
Elapse == /\ ph = "watch" /\ ~ended /\ a.unit # "" /\ ended' = TRUE
          /\ H([c |-> "elapse", op |-> "", p |-> <<>>, q |-> <<>>, dir |-> FALSE])
          /\ UNCHANGED <<ph, a, t, n, broken, out, code>>
Line == /\ ph = "watch" /\ ~ended /\ a.unit = ""
        /\ \E how \in {"line", "empty", "eof"} : H([c |-> "input", op |-> how, p |-> <<>>, q |-> <<>>, dir |-> FALSE])
        /\ ended' = TRUE
        /\ UNCHANGED <<ph, a, t, n, broken, out, code>>
Exit ==
  /\ ph = "watch" /\ ended
  /\ Say(IF broken # "" THEN "die:bad" ELSE "die:ok")
  /\ code' = IF broken # "" THEN 1 ELSE 0
  /\ ph' = "over"
  /\ UNCHANGED <<a, t, n, ended, broken, hist>>

Emit == /\ GEN /\ turn = "on" /\ ph = "over"
        /\ PrintT("@@" \o ToJson([args |-> a, hist |-> hist]))
        /\ turn' = "done" /\ UNCHANGED <<ph, a, t, n, ended, broken, out, code, hist>>

Next == ((Start \/ Op \/ Elapse \/ Line \/ Exit) /\ UNCHANGED turn) \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Exit /\ UNCHANGED turn)

Verdict == ph = "over" => (code = 0 <=> (out = <<"help:stdout">> \/ (out[1] = "live:ok" /\ out[Len(out)] = "die:ok")))
Bracket == out # <<>> /\ Kind(a.help, a.path) = "watch" =>
             /\ out[1] \in {"live:ok", "live:bad"}
             /\ (ph = "over" <=> out[Len(out)] \in {"die:ok", "die:bad"})
NoWatch == Kind(a.help, a.path) # "watch" => \A i \in DOMAIN out : out[i] \in {"help:stdout", "help:stderr"}
Ends == ended ~> ph = "over"
==============================================================================
