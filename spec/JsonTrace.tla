------------------------------ MODULE JsonTrace ------------------------------
(* Judges serialized events: each text must be well-formed and decode to the *)
(* event it was made from.                                                   *)
EXTENDS JsonText, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, res
vars == <<tid, i, res>>
T == Traces[tid].ev[i]

(* what an event must read as *)
Effects == <<"rename", "modify", "create", "destroy", "owner", "other">>
PathTypes == <<"dir", "file", "hard_link", "sym_link", "watcher", "other">>
S(v) == [t |-> "str", v |-> v]
Same(x, name) == x.t = "str" /\ Flat(x.v) = name
Keys(o) == {o.v[k][1] : k \in DOMAIN o.v}
Get(o, n) == o.v[CHOOSE k \in DOMAIN o.v : o.v[k][1] = n][2]
Base(o, e) == \* the members which every form has
  /\ Same(Get(o, "effect_type"), Effects[e.e + 1])
  /\ Same(Get(o, "path_type"), PathTypes[e.k + 1])
  /\ Get(o, "path_name") = S(e.p)
Has(o, names) == o.t = "obj" /\ Keys(o) = names
Inner == {"effect_type", "path_name", "path_type"}
(* the string conversion: "time":{...} *)
AsMember(m, e) ==
  LET o == m.v[2] IN
  /\ m.v[1] = e.t
  /\ Has(o, IF e.as = <<>> THEN Inner ELSE Inner \cup {"associated"})
  /\ Base(o, e)
  /\ e.as # <<>> => Has(Get(o, "associated"), Inner) /\ Base(Get(o, "associated"), e.as[1])
(* a line of the command line tool *)
RECURSIVE AsObject(_, _)
AsObject(o, e) ==
  /\ Has(o, Inner \cup {"effect_time", "associated"})
  /\ Base(o, e)
  /\ Get(o, "effect_time").t = "num" /\ Flat(Get(o, "effect_time").v) = e.t
  /\ IF e.as = <<>> THEN Get(o, "associated").t = "null" ELSE AsObject(Get(o, "associated"), e.as[1])

Judge(x) ==
  IF x.form = "bad" THEN x.what
  ELSE IF x.form = "member" THEN
    LET m == Member(x.text, 1) IN
    IF ~ m.ok \/ Ws(x.text, m.i) <= Len(x.text) THEN "not a well-formed member"
    ELSE IF m.v[2].t # "obj" \/ ~ AsMember(m, x.event) THEN "decodes to another event" ELSE ""
  ELSE
    LET m == Value(x.text, 1) IN
    IF ~ m.ok \/ Ws(x.text, m.i) <= Len(x.text) THEN "not well-formed"
    ELSE IF m.v.t # "obj" \/ ~ AsObject(m.v, x.event) THEN "decodes to another event" ELSE ""

Init == tid \in 1 .. Len(Traces) /\ i = 1 /\ res = "run"
Say(what, why) == PrintT("@@" \o ToJson([r |-> what, id |-> Traces[tid].id, i |-> i, why |-> why]))
Next ==
  /\ res = "run" /\ UNCHANGED tid
  /\ IF i > Len(Traces[tid].ev) THEN Say("ACCEPT", "") /\ res' = "acc" /\ UNCHANGED i
     ELSE LET w == Judge(T) IN
          IF w # "" THEN Say("REJECT", w) /\ res' = "rej" /\ UNCHANGED i
          ELSE i' = i + 1 /\ UNCHANGED res
Spec == Init /\ [][Next]_vars
=============================================================================
