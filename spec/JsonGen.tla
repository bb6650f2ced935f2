------------------------------ MODULE JsonGen ------------------------------
(* Every text up to a length over characters of every kind that matters;     *)
(* the parser of JsonText must read back what was written, and nothing else. *)
EXTENDS JsonText, TLC, Json
CONSTANTS MaxLen, GEN
VARIABLES s, done
vars == <<s, done>>
Kinds == {"a", "\"", "\\", "/", "u", "{", ":", " ", "U+0001", "U+0008", "U+000A", "U+001F", "U+007F", "U+00E9", "U+2028", "U+FFFF", "U+1F600"}
Init == s \in UNION {[1 .. n -> Kinds] : n \in 0 .. MaxLen} /\ done = FALSE
Next == ~ done /\ done' = TRUE /\ UNCHANGED s /\ (GEN => PrintT("@@" \o ToJson(s)))
Spec == Init /\ [][Next]_vars

Back(t) == Value(t, 1)
RoundTrip == \A all \in BOOLEAN :
  LET r == Back(Encode(s, all)) IN r.ok /\ r.i = Len(Encode(s, all)) + 1 /\ r.v = [t |-> "str", v |-> s]
(* written without care it is read back only if nothing needed care *)
Careless == LET r == Back(Raw(s)) IN
  (r.ok /\ r.i = Len(Raw(s)) + 1 /\ r.v.v = s) <=> (\A k \in DOMAIN s : ~ Must(s[k]))
=============================================================================
