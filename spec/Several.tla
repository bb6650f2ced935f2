------------------------------- MODULE Several -------------------------------
(* Several watchers in one process, on the same, nested and unrelated       *)
(* places of one tree. Each has its own queue of changes, its own thread     *)
(* (waiting, or inside of its callback), its own end. What one of them does  *)
(* is no step of any other: a watcher may be held in its callback, be        *)
(* closed, destroyed or fail while the others go on.                         *)
EXTENDS Fs, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS
  N,        \* watchers
  MaxOps, MaxBatch, MaxEnd,
  GEN

VARIABLES t, at, q, batch, seen, owed, nops, nends, who, hist, turn
vars == <<t, at, q, batch, seen, owed, nops, nends, who, hist, turn>>
View == <<t, at, q, batch, seen, owed, nops, nends>>

H(c) == hist' = IF GEN THEN Append(hist, c) ELSE hist

Ws == 1 .. N
Places == <<<<"r">>, <<"r", "a">>, <<"r">>, <<"o">>, <<"r", "a">>, <<"o">>>>
Place(w) == Places[w]

T0 == [par |-> <<0, 1, 1, 2>>, nm |-> <<"", "r", "o", "a">>, dir |-> <<TRUE, TRUE, TRUE, TRUE>>]

Init ==
  /\ t = T0
  /\ at = [w \in Ws |-> "off"]
  /\ q = [w \in Ws |-> 0] /\ batch = [w \in Ws |-> 0] /\ seen = [w \in Ws |-> 0] /\ owed = [w \in Ws |-> 0]
  /\ nops = 0 /\ nends = 0 /\ who = 0 /\ hist = <<>> /\ turn = IF GEN THEN "choose" ELSE "any"

Dirs == {<<"r">>, <<"o">>, <<"r", "a">>, <<"r", "b">>, <<"r", "a", "c">>, <<"o", "b">>}
Paths == {Append(d, x) : d \in Dirs, x \in {"b", "c", "f"}}
Free(p) == \A w \in Ws : Place(w) # p /\ p # <<"r", "a">>

OpsOf(k) ==
  CASE k = "mkd" -> {[op |-> "mk", p |-> p, q |-> <<>>, dir |-> TRUE] : p \in Paths}
    [] k = "mkf" -> {[op |-> "mk", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "mod" -> {[op |-> "mod", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "rm"  -> {[op |-> "rm", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "mv"  -> {[op |-> "mv", p |-> p, q |-> r, dir |-> FALSE] : p \in Paths, r \in Paths}

Enabled(k) == {op \in OpsOf(k) : CanOp(t, op) /\ Free(op.p) /\ (op.q # <<>> => Free(op.q))}

(* the changes which one watcher is owed for an operation *)
Owed(w, ch) == Cardinality({i \in DOMAIN ch : Under(t, Look(t, Place(w)), ch[i].d)})

Op ==
  /\ nops < MaxOps
  /\ \E k \in {"mkd", "mkf", "mod", "rm", "mv"} :
       /\ turn \in {"any", k}
       /\ \E op \in Enabled(k) :
            LET r == Apply(t, op, nops + 1)
            IN /\ t' = r.t
               /\ q' = [w \in Ws |-> IF at[w] \in {"wait", "cb"} THEN q[w] + Owed(w, r.ch) ELSE q[w]]
               /\ owed' = [w \in Ws |-> IF at[w] \in {"wait", "cb"} THEN owed[w] + Owed(w, r.ch) ELSE owed[w]]
               /\ H([c |-> "op", op |-> op.op, p |-> op.p, q |-> op.q, dir |-> IF op.op = "mk" THEN op.dir ELSE t.dir[Look(t, op.p)], w |-> 0, n |-> 0])
  /\ nops' = nops + 1
  /\ who' = 0
  /\ UNCHANGED <<at, batch, seen, nends>>

W(c, w, n) == H([c |-> c, w |-> w, n |-> n, op |-> "", p |-> Place(w), q |-> <<>>, dir |-> FALSE])

Open(w) ==
  /\ at[w] = "off" /\ \A v \in Ws : v < w => at[v] # "off"
  /\ at' = [at EXCEPT ![w] = "wait"]
  /\ W("open", w, 0)
  /\ UNCHANGED <<t, q, batch, seen, owed, nops, nends>>

Read(w) ==
  /\ at[w] = "wait" /\ q[w] > 0
  /\ \E n \in 1 .. MaxBatch :
       /\ n <= q[w]
       /\ batch' = [batch EXCEPT ![w] = n]
       /\ q' = [q EXCEPT ![w] = @ - n]
       /\ W("read", w, n)
  /\ at' = [at EXCEPT ![w] = "cb"]
  /\ UNCHANGED <<t, seen, owed, nops, nends>>

Cb(w) ==
  /\ at[w] = "cb"
  /\ batch' = [batch EXCEPT ![w] = @ - 1]
  /\ seen' = [seen EXCEPT ![w] = @ + 1]
  /\ at' = [at EXCEPT ![w] = IF batch[w] = 1 THEN "wait" ELSE "cb"]
  /\ W("cb", w, 0)
  /\ UNCHANGED <<t, q, owed, nops, nends>>

(* an end lets the watcher finish what it has read *)
End(w, how) ==
  /\ at[w] \in {"wait", "cb"} /\ nends < MaxEnd
  /\ at' = [at EXCEPT ![w] = "gone"]
  /\ seen' = [seen EXCEPT ![w] = @ + batch[w]]
  /\ batch' = [batch EXCEPT ![w] = 0]
  /\ nends' = nends + 1
  /\ W(how, w, 0)
  /\ UNCHANGED <<t, q, owed, nops>>

Turns == {"mkd", "mkf", "mod", "rm", "mv", "go", "go", "open", "end"}

Next ==
  IF GEN /\ turn = "choose"
  THEN \E k \in Turns :
         /\ k \in {"mkd", "mkf", "mod", "rm", "mv"} => nops < MaxOps /\ Enabled(k) # {}
         /\ k = "go" => \E w \in Ws : at[w] = "cb" \/ (at[w] = "wait" /\ q[w] > 0)
         /\ k = "open" => \E w \in Ws : at[w] = "off"
         /\ k = "end" => nends < MaxEnd /\ \E w \in Ws : at[w] \in {"wait", "cb"}
         /\ turn' = k
         /\ UNCHANGED <<t, at, q, batch, seen, owed, nops, nends, who, hist>>
  ELSE
    /\ \/ Op
       \/ \E w \in Ws :
            /\ who' = w
            /\ \/ turn \in {"any", "open"} /\ Open(w)
               \/ turn \in {"any", "go"} /\ (Read(w) \/ Cb(w))
               \/ turn \in {"any", "end"} /\ \E how \in {"close", "destroy", "break"} : End(w, how)
    /\ turn' = IF GEN THEN "choose" ELSE turn

Emit ==
  /\ GEN /\ turn = "choose" /\ nops = MaxOps /\ (nends = MaxEnd \/ Len(hist) > 50) /\ (\A w \in Ws : at[w] # "off")
  /\ PrintT("@@" \o ToJson(hist))
  /\ turn' = "done"
  /\ UNCHANGED <<t, at, q, batch, seen, owed, nops, nends, who, hist>>

Spec == Init /\ [][Next \/ Emit]_vars

(* every watcher was given exactly what it is owed, less what it still has to read *)
Account == \A w \in Ws : at[w] # "gone" => owed[w] = seen[w] + batch[w] + q[w]
(* a step of one watcher is no step of another *)
Isolated == [][\A w \in Ws : who' \notin {0, w} => at[w] = at'[w] /\ q[w] = q'[w] /\ batch[w] = batch'[w] /\ seen[w] = seen'[w]]_vars
=============================================================================
