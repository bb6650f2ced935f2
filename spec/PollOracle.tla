----------------------------- MODULE PollOracle -----------------------------
(* What a watcher which polls must tell. It looks at the tree again and     *)
(* again; what it has told must, after each undisturbed look, be what is    *)
(* there. It sees paths, whether each is a directory or a (link to a) file, *)
(* and when a file was last written. Nothing here knows how it looks.       *)
(*                                                                          *)
(* A tree: at (path -> thing), and for each thing its kind ("dir", "file",  *)
(* or "oth", which is not looked for) and its modification time.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyPt == [at |-> (<<>> :> 1), kind |-> <<"dir">>, ver |-> <<0>>]

None == [k |-> "none", v |-> 0]

Starts(p, d) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
Rest(p, d) == SubSeq(p, Len(d) + 1, Len(p))
Up(p) == SubSeq(p, 1, Len(p) - 1)

Has(t, p) == p \in DOMAIN t.at
Kind(t, p) == IF Has(t, p) THEN t.kind[t.at[p]] ELSE "none"
Val(t, p) ==
  LET k == Kind(t, p)
  IN IF k = "dir" THEN [k |-> "dir", v |-> 0]
     ELSE IF k = "file" THEN [k |-> "file", v |-> t.ver[t.at[p]]]
     ELSE None

Move(a, p, q) ==
  LET moved == {x \in DOMAIN a : Starts(x, p)}
      stay == {x \in DOMAIN a : ~Starts(x, p) /\ ~Starts(x, q)}
      dest == {q \o Rest(x, p) : x \in moved}
  IN [y \in stay \cup dest |-> IF y \in stay THEN a[y] ELSE a[p \o Rest(y, q)]]

Swap(a, p, q) ==
  LET To(x) == IF Starts(x, p) THEN q \o Rest(x, p) ELSE IF Starts(x, q) THEN p \o Rest(x, q) ELSE x
      dom == {To(x) : x \in DOMAIN a}
  IN [y \in dom |-> a[To(y)]]

(* mk p kind ver; link p to the thing at q; mod p ver; rm p; mv p q; xch p q *)
PApply(t, op) ==
  CASE op.op = "mk" -> [at |-> t.at @@ (op.p :> (Len(t.kind) + 1)), kind |-> Append(t.kind, op.kind), ver |-> Append(t.ver, op.ver)]
    [] op.op = "link" -> [t EXCEPT !.at = @ @@ (op.p :> t.at[op.q])]
    [] op.op = "mod" -> IF Has(t, op.p) THEN [t EXCEPT !.ver[t.at[op.p]] = op.ver] ELSE t
    [] op.op = "rm" -> [t EXCEPT !.at = [y \in {x \in DOMAIN t.at : ~Starts(x, op.p)} |-> t.at[y]]]
    [] op.op = "mv" -> IF op.p = op.q THEN t ELSE [t EXCEPT !.at = Move(@, op.p, op.q)]
    [] op.op = "xch" -> [t EXCEPT !.at = Swap(@, op.p, op.q)]

(* -------------------------------------------------------------- the oracle *)
(* known  what the user can believe of each path, after what was told:      *)
(*        a set, as of things which change during a look it can not be said *)
(*        in which state they were seen                                     *)
(* range  what each path has been during the present look                   *)
(* look   a look is going on;  first: it is the one which finds out what is *)
(*        there to begin with;  blind: something could not be looked at     *)
(* mayend there was nothing to look at                                      *)
Seen(t, x, p) == IF p = x.root THEN (IF Kind(t, p) = "dir" THEN None ELSE Val(t, p)) ELSE Val(t, p)
In(x, p) == Starts(p, x.root)
Known(x, p) == IF p \in DOMAIN x.known THEN x.known[p] ELSE {None}
Range(t, x, p) == IF p \in DOMAIN x.range THEN x.range[p] ELSE {Seen(t, x, p)}
Nothing == [y \in {} |-> {}]
Put(f, p, v) == (p :> v) @@ f
NoRoot(t, x) == Kind(t, x.root) \notin {"dir", "file"}

PNew(t, root) ==
  LET x == [root |-> root, known |-> Nothing, range |-> Nothing, look |-> TRUE, first |-> TRUE, blind |-> FALSE, mayend |-> FALSE]
  IN [x EXCEPT !.known = [p \in {q \in DOMAIN t.at : Starts(q, root)} |-> {Seen(t, x, p)}], !.mayend = NoRoot(t, x)]

(* The kind may have been seen before a change, the time after it: any time *)
(* may be what is remembered of such a file.                                *)
Torn(s) == s \cup (IF \E a \in s : a.k = "file" THEN {[k |-> "file", v |-> -1]} ELSE {})

POp(t, t2, x, op) ==
  IF ~x.look THEN x
  ELSE LET ch == {p \in DOMAIN t.at \cup DOMAIN t2.at : In(x, p) /\ Seen(t, x, p) # Seen(t2, x, p)}
           range == [p \in DOMAIN x.range \cup ch |-> (IF p \in ch THEN Range(t, x, p) \cup {Seen(t2, x, p)} ELSE x.range[p])]
           known == [p \in DOMAIN x.known \cup ch |-> (IF p \in ch THEN Torn(Known(x, p) \cup {Seen(t2, x, p)}) ELSE x.known[p])]
       IN [x EXCEPT !.range = range, !.known = IF x.first THEN known ELSE @, !.mayend = @ \/ NoRoot(t2, x)]

PBegin(t, x) == IF x.first \/ x.look THEN x ELSE [x EXCEPT !.look = TRUE, !.range = Nothing, !.blind = FALSE, !.mayend = NoRoot(t, x)]

PBlind(x) == [x EXCEPT !.blind = TRUE, !.known = IF x.first THEN [p \in DOMAIN @ |-> @[p] \cup {None}] ELSE @]

(* An event which may be told now: the set of what follows (empty: not).    *)
PTell(t, x, et, pt, p) ==
  LET K == Known(x, p)
      R == Range(t, x, p)
      there == IF Cardinality(R) > 1 THEN Torn({b \in R : b.k = pt}) ELSE R
      is == {b \in R : b.k = pt}
      newer == {b \in there : \E a \in K : a.k = pt /\ (a # b \/ b.v = -1)}
  IN IF ~x.look \/ ~In(x, p) \/ pt \notin {"dir", "file"} THEN {}
     ELSE IF et = "create" /\ None \in K /\ is # {} THEN {[x EXCEPT !.known = Put(@, p, there)]}
     ELSE IF et = "modify" /\ pt = "file" /\ is # {} /\ newer # {} THEN {[x EXCEPT !.known = Put(@, p, newer)]}
     ELSE IF et = "destroy" /\ (\E a \in K : a.k = pt) /\ (\E b \in R : b.k # pt) THEN {[x EXCEPT !.known = Put(@, p, {None})]}
     ELSE {}

(* Neither this path nor what it is in has changed during the look: then    *)
(* all of it was told.                                                      *)
Settled(x, p) == ~x.blind /\ \A d \in DOMAIN x.range : ~Starts(p, d)
Paths_(t, x) == DOMAIN x.known \cup {q \in DOMAIN t.at : In(x, q)}
Told(t, x) == \A p \in Paths_(t, x) : Settled(x, p) => Seen(t, x, p) \in Known(x, p)

PEnd(t, x) ==
  IF ~x.look THEN {x}
  ELSE IF ~Told(t, x) THEN {}
  ELSE {[x EXCEPT !.look = FALSE, !.first = FALSE, !.range = Nothing,
           !.known = [p \in Paths_(t, x) |-> (IF Settled(x, p) THEN {Seen(t, x, p)} ELSE Known(x, p))]]}
=============================================================================
