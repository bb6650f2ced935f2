-------------------------------- MODULE Poll --------------------------------
(* A watcher which polls: the tree, what the watcher remembers (its bucket),*)
(* and its steps - finding out what is there to begin with, pruning, walking*)
(* - one look at one path at a time, so that the tree may change between    *)
(* any two of them. Checked against PollOracle, which knows none of this.   *)
(* With GEN, behaviours are printed as scripts for the real code.           *)
EXTENDS PollOracle, Json

CONSTANTS
  Names, Depth, MaxOps, MaxPre, Kinds, Outside,
  Gran,       \* "scan": changes between the looks; "step": and during them
  MaxScans,
  Closing,    \* whether it is closed, at any moment
  RootGoes,   \* whether the watched directory itself may go
  GEN

VARIABLES t, bucket, pc, todo, cur, x, ok, n, npre, scans, hist, cl, late, dead
vars == <<t, bucket, pc, todo, cur, x, ok, n, npre, scans, hist, cl, late, dead>>
View == <<t, bucket, pc, todo, cur, x, ok, n, npre, scans, cl, late, dead>>

H(c) == hist' = IF GEN THEN Append(hist, c) ELSE hist

Root == <<"r">>
T0 == [at |-> (<<>> :> 1) @@ (Root :> 2) @@ (<<"o">> :> 3), kind |-> <<"dir", "dir", "dir">>, ver |-> <<0, 0, 0>>]

RECURSIVE PathsTo(_)
PathsTo(k) == IF k = 0 THEN {<<>>} ELSE PathsTo(k - 1) \cup {Append(p, a) : p \in PathsTo(k - 1), a \in Names}
Tops == IF Outside THEN {"r", "o"} ELSE {"r"}
Paths == {<<top>> \o p : top \in Tops, p \in (PathsTo(Depth) \ {<<>>})}

Leaf(p) == \A y \in DOMAIN t.at : ~(Starts(y, p) /\ y # p)
Free(p) == ~Has(t, p) /\ Kind(t, Up(p)) = "dir"
Fits(p, q) == \A y \in DOMAIN t.at : Starts(y, p) => Len(q) + Len(y) - Len(p) <= Depth + 1
MvOk(p, q) == ~Starts(q, p) /\ (Free(q) \/ (Has(t, q) /\ (Kind(t, p) = "dir") = (Kind(t, q) = "dir") /\ Leaf(q))) /\ Fits(p, q)
XchOk(p, q) == Has(t, q) /\ ~Starts(q, p) /\ ~Starts(p, q) /\ Fits(p, q) /\ Fits(q, p)

Op(o, p, q, k) == [op |-> o, p |-> p, q |-> q, kind |-> k, ver |-> n + npre + 1]
OpsOf(k) ==
  CASE k = "mkd" -> {Op("mk", p, <<>>, "dir") : p \in {y \in Paths : Free(y)}}
    [] k = "mkf" -> {Op("mk", p, <<>>, "file") : p \in {y \in Paths : Free(y)}}
    [] k = "mko" -> {Op("mk", p, <<>>, "oth") : p \in {y \in Paths : Free(y)}}
    [] k = "mod" -> {Op("mod", p, <<>>, "") : p \in {y \in Paths : Kind(t, y) = "file"}}
    [] k = "rm"  -> {Op("rm", p, <<>>, "") : p \in {y \in Paths : Has(t, y) /\ Leaf(y)}}
    [] k = "mv"  -> {Op("mv", p, q, "") : p \in {y \in Paths : Has(t, y)}, q \in Paths}
    [] k = "xch" -> {Op("xch", p, q, "") : p \in {y \in Paths : Has(t, y)}, q \in Paths}
Good(op) == CASE op.op = "mv" -> MvOk(op.p, op.q) [] op.op = "xch" -> XchOk(op.p, op.q) [] OTHER -> TRUE
RootOps == IF ~RootGoes THEN {}
           ELSE IF Has(t, Root) THEN {Op("mv", Root, <<"o", "gone">>, "")} \ (IF Has(t, <<"o", "gone">>) THEN {Op("mv", Root, <<"o", "gone">>, "")} ELSE {})
           ELSE {Op("mv", <<"o", "gone">>, Root, "")}

DoOp(op) ==
  LET t2 == PApply(t, op)
  IN /\ t' = t2
     /\ x' = IF pc = "closed" THEN x ELSE POp(t, t2, x, op)
     /\ H([c |-> "op", op |-> op.op, p |-> op.p, q |-> op.q, kind |-> IF op.op = "rm" THEN Kind(t, op.p) ELSE op.kind])
     /\ UNCHANGED <<bucket, pc, todo, cur, ok, scans, cl, late, dead>>

MayOp == pc = "closed" \/ (~dead /\ cl # "asked" /\ (pc = "rest" \/ Gran = "step"))
Change ==
  /\ MayOp
  /\ IF pc = "closed" THEN npre < MaxPre /\ npre' = npre + 1 /\ n' = n ELSE n < MaxOps /\ n' = n + 1 /\ npre' = npre
  /\ \E k \in Kinds : \E op \in OpsOf(k) : Good(op) /\ DoOp(op)
ChangeRoot ==
  /\ MayOp /\ pc # "closed" /\ n < MaxOps /\ n' = n + 1 /\ npre' = npre
  /\ \E op \in RootOps : DoOp(op)

Children(d) == IF Kind(t, d) = "dir" THEN {y \in DOMAIN t.at : Starts(y, d) /\ Len(y) = Len(d) + 1} ELSE {}

Tell(et, pt, p) == \* the events told in this step: at most one
  LET r == PTell(t, x, et, pt, p)
  IN IF r = {} THEN ok' = FALSE /\ x' = x ELSE ok' = ok /\ x' = CHOOSE y \in r : TRUE

Step(c) == IF Gran = "step" THEN H([c |-> c]) ELSE hist' = hist
Same == UNCHANGED <<t, n, npre, cl, late>>

Open ==
  /\ pc = "closed"
  /\ pc' = "pop" /\ x' = PNew(t, Root) /\ todo' = Children(Root) /\ bucket' = <<>> /\ cur' = <<>>
  /\ dead' = FALSE
  /\ H([c |-> "open"])
  /\ UNCHANGED <<t, ok, n, npre, scans, cl, late>>

After(p) == (todo \ {p}) \cup Children(p)

Pop ==
  /\ pc = "pop" /\ ~dead
  /\ IF todo = {}
     THEN pc' = "walk" /\ todo' = Children(Root) /\ UNCHANGED bucket
     ELSE \E p \in todo :
            /\ bucket' = IF Val(t, p) = None THEN bucket ELSE Put(bucket, p, Val(t, p))
            /\ todo' = After(p)
            /\ pc' = pc
  /\ Step("step")
  /\ Same /\ UNCHANGED <<cur, x, ok, scans, dead>>

(* Prune: what is no longer what it was.                                    *)
Prune ==
  /\ pc = "prune"
  /\ IF todo = {}
     THEN IF NoRoot(t, x)
          THEN pc' = "over" /\ dead' = TRUE /\ ok' = (ok /\ x.mayend /\ Told(t, x)) /\ UNCHANGED <<todo, bucket, x>>
          ELSE pc' = "walk" /\ todo' = Children(Root) /\ UNCHANGED <<bucket, x, ok, dead>>
     ELSE \E p \in todo :
            /\ todo' = todo \ {p}
            /\ pc' = pc /\ dead' = dead
            /\ IF Val(t, p).k = bucket[p].k THEN UNCHANGED <<bucket, x, ok>>
               ELSE bucket' = [y \in DOMAIN bucket \ {p} |-> bucket[y]] /\ Tell("destroy", bucket[p].k, p)
  /\ Step("step")
  /\ Same /\ UNCHANGED <<cur, scans>>

(* Walk: the kind first, then the modification time.                        *)
Look1 ==
  /\ pc = "walk" /\ cur = <<>> /\ todo # {}
  /\ \E p \in todo :
       /\ cur' = <<p, Val(t, p).k>>
       /\ todo' = After(p)
  /\ hist' = hist
  /\ Same /\ UNCHANGED <<pc, bucket, x, ok, scans, dead>>
Look2 ==
  /\ pc = "walk" /\ cur # <<>>
  /\ cur' = <<>>
  /\ LET p == cur[1]
         k == cur[2]
         v == Val(t, p)
     IN IF k = "none" THEN UNCHANGED <<bucket, x, ok>>
        ELSE IF v = None THEN
             IF p \in DOMAIN bucket THEN bucket' = [y \in DOMAIN bucket \ {p} |-> bucket[y]] /\ Tell("destroy", bucket[p].k, p)
             ELSE UNCHANGED <<bucket, x, ok>>
        ELSE IF p \notin DOMAIN bucket THEN bucket' = Put(bucket, p, [k |-> k, v |-> v.v]) /\ Tell("create", k, p)
        ELSE IF k = "file" /\ bucket[p].k = "file" /\ bucket[p].v # v.v
             THEN bucket' = Put(bucket, p, [k |-> k, v |-> v.v]) /\ Tell("modify", k, p)
        ELSE UNCHANGED <<bucket, x, ok>>
  /\ Step("step")
  /\ Same /\ UNCHANGED <<pc, todo, scans, dead>>
Sleep ==
  /\ pc = "walk" /\ cur = <<>> /\ todo = {}
  /\ LET r == PEnd(t, x) IN IF r = {} THEN ok' = FALSE /\ x' = x ELSE ok' = ok /\ x' = CHOOSE y \in r : TRUE
  /\ pc' = "rest" /\ scans' = scans + 1
  /\ H([c |-> "rest"])
  /\ Same /\ UNCHANGED <<todo, bucket, cur, dead>>
Wake ==
  /\ pc = "rest" /\ ~dead
  /\ scans < MaxScans \/ cl = "asked"
  /\ IF cl = "asked"
     THEN pc' = "over" /\ dead' = TRUE /\ UNCHANGED <<todo, x, late>>
     ELSE pc' = "prune" /\ todo' = DOMAIN bucket /\ x' = PBegin(t, x) /\ dead' = dead /\ late' = late
  /\ H([c |-> "scan"])
  /\ UNCHANGED <<t, n, npre, cl, bucket, cur, ok, scans>>

Close ==
  /\ Closing /\ pc # "closed" /\ cl = "no" /\ ~dead
  /\ cl' = "asked"
  /\ H([c |-> "close"])
  /\ UNCHANGED <<t, bucket, pc, todo, cur, x, ok, n, npre, scans, late, dead>>

(* (a watched directory which is not there to begin with is not watched)    *)
Init ==
  /\ t = T0 /\ bucket = <<>> /\ pc = "closed" /\ todo = {} /\ cur = <<>> /\ x = PNew(T0, Root) /\ ok = TRUE
  /\ n = 0 /\ npre = 0 /\ scans = 0 /\ hist = <<>> /\ cl = "no" /\ late = 0 /\ dead = FALSE

Over == dead \/ (pc = "rest" /\ scans >= MaxScans /\ cl = "no" /\ ~Closing)
Finish == GEN /\ Over /\ hist # <<>> /\ PrintT("@@" \o ToJson(hist)) /\ hist' = <<>> /\ pc' = "printed" /\ dead' = TRUE
          /\ UNCHANGED <<t, bucket, todo, cur, x, ok, n, npre, scans, cl, late>>

Next == Change \/ ChangeRoot \/ Open \/ Pop \/ Prune \/ Look1 \/ Look2 \/ Sleep \/ Wake \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

(* Everything told was true, and after each calm look all was told.         *)
Faithful == ok
(* The watcher's own memory and what it told agree when it rests.           *)
Agrees == (pc = "rest" /\ ok) => \A p \in DOMAIN bucket : \E a \in Known(x, p) : a.k = bucket[p].k /\ (a.k = "dir" \/ a.v = bucket[p].v \/ a.v = -1)
(* Asked to close, it looks at nothing anew.                                *)
Stops == [][(cl = "asked" /\ pc = "rest") => pc' \in {"rest", "over", "printed"}]_vars
=============================================================================
