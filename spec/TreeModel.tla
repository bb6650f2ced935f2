------------------------------ MODULE TreeModel ------------------------------
(* A watcher on a file tree: the tree, the system's queue of change records,*)
(* the watcher's scan of the tree, its map of watched directories and its   *)
(* delivery of records in batches - checked against the Oracle, which knows *)
(* none of this. With GEN, behaviours are printed as scripts which replay   *)
(* them on the real code.                                                   *)
EXTENDS Oracle, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS
  Names,      \* entry names
  Depth,      \* depth of paths below r and o
  MaxOps,     \* operations after the watcher was opened
  MaxPre,     \* operations before
  Kinds,      \* kinds of operations: subset of {"mkd","mkf","mod","rm","mv","xch"}
  Outside,    \* operations outside of the watched tree, too
  Gran,       \* "batch": operations only while the watcher waits; "walk": also between steps of its scans;
              \* "cb": also while its callback runs
  Startup,    \* operations only until the watcher has started
  MaxBatch,   \* records per read
  MaxRefuse,  \* paths which the system refuses to watch or to list
  MaxLoss,    \* announcements of losses by the system
  MaxWeave,   \* operations whose records come between the two of a rename
  GEN         \* print behaviours

VARIABLES nloss, nwv, t, kq, wt, dm, buf, walk, after, rmq, pc, os, n, npre, opened, hist, turn,
          refuse,     \* those paths: [k |-> "mark" or "list", p |-> path]
          left,       \* a directory whose departure was reported last: <<path, cookie>>, or <<>>
          incb        \* the callback for the last record is still running (Gran = "cb")
vars == <<nloss, nwv, t, kq, wt, dm, buf, walk, after, rmq, pc, os, n, npre, opened, hist, turn, incb, left, refuse>>
View == <<nloss, nwv, t, kq, wt, dm, buf, walk, after, rmq, pc, os, n, npre, opened, turn, incb, left, refuse>>

H(c) == hist' = IF GEN THEN Append(hist, c) ELSE hist

Root == 2
T0 == [par |-> <<0, 1, 1>>, nm |-> <<"", "r", "o">>, dir |-> <<TRUE, TRUE, TRUE>>]

RECURSIVE PathsTo(_)
PathsTo(k) == IF k = 0 THEN {<<>>} ELSE PathsTo(k - 1) \cup {Append(p, x) : p \in PathsTo(k - 1), x \in Names}
Tops == IF Outside THEN {"r", "o"} ELSE {"r"}
Paths == {<<top>> \o p : top \in Tops, p \in (PathsTo(Depth) \ {<<>>})}

OpsOf(k) ==
  CASE k = "mkd" -> {[op |-> "mk", p |-> p, q |-> <<>>, dir |-> TRUE] : p \in Paths}
    [] k = "mkf" -> {[op |-> "mk", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "mod" -> {[op |-> "mod", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "rm"  -> {[op |-> "rm", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "mv"  -> {[op |-> "mv", p |-> p, q |-> q, dir |-> FALSE] : p \in Paths, q \in Paths}
    [] k = "xch" -> {[op |-> "xch", p |-> p, q |-> q, dir |-> FALSE] : p \in Paths, q \in Paths}

(* An exchange of a directory of the tree with one outside cannot be told   *)
(* from its records: a name comes before it goes. See DESIGN.md.            *)
Crossing(op) == op.op = "xch" /\ op.p[1] # op.q[1] /\ (t.dir[Look(t, op.p)] \/ t.dir[Look(t, op.q)])

(* What happens in a directory which is not watched is not told, renames of *)
(* directories neither: paths below are not judged then.                    *)
Hidden(op) ==
  /\ op.op \in {"mv", "xch"} /\ MaxRefuse > 0
  /\ \E r \in refuse, p \in {op.p, op.q} :
       /\ Len(r.p) <= Len(p) /\ SubSeq(p, 1, Len(r.p)) = r.p
       /\ ~(op.op = "mv" /\ p = op.p /\ r.p = p)

Enabled(k) == {op \in OpsOf(k) : CanOp(t, op) /\ ~Crossing(op) /\ ~Hidden(op)}

MayRefuse == [k : {"mark", "list"}, p : {<<"r">> \o q : q \in PathsTo(Depth)}]
Refusals == UNION {kSubset(k, MayRefuse) : k \in 0 .. MaxRefuse}
Refused(k, p) == [k |-> k, p |-> p] \in refuse

(* -------------------------------------------------------------- the system *)
Rec(d, k, nm, dir, ck) == [d |-> d, k |-> k, nm |-> nm, dir |-> dir, ck |-> ck]

Enq(q, r) == IF q # <<>> /\ [q[Len(q)] EXCEPT !.ck = r.ck] = r THEN q ELSE Append(q, r)

RECURSIVE EnqAll(_, _, _)
EnqAll(q, w, ch) ==
  IF ch = <<>> THEN q
  ELSE LET c == Head(ch)
           q1 == IF c.d \in w THEN Enq(q, Rec(c.d, c.k, c.nm, c.dir, c.ck)) ELSE q
           q2 == IF c.k = "to" /\ c.dir /\ c.x \in w THEN Append(q1, Rec(c.x, "mself", "", TRUE, 0)) ELSE q1
       IN EnqAll(q2, w, Tail(ch))

Died(op, ch) == \* watched directories which an operation removes
  LET y == IF op.op = "mv" THEN Look(t, op.q) ELSE IF op.op = "rm" THEN Look(t, op.p) ELSE 0
  IN IF y \in wt THEN {y} ELSE {}

(* The system tells of a rename in two records, while it holds the entries  *)
(* of both directories. What happens elsewhere (or is written to a file)    *)
(* meanwhile might be told between the two. Only one rename at a time is    *)
(* from one directory to another.                                           *)
Tells(r) == r.k \in {"mk", "rm", "mod", "from", "to"}
LastTo(q) ==
  LET vis == {j \in 1 .. Len(q) : Tells(q[j])}
      j == IF vis = {} THEN 0 ELSE Max(vis)
  IN IF j > 1 /\ q[j].k = "to" /\ q[j - 1].k = "from" /\ q[j - 1].ck = q[j].ck THEN j ELSE 0

AtOnce(q, j, ch) ==
  LET held == {q[j - 1].d, q[j].d}
      across(c) == \E i \in 1 .. Len(c) : c[i].k = "from" /\ c[i + 1].d # c[i].d
  IN /\ \A i \in 1 .. Len(ch) : ch[i].k = "mod" \/ ch[i].d \notin held
     /\ ~(q[j - 1].d # q[j].d /\ across(ch))

Weaves(q, q2, ch, os2) == \* how many of the records of an operation may come before
  LET j == LastTo(q)
      new == SubSeq(q2, Len(q) + 1, Len(q2))
      vis == SelectSeq(new, Tells)
      ok == /\ nwv < MaxWeave /\ opened /\ j > 0 /\ ch # <<>> /\ Len(vis) = Len(ch)
            /\ SubSeq(q2, 1, Len(q)) = q /\ SubSeq(new, 1, Len(vis)) = vis
            /\ AtOnce(q, j, ch)
            /\ \A x \in os2 : /\ x.fresh = Len(ch)
                               /\ LET u == Underway(x.pend, x.fresh) IN u > 0 /\ x.pend[u].ck = q[j].ck
                               /\ OnlyDue(SubSeq(x.pend, Len(x.pend) - x.fresh + 1, Len(x.pend)))
  IN {0} \cup (IF ok THEN {1, Len(ch)} ELSE {})

Woven(q, q2, m) ==
  IF m = 0 THEN q2
  ELSE LET j == LastTo(q) IN SubSeq(q2, 1, j - 1) \o SubSeq(q2, Len(q) + 1, Len(q) + m) \o SubSeq(q2, j, Len(q)) \o SubSeq(q2, Len(q) + m + 1, Len(q2))

DoOp(op) ==
  LET ck == 2 * (n + npre + 1)
      r == Apply(t, op, ck)
      dead == Died(op, r.ch)
      q1 == EnqAll(kq, wt, r.ch)
      q2 == IF dead = {} THEN q1
            ELSE LET y == CHOOSE y \in dead : TRUE
                 IN q1 \o <<Rec(y, "dself", "", TRUE, 0), Rec(y, "ign", "", TRUE, 0)>>
      os2 == IF opened THEN {OOp(t, x, op, ck) : x \in os} ELSE os
  IN \E m \in Weaves(kq, q2, r.ch, os2) :
     /\ t' = r.t
     /\ kq' = Woven(kq, q2, m)
     /\ wt' = wt \ dead
     /\ os' = IF m = 0 THEN os2 ELSE {OWeave(x, m) : x \in os2}
     /\ nwv' = IF m = 0 THEN nwv ELSE nwv + 1
     /\ H([c |-> "op", op |-> op.op, p |-> op.p, q |-> op.q, dir |-> IF op.op = "mk" THEN op.dir ELSE t.dir[Look(t, op.p)], wv |-> m])
     /\ UNCHANGED <<dm, buf, walk, after, rmq, pc, opened, incb, left, refuse>>

MayOp ==
  \/ ~opened
  \/ pc = "wait" /\ after = "none" /\ ~Startup
  \/ Gran = "walk" /\ walk # <<>> /\ (Startup => after = "start")
  \/ Gran = "cb" /\ pc = "batch" /\ after = "none" /\ incb

Op ==
  /\ MayOp
  /\ IF opened THEN n < MaxOps ELSE npre < MaxPre
  /\ turn # "dlv"
  /\ \E k \in Kinds :
       /\ turn \in {"any", k}
       /\ \E op \in Enabled(k) : DoOp(op)
  /\ n' = IF opened THEN n + 1 ELSE n
  /\ npre' = IF opened THEN npre ELSE npre + 1
  /\ turn' = IF GEN THEN "choose" ELSE turn

(* ------------------------------------------------------------- the watcher *)
Open ==
  /\ ~opened
  /\ turn \in {"any", "dlv"}
  /\ opened' = TRUE
  /\ os' = {NewOracle(t, Root)}
  /\ walk' = <<[k |-> "mark", p |-> <<"r">>]>>
  /\ after' = "start"
  /\ pc' = "scan"
  /\ H([c |-> "open"])
  /\ turn' = IF GEN THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, wt, dm, buf, rmq, n, npre, incb, left, refuse>>

Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

IsDirAt(p) == LET x == Look(t, p) IN x # 0 /\ t.dir[x]

WarnIn(s, p) == UNION {OWarn(t, x, p) : x \in s}
Warn(p) == UNION {OWarn(t, x, p) : x \in os}

SubDirs(x) == SetToSortSeq({y \in Nodes(t) : t.par[y] = x /\ t.dir[y]}, <)

(* One step of a scan: mark one directory, or list one. *)
WalkStep ==
  /\ walk # <<>>
  /\ turn \in {"any", "dlv"}
  /\ LET s == Head(walk)
         x == Look(t, s.p)
         isd == x # 0 /\ t.dir[x]
     IN IF s.k = "mark"
        THEN /\ walk' = <<[k |-> "list", p |-> s.p]>> \o Tail(walk)
             /\ IF isd /\ ~Refused("mark", s.p)
                THEN wt' = wt \cup {x} /\ dm' = Set(dm, x, s.p) /\ os' = os
                ELSE os' = (IF isd THEN WarnIn({ORefuse(t, y, s.p) : y \in os}, s.p) ELSE Warn(s.p)) /\ UNCHANGED <<wt, dm>>
        ELSE LET blind == isd /\ Refused("list", s.p)
             IN /\ walk' = (IF isd /\ ~blind THEN [i \in 1 .. Len(SubDirs(x)) |-> [k |-> "mark", p |-> Append(s.p, t.nm[SubDirs(x)[i]])]] ELSE <<>>)
                           \o Tail(walk)
                /\ os' = IF ~blind THEN os
                         ELSE LET os1 == {OBlind(t, y, s.p) : y \in os} IN IF x \in wt THEN WarnIn(os1, s.p) ELSE os1
                /\ UNCHANGED <<wt, dm>>
  /\ H([c |-> "walk"])
  /\ turn' = IF GEN /\ Gran = "walk" /\ walk' # <<>> THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, buf, after, rmq, pc, n, npre, opened, incb, left, refuse>>

Idled(s) == IF kq = <<>> THEN UNION {OIdle(t, x) : x \in s} ELSE s

Started ==
  /\ walk = <<>> /\ after = "start"
  /\ after' = "none"
  /\ pc' = IF dm = <<>> THEN "dead" ELSE "wait" \* nothing can be watched: it tells so and ends
  /\ os' = IF dm = <<>> THEN {x \in os : ONothing(t, x) \/ ~IsDirAt(<<"r">>)} ELSE Idled({OReady(t, x) : x \in os})
  /\ turn' = IF GEN THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, wt, dm, buf, walk, rmq, n, npre, opened, hist, incb, left, refuse>>

Visible(s) == Cardinality({j \in 1 .. Len(s) : s[j].k \in {"mk", "rm", "mod", "from", "to"}})

Deliver ==
  /\ pc = "wait" /\ after = "none" /\ kq # <<>>
  /\ turn \in {"any", "dlv"}
  /\ \E k \in 1 .. Min({Len(kq), MaxBatch}) :
       LET b == SubSeq(kq, 1, k)
           Halves(j) == j < Len(kq) /\ kq[j].k = "from" /\ kq[j + 1].k = "to" /\ kq[j + 1].ck = kq[j].ck
           split == Halves(k)
           \* a rename with something between its records, which were read apart, is not modelled: see DESIGN.md
           torn == \E i \in 1 .. k, j \in k + 1 .. Len(kq) : j > i + 1 /\ kq[i].k = "from" /\ kq[j].k = "to" /\ kq[j].ck = kq[i].ck
       IN /\ ~torn
          /\ \E at \in {-1} \cup (IF nloss < MaxLoss THEN {a \in 0 .. k : ~(a > 0 /\ Halves(a))} ELSE {}) : \* a loss is announced after so many records
             /\ buf' = IF at < 0 THEN b ELSE SubSeq(b, 1, at) \o <<Rec(0, "ovf", "", FALSE, 0)>> \o SubSeq(b, at + 1, k)
             /\ nloss' = IF at < 0 THEN nloss ELSE nloss + 1
             /\ kq' = SubSeq(kq, k + 1, Len(kq))
             /\ os' = UNION {OBatch(t, x, split, IF at < 0 THEN <<>> ELSE <<Visible(SubSeq(b, 1, at))>>) : x \in os}
             /\ H([c |-> "dlv", n |-> IF at < 0 THEN k ELSE k + 1, ovf |-> at])
  /\ pc' = "batch"
  /\ rmq' = {}
  /\ UNCHANGED <<t, wt, dm, walk, after, n, npre, opened, turn, incb, left, refuse>>

EffOf(k) == Eff(k)
Report(s, ev) == UNION {OReport(t, x, ev) : x \in s}
One(p, k, dir) == [p |-> p, et |-> EffOf(k), pt |-> Typ(dir), as |-> FALSE, ap |-> <<>>, aet |-> "", apt |-> ""]
Two(p, q, dir) == [p |-> p, et |-> "rename", pt |-> Typ(dir), as |-> TRUE, ap |-> q, aet |-> "rename", apt |-> Typ(dir)]

Prefix(a, p) == Len(a) <= Len(p) /\ SubSeq(p, 1, Len(a)) = a
Moved(f, from, to) == [w \in DOMAIN f |-> IF Prefix(from, f[w]) THEN to \o SubSeq(f[w], Len(from) + 1, Len(f[w])) ELSE f[w]]

MarkOf(p) == <<[k |-> "mark", p |-> p]>>

(* A directory has left the tree: nothing known under its path is watched   *)
(* any more, except what is (again) there.                                  *)
There(p) == LET x == Look(t, p) IN IF x # 0 /\ t.dir[x] THEN DirsBelow(t, x) ELSE {}
Leave(p) == \* what is to be forgotten
  {w \in DOMAIN dm : dm[w] # <<>> /\ Prefix(p, dm[w])} \ There(p)

(* What the directory that left stands for, unless its new name is later in *)
(* this batch.                                                              *)
IsLeft(r) == r.k = "to" /\ r.ck = left[2] /\ r.d \in DOMAIN dm /\ dm[r.d] # <<>>
Later == \E j \in 2 .. Len(buf) : IsLeft(buf[j])
Settle ==
  /\ turn \in {"any", "dlv"}
  /\ pc = "batch" /\ buf # <<>> /\ walk = <<>> /\ after = "none" /\ left # <<>>
  /\ Later => IsLeft(Head(buf))
  /\ incb' = FALSE
  /\ left' = <<>>
  /\ LET r == Head(buf)
         gone == Leave(left[1])
         here == There(left[1])
     IN IF IsLeft(r)
        THEN /\ dm' = Moved(dm, left[1], Append(dm[r.d], r.nm))
             /\ walk' = IF IsDirAt(left[1]) THEN MarkOf(left[1]) ELSE <<>>
             /\ UNCHANGED <<wt, kq>>
        ELSE /\ walk' = <<>>
             /\ wt' = (wt \ gone) \cup here
             /\ dm' = [w \in DOMAIN dm \cup here |-> IF w \in here THEN PathOf(t, w) ELSE IF w \in gone THEN <<>> ELSE dm[w]]
             /\ kq' = kq \o [i \in 1 .. Cardinality(gone \cap wt) |-> Rec(SetToSortSeq(gone \cap wt, <)[i], "ign", "", TRUE, 0)]
  /\ turn' = IF GEN /\ Gran = "walk" /\ walk' # <<>> THEN "choose" ELSE turn
  /\ UNCHANGED <<t, buf, after, rmq, pc, os, n, npre, opened, hist>>

(* The next record of the batch. *)
Proc ==
  /\ turn \in {"any", "dlv"}
  /\ incb' = FALSE
  /\ pc = "batch" /\ buf # <<>>
  /\ IF left = <<>> THEN TRUE ELSE Later /\ ~IsLeft(Head(buf))
  /\ walk = <<>> /\ after = "none"
  /\ LET r == Head(buf)
         known == r.d \in DOMAIN dm
         p == Append(dm[r.d], r.nm)
         two == Len(buf) > 1 /\ r.k = "from" /\ buf[2].k = "to" /\ buf[2].ck = r.ck /\ buf[2].d \in DOMAIN dm /\ dm[buf[2].d] # <<>>
         p2 == Append(dm[buf[2].d], buf[2].nm)
     IN CASE r.k = "ovf" ->
               os' = UNION {OOverflow(x) : x \in os} /\ buf' = Tail(buf)
               /\ UNCHANGED <<t, kq, wt, dm, walk, after, rmq, pc>>
          [] r.k = "dself" ->
               rmq' = rmq \cup {r.d} /\ buf' = Tail(buf)
               /\ UNCHANGED <<t, kq, wt, dm, walk, after, pc, os>>
          [] r.k = "ign" ->
               /\ buf' = Tail(buf)
               /\ dm' = IF known /\ dm[r.d] = <<>> /\ r.d \notin wt THEN [w \in DOMAIN dm \ {r.d} |-> dm[w]] ELSE dm
               /\ UNCHANGED <<t, kq, wt, walk, after, rmq, pc, os>>
          [] r.k = "mself" ->
               buf' = Tail(buf) /\ UNCHANGED <<t, kq, wt, dm, walk, after, rmq, pc, os>>
          [] r.k \notin {"ovf", "dself", "ign", "mself"} /\ ~known ->
               os' = {} \* an event of a directory we do not know: reported as a phantom
               /\ UNCHANGED <<t, kq, wt, dm, buf, walk, after, rmq, pc>>
          [] r.k \notin {"ovf", "dself", "ign", "mself"} /\ known /\ dm[r.d] = <<>> ->
               buf' = Tail(buf) /\ UNCHANGED <<t, kq, wt, dm, walk, after, rmq, pc, os>>
          [] known /\ two ->
               /\ dm' = IF r.dir THEN Moved(dm, p, p2) ELSE dm
               /\ walk' = IF ~r.dir THEN <<>>
                          ELSE (IF IsDirAt(p) THEN MarkOf(p) ELSE <<>>) \o (IF IsDirAt(p2) THEN MarkOf(p2) ELSE <<>>)
               /\ after' = "cb"
               /\ UNCHANGED <<t, kq, wt, buf, rmq, pc, os>>
          [] OTHER ->
               /\ walk' = IF r.dir /\ r.k \in {"mk", "to"} THEN MarkOf(p) ELSE <<>>
               /\ after' = "cb"
               /\ UNCHANGED <<t, kq, wt, dm, buf, rmq, pc, os>>
  /\ UNCHANGED <<n, npre, opened, hist, left>>
  /\ turn' = IF GEN /\ Gran = "walk" /\ walk' # <<>> THEN "choose" ELSE turn

(* The callback. The paths are those computed before the scan. *)
Cb ==
  /\ after = "cb" /\ walk = <<>>
  /\ LET r == Head(buf)
         two == Len(buf) > 1 /\ r.k = "from" /\ buf[2].k = "to" /\ buf[2].ck = r.ck /\ buf[2].d \in DOMAIN dm /\ dm[buf[2].d] # <<>>
     IN IF two
        THEN /\ left' = left
             /\ buf' = Tail(Tail(buf))
             /\ LET p == Append(dm[r.d], r.nm)
                    p2 == Append(dm[buf[2].d], buf[2].nm)
                IN os' = Report(os, Two(p, p2, r.dir))
        ELSE /\ buf' = Tail(buf)
             /\ os' = Report(os, One(Append(dm[r.d], r.nm), r.k, r.dir))
             /\ left' = IF r.k = "from" /\ r.dir THEN <<Append(dm[r.d], r.nm), r.ck>> ELSE left
  /\ after' = "none"
  /\ incb' = (Gran = "cb")
  /\ IF Gran = "cb" THEN H([c |-> "cb"]) ELSE hist' = hist
  /\ turn' = IF GEN /\ Gran = "cb" THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, wt, dm, walk, rmq, pc, n, npre, opened>>

EndBatch ==
  /\ turn \in {"any", "dlv"}
  /\ incb' = FALSE
  /\ pc = "batch" /\ buf = <<>> /\ walk = <<>> /\ after = "none"
  /\ pc' = "wait"
  /\ dm' = [w \in DOMAIN dm \ rmq |-> dm[w]]
  /\ rmq' = {}
  /\ os' = Idled(os)
  /\ turn' = IF GEN THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, wt, buf, walk, after, n, npre, opened, hist, left>>

(* ---------------------------------------------------------- generation *)
(* Each choice among kinds of steps is made first, so that random walks do  *)
(* not drown in the many possible renames.                                  *)
Turns == IF pc = "dead" THEN {} ELSE (IF (opened /\ n >= MaxOps) \/ ~MayOp THEN {} ELSE {k \in Kinds : Enabled(k) # {}})
         \cup (IF ~opened \/ walk # <<>> \/ kq # <<>> \/ pc = "batch" THEN {"dlv"} ELSE {})
Choose ==
  /\ GEN /\ turn = "choose"
  /\ \E k \in (IF ~opened /\ npre >= MaxPre THEN {"dlv"} ELSE Turns) : turn' = k
  /\ UNCHANGED <<t, kq, wt, dm, buf, walk, after, rmq, pc, os, n, npre, opened, hist, incb, left, refuse>>

Emit ==
  /\ GEN /\ turn = "choose" /\ opened /\ (n >= MaxOps \/ Startup \/ pc = "dead") /\ pc \in {"wait", "dead"} /\ kq = <<>> /\ walk = <<>>
  /\ PrintT("@@" \o ToJson(hist))
  /\ turn' = "done"
  /\ UNCHANGED <<t, kq, wt, dm, buf, walk, after, rmq, pc, os, n, npre, opened, hist, incb, left, refuse>>

Init ==
  /\ t = T0 /\ kq = <<>> /\ wt = {} /\ dm = <<>> /\ buf = <<>> /\ walk = <<>> /\ after = "none"
  /\ rmq = {} /\ pc = "off" /\ os = {} /\ n = 0 /\ npre = 0 /\ opened = FALSE
  /\ refuse \in Refusals
  /\ hist = IF GEN THEN [i \in 1 .. Cardinality(refuse) |-> [c |-> "refuse"] @@ SetToSeq(refuse)[i]] ELSE <<>>
  /\ turn = IF GEN THEN "choose" ELSE "any"
  /\ incb = FALSE /\ left = <<>> /\ nloss = 0 /\ nwv = 0

Next == (Op \/ Open \/ WalkStep \/ Started \/ Deliver \/ Settle \/ Proc \/ Cb \/ EndBatch \/ Choose \/ Emit) /\ UNCHANGED refuse /\ (IF pc = "wait" /\ pc' = "batch" THEN TRUE ELSE UNCHANGED nloss) /\ (IF n' # n \/ npre' # npre THEN TRUE ELSE UNCHANGED nwv)

Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties *)
(* Every report is one that the oracle allows, and nothing due is lost.     *)
Faithful == opened => os # {}

(* Every watched path the watcher remembers is right when nothing is pending. *)
PathsRight ==
  pc = "wait" /\ kq = <<>> /\ opened /\ after = "none" =>
     \A w \in DOMAIN dm : Alive(t, w) /\ Under(t, Root, w) => dm[w] = PathOf(t, w)

(* Every directory of the tree is watched when nothing is pending. *)
Covered ==
  pc = "wait" /\ kq = <<>> /\ opened /\ after = "none" => {y \in DirsBelow(t, Root) : MaxRefuse = 0 \/ \E x \in os : x.st[y] = 2} \subseteq wt

(* Nothing outside of the tree is, except what left it just now: it stays   *)
(* watched until the next record tells where it went.                       *)
Bookkeeping ==
  pc = "wait" /\ kq = <<>> /\ opened /\ after = "none" =>
     /\ \A w \in DOMAIN dm : w \in wt
     /\ \A w \in wt : \/ Under(t, Root, w)
                       \/ (left # <<>> /\ Prefix(left[1], dm[w]))
                       \/ \A x \in os : x.murk
=============================================================================
