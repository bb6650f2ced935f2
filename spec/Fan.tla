--------------------------------- MODULE Fan ---------------------------------
(* A watcher on the privileged facility: the tree, the system's marks and   *)
(* queue of records, the watcher's scan and its work on a read of records - *)
(* checked against FanOracle, which knows none of this. With GEN, behaviours*)
(* are printed as scripts which replay them on the real code.               *)
EXTENDS FanOracle, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS
  Names, Depth, MaxOps, MaxPre, Kinds, Outside, Gran, Startup, MaxBatch, MaxRefuse, \* as in TreeModel
  MaxBad,     \* records which can not be resolved
  MaxLoss,    \* announcements of losses by the system
  GEN

VARIABLES t, kq, marks, buf, walk, after, pc, os, n, npre, opened, hist, turn, refuse, incb, nbad, nloss,
          cur       \* the event which is being made of the first record(s): [n, p, q]
vars == <<t, kq, marks, buf, walk, after, pc, os, n, npre, opened, hist, turn, refuse, incb, nbad, nloss, cur>>
View == <<t, kq, marks, buf, walk, after, pc, os, n, npre, opened, turn, refuse, incb, nbad, nloss, cur>>

H(c) == hist' = IF GEN THEN Append(hist, c) ELSE hist

Root == 2
T0 == [par |-> <<0, 1, 1>>, nm |-> <<"", "r", "o">>, dir |-> <<TRUE, TRUE, TRUE>>]

RECURSIVE PathsTo(_)
PathsTo(k) == IF k = 0 THEN {<<>>} ELSE PathsTo(k - 1) \cup {Append(p, x) : p \in PathsTo(k - 1), x \in Names}
Tops == IF Outside THEN {"r", "o"} ELSE {"r"}
Paths == {<<top>> \o p : top \in Tops, p \in (PathsTo(Depth) \ {<<>>})}

OpsOf(k) ==
  CASE k = "mkd" -> {[op |-> "mk", p |-> p, q |-> <<>>, dir |-> TRUE] : p \in Paths}
    [] k = "mkf" -> {[op |-> "mk", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "mod" -> {[op |-> "mod", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "rm"  -> {[op |-> "rm", p |-> p, q |-> <<>>, dir |-> FALSE] : p \in Paths}
    [] k = "mv"  -> {[op |-> "mv", p |-> p, q |-> q, dir |-> FALSE] : p \in Paths, q \in Paths}
    [] k = "xch" -> {[op |-> "xch", p |-> p, q |-> q, dir |-> FALSE] : p \in Paths, q \in Paths}

(* What happens in a directory which is not watched is not told, renames of *)
(* directories neither: paths below are not judged then.                    *)
Hidden(op) ==
  /\ op.op \in {"mv", "xch"} /\ MaxRefuse > 0
  /\ \E r \in refuse, p \in {op.p, op.q} :
       /\ Len(r.p) <= Len(p) /\ SubSeq(p, 1, Len(r.p)) = r.p
       /\ ~(op.op = "mv" /\ p = op.p /\ r.p = p)

Enabled(k) == {op \in OpsOf(k) : CanOp(t, op) /\ ~Hidden(op)}

MayRefuse == [k : {"mark", "list"}, p : {<<"r">> \o q : q \in PathsTo(Depth)}]
Refusals == UNION {kSubset(k, MayRefuse) : k \in 0 .. MaxRefuse}
Refused(k, p) == [k |-> k, p |-> p] \in refuse

(* -------------------------------------------------------------- the system *)
Rec(d, k, nm, dir, ck) == [d |-> d, k |-> k, nm |-> nm, dir |-> dir, ck |-> ck]
Enq(q, r) == IF q # <<>> /\ [q[Len(q)] EXCEPT !.ck = r.ck] = r THEN q ELSE Append(q, r)

RECURSIVE EnqAll(_, _)
EnqAll(q, ch) ==
  IF ch = <<>> THEN q
  ELSE LET c == Head(ch) IN EnqAll(IF c.d \in marks THEN Enq(q, Rec(c.d, KindOf(c.k), c.nm, c.dir, c.ck)) ELSE q, Tail(ch))

Rest == <<nbad, nloss, refuse>>

DoOp(op) ==
  LET ck == 2 * (n + npre + 1)
      r == Apply(t, op, ck)
  IN /\ t' = r.t
     /\ kq' = EnqAll(kq, r.ch)
     /\ os' = IF opened THEN {FOp(t, x, op, ck) : x \in os} ELSE os
     /\ H([c |-> "op", op |-> op.op, p |-> op.p, q |-> op.q, dir |-> IF op.op = "mk" THEN op.dir ELSE t.dir[Look(t, op.p)]])
     /\ UNCHANGED <<marks, buf, walk, after, pc, opened, incb, cur>>

MayOp ==
  \/ ~opened
  \/ pc = "wait" /\ after = "none" /\ ~Startup
  \/ Gran = "walk" /\ walk # <<>> /\ (Startup => after = "start")
  \/ Gran = "cb" /\ pc = "batch" /\ after = "none" /\ incb

Op ==
  /\ MayOp
  /\ IF opened THEN n < MaxOps ELSE npre < MaxPre
  /\ turn # "dlv"
  /\ \E k \in Kinds :
       /\ turn \in {"any", k}
       /\ \E op \in Enabled(k) : DoOp(op)
  /\ n' = IF opened THEN n + 1 ELSE n
  /\ npre' = IF opened THEN npre ELSE npre + 1
  /\ turn' = IF GEN THEN "choose" ELSE turn
  /\ UNCHANGED Rest

(* ------------------------------------------------------------- the watcher *)
Open ==
  /\ ~opened /\ turn \in {"any", "dlv"}
  /\ opened' = TRUE
  /\ os' = {FNew(t, Root)}
  /\ walk' = <<[k |-> "probe", p |-> <<"r">>], [k |-> "mark", p |-> <<"r">>]>>
  /\ after' = "start" /\ pc' = "scan"
  /\ H([c |-> "open"])
  /\ turn' = IF GEN THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, marks, buf, n, npre, incb, cur>> /\ UNCHANGED Rest

IsDirAt(p) == LET x == Look(t, p) IN x # 0 /\ t.dir[x]
WarnIn(s, p) == UNION {FWarn(t, x, p) : x \in s}
SubDirs(x) == SetToSortSeq({y \in Nodes(t) : t.par[y] = x /\ t.dir[y]}, <)

(* One step of a scan: mark one directory, or list one. *)
WalkStep ==
  /\ walk # <<>> /\ turn \in {"any", "dlv"}
  /\ LET s == Head(walk)
         x == Look(t, s.p)
         isd == x # 0 /\ t.dir[x]
     IN IF s.k # "list"
        THEN /\ walk' = IF s.k = "probe" THEN Tail(walk) ELSE <<[k |-> "list", p |-> s.p]>> \o Tail(walk)
             /\ IF isd /\ ~Refused("mark", s.p)
                THEN marks' = marks \cup {x} /\ os' = {FMark(t, y, s.p) : y \in os}
                ELSE os' = WarnIn(IF isd THEN {FRefuse(t, y, s.p) : y \in os} ELSE os, s.p) /\ UNCHANGED marks
        ELSE LET blind == isd /\ Refused("list", s.p)
             IN /\ walk' = (IF isd /\ ~blind THEN [i \in 1 .. Len(SubDirs(x)) |-> [k |-> "mark", p |-> Append(s.p, t.nm[SubDirs(x)[i]])]] ELSE <<>>)
                           \o Tail(walk)
                /\ os' = IF ~blind THEN os
                         ELSE LET os1 == {FBlind(t, y, s.p) : y \in os} IN IF x \in marks THEN WarnIn(os1, s.p) ELSE os1
                /\ UNCHANGED marks
  /\ H([c |-> "walk"])
  /\ turn' = IF GEN /\ Gran = "walk" /\ walk' # <<>> THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, buf, after, pc, n, npre, opened, incb, cur>> /\ UNCHANGED Rest

Idled(s) == IF kq = <<>> THEN UNION {FIdle(t, x) : x \in {y \in s : y.owed = {}}} ELSE s

Started ==
  /\ walk = <<>> /\ after = "start"
  /\ after' = "none" /\ pc' = "wait"
  /\ os' = Idled(UNION {FReady(t, x) : x \in os})
  /\ turn' = IF GEN THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, marks, buf, walk, n, npre, opened, hist, incb, cur>> /\ UNCHANGED Rest

(* A read: some records, and what the system puts between them.             *)
Shown(r) == [k |-> r.k, d |-> IF r.d = 0 THEN <<>> ELSE PathOf(t, r.d), nm |-> r.nm, ck |-> r.ck, dir |-> r.dir, gone |-> r.d # 0 /\ ~Alive(t, r.d)]
Ins(b, at, r) == SubSeq(b, 1, at) \o <<r>> \o SubSeq(b, at + 1, Len(b))

Deliver ==
  /\ pc = "wait" /\ after = "none" /\ kq # <<>> /\ turn \in {"any", "dlv"}
  /\ \E k \in 1 .. Min({Len(kq), MaxBatch}) :
       LET b == SubSeq(kq, 1, k)
           Halves(j) == j > 0 /\ j < Len(kq) /\ kq[j].k = "from" /\ kq[j + 1].k = "to" /\ kq[j + 1].ck = kq[j].ck
           ats == {a \in 0 .. k : ~Halves(a)}
       IN \E x \in {<<"", 0>>} \cup (IF nloss < MaxLoss THEN {"ovf"} \X ats ELSE {}) \cup (IF nbad < MaxBad THEN {"bad"} \X ats ELSE {}) :
          LET c == IF x[1] = "" THEN b ELSE Ins(b, x[2], Rec(0, x[1], "", FALSE, 0))
          IN /\ buf' = c
             /\ nloss' = IF x[1] = "ovf" THEN nloss + 1 ELSE nloss
             /\ nbad' = IF x[1] = "bad" THEN nbad + 1 ELSE nbad
             /\ os' = UNION {FRead(t, y, [i \in 1 .. Len(c) |-> Shown(c[i])]) : y \in os}
             /\ H([c |-> "dlv", n |-> Len(c), what |-> x[1], at |-> x[2]])
       /\ kq' = SubSeq(kq, k + 1, Len(kq))
  /\ pc' = "batch"
  /\ UNCHANGED <<t, marks, walk, after, n, npre, opened, turn, incb, cur, refuse>>

One(p, k, dir) == [p |-> p, et |-> FEff(k), pt |-> FTyp(dir), as |-> FALSE, ap |-> <<>>, aet |-> "", apt |-> ""]
Two(p, q, dir) == [p |-> p, et |-> "rename", pt |-> FTyp(dir), as |-> TRUE, ap |-> q, aet |-> "rename", apt |-> FTyp(dir)]

(* The next record: its path is where its directory is now.                 *)
Proc ==
  /\ turn \in {"any", "dlv"}
  /\ pc = "batch" /\ buf # <<>> /\ walk = <<>> /\ after = "none"
  /\ incb' = FALSE
  /\ LET r == Head(buf)
         there(x) == x.d # 0 /\ Alive(t, x.d)
         at(x) == Append(PathOf(t, x.d), x.nm)
         two == r.k = "from" /\ Len(buf) > 1 /\ buf[2].k = "to" /\ buf[2].dir = r.dir /\ there(buf[2])
     IN CASE r.k = "ovf" ->
               os' = UNION {FOverflow(x) : x \in os} /\ buf' = Tail(buf) /\ UNCHANGED <<walk, after, cur>>
          [] r.k # "ovf" /\ ~there(r) ->
               os' = UNION {FBad(x) : x \in os} /\ buf' = Tail(buf) /\ UNCHANGED <<walk, after, cur>>
          [] OTHER ->
               /\ cur' = IF two THEN [n |-> 2, p |-> at(r), q |-> at(buf[2])] ELSE [n |-> 1, p |-> at(r), q |-> <<>>]
               /\ walk' = IF r.dir /\ (two \/ r.k \in {"create", "to"}) THEN <<[k |-> "mark", p |-> IF two THEN at(buf[2]) ELSE at(r)]>> ELSE <<>>
               /\ after' = "cb"
               /\ UNCHANGED <<os, buf>>
  /\ turn' = IF GEN /\ Gran = "walk" /\ walk' # <<>> THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, marks, pc, n, npre, opened, hist>> /\ UNCHANGED Rest

Cb ==
  /\ after = "cb" /\ walk = <<>>
  /\ LET r == Head(buf)
     IN os' = UNION {FReport(t, x, IF cur.n = 2 THEN Two(cur.p, cur.q, r.dir) ELSE One(cur.p, r.k, r.dir)) : x \in os}
  /\ buf' = SubSeq(buf, cur.n + 1, Len(buf))
  /\ cur' = [n |-> 0, p |-> <<>>, q |-> <<>>]
  /\ after' = "none"
  /\ incb' = (Gran = "cb")
  /\ IF Gran = "cb" THEN H([c |-> "cb"]) ELSE hist' = hist
  /\ turn' = IF GEN /\ Gran = "cb" THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, marks, walk, pc, n, npre, opened>> /\ UNCHANGED Rest

EndBatch ==
  /\ turn \in {"any", "dlv"}
  /\ incb' = FALSE
  /\ pc = "batch" /\ buf = <<>> /\ walk = <<>> /\ after = "none"
  /\ pc' = "wait"
  /\ os' = Idled(os)
  /\ turn' = IF GEN THEN "choose" ELSE turn
  /\ UNCHANGED <<t, kq, marks, buf, walk, after, n, npre, opened, hist, cur>> /\ UNCHANGED Rest

(* ---------------------------------------------------------- generation *)
Turns == (IF (opened /\ n >= MaxOps) \/ ~MayOp THEN {} ELSE {k \in Kinds : Enabled(k) # {}})
         \cup (IF ~opened \/ walk # <<>> \/ kq # <<>> \/ pc = "batch" THEN {"dlv"} ELSE {})
Choose ==
  /\ GEN /\ turn = "choose"
  /\ \E k \in (IF ~opened /\ npre >= MaxPre THEN {"dlv"} ELSE Turns) : turn' = k
  /\ UNCHANGED <<t, kq, marks, buf, walk, after, pc, os, n, npre, opened, hist, incb, cur>> /\ UNCHANGED Rest

Emit ==
  /\ GEN /\ turn = "choose" /\ opened /\ (n >= MaxOps \/ Startup) /\ pc = "wait" /\ kq = <<>> /\ walk = <<>>
  /\ PrintT("@@" \o ToJson(hist))
  /\ turn' = "done"
  /\ UNCHANGED <<t, kq, marks, buf, walk, after, pc, os, n, npre, opened, hist, incb, cur>> /\ UNCHANGED Rest

Init ==
  /\ t = T0 /\ kq = <<>> /\ marks = {} /\ buf = <<>> /\ walk = <<>> /\ after = "none"
  /\ pc = "off" /\ os = {} /\ n = 0 /\ npre = 0 /\ opened = FALSE
  /\ refuse \in {s \in Refusals : ~\E x \in s : x.k = "mark" /\ x.p = <<"r">>}
  /\ hist = IF GEN THEN [i \in 1 .. Cardinality(refuse) |-> [c |-> "refuse"] @@ SetToSeq(refuse)[i]] ELSE <<>>
  /\ turn = IF GEN THEN "choose" ELSE "any"
  /\ incb = FALSE /\ nbad = 0 /\ nloss = 0 /\ cur = [n |-> 0, p |-> <<>>, q |-> <<>>]

Next == Op \/ Open \/ WalkStep \/ Started \/ Deliver \/ Proc \/ Cb \/ EndBatch \/ Choose \/ Emit

Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties *)
(* Every report is one that the oracle allows, and nothing due is lost.     *)
Faithful == opened => os # {}

(* Every directory of the tree is marked when nothing is pending. *)
Covered ==
  pc = "wait" /\ kq = <<>> /\ opened /\ after = "none" /\ MaxRefuse = 0 => DirsBelow(t, Root) \subseteq marks
=============================================================================
