------------------------------- MODULE Oracle -------------------------------
(* What a user of one watcher may see, as a function of what happened to    *)
(* the file tree. The oracle knows nothing of how a watcher works: it keeps *)
(* the changes that still have to be reported, and how certain it is that   *)
(* each directory is watched, from the watcher's own promises:              *)
(*   - once started, every directory that existed all along is watched;     *)
(*   - a directory is watched, with all in it, when its arrival is reported;*)
(*   - when nothing is pending any more, every directory is watched.        *)
(* The state of the oracle for one watcher is a record:                     *)
(*   root  node of the watched directory                                    *)
(*   st    per node: 0 not in the tree, 1 may be watched, 2 is watched      *)
(*   pend  changes that were made but not reported, oldest first            *)
(*   split the last read ended between the two halves of a rename           *)
(*   snap  directories that existed when the current read began             *)
(*   ever  every path a directory of the tree has had                       *)
(*   owed  arrivals reported for directories that could not be watched any  *)
(*         more, whose warning is still due;  warned: warnings since the read*)
(*   quiet no operation happened since the read began                       *)
(*   still directories that existed when the watcher was opened, unmoved    *)
(*   refuse paths the system refuses to watch (injected)                    *)
(*   told  paths of directories whose entries the system refused to list    *)
(*   blind directories which were in those: nobody knows if they are watched*)
(*   loss   per announcement of a loss in the current read that was not told *)
(*          yet: how many changes were recorded before it in that read       *)
(*   seen   how many recorded changes of the current read were reported      *)
(*   lax    a read may hold changes that are not reported, or were merged:   *)
(*          the place of an announcement is not judged                       *)
(*   fz     a directory was moved onto a name under which changes of another*)
(*          directory had not been reported yet: a backlog that cannot be   *)
(*          told apart by names. Until nothing is pending, the directory    *)
(*          part of paths is not judged.                                    *)
(*   left   directories which have left the tree: what is made in one might *)
(*          be told if it returns before its departure was told             *)
(*   fresh  how many changes the last operation added to pend               *)
(*   murk   a directory left while the backlog could not be told apart: it  *)
(*          might stay watched (which one left cannot be known any more)    *)
EXTENDS Fs, FiniteSetsExt

InTree(t, o, d) == d # 0 /\ Under(t, o.root, d)

NewOracle(t, root) ==
  [root |-> root, st |-> [x \in Nodes(t) |-> IF t.dir[x] /\ Alive(t, x) /\ Under(t, root, x) THEN 1 ELSE 0],
   pend |-> <<>>, split |-> FALSE, snap |-> {}, ever |-> {PathOf(t, x) : x \in DirsBelow(t, root)},
   owed |-> {}, warned |-> {}, quiet |-> TRUE, still |-> DirsBelow(t, root),
   refuse |-> {}, told |-> {}, blind |-> {}, ready |-> FALSE, loss |-> <<>>, seen |-> 0, lax |-> FALSE, fz |-> FALSE, left |-> {}, murk |-> FALSE, fresh |-> 0]

IsPrefix2(a, p) == Len(a) <= Len(p) /\ SubSeq(p, 1, Len(a)) = a

(* Does the move of directory m tangle the backlog? *)
Tangles(t2, o, m) ==
  LET P == PathOf(t2, m)
  IN \E i \in 1 .. Len(o.pend) :
       /\ o.pend[i].dir
       /\ o.pend[i].x # m
       /\ \E p \in o.pend[i].paths : IsPrefix2(P, p) /\ p # PathOf(t2, o.pend[i].x)

(* No promise holds for what is below a directory that could not be listed. *)
Unsure(t, o, y) == \E b \in o.blind : Under(t, b, y)

PathOk(o, e, p) == p \in e.paths \/ ((o.fz \/ (o.murk /\ e.paths = {})) /\ p # <<>> /\ p[Len(p)] = e.nm)

PartnerAt(s, j) == j < Len(s) /\ s[j].k = "from" /\ s[j + 1].k = "to" /\ s[j + 1].ck = s[j].ck

SkipOpt(s) == \A i \in 1 .. Len(s) : s[i].opt
OnlyDue(s) == \A i \in 1 .. Len(s) : ~s[i].opt

(* ------------------------------------------------- operations *)
LastDue(s) == LET due == {i \in 1 .. Len(s) : ~s[i].opt}
              IN IF due = {} THEN 0 ELSE CHOOSE i \in due : \A j \in due : j <= i

(* The system may merge a record with an equal one at the end of its queue. *)
SameMod(a, c) == a.k = c.k /\ a.d = c.d /\ a.nm = c.nm /\ a.dir = c.dir

RECURSIVE Push(_, _, _, _, _)
Push(t, o, t2, ch, i) ==
  IF i > Len(ch) THEN o
  ELSE LET c == ch[i]
           (* the place the change was made in, at the time it was made *)
           tt == IF c.k \in {"to", "mk"} THEN t2 ELSE t
           in == InTree(tt, o, c.d)
           \* made in a directory that left the tree: told only if it returns before the watcher could tell
           away == ~in /\ c.d \in o.left
           merge == \E l \in LastDue(o.pend) .. Len(o.pend) : l # 0 /\ SameMod(o.pend[l], c)
           e  == [k |-> c.k, d |-> c.d, nm |-> c.nm, dir |-> c.dir, x |-> c.x, ck |-> c.ck, lone |-> FALSE, apart |-> FALSE,
                  opt |-> (o.st[c.d] # 2 \/ merge),
                  paths |-> IF in THEN {Append(PathOf(tt, c.d), c.nm)} ELSE {}]
       IN Push(t, IF in \/ away THEN [o EXCEPT !.pend = Append(@, e)] ELSE o, t2, ch, i + 1)

OOp(t, o, op, ck) ==
  LET r  == Apply(t, op, ck)
      t2 == r.t
      \* exchanged directories pass through each other's names: judge each half where it really was
      o0 == [o EXCEPT !.st = [x \in Nodes(t2) |->
                 IF x \in DOMAIN @ THEN @[x]
                 ELSE IF t2.dir[x] /\ Under(t2, o.root, x) THEN 1 ELSE 0]]
      o1 == Push(t, o0, t2, r.ch, 1)
      mvset == UNION {Below(t2, m) : m \in r.mvd}
      o2 == IF r.mvd = {} THEN o1 ELSE
              [o1 EXCEPT
                 !.st = [x \in Nodes(t2) |->
                    IF x \notin mvset \/ ~t2.dir[x] THEN @[x]
                    ELSE IF ~Under(t2, o.root, x) THEN 0
                    ELSE IF @[x] = 0 THEN 1
                    ELSE IF \E m \in r.mvd : Under(t2, m, x) /\ o.st[t2.par[m]] # 2 THEN 1 \* as if it had left
                    ELSE @[x]],
                 !.pend = [i \in 1 .. Len(@) |->
                    IF @[i].d \in mvset /\ InTree(t2, o, @[i].d)
                    THEN [@[i] EXCEPT !.paths = @ \cup {Append(PathOf(t2, o1.pend[i].d), o1.pend[i].nm)}]
                    ELSE @[i]],
                 !.still = @ \ mvset]
      dirsnow == IF r.mvd # {} \/ (op.op = "mk" /\ op.dir) THEN {PathOf(t2, x) : x \in DirsBelow(t2, o.root)} ELSE {}
      gone == {x \in mvset : x \in DOMAIN o.st /\ o.st[x] # 0 /\ o2.st[x] = 0}
      \* changes of another directory of its name, or around it, have not been reported either
      blur(m) == \E i \in 1 .. Len(o.pend) : /\ o.pend[i].dir /\ o.pend[i].x # m
                                            /\ \E p \in o.pend[i].paths : IsPrefix2(p, PathOf(t, m)) \/ IsPrefix2(PathOf(t, m), p)
      fz2 == \/ o.fz
             \/ \E m \in r.mvd : Tangles(t2, o2, m)
             \/ \E x \in mvset \cap o.left : o2.st[x] # 0
  IN [o2 EXCEPT !.ever = @ \cup dirsnow, !.quiet = FALSE, 
                 !.left = @ \cup gone, !.fresh = Len(o1.pend) - Len(o.pend),
                 !.fz = fz2,
                 !.murk = @ \/ (fz2 /\ o.left \cup gone # {}) \/ \E m \in gone : blur(m)]

(* Two operations at once: the first m records of the last operation came   *)
(* before the second record of the rename which was recorded last until     *)
(* then. It may have come before the rename, too.                           *)
Underway(s, k) == \* the second half of that rename, where the last operation made k changes
  LET js == {j \in 1 .. Len(s) - k : ~s[j].opt}
      j == IF js = {} THEN 0 ELSE Max(js)
  IN IF j > 1 /\ s[j].k = "to" /\ PartnerAt(s, j - 1) THEN j ELSE 0

OWeave(o, m) ==
  LET s == o.pend
      k == o.fresh
      j == Underway(s, k)
      x == Len(s) - k
      c == IF k < m THEN k ELSE m
      was(p) == UNION {{f \o SubSeq(p, Len(q) + 1, Len(p)) : f \in s[j - 1].paths} : q \in {q \in s[j].paths : s[j].dir /\ IsPrefix2(q, p)}}
      early(e) == [e EXCEPT !.paths = @ \cup UNION {was(p) : p \in @}]
  IN IF j = 0 THEN o
     ELSE IF c = 0 THEN [o EXCEPT !.pend[j - 1].apart = TRUE, !.pend[j].apart = TRUE] \* what came between is not of the tree
     ELSE [o EXCEPT !.pend = SubSeq(s, 1, j - 1) \o [i \in 1 .. c |-> early(s[x + i])] \o SubSeq(s, j, x) \o SubSeq(s, x + c + 1, Len(s))]

(* ------------------------------------------------- reports *)
Eff(k) == CASE k = "mk" -> "create" [] k = "rm" -> "destroy" [] k = "mod" -> "modify" [] OTHER -> "rename"
Typ(dir) == IF dir THEN "dir" ELSE "file"

Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* The report of a directory's arrival: it and everything in it is watched. *)
Arrive(t, o, p) ==
  LET x == Look(t, p)
      isd == x # 0 /\ t.dir[x]
      ds == IF isd THEN DirsBelow(t, x) \cap o.snap ELSE {}
      o1 == [o EXCEPT !.st = [y \in DOMAIN @ |->
                IF y \in ds /\ InTree(t, o, y) /\ PathOf(t, y) \notin o.refuse /\ ~Unsure(t, o, y)
                   /\ ~\E q \in o.warned : IsPrefix2(q, PathOf(t, y)) \* the user was told that it is not
                THEN 2 ELSE @[y]]]
      refused == \E r \in o.refuse : r = p
  IN IF o.fz THEN o1
     ELSE IF refused \/ (~isd /\ o.quiet)
     THEN IF p \in o.warned THEN [o1 EXCEPT !.warned = @ \ {p}] ELSE [o1 EXCEPT !.owed = @ \cup {p}]
     ELSE o1

OReport(t, o, ev) ==
  LET s == o.pend
      can(j) == j \in 1 .. Len(s) /\ SkipOpt(SubSeq(s, 1, j - 1))
      single(j) ==
         /\ ~ev.as
         /\ ev.et = Eff(s[j].k) /\ ev.pt = Typ(s[j].dir) /\ PathOk(o, s[j], ev.p)
         /\ s[j].k = "from" /\ PartnerAt(s, j) =>
               \/ s[j + 1].opt
               \/ o.split
               \/ s[j].apart
         /\ s[j].k = "to" =>
               \/ s[j].lone                       \* its first half was reported alone
               \/ s[j].apart
               \/ j = 1 \/ s[j - 1].ck # s[j].ck   \* it came from outside
               \/ s[j - 1].opt                     \* its first half may be unknown
      pair(j) ==
         /\ ev.as /\ PartnerAt(s, j)
         /\ ev.et = "rename" /\ ev.aet = "rename"
         /\ ev.pt = Typ(s[j].dir) /\ ev.apt = ev.pt
         /\ PathOk(o, s[j], ev.p) /\ PathOk(o, s[j + 1], ev.ap)
      rest(j) == LET r == Drop(s, j)
                 IN IF s[j].k = "from" /\ PartnerAt(s, j) /\ r # <<>> THEN [r EXCEPT ![1].lone = TRUE] ELSE r
      ones == {j \in 1 .. Len(s) : can(j) /\ single(j)}
      prs  == {j \in 1 .. Len(s) : can(j) /\ pair(j)}
      \* the two halves of a directory's rename were read apart: until the second is told, names below are in doubt
      o1(j) == [o EXCEPT !.pend = rest(j), !.seen = @ + 1, !.fz = @ \/ (s[j].dir /\ s[j].k = "from" /\ PartnerAt(s, j))]
      o2(j) == [o EXCEPT !.pend = Drop(s, j + 1), !.seen = @ + 2]
      newdir(j) == s[j].dir /\ s[j].k \in {"mk", "to"}
      \* a loss that was announced before is told before
      owing == o.loss # <<>> /\ Head(o.loss) <= o.seen
  IN IF owing THEN {} ELSE
     {IF newdir(j) THEN Arrive(t, o1(j), ev.p) ELSE o1(j) : j \in ones}
     \cup {IF s[j].dir THEN [Arrive(t, o2(j), ev.ap) EXCEPT !.owed = o2(j).owed] ELSE o2(j) : j \in prs}

(* A warning that a directory is not watched: true only of a directory that *)
(* is not there (any more) or which the system refuses to watch.            *)
OWarn(t, o, p) ==
  LET x == Look(t, p)
      known == p \in o.ever \/ \E i \in 1 .. Len(o.pend) : o.pend[i].dir /\ p \in o.pend[i].paths
      gone == x = 0 \/ ~t.dir[x]
      refused == p \in o.refuse \/ p \in o.told
  IN IF (known /\ (gone \/ ~o.quiet)) \/ refused \/ o.fz \/ o.murk
     THEN {[o EXCEPT !.warned = @ \cup {p}, !.owed = @ \ {p}]}
     ELSE {}

(* The system's announcement that changes were lost is told where it is.    *)
OOverflow(o) ==
  IF o.loss = <<>> \/ (~o.lax /\ o.seen < Head(o.loss)) THEN {} ELSE {[o EXCEPT !.loss = Tail(@)]}

(* A read; ovf: how many changes come before each announcement of a loss.   *)
OBatch(t, o, split, ovf) ==
  IF o.loss # <<>> THEN {}
  ELSE {[o EXCEPT !.split = split, !.snap = DirsBelow(t, o.root), !.quiet = TRUE, !.warned = {},
                  !.loss = ovf, !.seen = 0,
                  !.lax = ovf # <<>> /\ (@ \/ o.fz \/ o.murk \/ o.left # {} \/ ~OnlyDue(o.pend))]}

OReady(t, o) ==
  [o EXCEPT !.ready = TRUE,
            !.st = [y \in DOMAIN @ |-> IF y \in o.still /\ Alive(t, y) /\ PathOf(t, y) \notin o.refuse /\ ~Unsure(t, o, y) THEN 2 ELSE @[y]]]

(* The system refuses to watch the directory p, or to list it.              *)
ORefuse(t, o, p) ==
  [o EXCEPT !.refuse = @ \cup {p}, !.owed = @ \cup {p},
            !.st = [y \in DOMAIN @ |-> IF PathOf(t, y) = p /\ @[y] = 2 THEN 1 ELSE @[y]]]

OBlind(t, o, p) ==
  LET x == Look(t, p)
      in == IF x = 0 THEN {} ELSE {y \in Nodes(t) : t.par[y] = x /\ t.dir[y]}
  IN [o EXCEPT !.told = @ \cup {p}, !.blind = @ \cup in,
               !.owed = IF p \in o.refuse \/ p \in o.warned THEN @ ELSE @ \cup {p},
               !.st = [y \in DOMAIN @ |-> IF @[y] = 2 /\ \E b \in in : Under(t, b, y) THEN 1 ELSE @[y]]]

(* Nothing at all of the tree could be watched.                             *)
ONothing(t, o) == o.root # 0 /\ Alive(t, o.root) /\ \A y \in DirsBelow(t, o.root) : PathOf(t, y) \in o.refuse \/ Unsure(t, o, y)

(* A watched directory tells of those in it, level by level.                *)
RECURSIVE Told(_, _, _)
Told(t, o, y) ==
  \/ o.st[y] = 2
  \/ /\ y # o.root /\ t.dir[y] /\ Alive(t, y) /\ InTree(t, o, y)
     /\ (o.refuse = {} \/ PathOf(t, y) \notin o.refuse) /\ ~Unsure(t, o, y)
     /\ (o.refuse = {} \/ Told(t, o, t.par[y]))

(* Nothing is pending: whatever had to be reported has been.                *)
OIdle(t, o) ==
  IF SkipOpt(o.pend) /\ o.owed = {} /\ o.loss = <<>>
  THEN {[o EXCEPT !.pend = <<>>, !.fresh = 0, !.warned = {}, !.fz = FALSE, !.lax = FALSE, !.left = {x \in @ : ~InTree(t, o, x)},
                  !.st = [y \in DOMAIN @ |->
                     IF Told(t, o, y) THEN 2 ELSE @[y]]]}
  ELSE {}
=============================================================================
