------------------------------ MODULE FanOracle ------------------------------
(* What a user of one watcher may see of the privileged facility, which     *)
(* hands out records of changes by the handle of the directory and the name *)
(* of the entry. The oracle knows the tree, the records of the read that is *)
(* being worked on, and which directories the system was asked to mark.     *)
(*   root    node of the watched directory                                  *)
(*   marked  nodes of directories that were marked                          *)
(*   due     changes in marked directories which no read has handed out yet *)
(*   recs    records of the current read that were not reported yet         *)
(*   snap    directories that existed when the current read began, unmoved  *)
(*   still   directories that existed when the watcher was opened, unmoved  *)
(*   ever    every path a directory of the tree has had                     *)
(*   refuse  paths the system refuses to mark;  told: to list               *)
(*   blind   directories which were in those that it refused to list        *)
(*   owed    paths whose warning is still due;  warned: warnings since the  *)
(*           read;  quiet: no operation happened since the read began       *)
(*   notes   known deviations which this history showed                     *)
(* A record here is [k, d, nm, dir, ck, paths, may, out, opt]:              *)
(*   paths   the full paths which the entry has had since the read          *)
(*   may     its directory is, or may be, gone: no path can be told         *)
(*   out     its directory is not in the tree (any more)                    *)
(*   opt     it need not be reported (any more)                             *)
EXTENDS Fs

FEff(k) == CASE k = "create" -> "create" [] k = "delete" -> "destroy" [] k = "modify" -> "modify" [] OTHER -> "rename"
FTyp(dir) == IF dir THEN "dir" ELSE "file"
IsEntry(k) == k \in {"create", "delete", "modify", "from", "to"}
FPre(a, p) == Len(a) <= Len(p) /\ SubSeq(p, 1, Len(a)) = a
FDrop(s, n) == SubSeq(s, n + 1, Len(s))

FNew(t, root) ==
  [root |-> root, marked |-> {}, due |-> {}, recs |-> <<>>, snap |-> {}, still |-> DirsBelow(t, root),
   ever |-> {PathOf(t, x) : x \in DirsBelow(t, root)}, refuse |-> {}, told |-> {}, blind |-> {},
   owed |-> {}, warned |-> {}, quiet |-> TRUE, notes |-> {}]

FUnsure(t, o, y) == \E b \in o.blind : Under(t, b, y)

(* ------------------------------------------------- operations *)
KindOf(k) == CASE k = "mk" -> "create" [] k = "rm" -> "delete" [] k = "mod" -> "modify" [] OTHER -> k

FOp(t, o, op, ck) ==
  LET r == Apply(t, op, ck)
      t2 == r.t
      mvset == UNION {Below(t2, m) : m \in r.mvd}
      dead == {x \in Nodes(t) : Alive(t, x) /\ ~Alive(t2, x)}
      more == IF r.mvd # {} \/ (op.op = "mk" /\ op.dir) THEN {PathOf(t2, x) : x \in DirsBelow(t2, o.root)} ELSE {}
  IN [o EXCEPT
        !.due = @ \cup {[k |-> KindOf(r.ch[i].k), d |-> r.ch[i].d, nm |-> r.ch[i].nm, dir |-> r.ch[i].dir] :
                        i \in {j \in 1 .. Len(r.ch) : r.ch[j].d \in o.marked}},
        !.recs = [i \in 1 .. Len(@) |->
            IF @[i].d \in dead THEN [@[i] EXCEPT !.may = TRUE]
            ELSE IF @[i].d \in mvset THEN [@[i] EXCEPT !.paths = @ \cup {Append(PathOf(t2, o.recs[i].d), o.recs[i].nm)},
                                                    !.out = ~Under(t2, o.root, o.recs[i].d)]
            ELSE @[i]],
        !.snap = @ \ mvset, !.still = @ \ mvset, !.ever = @ \cup more, !.quiet = FALSE]

(* ------------------------------------------------- the system *)
(* A record as it was read: r.d is the path of its directory.               *)
Taken(t, o, r) ==
  LET x == IF IsEntry(r.k) \/ r.k = "merged" THEN (IF r.gone THEN 0 ELSE Look(t, r.d)) ELSE 0
  IN [k |-> r.k, d |-> x, nm |-> r.nm, dir |-> r.dir, ck |-> r.ck,
      paths |-> IF x = 0 THEN {} ELSE {Append(r.d, r.nm)},
      may |-> x = 0, out |-> x # 0 /\ ~Under(t, o.root, x), opt |-> FALSE]

Skippable(s) == \A i \in 1 .. Len(s) : s[i].opt \/ s[i].out
Skipping(o) == [o EXCEPT !.notes = @ \cup {"merged" : i \in {j \in 1 .. Len(o.recs) : o.recs[j].opt}}]

FRead(t, o, rs) ==
  IF ~Skippable(o.recs) THEN {}
  ELSE LET b == [i \in 1 .. Len(rs) |-> Taken(t, o, rs[i])]
       IN {[Skipping(o) EXCEPT !.recs = b, !.snap = DirsBelow(t, o.root), !.quiet = TRUE, !.warned = {},
               !.due = @ \ {[k |-> b[i].k, d |-> b[i].d, nm |-> b[i].nm, dir |-> b[i].dir] : i \in 1 .. Len(b)}]}

FMark(t, o, p) == LET x == Look(t, p) IN IF x = 0 THEN o ELSE [o EXCEPT !.marked = @ \cup {x}]

FRefuse(t, o, p) == [o EXCEPT !.refuse = @ \cup {p}, !.owed = @ \cup {p}]

FBlind(t, o, p) ==
  LET x == Look(t, p)
      in == IF x = 0 THEN {} ELSE {y \in Nodes(t) : t.par[y] = x /\ t.dir[y]}
  IN [o EXCEPT !.told = @ \cup {p}, !.blind = @ \cup in,
               !.owed = IF p \in o.refuse \/ p \in o.warned THEN @ ELSE @ \cup {p}]

(* ------------------------------------------------- reports *)
(* A directory is watched, with all in it, when its arrival is reported.    *)
Missing(t, o, ds) ==
  {y \in ds : Alive(t, y) /\ Under(t, o.root, y) /\ y \notin o.marked /\ PathOf(t, y) \notin o.refuse /\ ~FUnsure(t, o, y)
              /\ ~\E q \in o.warned : FPre(q, PathOf(t, y))}
Arrived(t, o, p) ==
  LET x == Look(t, p)
  IN x # 0 /\ t.dir[x] => Missing(t, o, DirsBelow(t, x) \cap o.snap) = {}

FNamed(r, p) == p \in r.paths \/ (r.may /\ p # <<>> /\ p[Len(p)] = r.nm)

FReport(t, o, ev) ==
  LET s == o.recs
      can(j) == j \in 1 .. Len(s) /\ Skippable(SubSeq(s, 1, j - 1))
      pre(j) == IF \E i \in 1 .. j - 1 : s[i].opt THEN {"merged"} ELSE {}
      left(j) == IF s[j].out THEN {"left"} ELSE {}
      halves(j) == j < Len(s) /\ s[j].k = "from" /\ s[j + 1].k = "to" /\ s[j].dir = s[j + 1].dir
      mates(j) == halves(j) /\ s[j + 1].ck = s[j].ck
      single(j) ==
        /\ ~ev.as /\ IsEntry(s[j].k)
        /\ ev.et = FEff(s[j].k) /\ ev.pt = FTyp(s[j].dir) /\ FNamed(s[j], ev.p)
        /\ mates(j) => s[j].may \/ s[j + 1].may
      pair(j) ==
        /\ ev.as /\ halves(j)
        /\ ev.et = "rename" /\ ev.aet = "rename" /\ ev.pt = FTyp(s[j].dir) /\ ev.apt = ev.pt
        /\ FNamed(s[j], ev.p) /\ FNamed(s[j + 1], ev.ap)
      \* one record for the creation and the removal of an entry
      both(j, et) == s[j].k = "merged" /\ ~ev.as /\ ev.et = et /\ ev.pt = FTyp(s[j].dir) /\ FNamed(s[j], ev.p)
      kept(j, n) == [o EXCEPT !.recs = FDrop(s, j + n - 1), !.notes = @ \cup pre(j) \cup left(j)]
      half(j, k) == [o EXCEPT !.recs = <<[s[j] EXCEPT !.k = k, !.opt = TRUE]>> \o FDrop(s, j), !.notes = @ \cup pre(j)]
      news(j) == s[j].dir /\ s[j].k \in {"create", "to"}
  IN {kept(j, 1) : j \in {i \in 1 .. Len(s) : can(i) /\ single(i) /\ (news(i) => Arrived(t, o, ev.p))}}
     \cup {kept(j, 2) : j \in {i \in 1 .. Len(s) : can(i) /\ pair(i) /\ mates(i) /\ (s[i].dir => Arrived(t, o, ev.ap))}}
     \cup {[kept(j, 2) EXCEPT !.notes = @ \cup {"unrelated"}] :
             j \in {i \in 1 .. Len(s) : can(i) /\ pair(i) /\ ~mates(i) /\ (s[i].dir => Arrived(t, o, ev.ap))}}
     \cup {half(j, "delete") : j \in {i \in 1 .. Len(s) : can(i) /\ both(i, "create")}}
     \cup {half(j, "create") : j \in {i \in 1 .. Len(s) : can(i) /\ both(i, "destroy")}}

(* A warning about a record: one which cannot be resolved.                  *)
FBad(o) ==
  LET s == o.recs
      js == {j \in 1 .. Len(s) : Skippable(SubSeq(s, 1, j - 1)) /\ (s[j].k = "bad" \/ (IsEntry(s[j].k) /\ s[j].may))}
  IN {[Skipping([o EXCEPT !.recs = SubSeq(s, 1, j - 1)]) EXCEPT !.recs = FDrop(s, j)] : j \in js}

FOverflow(o) ==
  LET s == o.recs
      js == {j \in 1 .. Len(s) : Skippable(SubSeq(s, 1, j - 1)) /\ s[j].k = "ovf"}
  IN {[Skipping([o EXCEPT !.recs = SubSeq(s, 1, j - 1)]) EXCEPT !.recs = FDrop(s, j)] : j \in js}

(* A warning that a directory is not watched: true only of a directory that *)
(* is not there (any more) or which the system refuses to watch.            *)
FWarn(t, o, p) ==
  LET x == Look(t, p)
      known == p \in o.ever \/ \E i \in 1 .. Len(o.recs) : o.recs[i].dir /\ (p \in o.recs[i].paths \/ (o.recs[i].may /\ p # <<>> /\ p[Len(p)] = o.recs[i].nm))
      gone == x = 0 \/ ~t.dir[x]
  IN IF (known /\ (gone \/ ~o.quiet)) \/ p \in o.refuse \/ p \in o.told
     THEN {[o EXCEPT !.warned = @ \cup {p}, !.owed = @ \ {p}]}
     ELSE {}

(* Started: every directory that was there all along is marked.             *)
FReady(t, o) == IF Missing(t, o, o.still) = {} THEN {o} ELSE {}

(* Nothing is pending.                                                      *)
Heard(t, o, y) == (o.refuse = {} /\ o.blind = {}) \/ y = o.root \/ t.par[y] \in o.marked
FIdle(t, o) ==
  IF /\ Skippable(o.recs)
     /\ \A c \in o.due : ~Alive(t, c.d)
     /\ {y \in Missing(t, [o EXCEPT !.warned = {}], DirsBelow(t, o.root)) : Heard(t, o, y)} = {}
  THEN {[Skipping(o) EXCEPT !.recs = <<>>, !.warned = {}]}
  ELSE {}
=============================================================================
