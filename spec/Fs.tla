--------------------------------- MODULE Fs ---------------------------------
(* A file tree, and what operations on it change.                           *)
(* Every directory entry is a node. Node 1 is the scratch directory which   *)
(* contains both the watched trees and the places outside of them.          *)
(* A tree is a record of three parallel sequences indexed by node:          *)
(*    par  the parent node (0 for node 1 and for entries that are gone)     *)
(*    nm   the name in the parent                                           *)
(*    dir  whether the entry is a directory                                 *)
EXTENDS Integers, Sequences, FiniteSets

EmptyFs == [par |-> <<0>>, nm |-> <<"">>, dir |-> <<TRUE>>]

Nodes(t) == 1 .. Len(t.par)

Child(t, d, name) ==
  LET c == {x \in Nodes(t) : t.par[x] = d /\ t.nm[x] = name}
  IN IF d = 0 \/ c = {} THEN 0 ELSE CHOOSE x \in c : TRUE

RECURSIVE LookFrom(_, _, _)
LookFrom(t, d, p) ==
  IF p = <<>> \/ d = 0 THEN d ELSE LookFrom(t, Child(t, d, Head(p)), Tail(p))
Look(t, p) == LookFrom(t, 1, p)

RECURSIVE PathOf(_, _)
PathOf(t, x) == IF x = 1 \/ x = 0 THEN <<>> ELSE Append(PathOf(t, t.par[x]), t.nm[x])

(* Is x the node a, or below it? *)
RECURSIVE Under(_, _, _)
Under(t, a, x) == IF x = a THEN TRUE ELSE IF x = 0 \/ x = 1 THEN FALSE ELSE Under(t, a, t.par[x])

Alive(t, x) == x = 1 \/ t.par[x] # 0
Below(t, a) == {x \in Nodes(t) : Alive(t, x) /\ Under(t, a, x)}
DirsBelow(t, a) == {x \in Below(t, a) : t.dir[x]}
IsEmpty(t, x) == \A y \in Nodes(t) : t.par[y] # x

DirName(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]

(* The raw changes an operation makes: in which directory (node), to which  *)
(* name, what kind. ck ties the two halves of one rename together.          *)
Chg(k, d, nm, dir, x, ck) == [k |-> k, d |-> d, nm |-> nm, dir |-> dir, x |-> x, ck |-> ck]

Add(t, d, name, dir) ==
  [par |-> Append(t.par, d), nm |-> Append(t.nm, name), dir |-> Append(t.dir, dir)]

Gone(t, x) == IF x = 0 THEN t ELSE [t EXCEPT !.par[x] = 0]

(* Operations. Each is applied only when the real system said it succeeded, *)
(* or, in the exploring specifications, when CanOp holds.                   *)
(*   mk p (dir)   mod p   rm p   mv p q   xch p q                           *)
Apply(t, op, ck) ==
  LET d  == Look(t, DirName(op.p))
      x  == Look(t, op.p)
      d2 == IF op.q = <<>> THEN 0 ELSE Look(t, DirName(op.q))
      y  == IF op.q = <<>> THEN 0 ELSE Look(t, op.q)
  IN CASE op.op = "mk" ->
            [t |-> Add(t, d, Base(op.p), op.dir),
             ch |-> <<Chg("mk", d, Base(op.p), op.dir, Len(t.par) + 1, 0)>>,
             mvd |-> {}]
       [] op.op = "mod" ->
            [t |-> t, ch |-> <<Chg("mod", d, Base(op.p), t.dir[x], x, 0)>>, mvd |-> {}]
       [] op.op = "rm" ->
            [t |-> Gone(t, x), ch |-> <<Chg("rm", d, Base(op.p), t.dir[x], x, 0)>>, mvd |-> {}]
       [] op.op = "mv" /\ x = y ->
            [t |-> t, ch |-> <<>>, mvd |-> {}]
       [] op.op = "mv" /\ x # y ->
            [t |-> [Gone(t, y) EXCEPT !.par[x] = d2, !.nm[x] = Base(op.q)],
             ch |-> <<Chg("from", d, Base(op.p), t.dir[x], x, ck),
                      Chg("to", d2, Base(op.q), t.dir[x], x, ck)>>,
             mvd |-> IF t.dir[x] THEN {x} ELSE {}]
       [] op.op = "xch" ->
            [t |-> [t EXCEPT !.par[x] = d2, !.nm[x] = Base(op.q), !.par[y] = d, !.nm[y] = Base(op.p)],
             ch |-> <<Chg("from", d, Base(op.p), t.dir[x], x, ck),
                      Chg("to", d2, Base(op.q), t.dir[x], x, ck),
                      Chg("from", d2, Base(op.q), t.dir[y], y, ck + 1),
                      Chg("to", d, Base(op.p), t.dir[y], y, ck + 1)>>,
             mvd |-> {z \in {x, y} : t.dir[z]}]
       [] OTHER -> [t |-> t, ch |-> <<>>, mvd |-> {}]

(* What POSIX allows. *)
CanOp(t, op) ==
  LET d  == Look(t, DirName(op.p))
      x  == Look(t, op.p)
      d2 == IF op.q = <<>> THEN 0 ELSE Look(t, DirName(op.q))
      y  == IF op.q = <<>> THEN 0 ELSE Look(t, op.q)
  IN CASE op.op = "mk"  -> d # 0 /\ t.dir[d] /\ x = 0
       [] op.op = "mod" -> x # 0 /\ ~t.dir[x]
       [] op.op = "rm"  -> x # 0 /\ (t.dir[x] => IsEmpty(t, x))
       [] op.op = "mv"  -> /\ x # 0 /\ d2 # 0 /\ t.dir[d2]
                           /\ x # y
                           /\ ~Under(t, x, d2)
                           /\ y # 0 => /\ t.dir[x] = t.dir[y]
                                       /\ t.dir[y] => IsEmpty(t, y)
       [] op.op = "xch" -> /\ x # 0 /\ y # 0 /\ x # y
                           /\ ~Under(t, x, y) /\ ~Under(t, y, x)
       [] OTHER -> FALSE
=============================================================================
