------------------------------- MODULE Suite -------------------------------
(* File resolvers, and running the scenario and test files of a directory.   *)
(* A tree is a sequence of files, paths relative to the working directory,   *)
(* which is also called /R.  A file:                                         *)
(*   [p path, k kind, data bytes, docs sequence of documents]                *)
(* kinds: "data" any file, "doc" a scenario (one document) or a test file    *)
(* (any number), "junk" text that is neither.  A document:                   *)
(*   [name, refs values of the form file:, ext paths of external steps,      *)
(*    fails whether the executor refuses it].                                *)
EXTENDS Paths
pRoot == S("/R")
RootDir == S("/R/")
Inside(p) == p = pRoot \/ p = Dot \/ HasPrefix(p, RootDir) \/ (p[1] # Slash /\ ~(p = DotDot \/ HasPrefix(p, S("../"))))
Rel(p) == LET c == Clean(p) IN IF c = pRoot THEN Dot ELSE IF HasPrefix(c, RootDir) THEN DropPrefix(c, RootDir) ELSE c
FileAt(tree, p) == SelectInSeq(tree, LAMBDA f : f.p = Rel(p))

(* ---- resolvers: [ctx path of the file being read, rep sequence of <<value, path>>, the last one counts] ---- *)
NewResolver == [ctx |-> <<>>, rep |-> <<>>]
Absolute(r, v) ==
  LET ks == {k \in 1 .. Len(r.rep) : r.rep[k][1] = v}
  IN IF ks # {} THEN r.rep[CHOOSE k \in ks : \A j \in ks : j <= k][2] ELSE Join(Dir(r.ctx), v)
Contents(tree, r, v) ==
  IF v = <<>> THEN [ok |-> TRUE, v |-> <<>>]
  ELSE LET k == FileAt(tree, Absolute(r, v)) IN IF k = 0 THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> tree[k].data]

(* ---- running one file: what the executor sees, and whether the run succeeds ---- *)
AbsPath(p) == IF p # <<>> /\ p[1] = Slash THEN Clean(p) ELSE Join(pRoot, p)
Doc(tree, r, d) ==
  LET vs == [k \in 1 .. Len(d.refs) |-> Contents(tree, r, d.refs[k])]
  IN [ok |-> \A k \in 1 .. Len(vs) : vs[k].ok,
      e |-> [k |-> "exec", name |-> d.name, vals |-> [k \in 1 .. Len(vs) |-> vs[k].v], ext |-> [k \in 1 .. Len(d.ext) |-> Absolute(r, d.ext[k])]]]
One(tree, reps, path, tests) ==          \* tests: a test file runs until one of its tests fails
  LET k == FileAt(tree, AbsPath(path)) IN
  IF k = 0 \/ tree[k].k # "doc" THEN [ok |-> FALSE, log |-> <<>>]
  ELSE LET f == tree[k]
           r == [ctx |-> AbsPath(path), rep |-> reps]
           ds == [j \in 1 .. Len(f.docs) |-> Doc(tree, r, f.docs[j])]
           bad == {j \in 1 .. Len(ds) : f.docs[j].fails}
           n == IF bad = {} THEN Len(ds) ELSE CHOOSE j \in bad : \A x \in bad : j <= x
       IN IF \E j \in 1 .. Len(ds) : ~ds[j].ok THEN [ok |-> FALSE, log |-> <<>>]
          ELSE [ok |-> bad = {}, log |-> [j \in 1 .. n |-> ds[j].e]]

(* ---- running a directory ---- *)
Below(tree, main) ==                     \* the files of the directory, as the walk calls them, in its order
  LET m == Rel(main)
      under == SelectSeq([k \in 1 .. Len(tree) |-> tree[k].p], LAMBDA p : m = Dot \/ p = m \/ HasPrefix(p, m \o <<Slash>>))
      name(p) == IF p = m THEN main ELSE Join(main, IF m = Dot THEN p ELSE From(p, Len(m) + 2))
      sorted == SortSeq(under, WalkBefore)
  IN [k \in 1 .. Len(sorted) |-> name(sorted[k])]
Excluded(general, excl, p) == \E k \in 1 .. Len(excl) : Matches(Join(general, excl[k]), p)
All(tree, reps, x) ==                    \* x: [general, specific, suffix, excl, tests]
  LET sel == SelectSeq(Below(tree, Join(x.general, x.specific)), LAMBDA p : HasSuffix(p, x.suffix))
      step(acc, p) ==
        IF Excluded(x.general, x.excl, p) THEN [acc EXCEPT !.skipped = @ + 1]
        ELSE LET o == One(tree, reps, p, x.tests)
                 log == acc.log \o (IF x.tests THEN <<>> ELSE <<[k |-> "reset"]>>) \o o.log
             IN IF o.ok THEN [acc EXCEPT !.passed = @ + 1, !.log = log] ELSE [acc EXCEPT !.failed = @ + 1, !.log = log]
      end == FoldLeft(step, [passed |-> 0, failed |-> 0, skipped |-> 0, log |-> <<>>], sel)
  IN [ok |-> end.failed = 0, log |-> end.log, passed |-> end.passed, failed |-> end.failed, skipped |-> end.skipped]
=============================================================================
