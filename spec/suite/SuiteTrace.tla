----------------------------- MODULE SuiteTrace -----------------------------
EXTENDS Suite, TraceLib
VARIABLES i, tree, rs    \* the files; resolvers by number
vars == <<i, tree, rs>>
Init == i = 1 /\ tree = <<>> /\ rs = <<>>
Ev == Trace[i]
Chk(what, got, want) == got = want \/ (PrintT(<<"MISMATCH", i, what, got, want>>) /\ FALSE)
Same(r) == Chk("ok", Ev.ok, r.ok) /\ (r.ok => Chk("bytes", Ev.out, r.v))
LogIs(want) == Chk("executions", Len(Ev.log), Len(want)) /\ \A k \in 1 .. Len(want) : Chk(<<"execution", k>>, Ev.log[k], want[k])
Answers ==
  CASE Ev.e = "abs" -> Chk("path", Ev.out, Absolute(rs[Ev.r], Ev.v))
    [] Ev.e = "file" -> Same(Contents(tree, rs[Ev.r], Ev.v))
    [] Ev.e = "one" -> LET o == One(tree, Ev.reps, Ev.path, Ev.tests) IN Chk("verdict", Ev.ok, o.ok) /\ LogIs(o.log)
    [] Ev.e = "all" ->
         LET o == All(tree, Ev.reps, Ev)
         IN /\ Chk("verdict", Ev.ok, o.ok) /\ LogIs(o.log)
            /\ Chk("passed", Ev.passed, o.passed) /\ Chk("failed", Ev.failed, o.failed) /\ Chk("skipped", Ev.skipped, o.skipped)
    [] OTHER -> TRUE
Next ==
  /\ i <= Len(Trace) /\ Answers = TRUE
  /\ i' = i + 1
  /\ tree' = IF Ev.e = "tree" THEN Ev.files ELSE tree
  /\ rs' = CASE Ev.e = "new" -> <<NewResolver>>
             [] Ev.e = "context" -> [rs EXCEPT ![Ev.r].ctx = Ev.v]
             [] Ev.e = "replace" -> [rs EXCEPT ![Ev.r].rep = Append(@, <<Ev.v, Ev.to>>)]
             [] Ev.e = "clone" -> Append(rs, rs[Ev.r])
             [] OTHER -> rs
=============================================================================
