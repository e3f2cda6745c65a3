------------------------------ MODULE SuiteGen ------------------------------
(* Enumerates trees of files, runs of them and histories of resolvers.       *)
EXTENDS Suite, TLC, Json, IOUtils
VARIABLE x
Data(p, d) == [p |-> S(p), k |-> "data", data |-> d, docs |-> <<>>]
Junk(p) == [p |-> S(p), k |-> "junk", data |-> <<>>, docs |-> <<>>]
D(name, refs, ext, fails) == [name |-> S(name), refs |-> [k \in 1 .. Len(refs) |-> S(refs[k])], ext |-> [k \in 1 .. Len(ext) |-> S(ext[k])], fails |-> fails]
Scen(p, d) == [p |-> S(p), k |-> "doc", data |-> <<>>, docs |-> <<d>>]
Tests(p, ds) == [p |-> S(p), k |-> "doc", data |-> <<>>, docs |-> ds]
Trees == <<
  << Data("top/code/a.wasm", <<1, 2, 3>>), Data("top/code/b.wasm", <<>>), Data("other/a.wasm", <<9>>), Data("a.wasm", <<7, 7>>),
     Scen("top/a/x.scen.json", D("ax", <<"../code/a.wasm">>, <<"y.steps.json", "../b/c/z.scen.json">>, FALSE)),
     Scen("top/a/y.scen.json", D("ay", <<>>, <<>>, FALSE)),
     Scen("top/a.scen.json", D("a", <<"code/a.wasm", "", "./code/../code/b.wasm">>, <<>>, FALSE)),
     Scen("top/b/c/x1.scen.json", D("bcx1", <<"../../code/a.wasm", "../../../other/a.wasm">>, <<"../../a/y.scen.json", "/x">>, FALSE)),
     Scen("top/b/c/x2.scen.json", D("bcx2", <<"../../code/a.wasm">>, <<>>, FALSE)),
     Junk("top/b/readme.json"),
     Scen("top2/a/x.scen.json", D("top2", <<>>, <<>>, FALSE)) >>,
  << Data("top/code/a.wasm", <<4>>), Data("other/a.wasm", <<9>>), Data("a.wasm", <<7, 7>>),
     Scen("top/a/x.scen.json", D("Fx", <<"../code/a.wasm">>, <<>>, TRUE)),
     Scen("top/a/y.scen.json", D("missing", <<"../code/b.wasm">>, <<>>, FALSE)),
     Junk("top/a/z.scen.json"),
     Scen("top/b/c/x1.scen.json", D("last", <<"x.wasm">>, <<>>, FALSE)), Data("top/b/c/x.wasm", <<5>>),
     Scen("top/b/c/x2.scen.json", D("fine", <<>>, <<"x">>, FALSE)) >>,
  << Data("top/code/a.wasm", <<1>>), Data("other/a.wasm", <<9>>), Data("a.wasm", <<7, 7>>),
     Tests("top/a/x.test.json", <<D("t1", <<"../code/a.wasm">>, <<>>, FALSE), D("t2", <<>>, <<>>, FALSE)>>),
     Tests("top/a/y.test.json", <<D("u1", <<>>, <<>>, FALSE), D("Fu2", <<>>, <<>>, TRUE), D("u3", <<>>, <<>>, FALSE)>>),
     Tests("top/b/c/x1.test.json", <<>>),
     Tests("top/b/c/x2.test.json", <<D("v1", <<"../../code/a.wasm">>, <<>>, FALSE)>>),
     Junk("top/b/z.test.json"),
     Tests("top/b/w.test.json", <<D("w1", <<>>, <<>>, FALSE), D("w2", <<"nothing.wasm">>, <<>>, FALSE)>>) >> >>
Txt(s) == [k \in 1 .. Len(s) |-> S(s[k])]
Generals == Txt(<<"", ".", "top", "./top/", "top//b/..", "/R/top", "/R", "/R/top/../top2">>)
Specifics == Txt(<<"", ".", "a", "a/", "b/c", "./b/../a", "a/x.scen.json", "a/x.test.json", "b">>)
Endings == Txt(<<".scen.json", ".test.json", "x.scen.json", "1.scen.json", "y.test.json", ".json">>)
Patterns == Txt(<<"a/*", "*", "b/c/x*.scen.json", "b/*/x1.*", "a/x.scen.jso?", "a", "", "top/a/x.scen.json", "*/*.scen.json", "a/x.scen.json", "a/x.test.json", "a/y.test.json", "b/?/x2.*", "a.scen.json", "x.scen.json">>)
Excls == {<<>>} \cup {<<Patterns[p]>> : p \in 1 .. Len(Patterns)} \cup {<<Patterns[p], Patterns[q]>> : p \in {1, 3, 5, 11}, q \in {4, 10, 12, 13}}
Reps == { <<>>, << <<S("../code/a.wasm"), S("a.wasm")>> >>, << <<S("../code/b.wasm"), S("/R/other/a.wasm")>>, <<S("../code/a.wasm"), S("nowhere.wasm")>> >>,
          << <<S("nothing.wasm"), S("other/../other/a.wasm")>>, <<S("../../code/a.wasm"), S("nowhere.wasm")>>, <<S("../../code/a.wasm"), S("./other/a.wasm")>>, <<S("y.steps.json"), S("elsewhere.json")>> >> }
Paths1 == Txt(<<"top/a/x.scen.json", "/R/top/a.scen.json", "top/./a/../b/c/x1.scen.json", "top/a/x.test.json", "top/a/y.test.json", "top/a/y.scen.json", "top/a/z.scen.json", "top/none.scen.json", "top/a", "top/b/w.test.json", "top/b/c/x1.test.json">>)
Fits(t, su) == IF t = 3 THEN \E s \in {2, 5} : su = Endings[s] ELSE \E s \in {1, 3, 4} : su = Endings[s]
\* (directories do not end like scenarios; everything under the general path exists; a mixture of kinds is not run)
GoodDir(t, g, sp) ==
  LET m == Join(g, sp) IN m # <<>> /\ \E k \in 1 .. Len(Trees[t]) : Rel(m) = Dot \/ Trees[t][k].p = Rel(m) \/ HasPrefix(Trees[t][k].p, Rel(m) \o <<Slash>>)
Runs == {[e |-> "all", tree |-> t, reps |-> r, general |-> g, specific |-> sp, suffix |-> su, excl |-> e, tests |-> t = 3] :
           t \in 1 .. 3, r \in Reps, g \in ToSet(Generals), sp \in ToSet(Specifics), su \in ToSet(Endings), e \in Excls}
AllRuns == {r \in Runs : Fits(r.tree, r.suffix) /\ GoodDir(r.tree, r.general, r.specific)}
Ones == {[e |-> "one", tree |-> t, reps |-> r, path |-> p, tests |-> t = 3] : t \in 1 .. 3, r \in Reps, p \in ToSet(Paths1)}

(* histories of a resolver and its clone *)
Contexts == Txt(<<"", "top/a/x.scen.json", "/R/top/b/c/x1.scen.json", "top//a/", "../up/x", "/">>)
Values == Txt(<<"", "../code/a.wasm", "a.wasm", "..", "/a", "./x/./y", "../../../other/a.wasm", "top/code">>)
Targets == Txt(<<"a.wasm", "/R/other/a.wasm", "nowhere.wasm">>)
Op1 == {[op |-> "context", r |-> r, v |-> c] : r \in 1 .. 2, c \in ToSet(Contexts)} \cup {[op |-> "clone", r |-> 1, v |-> <<>>]}
RepOps == {[op |-> "replace", r |-> 1, v |-> v, to |-> t] : v \in {Values[2], Values[3], Values[5], Values[1]}, t \in ToSet(Targets)}
Hist == {<<a, b, [op |-> "clone", r |-> 1, v |-> <<>>], c, d>> : a \in RepOps, b \in {y \in Op1 : y.op = "context" /\ y.r = 1} \cup RepOps,
          c \in {y \in Op1 : y.op = "context"}, d \in {y \in Op1 : y.op = "context"}}
Out == SetToSeq(AllRuns) \o SetToSeq(Ones) \o SetToSeq({[e |-> "hist", tree |-> 1, ops |-> h] : h \in Hist})
Init == /\ x = 0
        /\ ndJsonSerialize(IOEnv.OUT, <<[e |-> "trees", trees |-> Trees, values |-> Values]>> \o Out)
        /\ PrintT(<<"GENERATED", Len(Out)>>)
Next == FALSE /\ UNCHANGED x
=============================================================================
