------------------------------- MODULE MCPool -------------------------------
(* Model checking of pools of operations, which are also written to a file.   *)
EXTENDS Pool, IOUtils, Json, SequencesExt

CONSTANTS Deep, Part, Parts

NoKnown == {}
Subject(what, ct, enc, coders) ==
  [what |-> what, ct |-> ct, enc |-> enc, coders |-> coders, marshallers |-> <<>>,
   name |-> IF what = "list" THEN "" ELSE ct \o " <b> &c", num |-> Len(ct), items |-> IF what = "list" THEN <<>> ELSE <<"x", "yy">>,
   reps |-> IF what # "list" THEN <<>>
            ELSE <<[ct |-> "text/html", lang |-> "en", cs |-> "utf-8", enc |-> <<"gzip">>, feat |-> <<"tables">>, qs |-> 333,
                    len |-> 1, loc |-> "/a?b=c", err |-> FALSE]>>]
Subjects == <<
  Subject("thing", "application/json", <<>>, <<>>), Subject("thing", "application/xml", <<"gzip">>, <<>>),
  Subject("thing", "application/yaml", <<"deflate", "gzip">>, <<>>), Subject("list", "application/json", <<"compress">>, <<>>),
  Subject("thing", "text/html", <<"br">>, <<"br">>), Subject("thing", "text/plain", <<>>, <<>>),
  Subject("list", "application/xml", <<"zstd">>, <<>>)>>
Op(o, i, h) == [op |-> o, of |-> i, hurt |-> h, at |-> 500]
SomeOps == {Op("write", i, "no") : i \in 1..7} \union {Op("read", i, "no") : i \in 1..7}
           \union {Op("read", i, h) : i \in (IF Deep THEN 1..5 ELSE {2, 3}), h \in {"cut", "flip"}}
Few == {Op("write", i, "no") : i \in {1, 2, 3, 7}} \union {Op("read", i, "no") : i \in {1, 2, 4}} \union {Op("read", 2, "cut"), Op("read", 3, "flip")}
Pool0(conc, os) ==
  [id |-> 0, kind |-> "pool", fam |-> "pool", conc |-> conc, pause |-> FALSE, rounds |-> IF conc THEN 3 ELSE 1, subjects |-> Subjects, ops |-> os]
WholePool ==
  {Pool0(c, <<x, y>>) : c \in BOOLEAN, x \in SomeOps, y \in SomeOps}
  \union {Pool0(FALSE, <<x, y, z>>) : x \in Few, y \in Few, z \in Few}
  \union (IF Deep THEN {Pool0(TRUE, <<x, y, z>>) : x \in Few, y \in Few, z \in Few} ELSE {})

PoolCases ==
  IF Parts = 1 THEN WholePool
  ELSE LET q == SetToSeq(WholePool) IN {q[i] : i \in {j \in 1..Len(q) : j % Parts = Part}}

ASSUME ndJsonSerialize(IOEnv.VECTORS, SetToSeq(PoolCases))
=============================================================================
