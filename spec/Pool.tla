-------------------------------- MODULE Pool --------------------------------
(* Many serializations and deserializations of the same representations, one  *)
(* after the other or concurrently.  Each walks through                       *)
(*                                                                            *)
(*   write: marshal - encode* - handed over           read: decode* - restored *)
(*                                                                            *)
(* and what it hands over belongs to the caller from then on.                 *)
EXTENDS Coding

CONSTANTS Pools,      \* the set of cases to explore
          TakeTurns  \* whether concurrent operations take turns in every order

VARIABLES pool,   \* the case: subjects, and operations on them
          subs,   \* what the subjects amount to (fixed by pool)
          ops,    \* the state of each operation
          handed  \* what was handed over by the operations that are through
pvars == <<pool, subs, ops, handed>>

Summary(c) ==
  [refused |-> Refused(c), why |-> IF Refused(c) THEN RefusedFor(c) ELSE "", doc |-> DocumentFormat(c),
   layers |-> WantedLayers(c), registered |-> RegisteredLayers(c)]
Sub(i) == subs[pool.ops[i].of]
\* damage is done to the form that the subject has alone
Unstarted == [pc |-> "start", doc |-> "", layers |-> <<>>, k |-> 1, hurt |-> "no", ret |-> "", why |-> ""]

PoolInit == pool \in Pools /\ subs = [i \in 1..Len(pool.subjects) |-> Summary(pool.subjects[i])]
            /\ ops = [i \in 1..Len(pool.ops) |-> Unstarted]
            /\ handed = [i \in {} |-> Unstarted]

Busy == {i \in DOMAIN ops : ops[i].pc # "done"}
MayStep(i) == i \in Busy /\ ((pool.conc /\ TakeTurns) \/ \A j \in 1..(i - 1) : ops[j].pc = "done")
Set(i, new) == ops' = [ops EXCEPT ![i] = new] /\ UNCHANGED <<pool, subs, handed>>
Through(i, new) ==
  LET fin == [new EXCEPT !.pc = "done"]
  IN /\ ops' = [ops EXCEPT ![i] = fin]
     /\ handed' = [j \in DOMAIN handed \union {i} |-> IF j = i THEN fin ELSE handed[j]]
     /\ UNCHANGED <<pool, subs>>

Start(i) ==
  /\ MayStep(i) /\ ops[i].pc = "start"
  /\ IF pool.ops[i].op = "write" THEN Set(i, [ops[i] EXCEPT !.pc = "marshal"])
     ELSE IF Sub(i).refused THEN Through(i, [ops[i] EXCEPT !.ret = "err", !.why = Sub(i).why])
     ELSE Set(i, [ops[i] EXCEPT !.pc = "decode", !.doc = Sub(i).doc,
                    !.layers = Sub(i).layers, !.hurt = pool.ops[i].hurt])

MarshalOne(i) ==
  /\ MayStep(i) /\ ops[i].pc = "marshal"
  /\ IF Sub(i).doc = "" THEN Through(i, [ops[i] EXCEPT !.ret = "err", !.why = "type"])
     ELSE Set(i, [ops[i] EXCEPT !.pc = "encode", !.doc = Sub(i).doc])

EncodeOne(i) ==
  /\ MayStep(i) /\ ops[i].pc = "encode"
  /\ LET k == ops[i].k
         list == Sub(i).layers IN
     IF k > Len(list) THEN Through(i, [ops[i] EXCEPT !.ret = "ok"])
     ELSE IF list[k] = "" THEN Through(i, [ops[i] EXCEPT !.ret = "err", !.why = "coding"])
     ELSE Set(i, [ops[i] EXCEPT !.k = k + 1, !.layers = Append(@, list[k])])

DecodeOne(i) ==
  LET ls == ops[i].layers
      inner == SubSeq(ls, 1, Len(ls) - 1)
      hurt == ops[i].hurt
  IN /\ MayStep(i) /\ ops[i].pc = "decode"
     /\ IF ls = <<>> THEN
          IF hurt = "no" THEN Through(i, [ops[i] EXCEPT !.ret = "same"])
          ELSE \/ Through(i, [ops[i] EXCEPT !.ret = "err", !.why = "damage"])
               \/ /\ hurt = "flip" \/ ~Delimited(ops[i].doc)
                  /\ \E r \in {"same", "differs"} : Through(i, [ops[i] EXCEPT !.ret = r])
        ELSE
          \/ hurt = "no" /\ Set(i, [ops[i] EXCEPT !.layers = inner])
          \/ hurt # "no" /\ Through(i, [ops[i] EXCEPT !.ret = "err", !.why = "damage"])
          \/ hurt = "flip" /\ ~Checked(ls[Len(ls)]) /\ Set(i, [ops[i] EXCEPT !.layers = inner])
          \/ hurt = "flip" /\ Set(i, [ops[i] EXCEPT !.layers = inner, !.hurt = "no"])

PoolNext == \E i \in Busy : Start(i) \/ MarshalOne(i) \/ EncodeOne(i) \/ DecodeOne(i)
PoolDone == Busy = {}
PoolSpec == PoolInit /\ [][PoolNext]_pvars /\ WF_pvars(PoolNext)

(* ------------------------------- properties ------------------------------ *)
\* what an operation may end with, going by itself and its subject alone
Alone(i) ==
  IF Sub(i).refused THEN {"err"}
  ELSE IF pool.ops[i].op = "write" THEN {"ok"}
  ELSE Ends(Sub(i).layers, Sub(i).doc, pool.ops[i].hurt)
EndsAsAlone ==
  \A i \in DOMAIN ops \ Busy :
    /\ ops[i].ret \in Alone(i)
    /\ (pool.ops[i].op = "write" /\ ops[i].ret = "ok") =>
         ops[i].doc = Sub(i).doc /\ ops[i].layers = Sub(i).layers
    /\ Sub(i).refused => ops[i].why = Sub(i).why
KeepsWhatWasHanded == \A i \in DOMAIN handed : i \notin Busy /\ handed[i] = ops[i]
HandsOverOnce == [][\A i \in DOMAIN handed : handed'[i] = handed[i]]_pvars
PoolTerminates == <>PoolDone
=============================================================================
