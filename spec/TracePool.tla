------------------------------ MODULE TracePool ------------------------------
(* Conformance of pools of serializations: what each operation was observed   *)
(* to end with (pool.pobs) is judged against the machine of Pool.             *)
EXTENDS Pool, IOUtils, Json

CONSTANT Prop

VARIABLE judged

TracePools == Range(ndJsonDeserialize(IOEnv.TRACE))
KnownFormats == Range(ndJsonDeserialize(IOEnv.KNOWN))

P(i) == pool.pobs[i]
Tolerable(i, ls) ==
  /\ Len(ls) = Len(Sub(i).layers)
  /\ \A j \in 1..Len(ls) : ls[j] \in {Sub(i).registered[j], Sub(i).layers[j]}
Holds(i) ==
  /\ P(i).kept
  /\ IF Sub(i).refused THEN P(i).ret = "err" /\ (pool.ops[i].op = "write" => P(i).why = Sub(i).why)
     ELSE IF pool.ops[i].op = "read" THEN P(i).ret \in Alone(i)
     ELSE /\ P(i).ret = "ok" /\ P(i).alike /\ Sub(i).doc \in Range(P(i).fmts)
          /\ \E ls \in Range(P(i).layers) : Tolerable(i, ls)

TracePoolNext ==
  \/ PoolNext /\ UNCHANGED judged
  \/ /\ PoolDone /\ ~judged
     /\ judged' = TRUE /\ UNCHANGED pvars
     /\ LET bad == {i \in DOMAIN ops : ~Holds(i)} \union (IF pool.races = 0 THEN {} ELSE {0})
        IN PrintT("@@" \o ToJson([id |-> pool.id, applied |-> Len(pool.ops), bad |-> bad, known |-> {},
                    want |-> [i \in bad |-> IF i = 0 THEN "no data race" ELSE ToString(Alone(i))]]))
TracePoolInit == PoolInit /\ judged = FALSE
=============================================================================
