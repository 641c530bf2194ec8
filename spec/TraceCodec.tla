----------------------------- MODULE TraceCodec -----------------------------
(* Conformance of serialization: what the implementation was observed to      *)
(* write and to restore (cc.cobs) is judged against the machine of Codec.     *)
EXTENDS Codec, IOUtils, Json

CONSTANT Prop

VARIABLE judged

TraceCodecs == Range(ndJsonDeserialize(IOEnv.TRACE))
KnownFormats == Range(ndJsonDeserialize(IOEnv.KNOWN))

B == cc.cobs
Entry(r) == [ct |-> r.ct, lang |-> r.lang, cs |-> r.cs, enc |-> r.enc, feat |-> r.feat,
             loc |-> r.loc, qs |-> r.qs]
Entries == [i \in 1..Len(cc.reps) |-> Entry(cc.reps[i])]

\* what the machine said of the writing, walked through to its end
WasRefused == ret = "err" /\ why \in {"type", "coding"}
Faulted == ret = "err" /\ why = "fault"
Unwritten == Faulted /\ cc.fault \in {"marshal", "wopen", "write", "wclose"}
Unread == Faulted /\ ~Unwritten
Registered == RegisteredLayers(cc)

\* <<applies, holds, holds apart from what is known>>
C13 ==
  LET serialised == IF WasRefused THEN B.ser = "err" /\ B.sererr = why /\ B.back = "err"
                    ELSE B.ser = "ok" /\ doc \in Range(B.fmts)
      \* in the registered formats, or some in the one known to be used instead
      Tolerable(ls) == /\ Len(ls) = Len(Registered)
                       /\ \A i \in 1..Len(ls) : ls[i] \in {Registered[i], WantedLayers(cc)[i]}
  IN <<~Unwritten, serialised /\ (~WasRefused => Registered \in Range(B.layers)),
             serialised /\ (~WasRefused => \E ls \in Range(B.layers) : Tolerable(ls))>>

Possible(hurt0) == Ends(WantedLayers(cc), doc, hurt0)
C14 ==
  LET sound ==
        /\ B.ser \in {"ok", "err"} /\ B.back \in {"same", "differs", "err"}
        /\ B.ser = "ok" => B.back = IF Unread THEN "err" ELSE "same"
        /\ B.panics = 0
        /\ (B.ser = "ok" /\ cc.damage # "none") =>
             /\ (B.accsame > 0 => "same" \in Possible(cc.damage))
             /\ (B.accdiff > 0 => "differs" \in Possible(cc.damage))
             \* a checksum that was itself corrupted matches nothing
             /\ (cc.damage = "flip" => B.tailacc = 0)
  IN <<~WasRefused /\ ~Unwritten, sound, sound>>

C18 ==
  LET faithful == B.ser = "ok" /\ B.items = Entries /\ B.back = "same" /\ B.backitems = Entries
  IN <<cc.what = "list" /\ ~WasRefused, faithful, faithful>>

\* custom implementations take the place of all of the built-in ones, and what fails
\* of them fails the whole
C21 ==
  LET used == CASE Unwritten -> B.ser = "err"
                [] Unread -> C13[3] /\ B.back = "err"
                [] OTHER -> C13[3] /\ (~WasRefused => B.back = "same")
  IN <<cc.coders # <<>> \/ cc.marshallers # <<>>, used, used>>

Verdict == CASE Prop = "C13" -> C13 [] Prop = "C14" -> C14 [] Prop = "C18" -> C18 [] Prop = "C21" -> C21

\* an intact walk through the machine, then the verdict
TraceCodecNext ==
  \/ CodecNext /\ dealt' = "no" /\ UNCHANGED judged
  \/ /\ phase = "done" /\ ~judged
     /\ judged' = TRUE /\ UNCHANGED cvars
     /\ PrintT("@@" \o ToJson([id |-> cc.id, applied |-> IF Verdict[1] THEN 1 ELSE 0,
                 bad |-> IF Verdict[1] /\ ~Verdict[3] THEN {1} ELSE {},
                 known |-> IF Verdict[1] /\ Verdict[3] /\ ~Verdict[2]
                           THEN {Applied(cc)[i] : i \in {j \in 1..Len(Applied(cc)) : Registered[j] # WantedLayers(cc)[j]}}
                           ELSE {},
                 want |-> IF Verdict[1] /\ ~Verdict[3]
                          THEN <<ToString([ret |-> ret, why |-> why, document |-> doc, layers |-> Registered])>> ELSE <<>>]))
TraceCodecInit == CodecInit /\ judged = FALSE
=============================================================================
