-------------------------------- MODULE Codec --------------------------------
(* Serialized representations: what becomes of a document on its way through  *)
(* the marshaller of its media type and its content codings, over a wire that *)
(* may damage it, and back.                                                   *)
(*                                                                            *)
(*   marshal - encode* - wire - decode* - unmarshal - done                    *)
(*                                                                            *)
(* A marshaller or coder that is supplied may fail at any point of its use.   *)
EXTENDS Coding

CONSTANT Codecs  \* the set of cases to explore

VARIABLES cc,     \* the case: media type, codings, custom implementations
          phase, doc, layers, k, dealt, hurt, ret, why
cvars == <<cc, phase, doc, layers, k, dealt, hurt, ret, why>>

(* ------------------------------ the machine ------------------------------ *)
CodecInit ==
  /\ cc \in Codecs
  /\ phase = "marshal" /\ doc = "" /\ layers = <<>> /\ k = 1 /\ dealt = "no" /\ hurt = "no" /\ ret = "" /\ why = ""

\* the part that is supplied for the coding or media type fails in one of these ways
Strikes(own, of, ways) == own # <<>> /\ Lower(of) = cc.faulty /\ cc.fault \in ways

End(r, w) == phase' = "done" /\ ret' = r /\ why' = w

Marshal ==
  /\ phase = "marshal"
  /\ IF DocumentFormat(cc) = "" THEN End("err", "type") /\ UNCHANGED doc
     ELSE IF Strikes(cc.marshallers, MediaKey(cc.ct), {"marshal"}) THEN End("err", "fault") /\ UNCHANGED doc
     ELSE doc' = DocumentFormat(cc) /\ phase' = "encode" /\ UNCHANGED <<ret, why>>
  /\ UNCHANGED <<cc, layers, k, dealt, hurt>>

Encode ==
  /\ phase = "encode"
  /\ IF k > Len(cc.enc) THEN phase' = "wire" /\ UNCHANGED <<layers, k, ret, why>>
     ELSE LET coding == Lower(cc.enc[k]) IN
       IF coding = "identity" THEN k' = k + 1 /\ UNCHANGED <<phase, layers, ret, why>>
       ELSE IF LayerFormat(cc, coding) = "" THEN End("err", "coding") /\ UNCHANGED <<layers, k>>
       ELSE IF Strikes(cc.coders, coding, {"wopen", "write", "wclose"}) THEN End("err", "fault") /\ UNCHANGED <<layers, k>>
       ELSE layers' = Append(layers, LayerFormat(cc, coding)) /\ k' = k + 1 /\ UNCHANGED <<phase, ret, why>>
  /\ UNCHANGED <<cc, doc, dealt, hurt>>

\* the outermost layer may get truncated or corrupted on the way
Wire ==
  /\ phase = "wire"
  /\ hurt' \in {"no"} \union (CASE cc.damage = "cut" -> {"cut"} [] cc.damage = "flip" -> {"flip"} [] OTHER -> {})
  /\ dealt' = hurt'
  /\ phase' = "decode"
  /\ UNCHANGED <<cc, doc, layers, k, ret, why>>

\* the last layer is taken off first
Decode ==
  /\ phase = "decode"
  /\ IF layers = <<>> THEN phase' = "unmarshal" /\ UNCHANGED <<layers, hurt, ret, why>>
     ELSE LET f == layers[Len(layers)]
              breaks == cc.coders # <<>> /\ f = "custom:" \o cc.faulty /\ cc.fault \in {"ropen", "read", "rclose"}
          IN
       IF breaks THEN End("err", "fault") /\ UNCHANGED <<layers, hurt>> ELSE
       \/ hurt = "no" /\ layers' = SubSeq(layers, 1, Len(layers) - 1) /\ UNCHANGED <<phase, hurt, ret, why>>
       \/ hurt # "no" /\ End("err", "damage") /\ UNCHANGED <<layers, hurt>>
       \* without a checksum corruption passes on to what is inside,
       \* and bits that carry no information may be corrupted unnoticed
       \/ hurt = "flip" /\ ~Checked(f) /\ layers' = SubSeq(layers, 1, Len(layers) - 1)
          /\ UNCHANGED <<phase, hurt, ret, why>>
       \/ hurt = "flip" /\ layers' = SubSeq(layers, 1, Len(layers) - 1) /\ hurt' = "no"
          /\ UNCHANGED <<phase, ret, why>>
  /\ UNCHANGED <<cc, doc, k, dealt>>

Unmarshal ==
  /\ phase = "unmarshal"
  /\ IF Strikes(cc.marshallers, MediaKey(cc.ct), {"unmarshal"}) THEN End("err", "fault")
     ELSE IF hurt = "no" THEN End("same", "")
     ELSE \/ End("err", "damage")
          \/ (hurt = "flip" \/ ~Delimited(doc)) /\ \E r \in {"same", "differs"} : End(r, "")
  /\ UNCHANGED <<cc, doc, layers, k, dealt, hurt>>

CodecNext == Marshal \/ Encode \/ Wire \/ Decode \/ Unmarshal
CodecSpec == CodecInit /\ [][CodecNext]_cvars /\ WF_cvars(CodecNext)

(* ------------------------------- properties ------------------------------ *)
\* C13
CodedAsDeclared ==
  phase = "wire" => layers = WantedLayers(cc) /\ doc = DocumentFormat(cc)
RefusedIfUnsupported ==
  phase = "done" => /\ why \in {"type", "coding"} => Refused(cc)
                    /\ Refused(cc) => ret = "err" /\ why \in {"type", "coding", "fault"}
\* C14
OuterChecked == WantedLayers(cc) # <<>> /\ Checked(WantedLayers(cc)[Len(WantedLayers(cc))])
Inverts == (phase = "done" /\ dealt = "no" /\ why \notin {"type", "coding", "fault"}) => ret = "same"
CutIsNoticed ==
  (phase = "done" /\ dealt = "cut" /\ (WantedLayers(cc) # <<>> \/ Delimited(doc))) => ret = "err"
FlipIsNoticed == (phase = "done" /\ dealt = "flip" /\ OuterChecked) => ret # "differs"
EndsAsPredicted ==
  (phase = "done" /\ why \notin {"type", "coding", "fault"}) => ret \in Ends(WantedLayers(cc), doc, dealt)
\* C21: what fails is used, and then nothing comes of the whole
Struck(c) ==
  /\ ~Refused(c)
  /\ IF c.fault \in {"marshal", "unmarshal"} THEN c.marshallers # <<>> /\ MediaKey(c.ct) = c.faulty
     ELSE c.fault # "" /\ c.coders # <<>> /\ c.faulty # "identity" /\ \E i \in 1..Len(c.enc) : Lower(c.enc[i]) = c.faulty
FaultsSurface ==
  phase = "done" => /\ Struck(cc) => ret = "err"
                    /\ (~Refused(cc) /\ why = "fault") => Struck(cc)
CodecTypeOK == phase \in {"marshal", "encode", "wire", "decode", "unmarshal", "done"} /\ k \in 1..(Len(cc.enc) + 1)
CodecTerminates == <>(phase = "done")
=============================================================================
