-------------------------------- MODULE Coding --------------------------------
(* What media types and content codings mean for serialized representations.  *)
(* Bytes are abstract: a document in some format, wrapped in the formats that *)
(* were applied to it, innermost first.                                       *)
EXTENDS Text

CONSTANT Known    \* codings known to be written in another format than the registered one

(* ------------------------------ registries ------------------------------- *)
MediaKey(ct) == Lower(Trim(Split(ct, ";")[1]))
BuiltinDocument(key) ==
  CASE key = "application/json" -> "json"
    [] key \in {"application/xml", "text/html"} -> "xml"
    [] key \in {"application/yaml", "text/yaml"} -> "yaml"
    [] OTHER -> ""
DocumentFormat(c) ==
  LET key == MediaKey(c.ct)
  IN IF c.marshallers = <<>> THEN BuiltinDocument(key)
     ELSE IF key \in Range(c.marshallers) THEN "custom:" \o key ELSE ""

\* RFC 7230 section 4.2: the format registered for a coding
RegisteredFormat(coding) ==
  CASE coding \in {"gzip", "x-gzip"} -> "gzip"
    [] coding = "deflate" -> "zlib"
    [] coding \in {"compress", "x-compress"} -> "lzw"
    [] OTHER -> ""
\* ... unless it is on record that the implementation uses another one
CodingFormat(coding) ==
  LET K == {x \in Known : x.coding = coding}
  IN IF K = {} THEN RegisteredFormat(coding) ELSE (CHOOSE x \in K : TRUE).format
LayerFormat(c, coding) ==
  IF c.coders = <<>> THEN CodingFormat(coding)
  ELSE IF coding \in Range(c.coders) THEN "custom:" \o coding ELSE ""

Applied(c) ==
  SelectSeq([i \in 1..Len(c.enc) |-> Lower(c.enc[i])], LAMBDA x : x # "identity")
WantedLayers(c) == [i \in 1..Len(Applied(c)) |-> LayerFormat(c, Applied(c)[i])]
\* formats with a checksum of their content, so that corruption shows; that
\* they are truncated shows with all of them
Checked(f) == f \in {"gzip", "zlib"}
\* documents that show that they are truncated
Delimited(f) == f # "yaml"

Refused(c) == DocumentFormat(c) = "" \/ \E i \in 1..Len(Applied(c)) : WantedLayers(c)[i] = ""
RefusedFor(c) == IF DocumentFormat(c) = "" THEN "type" ELSE "coding"
\* the formats as registered, whatever is known
RegisteredLayers(c) ==
  [i \in 1..Len(Applied(c)) |-> IF c.coders = <<>> THEN RegisteredFormat(Applied(c)[i]) ELSE LayerFormat(c, Applied(c)[i])]

(* ------------------------- what may become of it ------------------------- *)
\* Results of restoring a document with layers ls around it, the outermost of
\* which was hurt: "same" content, "differs" or "err"
RECURSIVE Ends(_, _, _)
Ends(ls, document, hurt0) ==
  IF hurt0 = "no" THEN {"same"}
  ELSE IF ls = <<>> THEN (IF hurt0 = "cut" /\ Delimited(document) THEN {"err"} ELSE {"same", "differs", "err"})
  ELSE IF hurt0 = "cut" THEN {"err"}
  ELSE IF Checked(ls[Len(ls)]) THEN {"same", "err"}
  ELSE {"same", "err"} \union Ends(SubSeq(ls, 1, Len(ls) - 1), document, hurt0)

=============================================================================
