------------------------------- MODULE MCCodec -------------------------------
(* Model checking of serialization over sequences of codings, media types and *)
(* custom implementations, which are also written to a file to be executed.   *)
EXTENDS Codec, IOUtils, Json, SequencesExt

CONSTANTS Deep, Part, Parts

NoKnown == {}
Codings == {"gzip", "deflate", "compress", "identity"}
Spelt == {"GZip", "X-GZIP", "x-compress", "Deflate", "IDENTITY", "br"}
UpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
CodingLists == UpTo(Codings, IF Deep THEN 4 ELSE 3) \union UpTo(Codings \union Spelt, IF Deep THEN 3 ELSE 2)
MediaTypes == {"application/json", "application/xml", "text/html", "application/yaml", "text/yaml"}
OddTypes == {"Application/JSON; charset=utf-8", "text/HTML;level=1", "application/yaml ;v=\"a;b\"", "text/plain", "", "json",
             "application/json2"}

Rep(ct, enc, qs) ==
  [ct |-> ct, lang |-> "en-US", cs |-> "utf-8", enc |-> enc, feat |-> <<"tables", "x=[1-2]">>, qs |-> qs, len |-> 1,
   loc |-> "/a?b=c&d=%3Ce%3E", err |-> FALSE]
C0 == [id |-> 0, kind |-> "codec", fam |-> "codec", what |-> "thing", ct |-> "application/json", enc |-> <<>>, reps |-> <<>>,
       name |-> "a <b> & c", items |-> <<"x", "yy">>, num |-> 7, coders |-> <<>>, marshallers |-> <<>>, damage |-> "none",
       fault |-> "", faulty |-> ""]
L0 == [C0 EXCEPT !.what = "list", !.reps = <<Rep("text/html;q=\"<\"", <<"gzip", "br">>, 333), Rep("", <<>>, 0), Rep("", <<>>, 0)>>]

Whole ==
  {[C0 EXCEPT !.ct = t, !.enc = e] : t \in {"application/json"} \union (IF Deep THEN MediaTypes ELSE {}), e \in CodingLists}
  \union {[C0 EXCEPT !.ct = t, !.enc = e] : t \in MediaTypes \union OddTypes, e \in UpTo({"gzip", "compress", "identity"}, 2)}
  \union {[C0 EXCEPT !.ct = t, !.enc = e, !.coders = d, !.marshallers = m] :
            t \in {"application/json", "Text/Plain;a=b", "application/xml"}, e \in UpTo({"gzip", "Br", "identity", "deflate"}, 2),
            d \in {<<>>, <<"br">>, <<"gzip", "br">>, <<"br", "identity">>}, m \in {<<>>, <<"text/plain">>, <<"application/json", "text/plain">>}}
  \union {[L0 EXCEPT !.ct = t, !.enc = e] : t \in MediaTypes, e \in UpTo({"gzip", "deflate", "identity"}, 2)}
  \union {[C0 EXCEPT !.ct = t, !.enc = e, !.damage = d] :
            t \in {"application/json", "application/xml", "application/yaml"}, e \in UpTo({"gzip", "deflate", "compress"}, IF Deep THEN 3 ELSE 2),
            d \in {"cut", "flip"}}
  \union {[C0 EXCEPT !.enc = e, !.coders = <<"br", "gzip", "identity">>, !.fault = f, !.faulty = "br"] :
            e \in UpTo({"gzip", "br", "BR", "identity", "zstd"}, IF Deep THEN 3 ELSE 2), f \in {"wopen", "write", "wclose", "ropen", "read", "rclose"}}
  \union {[C0 EXCEPT !.ct = t, !.enc = e, !.marshallers = <<"text/plain", "application/json">>, !.fault = f, !.faulty = "text/plain"] :
            t \in {"text/plain", "application/json", "Text/PLAIN;a=b"}, e \in UpTo({"gzip", "identity", "br"}, 2), f \in {"marshal", "unmarshal"}}

CodecCases ==
  IF Parts = 1 THEN Whole
  ELSE LET q == SetToSeq(Whole) IN {q[i] : i \in {j \in 1..Len(q) : j % Parts = Part}}

ASSUME ndJsonSerialize(IOEnv.VECTORS, SetToSeq(CodecCases))
=============================================================================
