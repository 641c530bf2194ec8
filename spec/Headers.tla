------------------------------- MODULE Headers -------------------------------
(* The negotiation header fields: their grammar (RFC 7231 section 5.3, RFC    *)
(* 2295 sections 6 and 8) as functions from the raw field lines to abstract   *)
(* preferences.  A field is [p |-> present, l |-> lines].  A parsed field is  *)
(* [ok |-> well-formed, es |-> elements].  Weights are integers from 0 to     *)
(* 1000 (thousandths), which is the precision RFC 7231 gives to them.         *)
EXTENDS Text

NoField == [p |-> FALSE, l |-> <<>>]
Bad == [ok |-> FALSE, es |-> <<>>]
None == [ok |-> TRUE, es |-> <<>>]

\* Elements of a list-based field: the lines form one comma separated list.
\* Empty elements do not count, but a field line that consists of nothing is
\* kept, because the fields differ in whether they may be empty.
LineElements(line) ==
  LET parts == Split(line, ",")
      trimmed == [i \in 1..Len(parts) |-> Trim(parts[i])]
  IN IF Len(parts) = 1 THEN trimmed ELSE SelectSeq(trimmed, LAMBDA x : x # "")
Elements(lines) == FlatMap(LineElements, lines)

ParseAll(parse(_), elements) ==
  LET parsed == [i \in 1..Len(elements) |-> parse(elements[i])]
  IN IF \E i \in 1..Len(parsed) : ~parsed[i].ok THEN Bad
     ELSE [ok |-> TRUE, es |-> [i \in 1..Len(parsed) |-> parsed[i].e]]

BadElement == [ok |-> FALSE, e |-> <<>>]
Element(e) == [ok |-> TRUE, e |-> e]

\* A weight in thousandths, or -1 if it is not one.
Weight(s) ==
  LET dot == Index(s, ".")
      int == IF dot = 0 THEN s ELSE Upto(s, dot - 1)
      frac == IF dot = 0 THEN "" ELSE From(s, dot + 1)
      padded == SubSeq(frac \o "000", 1, 3)
      value == NatOf(int) * 1000 + NatOf(padded)
  IN IF int = "" \/ Len(int) > 4 \/ Len(frac) > 3 \/ ~AllIn(int \o frac, Digits) THEN -1
     ELSE IF value > 1000 THEN -1 ELSE value

\* "token;q=0.5" -> [name, weight] where the weight is -1 if malformed
NameAndWeight(e) ==
  LET semi == Index(e, ";")
      rest == Trim(From(e, semi + 1))
      eq == Index(rest, "=")
      w == IF eq # 0 /\ Lower(Trim(Upto(rest, eq - 1))) = "q"
           THEN Weight(Trim(From(rest, eq + 1))) ELSE -1
  IN IF semi = 0 THEN [name |-> e, q |-> 1000]
     ELSE [name |-> Trim(Upto(e, semi - 1)), q |-> w]

(* ------------------------------ media types ------------------------------ *)
\* A parameter as <<name, value>>, or <<>> if malformed.
MediaParam(p) ==
  LET eq == Index(p, "=")
      name == Lower(Trim(Upto(p, eq - 1)))
      v == Trim(From(p, eq + 1))
      quoted == Len(v) >= 2 /\ Ch(v, 1) = "\"" /\ Ch(v, Len(v)) = "\""
  IN IF eq = 0 \/ ~IsToken(name) THEN <<>>
     ELSE IF quoted THEN <<name, Unquote(SubSeq(v, 2, Len(v) - 1))>>
     ELSE IF IsToken(v) THEN <<name, v>> ELSE <<>>

NoMedia == [ok |-> FALSE, t |-> "", s |-> "", ps |-> {}]
\* [ok, t, s, ps]: type, subtype and the set of parameters
MediaType(text) ==
  LET parts == Split(text, ";")
      full == Lower(Trim(parts[1]))
      slash == Index(full, "/")
      t == Upto(full, slash - 1)
      s == From(full, slash + 1)
      rawps == IF Len(parts) = 1 THEN <<>>
               ELSE SelectSeq([i \in 1..(Len(parts) - 1) |-> Trim(parts[i + 1])],
                              LAMBDA x : x # "")
      ps == [i \in 1..Len(rawps) |-> MediaParam(rawps[i])]
      names == {ps[i][1] : i \in {j \in 1..Len(ps) : ps[j] # <<>>}}
  IN IF slash = 0 \/ ~IsToken(t) \/ ~IsToken(s) \/ (\E i \in 1..Len(ps) : ps[i] = <<>>)
        \/ Cardinality(names) < Len(ps)
     THEN NoMedia
     ELSE [ok |-> TRUE, t |-> t, s |-> s, ps |-> Range(ps)]

\* What follows the weight are extensions of the Accept header, which carry no
\* meaning and are not parameters of the media type.
IsWeight(part) == Lower(Trim(Upto(part, Index(part, "=") - 1))) = "q"
RECURSIVE JoinParts(_, _)
JoinParts(parts, n) == IF n = 1 THEN parts[1] ELSE JoinParts(parts, n - 1) \o ";" \o parts[n]
WithoutExtensions(e) ==
  LET parts == Split(e, ";")
      ws == {i \in 2..Len(parts) : IsWeight(parts[i])}
  IN IF ws = {} THEN e ELSE JoinParts(parts, MinOf(ws))

MediaRange(e) ==
  LET m == MediaType(WithoutExtensions(e))
      qs == {p \in m.ps : p[1] = "q"}
      q == IF qs = {} THEN 1000 ELSE Weight((CHOOSE p \in qs : TRUE)[2])
  IN IF e = "" \/ ~m.ok \/ q = -1 THEN BadElement
     ELSE Element([t |-> m.t, s |-> m.s, ps |-> m.ps \ qs, q |-> q])

(* -------------------------- charsets and codings ------------------------- *)
CharsetRange(e) ==
  LET nw == NameAndWeight(e)
  IN IF ~IsToken(nw.name) \/ nw.q = -1 THEN BadElement
     ELSE Element([r |-> Lower(nw.name), q |-> nw.q])

RegisteredCodings ==
  {"gzip", "x-gzip", "deflate", "compress", "x-compress", "identity", "br", "zstd"}

CodingRange(e) ==
  LET nw == NameAndWeight(e)
      c == Lower(nw.name)
  IN IF c \notin RegisteredCodings \union {"*"} \/ nw.q = -1 THEN BadElement
     ELSE Element([r |-> c, q |-> nw.q])

(* ------------------------------- languages ------------------------------- *)
\* The registered primary languages and regions the model knows about.
Languages == {"en", "fr", "de", "ja", "it", "ru", "pl", "ko", "tr", "hu", "fi",
              "el", "pt", "es", "sv", "cs", "fil", "kok"}
Regions == {"us", "gb", "au", "ca", "fr", "ch", "at", "de", "jp", "it", "ru",
            "pl", "kr", "tr", "hu", "fi", "gr", "br", "pt", "mx", "es", "se", "cz"}

\* [ok, tag, base]: lower case, as language tags are case-insensitive
LanguageTag(text) ==
  LET tag == Lower(text)
      dash == Index(tag, "-")
      base == IF dash = 0 THEN tag ELSE Upto(tag, dash - 1)
      ok == base \in Languages /\ (dash = 0 \/ From(tag, dash + 1) \in Regions)
  IN [ok |-> ok, tag |-> tag, base |-> base]

NoTongue == [ok |-> FALSE, tag |-> "", base |-> ""]

LanguageRange(e) ==
  LET nw == NameAndWeight(e)
      t == LanguageTag(nw.name)
  IN IF nw.q = -1 THEN BadElement
     ELSE IF nw.name = "*" THEN Element([wild |-> TRUE, tag |-> "*", base |-> "*", q |-> nw.q])
     ELSE IF ~t.ok THEN BadElement
     ELSE Element([wild |-> FALSE, tag |-> t.tag, base |-> t.base, q |-> nw.q])

\* by descending weight, in the order written among equal weights
RECURSIVE ByWeight(_)
ByWeight(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET top == MaxOf({es[i].q : i \in 1..Len(es)})
           first == MinOf({i \in 1..Len(es) : es[i].q = top})
           rest == SubSeq(es, 1, first - 1) \o SubSeq(es, first + 1, Len(es))
       IN <<es[first]>> \o ByWeight(rest)

(* ------------------------------- the fields ------------------------------ *)
\* An absent field has no elements.  Accept, Accept-Charset, Accept-Encoding
\* and Negotiate must not be empty if present; Accept-Language may.
ParseAccept(f) == IF f.p THEN ParseAll(MediaRange, Elements(f.l)) ELSE None
ParseCharset(f) == IF f.p THEN ParseAll(CharsetRange, Elements(f.l)) ELSE None
ParseEncoding(f) == IF f.p THEN ParseAll(CodingRange, Elements(f.l)) ELSE None
ParseLanguage(f) ==
  IF ~f.p THEN None
  ELSE LET r == ParseAll(LanguageRange, SelectSeq(Elements(f.l), LAMBDA x : x # ""))
       IN IF r.ok THEN [ok |-> TRUE, es |-> ByWeight(r.es)] ELSE Bad
NegotiateDirective(e) == IF e = "" THEN BadElement ELSE Element(Lower(e))
ParseNegotiate(f) == IF f.p THEN ParseAll(NegotiateDirective, Elements(f.l)) ELSE None

\* May the server choose on behalf of the user agent?
MayChoose(directives) ==
  \E i \in 1..Len(directives) : directives[i] \in {"*", "1.0", "guess-small"}
GuessSmall(directives) == \E i \in 1..Len(directives) : directives[i] = "guess-small"
=============================================================================
