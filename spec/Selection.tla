------------------------------ MODULE Selection ------------------------------
(* What the preferences of a request mean for a representation, and the two   *)
(* selection algorithms: the Apache httpd algorithm (proactive negotiation)   *)
(* and RVSA 1.0 of RFC 2296 (transparent negotiation).                        *)
(*                                                                            *)
(* A representation is a record with ct, lang, cs (text, "" if undeclared),   *)
(* enc, feat (sequences of text), qs (0..1000), len (body bytes), loc (URL)   *)
(* and err (its serialization fails).                                         *)
EXTENDS Features

\* what a representation declares, read once
Described(r) ==
  [ct |-> r.ct, lang |-> r.lang, cs |-> r.cs, enc |-> r.enc, feat |-> r.feat, qs |-> r.qs,
   len |-> r.len, loc |-> r.loc, err |-> r.err,
   media |-> IF r.ct = "" THEN NoMedia ELSE MediaType(r.ct),
   tongue |-> IF r.lang = "" THEN NoTongue ELSE LanguageTag(r.lang),
   charset |-> Lower(r.cs), codings |-> [i \in 1..Len(r.enc) |-> Lower(r.enc[i])]]

\* Weight that the most specific of the matching elements assigns, -1 if there
\* is none; among equally specific ones the highest weight counts.
Decisive(es, matches(_), specificity(_)) ==
  LET M == {i \in 1..Len(es) : matches(es[i])}
      top == MaxOf({specificity(es[i]) : i \in M})
      T == {i \in M : specificity(es[i]) = top}
      best == MaxOf({es[i].q : i \in T})
  IN IF M = {} THEN 0 ELSE MinOf({i \in T : es[i].q = best})

MediaIndex(es, m) ==
  LET Match(r) == (r.t = "*" \/ r.t = m.t) /\ (r.s = "*" \/ r.s = m.s) /\ r.ps \subseteq m.ps
      Specific(r) == (IF r.t = "*" THEN 0 ELSE IF r.s = "*" THEN 100 ELSE 200) + Cardinality(r.ps)
  IN IF ~m.ok THEN 0 ELSE Decisive(es, Match, Specific)
\* A range with a wildcard and parameters and one with neither are not ordered by
\* specificity; whether the decisive one is exceeded in parameters by another.
UnclearMedia(es, m) ==
  LET i == MediaIndex(es, m)
  IN /\ i # 0
     /\ \E j \in 1..Len(es) :
          /\ (es[j].t = "*" \/ es[j].t = m.t) /\ (es[j].s = "*" \/ es[j].s = m.s) /\ es[j].ps \subseteq m.ps
          /\ Cardinality(es[j].ps) > Cardinality(es[i].ps)
TokenIndex(es, token) ==
  LET Match(r) == r.r = "*" \/ r.r = token
      Specific(r) == IF r.r = "*" THEN 0 ELSE 1
  IN Decisive(es, Match, Specific)
LanguageIndex(es, t) ==
  LET Match(r) == r.wild \/ r.base = t.base
      Specific(r) == IF r.wild THEN 0 ELSE IF r.tag = t.tag THEN 2 ELSE 1
  IN IF ~t.ok THEN 0 ELSE Decisive(es, Match, Specific)

Weighted(es, i) == IF i = 0 THEN 0 ELSE es[i].q

\* quality of a representation in each dimension; 1000 if nothing is asked of it
MediaQ(H, r) == IF H.a = <<>> \/ r.ct = "" THEN 1000 ELSE Weighted(H.a, MediaIndex(H.a, r.media))
CharsetQ(H, r) == IF H.c = <<>> \/ r.cs = "" THEN 1000 ELSE Weighted(H.c, TokenIndex(H.c, r.charset))
LanguageQ(H, r) == IF H.l = <<>> \/ r.lang = "" THEN 1000 ELSE Weighted(H.l, LanguageIndex(H.l, r.tongue))

IdentityQ == 1 \* of an unmentioned identity coding: acceptable, never preferred
CodingQ(es, c) ==
  LET i == TokenIndex(es, c)
  IN IF c \notin RegisteredCodings THEN 0
     ELSE IF i # 0 THEN es[i].q
     ELSE IF c = "identity" THEN IdentityQ ELSE 0
EncodingQ(H, r) ==
  IF H.e = <<>> \/ r.codings = <<>> THEN 1000
  ELSE MinOf({CodingQ(H.e, r.codings[i]) : i \in 1..Len(r.codings)})

Acceptable(H, r) == MediaQ(H, r) > 0 /\ CharsetQ(H, r) > 0 /\ LanguageQ(H, r) > 0 /\ EncodingQ(H, r) > 0

(* --------------------------- Apache httpd -------------------------------- *)
Round3(x) == (x + 500) \div 1000
SourceAndType(H, r) == Round3(r.qs * MediaQ(H, r))
LanguageOrder(H, r) ==
  IF H.l = <<>> \/ r.lang = "" THEN 0
  ELSE LET i == LanguageIndex(H.l, r.tongue) IN IF i = 0 THEN 0 ELSE Len(H.l) + 1 - i
Level(r) ==
  LET m == r.media
      ls == {p[2] : p \in {x \in m.ps : x[1] = "level"}}
  IN IF r.ct = "" \/ m.t # "text" \/ m.s # "html" \/ ls = {} THEN -1
     ELSE LET l == CHOOSE x \in ls : TRUE IN IF IsNat(l) THEN NatOf(l) ELSE -2
BadLevel(r) == Level(r) = -2
NotLatin1(r) == IF r.charset = "iso-8859-1" THEN 0 ELSE 1

\* step k of the algorithm keeps the candidates that are highest by Criterion
Steps == 8
Criterion(k, H, r) ==
  CASE k = 1 -> SourceAndType(H, r)
    [] k = 2 -> LanguageQ(H, r)
    [] k = 3 -> LanguageOrder(H, r)
    [] k = 4 -> Level(r)
    [] k = 5 -> CharsetQ(H, r)
    [] k = 6 -> NotLatin1(r)
    [] k = 7 -> EncodingQ(H, r)
    [] k = 8 -> 0 - r.len
Best(k, score, cand) ==
  LET top == MaxOf({score[cand[j]][k] : j \in 1..Len(cand)})
  IN SelectSeq(cand, LAMBDA i : score[i][k] = top)

\* The same stated declaratively: x is better than y if it is at the first
\* criterion in which they differ.
Better(H, x, y) ==
  \E k \in 1..Steps :
    /\ Criterion(k, H, x) > Criterion(k, H, y)
    /\ \A j \in 1..(k - 1) : Criterion(j, H, x) = Criterion(j, H, y)
AsGood(H, x, y) == \A k \in 1..Steps : Criterion(k, H, x) = Criterion(k, H, y)
IsBest(H, reps, i) ==
  /\ Acceptable(H, reps[i])
  /\ \A j \in 1..Len(reps) : Acceptable(H, reps[j]) =>
       /\ ~Better(H, reps[j], reps[i])
       /\ j < i => ~AsGood(H, reps[j], reps[i])

(* ------------------------------ RVSA 1.0 --------------------------------- *)
\* An exact product of thousandths is a sequence of limbs to the base 1000, the
\* least significant one first; of n factors the first n limbs are decimals.
RECURSIVE Limbs(_, _, _)
Limbs(ds, k, carry) ==
  IF ds = <<>> THEN (IF carry = 0 THEN <<>> ELSE <<carry % 1000>> \o Limbs(<<>>, k, carry \div 1000))
  ELSE LET v == Head(ds) * k + carry IN <<v % 1000>> \o Limbs(Tail(ds), k, v \div 1000)
RECURSIVE Product(_)
Product(fs) == IF fs = <<>> THEN <<1>> ELSE Limbs(Product(Tail(fs)), Head(fs), 0)

Factors5(H, r) ==
  <<r.qs, MediaQ(H, r), CharsetQ(H, r), LanguageQ(H, r)>>
  \o (IF r.feat = <<>> \/ ~H.f.some THEN <<>> ELSE FeatureFactors(r.feat, H.f))
\* the product in units of 10^-5, and what is left in 10^-4 of such a unit
Rating(H, r) ==
  LET fs == Factors5(H, r)
      n == Len(fs)
      ds == Product(fs)
      Limb(i) == IF i > Len(ds) THEN 0 ELSE ds[i]
      six == Limb(n) * 1000 + Limb(n - 1)
      whole == IF Len(ds) > n + 1 THEN 1000 ELSE Limb(n + 1)
  IN [units |-> whole * 100000 + six \div 10, rest |-> (six % 10) * 1000 + Limb(n - 2)]
\* round5 of RFC 2296 section 3.4
Overall(H, r) == LET p == Rating(H, r) IN p.units + (IF p.rest >= 5000 THEN 1 ELSE 0)
\* Products that are next to halfway between two values, as near as numbers of
\* single precision are exact, may be rounded either way.
UnclearRating(H, r) ==
  LET p == Rating(H, r)
      margin == 20 + p.units \div 80
  IN p.rest > 5000 - margin /\ p.rest < 5000 + margin
UnclearSourceAndType(H, r) == (r.qs * MediaQ(H, r)) % 1000 = 500

WildMedia(H, r) == LET i == MediaIndex(H.a, r.media) IN i # 0 /\ (H.a[i].t = "*" \/ H.a[i].s = "*")
WildToken(es, t) == LET i == TokenIndex(es, t) IN i # 0 /\ es[i].r = "*"
WildLanguage(H, r) == LET i == LanguageIndex(H.l, r.tongue) IN i # 0 /\ H.l[i].wild
Speculative(H, r) ==
  \/ r.ct # "" /\ (H.a = <<>> \/ WildMedia(H, r))
  \/ r.cs # "" /\ (H.c = <<>> \/ WildToken(H.c, r.charset))
  \/ r.lang # "" /\ (H.l = <<>> \/ WildLanguage(H, r))
  \/ r.feat # <<>> /\ ~H.f.some
RvsaFails(H, reps) == H.f.some /\ \E i \in 1..Len(reps) : ~FeatureListOk(reps[i].feat)
\* index of the selected variant, 0 for none
Rvsa(H, reps) ==
  LET top == MaxOf({Overall(H, reps[i]) : i \in 1..Len(reps)})
      i == MinOf({j \in 1..Len(reps) : Overall(H, reps[j]) = top})
  IN IF reps = <<>> \/ top = 0 \/ Speculative(H, reps[i]) THEN 0 ELSE i

(* ------------------------------ neighbors -------------------------------- *)
HexVal(c) ==
  IF c \in Digits THEN DigitVal[c]
  ELSE CASE LowerCh(c) = "a" -> 10 [] LowerCh(c) = "b" -> 11 [] LowerCh(c) = "c" -> 12 [] LowerCh(c) = "d" -> 13
         [] LowerCh(c) = "e" -> 14 [] LowerCh(c) = "f" -> 15 [] OTHER -> -1
IsHex(c) == HexVal(c) >= 0
\* letters that are escaped are the same as those that are not; other escapes
\* stand for themselves, however they are written
Unescaped(code, text) ==
  CASE code \in 65..90 -> UpperLetters[code - 64]
    [] code \in 97..122 -> LowerLetters[code - 96]
    [] OTHER -> "%" \o Lower(text)
RECURSIVE Plain(_)
Plain(s) ==
  LET i == Index(s, "%")
  IN IF i = 0 THEN s
     ELSE IF i + 2 <= Len(s) /\ IsHex(Ch(s, i + 1)) /\ IsHex(Ch(s, i + 2))
          THEN Upto(s, i - 1) \o Unescaped(16 * HexVal(Ch(s, i + 1)) + HexVal(Ch(s, i + 2)), SubSeq(s, i + 1, i + 2)) \o Plain(From(s, i + 3))
     ELSE Upto(s, i) \o Plain(From(s, i + 1))
\* scheme://user@host:port/path?query#fragment, or /path?query#fragment
Url(text) ==
  LET h == Index(text, "#")
      noFrag == IF h = 0 THEN text ELSE Upto(text, h - 1)
      q == Index(noFrag, "?")
      bare == IF q = 0 THEN noFrag ELSE Upto(noFrag, q - 1)
      c == Index2(bare, "//")
      abs == c > 1 /\ Ch(bare, c - 1) = ":"
      rest == From(bare, c + 2)
      slash == Index(rest, "/")
      auth == IF slash = 0 THEN rest ELSE Upto(rest, slash - 1)
      at == LastIndex(auth, "@")
      place == From(auth, at + 1)
      \* colons within brackets belong to the host
      colon == LET i == LastIndex(place, ":") IN IF i > LastIndex(place, "]") THEN i ELSE 0
      scheme == IF abs THEN Lower(Upto(bare, c - 2)) ELSE ""
      host == IF ~abs THEN "" ELSE Lower(IF colon = 0 THEN place ELSE Upto(place, colon - 1))
      port == IF abs /\ colon # 0 THEN From(place, colon + 1) ELSE ""
      path == IF ~abs THEN bare ELSE IF slash = 0 THEN "" ELSE From(rest, slash)
  IN [scheme |-> scheme, host |-> host, path |-> Plain(path), user |-> IF abs THEN Upto(auth, at) ELSE "",
      port |-> IF port # "" THEN port ELSE IF scheme = "https" THEN "443" ELSE "80"]
\* the path up to its last slash; no path is the same as "/"
Directory(path) == IF LastIndex(path, "/") = 0 THEN "/" ELSE Upto(path, LastIndex(path, "/"))
Neighbors(a, b) ==
  LET u == Url(a) v == Url(b)
  IN /\ u.scheme = v.scheme /\ u.user = v.user /\ u.host = v.host /\ u.port = v.port
     /\ Directory(u.path) = Directory(v.path)
=============================================================================
