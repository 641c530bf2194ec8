------------------------------ MODULE Features ------------------------------
(* Feature negotiation: RFC 2295 section 6.  Factors are thousandths.         *)
EXTENDS Headers

(* ------------------------- Accept-Features header ------------------------ *)
\* What one expression says: [sup |-> set of <<tag, value>>, have |-> tags that
\* are present, lack |-> tags that are absent]
NoInfo == [sup |-> {}, have |-> {}, lack |-> {}]

Braced(v) == StartsWith(v, "{") /\ EndsWith(v, "}")
\* a value is a token or a quoted string; both forms are the same value
Bare(s) == IF Len(s) >= 2 /\ StartsWith(s, "\"") /\ EndsWith(s, "\"") THEN SubSeq(s, 2, Len(s) - 1) ELSE s
Expression(e) ==
  LET ne == Index2(e, "!=")
      eq == Index(e, "=")
      v == Trim(From(e, eq + 1))
      value == IF Braced(v) THEN Trim(SubSeq(v, 2, Len(v) - 1)) ELSE v
      tag(s) == Lower(Trim(s))
  IN IF e = "*" THEN NoInfo
     ELSE IF StartsWith(e, "!") THEN [NoInfo EXCEPT !.lack = {tag(From(e, 2))}]
     ELSE IF ne # 0 THEN [NoInfo EXCEPT !.have = {tag(Upto(e, ne - 1))}]
     ELSE IF eq # 0 THEN [NoInfo EXCEPT !.have = {tag(Upto(e, eq - 1))},
                                        !.sup = {<<tag(Upto(e, eq - 1)), Bare(value)>>}]
     ELSE [NoInfo EXCEPT !.have = {tag(e)}]

\* [some |-> the header has elements, sup, have, lack]
FeatureSets(f) ==
  LET es == IF f.p THEN Elements(f.l) ELSE <<>>
      infos == {Expression(es[i]) : i \in 1..Len(es)}
  IN [some |-> es # <<>>,
      sup |-> UNION {i.sup : i \in infos},
      have |-> UNION {i.have : i \in infos},
      lack |-> UNION {i.lack : i \in infos}]

(* ---------------------------- feature lists ------------------------------ *)
WordChars == Alpha \union Digits \union {"_", ".", "+", "-"}
IsWord(s) == s # "" /\ AllIn(s, WordChars)

Words(s) == LET At(x) == Split(x, "\t") IN SelectSeq(FlatMap(At, Split(s, " ")), LAMBDA x : x # "")
\* white space does not separate what would be one word without it
Apart(s) ==
  LET ws == Words(s)
      joins(c) == c \in WordChars \ {"-", "+"}
  IN \E i \in 1..Len(ws) - 1 : joins(Ch(ws[i], Len(ws[i]))) /\ joins(Ch(ws[i + 1], 1))

BadPredicate == [ok |-> FALSE, k |-> "", t |-> "", v |-> "", lo |-> "", hi |-> ""]
Predicate(raw) ==
  LET p == Squeeze(raw)
      ne == Index2(p, "!=")
      eq == Index(p, "=")
      v == From(p, eq + 1)
      range == StartsWith(v, "[") /\ EndsWith(v, "]") /\ Has(v, "-")
      lo == SubSeq(v, 2, Index(v, "-") - 1)
      hi == SubSeq(v, Index(v, "-") + 1, Len(v) - 1)
      bound(b) == IF b = "" THEN "" ELSE Numeral(b)
      isBound(b) == b = "" \/ IsNumber(b)
  IN IF Apart(raw) THEN BadPredicate
     ELSE IF StartsWith(p, "!") THEN
       IF IsWord(From(p, 2)) THEN [BadPredicate EXCEPT !.ok = TRUE, !.k = "absent", !.t = Lower(From(p, 2))]
       ELSE BadPredicate
     ELSE IF ne # 0 THEN
       IF IsWord(Upto(p, ne - 1)) /\ IsWord(From(p, ne + 2))
       THEN [BadPredicate EXCEPT !.ok = TRUE, !.k = "differs", !.t = Lower(Upto(p, ne - 1)), !.v = From(p, ne + 2)]
       ELSE BadPredicate
     ELSE IF eq # 0 THEN
       IF ~IsWord(Upto(p, eq - 1)) THEN BadPredicate
       ELSE IF range /\ isBound(lo) /\ isBound(hi)
       THEN [BadPredicate EXCEPT !.ok = TRUE, !.k = "within", !.t = Lower(Upto(p, eq - 1)), !.lo = bound(lo), !.hi = bound(hi)]
       ELSE IF IsWord(v)
       THEN [BadPredicate EXCEPT !.ok = TRUE, !.k = "equals", !.t = Lower(Upto(p, eq - 1)), !.v = v]
       ELSE BadPredicate
     ELSE IF IsWord(p) THEN [BadPredicate EXCEPT !.ok = TRUE, !.k = "present", !.t = Lower(p)]
     ELSE BadPredicate

\* "+1.5-0.5" -> [ok, t, f]; thousandths, -1 if not given
Factor(s) ==
  LET dot == Index(s, ".")
      int == IF dot = 0 THEN s ELSE Upto(s, dot - 1)
      frac == IF dot = 0 THEN "" ELSE From(s, dot + 1)
  IN IF int = "" \/ Len(int) > 3 \/ Len(frac) > 3 \/ (dot # 0 /\ frac = "") \/ ~AllIn(int \o frac, Digits)
     THEN -2 ELSE NatOf(int) * 1000 + NatOf(SubSeq(frac \o "000", 1, 3))
Factors(s) ==
  LET minus == Index(s, "-")
      plus == IF StartsWith(s, "+")
              THEN (IF minus = 0 THEN From(s, 2) ELSE SubSeq(s, 2, minus - 1)) ELSE ""
      t == IF StartsWith(s, "+") THEN Factor(plus) ELSE -1
      f == IF minus = 0 THEN -1 ELSE Factor(From(s, minus + 1))
      ok == t # -2 /\ f # -2 /\ (StartsWith(s, "+") \/ minus = 1 \/ s = "")
  IN [ok |-> ok,
      t |-> IF t = -1 THEN 1000 ELSE t,
      f |-> IF f = -1 THEN (IF t = -1 THEN 0 ELSE 1000) ELSE f]

\* [ok, preds, t, f]: holds if any of the predicates does
ListElement(e) ==
  LET parts == Split(e, ";")
      bag == StartsWith(e, "[")
      closed == EndsWith(parts[1], "]")
      texts == IF bag THEN Words(SubSeq(parts[1], 2, Len(parts[1]) - 1)) ELSE <<parts[1]>>
      preds == [i \in 1..Len(texts) |-> Predicate(texts[i])]
      fs == IF Len(parts) = 1 THEN [ok |-> TRUE, t |-> 1000, f |-> 0] ELSE Factors(parts[2])
  IN [ok |-> (bag => closed) /\ texts # <<>> /\ (\A i \in 1..Len(preds) : preds[i].ok) /\ fs.ok,
      preds |-> preds, t |-> fs.t, f |-> fs.f]

ValuesOf(fs, tag) == {x[2] : x \in {y \in fs.sup : y[1] = tag}}
HoldsPredicate(p, fs) ==
  CASE p.k = "present" -> p.t \in fs.have
    [] p.k = "absent"  -> p.t \in fs.lack /\ p.t \notin fs.have
    [] p.k = "equals"  -> p.v \in ValuesOf(fs, p.t)
    [] p.k = "differs" -> p.t \in fs.have /\ p.v \notin ValuesOf(fs, p.t)
    [] p.k = "within"  ->
         LET nums == {Numeral(v) : v \in {x \in ValuesOf(fs, p.t) : IsNumber(x)}}
             highest == CHOOSE n \in nums : \A m \in nums : AtMost(m, n)
         IN nums # {} /\ AtMost(p.lo, highest) /\ (p.hi = "" \/ AtMost(highest, p.hi))
    [] OTHER -> FALSE

FeatureListOk(feat) == \A i \in 1..Len(feat) : ListElement(feat[i]).ok

\* the factor that each element of a feature list contributes
FeatureFactors(feat, fs) ==
  [i \in 1..Len(feat) |->
     LET e == ListElement(feat[i])
     IN IF \E j \in 1..Len(e.preds) : HoldsPredicate(e.preds[j], fs) THEN e.t ELSE e.f]
=============================================================================
