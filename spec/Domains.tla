------------------------------ MODULE Domains ------------------------------
(* Finite domains over which the negotiators are model checked exhaustively.  *)
(* Every element is also executed against the implementation.                 *)
EXTENDS Integers, Sequences, FiniteSets

\* deep is TRUE for the larger domains
Small(deep, a, b) == IF deep THEN a \union b ELSE a

(* ------------------------------- builders -------------------------------- *)
Absent == [p |-> FALSE, l |-> <<>>]
F(lines) == [p |-> TRUE, l |-> lines]
L(line) == F(<<line>>)
Fs(lines) == {L(x) : x \in lines}

Rep0 == [ct |-> "text/plain", lang |-> "", cs |-> "", enc |-> <<>>, feat |-> <<>>, qs |-> 1000,
         len |-> 10, loc |-> "/a/x", err |-> FALSE]
R(ct, lang, cs, enc, qs, len) ==
  [Rep0 EXCEPT !.ct = ct, !.lang = lang, !.cs = cs, !.enc = enc, !.qs = qs, !.len = len]
NominalLengths == [json |-> 120, xml |-> 160, yaml |-> 110, d1 |-> 120, d2 |-> 160, d3 |-> 110,
                   bad |-> 0]
Script(r, l) == [reps |-> r, lists |-> l, unless |-> <<>>]
Ex0 == [neg |-> 1, creation |-> FALSE, a |-> Absent, l |-> Absent, c |-> Absent, e |-> Absent,
        f |-> Absent, n |-> Absent, url |-> "/a/r", reps |-> <<>>, script |-> Script(1, 0),
        lens |-> NominalLengths, wfail |-> FALSE, preset |-> FALSE, http |-> FALSE]
O(o) == [o |-> o, v |-> "", n |-> 0, vs |-> <<>>]
OV(o, v) == [O(o) EXCEPT !.v = v]
ON(o, n) == [O(o) EXCEPT !.n = n]
OVs(o, vs) == [O(o) EXCEPT !.vs = vs]
N(kind, opts) == [kind |-> kind, default |-> FALSE, opts |-> opts]
Default(kind) == [kind |-> kind, default |-> TRUE, opts |-> <<>>]
D(name, ct, lang, enc, qs, fails) ==
  [name |-> name, ct |-> ct, lang |-> lang, cs |-> "ascii", enc |-> enc, qs |-> qs, fails |-> fails]
CustomDocs == <<D("d1", "application/json", "en", <<>>, 1000, FALSE),
                D("d2", "text/html", "fr", <<"gzip">>, 500, FALSE),
                D("d3", "text/yaml", "de", <<"identity">>, 900, FALSE),
                D("bad", "application/json", "en", <<>>, 1000, TRUE)>>
History(negs, exch) ==
  [id |-> 0, kind |-> "exchange", fam |-> "", conc |-> FALSE, sched |-> <<>>, burst |-> 1, rounds |-> 1,
   negs |-> negs, docs |-> CustomDocs, exch |-> exch]
One(neg, x) == History(<<neg>>, <<x>>)
Pairs(S) == {<<x, y>> : x \in S, y \in S}
Triples(S) == {<<x, y, z>> : x \in S, y \in S, z \in S}

(* ------------------------- proactive selection --------------------------- *)
\* each header dimension alone, deeply, then combined
AcceptLines == {"*/*", "text/html", "text/*;q=0.5", "text/html;q=0", "*/*;q=0",
  "text/html;level=1;q=0.4, text/html;q=0.7, */*;q=0.1", "application/json;q=0.333, text/html;q=0.334",
  "text/*;q=0, text/html", "text/*, text/html;q=0, application/json;q=0.2", "text/*;level=1", "text/html;level=1",
  "text/html;level=11, text/html;level=2;q=0.3", "*/*;level=2, application/*;q=0.001",
  "text/html;level=1;q=0.4;ext=1, text/*;q=0.3;level=2;q=0"}
TypePool == {R("text/html;level=1", "", "", <<>>, 1000, 10), R("text/html", "", "", <<>>, 1000, 11),
  R("application/json", "", "", <<>>, 700, 12), R("", "", "", <<>>, 300, 9),
  R("text/html;level=2", "", "", <<>>, 1000, 10), R("text/plain", "", "", <<>>, 500, 10),
  R("text/html;level=11", "", "", <<>>, 900, 10)}
LanguageLines == {"en", "fr, en;q=0.5", "en-US;q=0.3, en;q=0.8", "*;q=0.1, de;q=0", "*", "*;q=0",
  "de;q=0.5, fr;q=0.5, en;q=0.5", "en-GB, en-US;q=0, fr;q=0.2", ""}
LanguagePool == {R("", "en-US", "", <<>>, 1000, 10), R("", "en-GB", "", <<>>, 1000, 10),
  R("", "fr", "", <<>>, 1000, 11), R("", "de", "", <<>>, 1000, 9), R("", "", "", <<>>, 1000, 10),
  R("", "en", "", <<>>, 1000, 10)}
CharsetLines == {"utf-8", "utf-8;q=0.5, iso-8859-1", "*;q=0.3, utf-8;q=0", "*", "*;q=0", "us-ascii;q=0.5, *"}
CharsetPool == {R("", "", "utf-8", <<>>, 1000, 10), R("", "", "ISO-8859-1", <<>>, 1000, 9),
  R("", "", "us-ascii", <<>>, 1000, 10), R("", "", "", <<>>, 1000, 11)}
CodingLines == {"gzip", "gzip;q=0.5, identity;q=0.2", "identity;q=0", "*;q=0", "*;q=0.3, gzip;q=0",
  "deflate;q=0.8, gzip;q=0.9", "gzip, deflate;q=0.001"}
CodingPool == {R("", "", "", <<"gzip">>, 1000, 10), R("", "", "", <<"gzip", "deflate">>, 1000, 9),
  R("", "", "", <<"identity">>, 1000, 10), R("", "", "", <<>>, 1000, 11),
  R("", "", "", <<"deflate">>, 1000, 12), R("", "", "", <<"br">>, 1000, 12)}
Px(S, reps) == {One(N("proactive", <<>>), [x EXCEPT !.reps = r]) : x \in S, r \in reps}
Lists12(P) == {<<x>> : x \in P} \union Pairs(P)
Lists3(P) == {t \in Triples(P) : t[1] # t[2] /\ t[2] # t[3] /\ t[1] # t[3]}
MixPool == {R("text/html;level=1", "en-US", "utf-8", <<>>, 1000, 10),
  R("application/json", "fr", "iso-8859-1", <<"gzip">>, 700, 12), R("", "", "", <<>>, 500, 10),
  R("text/html;level=2", "en-GB", "utf-8", <<"identity">>, 1000, 11),
  R("text/plain", "de", "us-ascii", <<"gzip", "deflate">>, 1000, 9)}
MixA == {Absent, L("text/html;q=0.5, application/json;q=0.7"), F(<<"*/*;q=0.3", "text/*;q=0">>)}
MixL == {Absent, L("fr, en;q=0.5"), L("en-us;q=0.5, *;q=0.1"), L("de, *;q=0")}
MixC == {Absent, L("utf-8;q=0.5, *;q=0"), L("iso-8859-1, utf-8")}
MixE == {Absent, L("gzip;q=0.5, identity;q=0")}
Mixed == {[Ex0 EXCEPT !.a = a, !.l = l, !.c = c, !.e = e] : a \in MixA, l \in MixL, c \in MixC, e \in MixE}
SingleDimensions(deep) ==
  Px({[Ex0 EXCEPT !.a = a] : a \in Fs(AcceptLines)}, Lists12(TypePool))
  \union Px({[Ex0 EXCEPT !.l = a] : a \in Fs(LanguageLines)}, Lists12(LanguagePool))
  \union Px({[Ex0 EXCEPT !.c = a] : a \in Fs(CharsetLines)}, Lists12(CharsetPool))
  \union Px({[Ex0 EXCEPT !.e = a] : a \in Fs(CodingLines)}, Lists12(CodingPool))
TripleDimensions(deep) ==
  Px({[Ex0 EXCEPT !.a = a] : a \in Fs(AcceptLines)}, Lists3(TypePool))
  \union Px({[Ex0 EXCEPT !.l = a] : a \in Fs(LanguageLines)}, Lists3(LanguagePool))
  \union Px({[Ex0 EXCEPT !.c = a] : a \in Fs(CharsetLines)}, Lists3(CharsetPool))
  \union Px({[Ex0 EXCEPT !.e = a] : a \in Fs(CodingLines)}, Lists3(CodingPool))
SelectionDomain(deep) == SingleDimensions(deep) \union
  IF deep THEN TripleDimensions(deep) \union Px(Mixed, Lists12(MixPool) \union Lists3(MixPool))
  ELSE Px(Mixed, Pairs(MixPool \ {R("", "", "", <<>>, 500, 10)}))

(* ---------------------------- strict switches ----------------------------- *)
StrictOptions == {<<>>, <<O("DisableStrictAccept")>>, <<O("DisableStrictAcceptLanguage")>>,
  <<O("DisableStrictAcceptCharset")>>, <<O("DisableStrictMode")>>,
  <<O("DisableStrictAcceptCharset"), O("DisableStrictAccept")>>,
  <<O("DisableStrictAcceptLanguage"), O("DisableStrictAccept")>>,
  <<O("DisableStrictAcceptCharset"), O("DisableStrictAcceptLanguage")>>}
StrictReps == {<<R("text/html", "en", "utf-8", <<>>, 900, 10), R("text/plain", "fr", "us-ascii", <<"gzip">>, 1000, 9)>>,
  <<R("text/html", "de", "iso-8859-1", <<>>, 1000, 10)>>,
  <<R("text/plain", "en-US", "", <<>>, 1000, 10), R("", "fr", "utf-8", <<"identity">>, 700, 10)>>}
StrictHeaders == {[Ex0 EXCEPT !.a = a, !.l = l, !.c = c] :
  a \in {Absent, L("text/html"), L("image/png"), L("text/*;q=0")},
  l \in {Absent, L("fr"), L("ja"), L("*;q=0")},
  c \in {Absent, L("utf-8"), L("utf-16"), L("us-ascii, *;q=0")}}
StrictDomain(deep) ==
  {One(N("proactive", o), [x EXCEPT !.reps = r]) : o \in StrictOptions, x \in StrictHeaders, r \in StrictReps}
  \union
  {One(N("proactive", <<OV("Algorithm", "custom")>> \o o),
       [x EXCEPT !.reps = r, !.script = [reps |-> Len(r), lists |-> 2, unless |-> u]]) :
     o \in StrictOptions, r \in Small(deep, {CHOOSE q \in StrictReps : TRUE}, StrictReps),
     u \in Small(deep, {<<"a">>}, {<<>>, <<"a">>, <<"l">>, <<"a", "l", "c">>}),
     x \in {y \in StrictHeaders : y.a # L("text/*;q=0") /\ y.l # L("*;q=0")}}
  \union
  {History(<<N("proactive", o), N("proactive", <<>>)>>,
           <<[x EXCEPT !.reps = r], [x EXCEPT !.reps = r, !.neg = 2], [y EXCEPT !.reps = r]>>) :
     o \in {<<O("DisableStrictAccept")>>, <<O("DisableStrictMode")>>},
     x \in {[Ex0 EXCEPT !.a = L("image/png")], [Ex0 EXCEPT !.c = L("utf-16")]},
     y \in {[Ex0 EXCEPT !.a = L("image/png"), !.l = L("ja")], [Ex0 EXCEPT !.c = L("utf-16")]},
     r \in StrictReps}

(* -------------------------------- refusals -------------------------------- *)
RefusalReps == {<<R("text/html", "en", "utf-8", <<"gzip">>, 900, 10)>>,
  <<R("text/html;level=1", "en-US", "iso-8859-1", <<>>, 450, 10), R("text/html", "fr", "", <<"gzip", "identity">>, 0, 20),
    [R("image/png", "", "", <<>>, 1000, 30) EXCEPT !.feat = <<"color", "tables!=2">>]>>,
  <<R("text/html", "de", "utf-8", <<>>, 1000, 10), R("text/html", "de", "utf-8", <<>>, 1000, 10)>>}
RefusalOptions == {<<>>, <<O("DisableNotAcceptableRepresentation")>>,
  <<OVs("Representations", <<"d1", "d2", "d3">>)>>, <<OVs("Representations", <<"d3">>), OV("DefaultRepresentation", "d2")>>,
  <<OV("DefaultRepresentation", "d2")>>, <<OVs("Representations", <<>>)>>,
  <<OVs("Representations", <<"d2", "d1">>), OV("DefaultRepresentation", "d3")>>,
  <<OVs("Representations", <<"d1">>), OVs("Representations", <<"d2", "d3">>), OV("DefaultRepresentation", "d1")>>}
RefusalHeaders == {[Ex0 EXCEPT !.a = a, !.l = l, !.e = e] :
  a \in Fs({"application/json;q=0.5, application/xml", "application/yaml", "image/gif", "application/*;q=0.4",
            "text/yaml, application/yaml;q=0.9, application/json;q=0.9", "application/xml;q=0.2, application/json;q=0.1"}),
  l \in {Absent, L("fr, en;q=0.2"), L("ja")}, e \in {Absent, L("gzip"), L("identity;q=0")}}
RefusalDomain(deep) ==
  {One(N("proactive", o), [x EXCEPT !.reps = r]) : o \in RefusalOptions, x \in RefusalHeaders,
     r \in Small(deep, {CHOOSE q \in RefusalReps : Len(q) = 3}, RefusalReps)}
  \union
  {One(N("proactive", o \o <<OV("Algorithm", "custom")>>), [Ex0 EXCEPT !.reps = r, !.script = Script(0, k)]) :
     o \in RefusalOptions, r \in RefusalReps, k \in -1..3}

(* ------------------------- transparent permission ------------------------- *)
NegotiateLines == {"*", "1.0", "guess-small", "trans", "vlist", "Guess-Small", "trans, 1.0", "vlist, guess-small, trans",
  "1.1", "trans,vlist,*", "GUESS-SMALL, *"}
NegotiateFields == {Absent, F(<<"trans", "1.0">>), F(<<"vlist", "guess-small">>)} \union Fs(NegotiateLines)
SizedReps(deep) == {<<[Rep0 EXCEPT !.len = n], [Rep0 EXCEPT !.len = 20, !.loc = "/b/y"]>> :
  n \in Small(deep, {119, 120, 170, 171}, {1, 69, 70, 121, 169, 172, 500})}
TransparentX(deep) == {[Ex0 EXCEPT !.n = n, !.reps = r, !.script = Script(k, 0)] :
  n \in NegotiateFields, r \in SizedReps(deep), k \in {0, 1, 2}}
PermissionDomain(deep) ==
  {One(N("transparent", <<OV("RVSA", "custom")>>), x) : x \in TransparentX(deep)}
  \union
  {One(N("transparent", <<OV("RVSA", "custom")>> \o o), x) : x \in {y \in TransparentX(deep) :
      y.n \in {L("guess-small"), L("*")} /\ y.script.reps = 1},
    o \in {<<ON("GuessSmallThreshold", 0)>>, <<ON("GuessSmallThreshold", 1)>>, <<OV("ListRepresentation", "d2")>>,
           <<ON("GuessSmallThreshold", 60), ON("GuessSmallThreshold", 10)>>}}

(* ------------------------------- RVSA 1.0 ---------------------------------- *)
V(ct, lang, cs, qs) == [Rep0 EXCEPT !.ct = ct, !.lang = lang, !.cs = cs, !.qs = qs]
VariantPool == {V("text/html", "en", "utf-8", 900), V("text/html", "fr", "", 1000), V("text/plain", "", "utf-8", 500),
  V("", "en-US", "us-ascii", 500), V("", "", "", 100), V("image/png", "", "", 1000)}
RvsaHeaders == {[Ex0 EXCEPT !.a = a, !.l = l, !.c = c, !.n = L("*")] :
  a \in {Absent, L("text/html;q=0.5, text/plain"), L("text/*, image/png;q=0.1"), L("image/png, text/html;q=0")},
  l \in {Absent, L("en;q=0.5, fr;q=0.4"), L("*;q=0.9, en;q=0.1"), L("fr;q=0, en")},
  c \in {Absent, L("utf-8, us-ascii;q=0.5"), L("*;q=0.2")}}
RvsaDomain(deep) ==
  {One(N("transparent", <<>>), [x EXCEPT !.reps = r]) : x \in RvsaHeaders,
     r \in IF deep THEN Lists12(VariantPool) \union Lists3(VariantPool) ELSE Lists12(VariantPool)}

(* -------------------------------- features -------------------------------- *)
FeaturePreds == {"tables", "!tables", "tables=1", "tables!=1", "tables=[1-3]", "tables=[2-]", "tables=[-2]", "Tables=a"}
FeatureElements == FeaturePreds \union {"tables;+0.5-0.25", "!tables;-0.5", "tables=1;+0.5", "[tables=2 fonts]",
  "[!tables fonts=x];+0.8-0.2", "fonts", "ua-media=a-4", "[ua-media!=a-4 !Tables];-0.5"}
FeatureFields == {Absent} \union Fs({"tables", "!tables", "tables=1", "tables=2, fonts", "tables!=1", "tables={1}",
  "*", "tables=a, tables=3", "TABLES=1, fonts=x", "fonts", "tables=A", "!fonts, *", "tables, !tables",
  "tables=1, Tables=3", "!tables, TABLES=2", "tables=a, TABLES=1, tables=2",
  "tables = { 2 }, ua-media=a-4", "! tables, ua-media != screen, fonts = \"x\""})
\* a variant with features against one that rates a fixed 0.3
Reference == [Rep0 EXCEPT !.ct = "", !.qs = 300]
FeatureVariant(fl) == [Rep0 EXCEPT !.ct = "", !.feat = fl]
FeatureLists(deep) == {<<x>> : x \in FeatureElements} \union
  {<<x, y>> : x \in Small(deep, {"tables;+0.5-0.25", "fonts"}, FeatureElements), y \in FeatureElements}
FeatureDomain(deep) ==
  {One(N("transparent", <<>>), [Ex0 EXCEPT !.n = L("1.0"), !.f = f, !.reps = r]) :
     f \in FeatureFields,
     r \in {<<FeatureVariant(fl)>> : fl \in FeatureLists(deep)} \union
           {<<Reference, FeatureVariant(fl)>> : fl \in FeatureLists(deep)}}

(* ------------------------------- neighbors -------------------------------- *)
Urls == {"http://a.org/d/r", "http://A.org:80/d/x?q=/e/f", "HTTP://a.org/d/", "https://a.org/d/r", "https://a.org:443/d/y",
  "http://a.org:8080/d/r", "http://b.org/d/r", "http://a.org/r", "http://a.org", "http://a.org/", "http://a.org/d/e/x",
  "http://a.org/D/r", "http://a.org/d/r#/x/y", "http://a.org:443/d/r", "https://a.org:80/d/r",
  "http://me@a.org/d/r", "http://a.org/d/e%2Fx", "http://a.org/%64/x", "http://a.org/d%2fe/x", "http://[::1]/d/r", "http://[::1]:80/d/x"}
Paths == {"/d/r", "/d/", "/d", "/", "/r", "/d/e/x", "/d/x?y=/e/", "/D/x", "/d/#/e/f", "/d/e%2Fx", "/%64/x", "/d%2Fe/x", "/d//x", "/d/../r"}
NeighborDomain(deep) ==
  {One(N("transparent", <<OV("RVSA", "custom")>>),
       [Ex0 EXCEPT !.n = L("*"), !.url = p[1], !.reps = <<[Rep0 EXCEPT !.loc = p[2]]>>]) :
     p \in (Urls \X Urls) \union (Paths \X Paths)}

(* --------------------------------- limits ---------------------------------- *)
LimitOptions == {<<>>} \union {<<ON("MaximumVariantListSize", n)>> : n \in {-1, 0, 1, 2, 3, 11}}
  \union {<<ON("MaximumVariantListSize", 2), ON("MaximumVariantListSize", 4)>>,
          <<ON("MaximumVariantListSize", 4), ON("GuessSmallThreshold", 1), ON("MaximumVariantListSize", 0)>>}
Many(n) == [i \in 1..n |-> [Rep0 EXCEPT !.len = 5 + i]]
LimitDomain(deep) ==
  {One(N("transparent", <<OV("RVSA", alg)>> \o o), [Ex0 EXCEPT !.n = n, !.reps = Many(k)]) :
     o \in LimitOptions, alg \in {"builtin", "custom"}, n \in {Absent, L("*"), L("")}, k \in 0..12}
  \union
  {One(Default("transparent"), [Ex0 EXCEPT !.n = L("*"), !.reps = Many(k)]) : k \in 0..12}

(* ------------------------------ malformed headers -------------------------- *)
WellFormedOf == [a |-> {"text/html", "text/*;q=0.5"}, l |-> {"en", "*;q=0.5"}, c |-> {"utf-8", "*;q=0.5"},
                 e |-> {"gzip", "*;q=0.5"}, n |-> {"trans", "1.0"}]
BadWeights == {"abc", "1.5", "2", "-0.1", "NaN", "", "1.001"}
MalformedOf ==
  [a |-> {"text/html;q=" \o w : w \in BadWeights} \union {"text/", "/html", "*/html;q=x"},
   l |-> {"en;q=" \o w : w \in BadWeights} \union {"xx", "e n"},
   c |-> {"utf-8;q=" \o w : w \in BadWeights} \union {"ut f"},
   e |-> {"gzip;q=" \o w : w \in BadWeights} \union {"zippy", "gz ip"},
   n |-> {}]
Fields == {"a", "l", "c", "e", "n"}
FieldValues(h) ==
  Fs({m : m \in MalformedOf[h]} \union {g \o ", " \o m : g \in WellFormedOf[h], m \in MalformedOf[h]}
     \union {m \o ", " \o g : g \in WellFormedOf[h], m \in MalformedOf[h]} \union WellFormedOf[h] \union {""})
  \union {F(<<g, m>>) : g \in WellFormedOf[h], m \in MalformedOf[h] \union {""}}
GoodWeights == {"0", "1", "0.0", "1.0", "0.5", "0.50", "0.500", "1.000", "0.001", "0.999", "0."}
MalformedDomain(deep) ==
  UNION {{One(N(k, <<>>), [[Ex0 EXCEPT !.n = L("1.0")] EXCEPT ![h] = v,
                !.reps = <<R("text/html", "en", "utf-8", <<"gzip">>, 1000, 10)>>]) :
            v \in FieldValues(h), k \in {"proactive", "transparent"}} : h \in Fields}
  \union
  UNION {{One(N("proactive", <<>>), [Ex0 EXCEPT ![h[1]] = L(h[2] \o ";q=" \o w \o ", " \o h[3]),
                !.reps = <<R("text/html", "en", "utf-8", <<"gzip">>, 1000, 10),
                           R("text/plain", "fr", "us-ascii", <<"deflate">>, 1000, 10)>>]) :
            w \in GoodWeights} :
         h \in {<<"a", "text/html", "text/plain;q=0.5">>, <<"l", "en", "fr;q=0.5">>,
                <<"c", "utf-8", "us-ascii;q=0.5">>, <<"e", "gzip", "deflate;q=0.5">>}}

(* ---------------------------------- faults --------------------------------- *)
FaultReps == {<<[Rep0 EXCEPT !.err = a], [Rep0 EXCEPT !.err = b, !.ct = "text/html", !.len = 12]>> :
                a \in BOOLEAN, b \in BOOLEAN} \union {<<>>}
FaultHeaders == {[Ex0 EXCEPT !.a = a, !.e = e, !.n = n, !.f = f, !.wfail = w] :
  a \in {Absent, L("text/html"), L("image/png"), L("text/html;q=5")}, e \in {Absent, L("nope")},
  n \in {L("*"), L("guess-small"), Absent}, f \in {Absent}, w \in BOOLEAN}
FaultNegs == {N("proactive", <<>>), N("proactive", <<O("DisableStrictMode"), OV("DefaultRepresentation", "bad")>>),
  N("proactive", <<OVs("Representations", <<"bad", "d1">>), OV("DefaultRepresentation", "bad")>>),
  N("proactive", <<O("DisableNotAcceptableRepresentation")>>),
  N("transparent", <<>>), N("transparent", <<OV("RVSA", "custom"), OV("ListRepresentation", "bad")>>),
  N("transparent", <<OV("RVSA", "custom"), ON("MaximumVariantListSize", 1)>>),
  N("reactive", <<>>), N("reactive", <<OV("Representation", "bad")>>), N("reactive", <<OV("Representation", "d1")>>)}
FaultDomain(deep) ==
  {One(neg, [x EXCEPT !.reps = r]) : neg \in FaultNegs, x \in FaultHeaders, r \in FaultReps}
  \union
  {One(N(k[1], <<OV(k[2], "custom")>>), [x EXCEPT !.reps = <<Rep0, [Rep0 EXCEPT !.err = b]>>, !.script = Script(p, q)]) :
     k \in {<<"proactive", "Algorithm">>, <<"transparent", "RVSA">>}, x \in FaultHeaders, b \in BOOLEAN,
     p \in -1..2, q \in {-1, 0, 2}}
  \union
  {One(N("transparent", <<>>), [Ex0 EXCEPT !.n = L("*"), !.f = f, !.reps = <<[Rep0 EXCEPT !.ct = "", !.feat = fl]>>]) :
     f \in {Absent, L("tables"), L("tables=2")},
     fl \in {<<"">>, <<"a b c">>, <<"=">>, <<"tables=">>, <<"[tables">>, <<"tables;x">>, <<"tables=[a-b]">>, <<"tables", "=1">>,
             <<"!">>, <<"[]">>, <<"tables=[1-2">>, <<"ua-media=">>, <<"tables=a/b">>, <<"tables=1;+0.5;-0.5">>, <<"-">>, <<"a-b;-0.5+0.5">>}}
  \union
  {One(N("proactive", <<>>), [Ex0 EXCEPT !.reps = <<R("text/html;level=x", "", "", <<>>, 1000, 10), R("text/html;level=1", "", "", <<>>, q, 10)>>]) :
     q \in {500, 1000}}
  \union
  \* candidates that declare no media type or language that could be read
  {One(neg, [Ex0 EXCEPT !.a = a, !.l = l, !.n = n, !.script = Script(k, 0),
             !.reps = <<[Rep0 EXCEPT !.ct = ct, !.lang = lg], [Rep0 EXCEPT !.ct = c2, !.lang = lg], Rep0>>]) :
     neg \in {N("proactive", <<>>), N("transparent", <<>>), N("transparent", <<OV("RVSA", "custom")>>), N("reactive", <<>>)},
     a \in {Absent, L("text/*")}, l \in {Absent, L("en")}, n \in {Absent, L("*")}, k \in 1..2,
     ct \in {"text", "text/", "/", "text/html; level", "a b/c"}, c2 \in {"text/html", "texthtml"}, lg \in {"", "e n", "-"}}

(* --------------------------------- framing --------------------------------- *)
FramingReps == {<<>>, <<R("text/html;charset=utf-8", "en-US", "utf-8", <<"gzip", "identity">>, 1000, 10)>>,
  <<R("", "", "", <<>>, 1000, 3), R("application/json", "fr", "us-ascii", <<"br">>, 500, 5000)>>}
FramingNegs == {N("proactive", <<>>), N("proactive", <<O("DisableStrictMode")>>), N("proactive", <<OV("DefaultRepresentation", "d2"), OVs("Representations", <<"d2", "d3">>)>>),
  N("transparent", <<>>), N("transparent", <<OV("RVSA", "custom"), OV("ListRepresentation", "d2")>>),
  N("reactive", <<>>), N("reactive", <<OV("Representation", "d3")>>), Default("proactive"), Default("transparent"), Default("reactive")}
FramingX(deep) == {[Ex0 EXCEPT !.creation = c, !.a = a, !.n = n, !.preset = p, !.http = h] : c \in BOOLEAN,
  a \in {Absent, L("application/json"), L("image/gif"), L("text/html, */*;q=0.1")}, n \in {Absent, L("1.0")}, p \in BOOLEAN, h \in Small(deep, {FALSE}, BOOLEAN)}
FramingDomain(deep) == {One(g, [x EXCEPT !.reps = r]) : g \in FramingNegs, x \in FramingX(deep), r \in FramingReps}
  \union
  {One(g, [x EXCEPT !.reps = r, !.http = TRUE]) : g \in FramingNegs, x \in {y \in FramingX(deep) : ~y.preset /\ ~y.http /\ ~y.creation}, r \in FramingReps}

(* --------------------------------- spellings -------------------------------- *)
\* each set holds spellings of one and the same element
SpellingsOf ==
  [a |-> <<{"text/html;level=1;q=0.5", "text/html; level=1; q=0.50", "TEXT/Html ;Level=1 ; Q=0.500", "text/html;level=\"1\";q=0.5", "text/html;level=1;q=0.5;ext;v=\"1,2\""},
           {"application/json", "Application/JSON;q=1", "application/json;q=1.000", "application/json ; q=1.0"},
           {"text/*;q=0.2", "TEXT/*;q=0.20", "text/*\t;\tq=0.200"}>>,
   l |-> <<{"en-GB;q=0.5", "EN-gb;q=0.50", "en-gb ; q=0.500", "En-Gb; Q=0.5"},
           {"fr", "FR;q=1", "fr;q=1.000", "Fr ; q=1.0"}, {"*;q=0.1", "* ; q=0.10", "*;Q=0.100"}>>,
   c |-> <<{"utf-8;q=0.5", "UTF-8;q=0.50", "Utf-8 ; q=0.500", "utf-8; Q=0.5"},
           {"iso-8859-1", "ISO-8859-1;q=1", "iso-8859-1;q=1.000"}, {"*;q=0", "*; q=0.0", "* ;Q=0.000"}>>,
   e |-> <<{"gzip;q=0.5", "GZIP;q=0.50", "gZip ; q=0.500", "gzip; Q=0.5"},
           {"deflate", "Deflate;q=1", "deflate;q=1.000"}, {"identity;q=0.2", "Identity; q=0.20"}>>,
   n |-> <<{"trans", "TRANS", "Trans"}, {"guess-small", "GUESS-small", "Guess-Small"}, {"1.0"}>>,
   f |-> <<{"tables=1", "TABLES=1", "Tables={1}", "tables = 1", "Tables={ 1 }"}, {"fonts", "Fonts"}, {"!color", "!COLOR", "! color"}>>]
Separators == {", ", ",", " ,", " , ", "\t,\t", ",,", ", ,", ",  "}
Written(x, y, z) ==
  {F(<<x \o s \o y \o s \o z>>) : s \in Separators}
  \union {F(<<x, y, z>>), F(<<x \o ", " \o y, z>>), F(<<x, y \o "," \o z>>), F(<<x \o ",", " " \o y, "\t" \o z \o " ,">>), F(<<"," \o x \o ", " \o y \o "," \o z>>)}
Usual(h) == [i \in 1..3 |-> CHOOSE x \in SpellingsOf[h][i] : \A y \in SpellingsOf[h][i] : Len(x) <= Len(y)]
SpelledReps == <<[R("text/html;level=1", "en-gb", "utf-8", <<"gzip">>, 900, 10) EXCEPT !.feat = <<"tables=1">>],
  [R("application/json", "fr", "iso-8859-1", <<>>, 800, 12) EXCEPT !.feat = <<"!color">>], R("text/plain", "de", "us-ascii", <<"identity">>, 700, 12)>>
RespelledReps == {SpelledReps, <<[SpelledReps[1] EXCEPT !.ct = "Text/HTML; Level=1", !.lang = "EN-GB", !.cs = "UTF-8", !.enc = <<"GZip">>, !.feat = <<"Tables=1">>],
  [SpelledReps[2] EXCEPT !.lang = "Fr", !.cs = "ISO-8859-1"], [SpelledReps[3] EXCEPT !.ct = "TEXT/plain", !.enc = <<"Identity">>]>>}
Put(x, h, f) == CASE h = "a" -> [x EXCEPT !.a = f] [] h = "l" -> [x EXCEPT !.l = f] [] h = "c" -> [x EXCEPT !.c = f]
                  [] h = "e" -> [x EXCEPT !.e = f] [] h = "n" -> [x EXCEPT !.n = f] [] h = "f" -> [x EXCEPT !.f = f]
Spelled(deep, h) ==
  LET u == Usual(h)
      Base(v) == [Ex0 EXCEPT !.neg = IF h \in {"n", "f"} \/ v = 2 THEN 2 ELSE 1, !.reps = SpelledReps,
        !.n = IF h = "n" THEN Absent ELSE L("1.0"), !.a = L("*/*"), !.c = L("utf-8, iso-8859-1, us-ascii"),
        !.l = L("en, fr, de"), !.f = L("tables=1")]
      plain == L(u[1] \o ", " \o u[2] \o ", " \o u[3])
      thirds == IF deep THEN SpellingsOf[h][3] ELSE {u[3]}
      odd == UNION {Written(x, y, z) : x \in SpellingsOf[h][1], y \in SpellingsOf[h][2], z \in thirds}
  IN {[History(<<N("proactive", <<>>), N("transparent", <<>>)>>,
               <<Put(Base(v), h, plain), [Put(Base(v), h, f) EXCEPT !.reps = rs]>>) EXCEPT !.fam = "spelling"] :
        f \in odd, rs \in (IF deep THEN RespelledReps ELSE {SpelledReps}), v \in (IF deep /\ h # "e" THEN {1, 2} ELSE {1})}
     \union
     {[History(<<N("proactive", <<>>), N("transparent", <<>>)>>,
               <<Put(Base(v), h, plain), [Put(Base(v), h, plain) EXCEPT !.reps = rs]>>) EXCEPT !.fam = "spelling"] :
        rs \in RespelledReps, v \in {1, 2}}
SpellingDomain(deep) == UNION {Spelled(deep, h) : h \in DOMAIN SpellingsOf}

(* --------------------------------- histories -------------------------------- *)
\* kinds of exchanges with different ends, by negotiator
HNegs == <<N("proactive", <<>>), N("transparent", <<OV("RVSA", "custom")>>), N("reactive", <<>>), N("proactive", <<O("DisableNotAcceptableRepresentation")>>)>>
HReps == <<R("text/html", "en", "utf-8", <<>>, 1000, 10), R("application/json", "fr", "", <<"gzip">>, 800, 12)>>
HX(n) == [Ex0 EXCEPT !.neg = n, !.reps = HReps]
Episodes == {HX(1), [HX(1) EXCEPT !.a = L("application/json")], [HX(1) EXCEPT !.a = L("image/gif, application/xml;q=0.1")],
  [HX(1) EXCEPT !.a = L("text/html;q=7")], [HX(1) EXCEPT !.reps = <<>>], [HX(1) EXCEPT !.wfail = TRUE], [HX(1) EXCEPT !.creation = TRUE, !.l = L("fr;q=0.5, en;q=0.4")],
  [HX(2) EXCEPT !.n = L("*"), !.script = Script(2, 0)], HX(2), [HX(2) EXCEPT !.n = L("*"), !.script = Script(-1, 0)], [HX(2) EXCEPT !.reps = <<>>],
  HX(3), [HX(3) EXCEPT !.reps = <<>>], [HX(3) EXCEPT !.wfail = TRUE], [HX(4) EXCEPT !.a = L("image/gif")], [HX(4) EXCEPT !.c = L("utf-8;q=0, *")]}
HistoryDomain(deep) ==
  {History(HNegs, <<x, y>>) : x \in Episodes, y \in Episodes} \union
  (IF deep THEN {History(HNegs, <<x, y, z>>) : x \in Episodes, y \in Episodes, z \in Episodes}
   ELSE {History(HNegs, <<x, y, x>>) : x \in Episodes, y \in Episodes})

\* the same, over negotiators that report to different scopes and loggers
ReportNegs == {
  <<N("proactive", <<ON("Scope", 2)>>), N("transparent", <<OV("RVSA", "custom"), ON("Logger", 2)>>),
    N("reactive", <<ON("Scope", 2), ON("Logger", 3)>>),
    N("proactive", <<ON("Logger", 2), O("DisableNotAcceptableRepresentation"), ON("Logger", 1), ON("Scope", 3), OV("DefaultRepresentation", "d2")>>)>>,
  <<Default("proactive"), Default("transparent"), Default("reactive"), N("proactive", <<ON("Scope", 3), ON("Scope", 2), ON("Logger", 2)>>)>>}
ReportX == Episodes \union {[HX(1) EXCEPT !.reps = HReps \o HReps, !.a = L("image/*")], [HX(2) EXCEPT !.wfail = TRUE, !.n = L("*")],
  [HX(4) EXCEPT !.a = L("image/gif"), !.wfail = TRUE], [HX(2) EXCEPT !.n = L("guess-small"), !.script = Script(1, 0)],
  [HX(2) EXCEPT !.n = L("1.0"), !.script = Script(1, 0), !.url = "/b/r"], [HX(3) EXCEPT !.reps = <<[HReps[1] EXCEPT !.err = TRUE]>>]}
ReportDomain(deep) ==
  {History(g, <<x, y>>) : g \in ReportNegs, x \in ReportX, y \in ReportX}

(* -------------------------------- concurrency -------------------------------- *)
Schedules(n) == {s \in [1..(2 * n) -> {1, 2}] : Cardinality({i \in 1..(2 * n) : s[i] = 1}) = n}
ConcurrentPairs ==
  {<<[HX(1) EXCEPT !.a = L("application/json")], [HX(1) EXCEPT !.a = L("text/html")]>>,
   <<[HX(1) EXCEPT !.l = L("fr, en;q=0.5"), !.a = L("*/*;q=0.5")], [HX(1) EXCEPT !.a = L("image/gif"), !.c = L("utf-8")]>>,
   <<[HX(2) EXCEPT !.n = L("*"), !.script = Script(2, 0)], [HX(2) EXCEPT !.n = L("guess-small"), !.reps = <<HReps[2]>>]>>,
   <<HX(3), [HX(3) EXCEPT !.reps = <<HReps[2], HReps[1], HReps[1]>>]>>}
ConcurrencyDomain(deep) ==
  {[History(HNegs, p) EXCEPT !.conc = TRUE, !.sched = s, !.burst = b] :
     p \in ConcurrentPairs, s \in Schedules(IF deep THEN 5 ELSE 3), b \in Small(deep, {1, 4}, {2, 8})}

(* --------------------------------- reactive ---------------------------------- *)
ReactiveReps == {<<>>} \union Lists12({R("text/html", "en", "utf-8", <<"gzip">>, 900, 10),
   [R("image/png", "", "", <<>>, 333, 10) EXCEPT !.feat = <<"color", "x=[1-2]">>], [R("a/b;c=d", "fr-CA", "us-ascii", <<"br", "gzip">>, 0, 10) EXCEPT !.loc = "http://x.org/y?z=1&w=2#f"]})
ReactiveDomain(deep) ==
  {One(g, [Ex0 EXCEPT !.a = a, !.l = l, !.n = n, !.reps = r]) :
     g \in {N("reactive", <<>>), Default("reactive"), N("reactive", <<OV("Representation", "d1")>>), N("reactive", <<OV("Representation", "d2")>>),
            N("reactive", <<OV("Representation", "d2"), OV("Representation", "d3")>>)},
     a \in {Absent, L("image/gif"), L("text/html;q=9")}, l \in {Absent, L("xx;q=")}, n \in {Absent, L("")}, r \in ReactiveReps}

(* --------------------------------- extensions -------------------------------- *)
ExtReps == HReps
ExtNegs == {<<N("proactive", o \o p), N("proactive", <<>>), Default("proactive")>> :
   o \in {<<>>, <<OV("Algorithm", "custom")>>, <<OV("Algorithm", "builtin"), OV("Algorithm", "custom")>>, <<OV("Algorithm", "custom"), OV("Algorithm", "builtin")>>},
   p \in {<<>>, <<OVs("Representations", <<"d2", "d1">>)>>, <<OV("DefaultRepresentation", "d3"), OV("DefaultRepresentation", "d2")>>,
          <<OVs("Representations", <<"d1">>), OVs("Representations", <<"d3", "d2", "d1">>)>>}}
  \union
  {<<N("transparent", o \o p), N("transparent", <<>>), Default("transparent")>> :
   o \in {<<>>, <<OV("RVSA", "custom")>>, <<OV("RVSA", "custom"), OV("RVSA", "builtin")>>},
   p \in {<<>>, <<OV("ListRepresentation", "d2")>>, <<OV("ListRepresentation", "d2"), OV("ListRepresentation", "d3")>>}}
ExtX == {[Ex0 EXCEPT !.reps = ExtReps, !.a = a, !.n = L("*"), !.f = f, !.script = s] :
   a \in {Absent, L("image/gif, text/yaml;q=0.1"), L("application/json, text/html;q=0.5")}, f \in {Absent, L("tables")},
   s \in {Script(2, 2), Script(0, 1), Script(0, 0), Script(-1, 0), Script(1, -1)}}
ExtensionDomain(deep) ==
  {History(g, <<x, [x EXCEPT !.neg = 2], [x EXCEPT !.neg = 3], x>>) : g \in ExtNegs, x \in ExtX}
=============================================================================
