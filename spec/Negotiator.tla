----------------------------- MODULE Negotiator -----------------------------
(* The negotiators as a state machine.                                        *)
(*                                                                            *)
(* A case is a history: negotiators with their options, and exchanges (one    *)
(* request with its candidates each) that those negotiators handle one after  *)
(* the other (conc = FALSE) or concurrently.  Every exchange walks through    *)
(*                                                                            *)
(*   idle - parse - gate - choose - filter* - chosen - (relaxed choose) -     *)
(*   (guess) - (neighbor) - serialise - head - body - done                    *)
(*                                                                            *)
(* and may fail where its inputs or the environment make it fail.             *)
EXTENDS Selection, Json

CONSTANTS Cases,      \* the set of cases to explore
          TakeTurns  \* whether concurrent exchanges take turns in every order, or
                      \* one after the other (which makes no difference: SameEnds)

VARIABLES case,  \* the history under consideration
          variants, \* what their candidates declare,
          hdr,   \* what its requests say, and
          cfg,   \* how its negotiators are configured (all fixed by case)
          st,    \* the state of each of its exchanges
          cnt,   \* the metrics ledger, per scope and kind of negotiator
          logs   \* per logger, the exchanges it was told the outcome of
vars == <<case, variants, hdr, cfg, st, cnt, logs>>

(* ----------------------------- configuration ----------------------------- *)
ProactiveDefaults ==
  [kind |-> "proactive", alg |-> "builtin", body |-> TRUE, default |-> "json",
   docs |-> <<"json", "xml", "yaml">>, strict |-> {"a", "l", "c"}, list |-> "json",
   max |-> 10, guess |-> 50, scope |-> 0, logger |-> 0]
TransparentDefaults == [ProactiveDefaults EXCEPT !.kind = "transparent"]
ReactiveDefaults == [ProactiveDefaults EXCEPT !.kind = "reactive"]

\* an option is [o |-> name, v |-> text, n |-> number, vs |-> texts]
ApplyOption(c, opt) ==
  CASE opt.o = "DisableStrictAccept" -> [c EXCEPT !.strict = @ \ {"a"}]
    [] opt.o = "DisableStrictAcceptLanguage" -> [c EXCEPT !.strict = @ \ {"l"}]
    [] opt.o = "DisableStrictAcceptCharset" -> [c EXCEPT !.strict = @ \ {"c"}]
    [] opt.o = "DisableStrictMode" -> [c EXCEPT !.strict = {}]
    [] opt.o \in {"Algorithm", "RVSA"} -> [c EXCEPT !.alg = opt.v]
    [] opt.o = "DisableNotAcceptableRepresentation" -> [c EXCEPT !.body = FALSE]
    [] opt.o = "DefaultRepresentation" -> [c EXCEPT !.default = opt.v]
    [] opt.o = "Representations" -> [c EXCEPT !.docs = opt.vs]
    [] opt.o \in {"ListRepresentation", "Representation"} -> [c EXCEPT !.list = opt.v]
    [] opt.o = "MaximumVariantListSize" -> [c EXCEPT !.max = IF opt.n < 1 THEN 1 ELSE opt.n]
    [] opt.o = "GuessSmallThreshold" -> [c EXCEPT !.guess = opt.n]
    [] opt.o = "Scope" -> [c EXCEPT !.scope = opt.n]
    [] opt.o = "Logger" -> [c EXCEPT !.logger = opt.n]
    [] OTHER -> c

RECURSIVE Fold(_, _)
Fold(c, opts) == IF opts = <<>> THEN c ELSE Fold(ApplyOption(c, Head(opts)), Tail(opts))
Config(neg) ==
  LET base == CASE neg.kind = "proactive" -> ProactiveDefaults
                [] neg.kind = "transparent" -> TransparentDefaults
                [] OTHER -> ReactiveDefaults
  \* scope and logger 1 are given first, always; default negotiators report to none
  IN IF neg.default THEN base ELSE Fold([base EXCEPT !.scope = 1, !.logger = 1], neg.opts)

X(s) == case.exch[s]
Neg(s) == case.negs[X(s).neg]
Cfg(s) == cfg[s]
Reps(s) == variants[s]

(* ---------------------------- list documents ----------------------------- *)
BuiltinDoc(name, ct) ==
  [name |-> name, ct |-> ct, lang |-> "en-US", cs |-> "ascii", enc |-> <<"identity">>,
   qs |-> 1000, fails |-> FALSE]
Docs == case.docs \o <<BuiltinDoc("json", "application/json"), BuiltinDoc("xml", "application/xml"),
                       BuiltinDoc("yaml", "application/yaml")>>
Doc(name) == Docs[MinOf({i \in 1..Len(Docs) : Docs[i].name = name})]
DocLength(s, name) == X(s).lens[name]
DocRep(s, name) ==
  LET d == Doc(name)
  IN Described([ct |-> d.ct, lang |-> d.lang, cs |-> d.cs, enc |-> d.enc, feat |-> <<>>,
                qs |-> d.qs, len |-> DocLength(s, name), loc |-> "", err |-> d.fails])

(* --------------------------- preferences --------------------------------- *)
Read(x) == [a |-> ParseAccept(x.a), l |-> ParseLanguage(x.l), c |-> ParseCharset(x.c),
            e |-> ParseEncoding(x.e), n |-> ParseNegotiate(x.n), f |-> FeatureSets(x.f)]
Accepts(s) == hdr[s].a
Tongues(s) == hdr[s].l
Charsets(s) == hdr[s].c
Codings(s) == hdr[s].e
Directives(s) == hdr[s].n
\* what an algorithm sees of the request, without the disregarded headers
Preferences(s, dis) ==
  [a |-> IF "a" \in dis THEN <<>> ELSE Accepts(s).es,
   l |-> IF "l" \in dis THEN <<>> ELSE Tongues(s).es,
   c |-> IF "c" \in dis THEN <<>> ELSE Charsets(s).es,
   e |-> Codings(s).es,
   f |-> hdr[s].f]
NoPreferences == [a |-> <<>>, l |-> <<>>, c |-> <<>>, e |-> <<>>, f |-> FeatureSets(NoField)]

\* the headers of the strict mode gate that no candidate satisfies
Unsatisfied(H, reps) ==
  LET Refused(q(_, _)) == \A i \in 1..Len(reps) : q(H, reps[i]) = 0
  IN (IF Refused(MediaQ) THEN {"a"} ELSE {}) \union
     (IF Refused(LanguageQ) THEN {"l"} ELSE {}) \union
     (IF Refused(CharsetQ) THEN {"c"} ELSE {})
CarriedHeaders(s) ==
  (IF X(s).a.p THEN {"a"} ELSE {}) \union (IF X(s).l.p THEN {"l"} ELSE {}) \union
  (IF X(s).c.p THEN {"c"} ELSE {})

(* ------------------------------ the machine ------------------------------ *)
Fresh == [pc |-> "idle", H |-> NoPreferences, dis |-> {}, from |-> "reps", cand |-> <<>>,
          k |-> 0, score |-> <<>>, pick |-> 0, ret |-> "", why |-> "", status |-> 0, head |-> 0,
          body |-> "none", doc |-> "", tcn |-> "", alts |-> <<>>, fb |-> <<>>]

Kinds == {"proactive", "transparent", "reactive"}
Outcomes == {"acceptable", "not_acceptable", "no_content", "multiple_choices", "error", "timed"}
Sinks == 1..3
ZeroLedger == [k \in Sinks |-> [kd \in Kinds |-> [o \in Outcomes |-> 0]]]

Init == /\ case \in Cases
        /\ variants = <<>> /\ hdr = <<>> /\ cfg = <<>> /\ st = <<>>
        /\ cnt = ZeroLedger /\ logs = [k \in Sinks |-> {}]

\* negotiators get configured and requests arrive
Load == /\ st = <<>>
        /\ variants' = [s \in 1..Len(case.exch) |->
              [i \in 1..Len(case.exch[s].reps) |-> Described(case.exch[s].reps[i])]]
        /\ hdr' = [s \in 1..Len(case.exch) |-> Read(case.exch[s])]
        /\ cfg' = [s \in 1..Len(case.exch) |-> Config(case.negs[case.exch[s].neg])]
        /\ st' = [s \in 1..Len(case.exch) |-> Fresh]
        /\ UNCHANGED <<case, cnt, logs>>

Unfinished == {s \in DOMAIN st : st[s].pc # "done"}
Turn(s) == s \in Unfinished /\ ((case.conc /\ TakeTurns) \/ \A r \in 1..(s - 1) : st[r].pc = "done")

At(s, pc) == Turn(s) /\ st[s].pc = pc
Go(s, new) == st' = [st EXCEPT ![s] = new] /\ UNCHANGED <<case, variants, hdr, cfg, cnt, logs>>

\* what the metrics call the end of an exchange
OutcomeOf(kind, fin) ==
  IF fin.ret = "err" THEN {"error"}
  ELSE IF kind = "transparent" THEN {}
  ELSE CASE fin.status \in {200, 201} -> {"acceptable"}
         [] fin.status = 406 -> {"not_acceptable"}
         [] fin.status = 300 -> {"multiple_choices"}
         [] OTHER -> {"no_content"}
\* default negotiators report to no scope
Finish(s, new) ==
  LET fin == [new EXCEPT !.pc = "done"]
      kd == Cfg(s).kind
      hits == OutcomeOf(kd, fin) \union {"timed"}
  IN /\ st' = [st EXCEPT ![s] = fin]
     /\ cnt' = IF Cfg(s).scope = 0 THEN cnt
               ELSE [cnt EXCEPT ![Cfg(s).scope][kd] = [o \in Outcomes |-> @[o] + (IF o \in hits THEN 1 ELSE 0)]]
     /\ logs' = IF Cfg(s).logger = 0 \/ fin.ret = "err" THEN logs
                ELSE [logs EXCEPT ![Cfg(s).logger] = @ \union {s}]
     /\ UNCHANGED <<case, variants, hdr, cfg>>
Fail(s, why) == Finish(s, [st[s] EXCEPT !.ret = "err", !.why = why])

\* an exchange without candidates is answered right away
NoContent(s) ==
  /\ At(s, "idle") /\ Reps(s) = <<>>
  /\ Finish(s, [st[s] EXCEPT !.ret = "ok", !.status = 204, !.head = 1])

Begin(s) ==
  /\ At(s, "idle") /\ Reps(s) # <<>>
  /\ IF Cfg(s).kind = "transparent" /\ Len(Reps(s)) > Cfg(s).max
     THEN Fail(s, "limit")
     ELSE Go(s, [st[s] EXCEPT !.pc = "parse"])

Parse(s) ==
  /\ At(s, "parse")
  /\ CASE Cfg(s).kind = "proactive" ->
            IF ~Accepts(s).ok \/ ~Tongues(s).ok \/ ~Charsets(s).ok THEN Fail(s, "header")
            ELSE Go(s, [st[s] EXCEPT !.pc = "gate"])
       [] Cfg(s).kind = "transparent" ->
            IF ~Directives(s).ok THEN Fail(s, "header")
            ELSE IF MayChoose(Directives(s).es) THEN Go(s, [st[s] EXCEPT !.pc = "choose"])
            ELSE Go(s, [st[s] EXCEPT !.pc = "serialise", !.body = "list", !.doc = Cfg(s).list])
       [] OTHER -> Go(s, [st[s] EXCEPT !.pc = "serialise", !.body = "list", !.doc = Cfg(s).list])

\* 406, with or without a list document
Refuse(s) ==
  IF Cfg(s).body
  THEN Go(s, [st[s] EXCEPT !.pc = "choose", !.from = "lists", !.pick = 0, !.status = 406])
  ELSE Finish(s, [st[s] EXCEPT !.ret = "ok", !.status = 406, !.head = 1, !.pick = 0])

\* the strict mode gate of proactive negotiation
Gate(s) ==
  LET H == [Preferences(s, {}) EXCEPT !.e = <<>>]
      un == Unsatisfied(H, Reps(s))
  IN /\ At(s, "gate")
     /\ IF un \intersect Cfg(s).strict # {} THEN Refuse(s)
        ELSE Go(s, [st[s] EXCEPT !.pc = "choose", !.dis = un])

Options(s) == IF st[s].from = "lists"
              THEN [i \in 1..Len(Cfg(s).docs) |-> DocRep(s, Cfg(s).docs[i])]
              ELSE Reps(s)

\* an extension decides as scripted: none while the request carries one of the
\* headers it objects to
Scripted(s) ==
  LET x == X(s).script
      carried == CarriedHeaders(s) \ (IF st[s].from = "again" THEN st[s].dis ELSE {})
      want == IF st[s].from = "lists" THEN x.lists
              ELSE IF Range(x.unless) \intersect carried # {} THEN 0
              ELSE x.reps
  IN IF want > Len(Options(s)) THEN 0 ELSE want

Eliminate(H, reps) ==
  SelectSeq([i \in 1..Len(reps) |-> i], LAMBDA i : Acceptable(H, reps[i]))

\* whether the outcome may hinge on what is left open: the rounding of products next
\* to halfway, the order of specificity of ranges that are not comparable, what
\* becomes of candidates that declare something that is not a media type or language,
\* and whether a body that cannot be had counts as smaller than an empty one
Unclear(s) ==
  LET H == Preferences(s, {})
      docs == [i \in 1..Len(Cfg(s).docs) |-> DocRep(s, Cfg(s).docs[i])]
      all == Range(Reps(s)) \union Range(docs)
      builtin == Cfg(s).alg = "builtin"
      Odd(r) == (r.ct # "" /\ ~r.media.ok) \/ (r.lang # "" /\ ~r.tongue.ok)
  IN /\ Reps(s) # <<>> /\ Accepts(s).ok
     /\ CASE Cfg(s).kind = "proactive" ->
               \/ \E r \in all : UnclearMedia(H.a, r.media) \/ (builtin /\ UnclearSourceAndType(H, r)) \/ Odd(r)
               \/ builtin /\ (\E r \in Range(Reps(s)) : r.err) /\ \E r \in Range(Reps(s)) : ~r.err /\ r.len = 0
          [] Cfg(s).kind = "transparent" ->
               /\ builtin /\ Tongues(s).ok /\ Charsets(s).ok /\ ~RvsaFails(H, Reps(s))
               /\ \E r \in Range(Reps(s)) : UnclearMedia(H.a, r.media) \/ UnclearRating(H, r) \/ Odd(r)
          [] OTHER -> FALSE

\* rank the remaining candidates by the criteria of each step
Ranked(s, H, opts, cand) ==
  [st[s] EXCEPT !.pc = "filter", !.H = H, !.k = 1, !.cand = cand,
     !.score = [i \in 1..Len(opts) |->
                 IF Len(cand) <= 1 \/ i \notin Range(cand) THEN <<>>
                 ELSE [k \in 1..Steps |-> Criterion(k, H, opts[i])]]]

Choose(s) ==
  LET dis == IF st[s].from = "again" THEN st[s].dis ELSE {}
      H == Preferences(s, dis)
      builtin == Cfg(s).alg = "builtin"
      carries(f) == f \notin dis
      malformed == (carries("a") /\ ~Accepts(s).ok) \/ (carries("l") /\ ~Tongues(s).ok)
                   \/ (carries("c") /\ ~Charsets(s).ok)
  IN /\ At(s, "choose")
     /\ IF ~builtin THEN
          IF Scripted(s) = -1 THEN Fail(s, "algorithm")
          ELSE Go(s, [st[s] EXCEPT !.pc = "chosen", !.pick = Scripted(s)])
        ELSE IF Cfg(s).kind = "proactive" THEN
          IF malformed \/ ~Codings(s).ok THEN Fail(s, "header")
          ELSE Go(s, Ranked(s, H, Options(s), Eliminate(H, Options(s))))
        ELSE
          IF malformed THEN Fail(s, "header")
          ELSE IF RvsaFails(H, Reps(s)) THEN Fail(s, "features")
          ELSE Go(s, [st[s] EXCEPT !.pc = "chosen", !.H = H, !.pick = Rvsa(H, Reps(s))])

\* one step of the Apache httpd algorithm
Filter(s) ==
  LET c == st[s].cand
      k == st[s].k
      opts == Options(s)
  IN /\ At(s, "filter")
     /\ IF Len(c) <= 1 \/ k > Steps
        THEN Go(s, [st[s] EXCEPT !.pc = "chosen", !.pick = IF c = <<>> THEN 0 ELSE c[1]])
        ELSE IF k = 4 /\ \E j \in 1..Len(c) : BadLevel(opts[c[j]]) THEN Fail(s, "level")
        ELSE IF k = 8 /\ \E j \in 1..Len(c) : opts[c[j]].err THEN Fail(s, "serialise")
        ELSE Go(s, [st[s] EXCEPT !.k = k + 1, !.cand = Best(k, st[s].score, c)])

Chosen(s) ==
  LET none == st[s].pick = 0
      from == st[s].from
      guess == GuessSmall(Directives(s).es)
  IN /\ At(s, "chosen")
     /\ CASE Cfg(s).kind = "transparent" ->
               IF none THEN Go(s, [st[s] EXCEPT !.pc = "serialise", !.body = "list", !.doc = Cfg(s).list])
               ELSE Go(s, [st[s] EXCEPT !.pc = IF guess THEN "guess" ELSE "neighbor"])
          [] from = "lists" ->
               Go(s, [st[s] EXCEPT !.pc = "serialise", !.body = "list",
                      !.doc = IF none THEN Cfg(s).default ELSE Cfg(s).docs[st[s].pick]])
          [] ~none -> Go(s, [st[s] EXCEPT !.pc = "serialise", !.body = "rep"])
          [] from = "reps" /\ st[s].dis # {} -> Go(s, [st[s] EXCEPT !.pc = "choose", !.from = "again"])
          [] OTHER -> Refuse(s)

\* 'guess-small': the choice must not be much larger than the list
Guess(s) ==
  LET list == DocRep(s, Cfg(s).list)
      rep == Reps(s)[st[s].pick]
  IN /\ At(s, "guess")
     /\ IF list.err \/ rep.err THEN Fail(s, "serialise")
        ELSE IF rep.len < list.len \/ rep.len - list.len <= Cfg(s).guess
        THEN Go(s, [st[s] EXCEPT !.pc = "neighbor"])
        ELSE Go(s, [st[s] EXCEPT !.pc = "serialise", !.body = "list", !.doc = Cfg(s).list])

Neighbor(s) ==
  /\ At(s, "neighbor")
  /\ IF Neighbors(Reps(s)[st[s].pick].loc, X(s).url)
     THEN Go(s, [st[s] EXCEPT !.pc = "serialise", !.body = "rep"])
     ELSE Go(s, [st[s] EXCEPT !.pc = "serialise", !.body = "list", !.doc = Cfg(s).list])

StatusFor(s) ==
  CASE Cfg(s).kind # "proactive" -> IF st[s].body = "rep" THEN 200 ELSE 300
    [] st[s].body = "list" -> 406
    [] X(s).creation -> 201
    [] OTHER -> 200

Serialise(s) ==
  LET isRep == st[s].body = "rep"
      fails == \/ isRep /\ Reps(s)[st[s].pick].err
               \/ ~isRep /\ Doc(st[s].doc).fails
               \/ Cfg(s).kind = "transparent" /\ \E i \in 1..Len(Reps(s)) : Reps(s)[i].err
  IN /\ At(s, "serialise")
     /\ IF fails THEN Fail(s, "serialise")
        ELSE Go(s, [st[s] EXCEPT !.pc = "head", !.status = StatusFor(s)])

\* what a transparent response tells of the negotiation (RFC 2295 section 8);
\* features are compared word by word, as bags contain blanks
VariantsOf(s) ==
  [i \in 1..Len(Reps(s)) |->
     LET r == Reps(s)[i]
     IN [uri |-> r.loc, qs |-> r.qs, type |-> r.ct, charset |-> r.cs, language |-> r.lang,
         features |-> FlatMap(Words, r.feat), length |-> r.len]]

WriteHead(s) ==
  LET list == st[s].body = "list"
  IN /\ At(s, "head")
     /\ Go(s, [st[s] EXCEPT !.pc = "body", !.head = 1,
               !.tcn = IF Cfg(s).kind # "transparent" THEN "" ELSE IF list THEN "list" ELSE "choice",
               !.alts = IF Cfg(s).kind = "transparent" THEN VariantsOf(s) ELSE <<>>,
               !.fb = IF Cfg(s).kind = "transparent" /\ list THEN <<Reps(s)[1].loc>> ELSE <<>>])

WriteBody(s) ==
  /\ At(s, "body")
  /\ IF X(s).wfail THEN Fail(s, "write") ELSE Finish(s, [st[s] EXCEPT !.ret = "ok"])

Next == Load \/ \E s \in Unfinished :
  \/ NoContent(s) \/ Begin(s) \/ Parse(s) \/ Gate(s) \/ Choose(s) \/ Filter(s) \/ Chosen(s)
  \/ Guess(s) \/ Neighbor(s) \/ Serialise(s) \/ WriteHead(s) \/ WriteBody(s)

AllDone == st # <<>> /\ Unfinished = {}
Terminated == AllDone /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Terminated]_vars /\ WF_vars(Next)

(* =============================== properties ============================== *)
Done == {s \in DOMAIN st : st[s].pc = "done"}
Answered == {s \in Done : st[s].ret = "ok"}
Failed == {s \in Done : st[s].ret = "err"}
Pro(s) == Cfg(s).kind = "proactive"
Httpd(s) == Pro(s) /\ Cfg(s).alg = "builtin"
Trans(s) == Cfg(s).kind = "transparent"
Served(s) == s \in Answered /\ st[s].body = "rep"

WellFormed(s) == Accepts(s).ok /\ Tongues(s).ok /\ Charsets(s).ok /\ Codings(s).ok
\* the headers that may be disregarded: not strict and satisfied by no candidate
MayDisregard(s) == Unsatisfied(Preferences(s, {}), Reps(s)) \ Cfg(s).strict
AcceptableNow(s, i) ==
  \/ Acceptable(Preferences(s, {}), Reps(s)[i])
  \/ Acceptable(Preferences(s, MayDisregard(s)), Reps(s)[i])
NothingAcceptable(s) == \A i \in 1..Len(Reps(s)) : ~AcceptableNow(s, i)
Faultless(s) == ~X(s).wfail /\ (\A i \in 1..Len(Reps(s)) : ~Reps(s)[i].err /\ ~BadLevel(Reps(s)[i]))
                /\ (\A i \in 1..Len(Docs) : ~Docs[i].fails)

\* C01
ServesAcceptable == \A s \in Answered : Httpd(s) /\ st[s].body = "rep" => AcceptableNow(s, st[s].pick)
\* C02
RefusesOnlyTheUnacceptable ==
  \A s \in Done : Httpd(s) /\ Reps(s) # <<>> /\ WellFormed(s) /\ Faultless(s) =>
     (s \in Answered /\ ((st[s].status = 406) <=> NothingAcceptable(s)))
\* C03
ServesTheBest ==
  \A s \in Answered : Httpd(s) /\ st[s].body = "rep" =>
    \/ IsBest(Preferences(s, {}), Reps(s), st[s].pick)
    \/ /\ MayDisregard(s) # {} /\ (\A i \in 1..Len(Reps(s)) : ~Acceptable(Preferences(s, {}), Reps(s)[i]))
       /\ IsBest(Preferences(s, MayDisregard(s)), Reps(s), st[s].pick)
\* C04
StrictSwitches ==
  \A s \in Done : Pro(s) /\ Reps(s) # <<>> /\ WellFormed(s) =>
    LET un == Unsatisfied(Preferences(s, {}), Reps(s)) IN
    /\ (un \intersect Cfg(s).strict # {} /\ s \in Answered) => st[s].status = 406
    /\ (st[s].status = 406 /\ Httpd(s)) =>
         \/ un \intersect Cfg(s).strict # {}
         \/ \A i \in 1..Len(Reps(s)) : ~Acceptable(Preferences(s, un), Reps(s)[i])
\* C05
RefusalListsEverything ==
  \A s \in Answered : Pro(s) /\ st[s].status = 406 =>
    /\ (st[s].body = "list") = Cfg(s).body
    /\ st[s].body = "list" => st[s].doc \in (Range(Cfg(s).docs) \union {Cfg(s).default})
    /\ (st[s].body = "list" /\ st[s].pick = 0 /\ Httpd(s)) =>
         \A i \in 1..Len(Cfg(s).docs) : ~Acceptable(Preferences(s, {}), DocRep(s, Cfg(s).docs[i]))
\* C06
OneHeadFirst ==
  \A s \in DOMAIN st : /\ st[s].head <= 1
                       /\ s \in Answered => (st[s].head = 1 /\ st[s].status \in {200, 201, 204, 300, 406})
                       /\ s \in Answered /\ st[s].status = 204 => st[s].body = "none"
\* C07
FailuresAreSilent == \A s \in Failed : st[s].why # "write" => st[s].head = 0
\* C08
SumOf(f) == LET RECURSIVE Sum(_)
                Sum(D) == IF D = {} THEN 0 ELSE LET d == CHOOSE e \in D : TRUE IN f[d] + Sum(D \ {d})
            IN Sum(DOMAIN f)
Metered(k, kd) == {s \in Done : Cfg(s).kind = kd /\ Cfg(s).scope = k}
LedgerBalances ==
  \A k \in Sinks : \A kd \in Kinds :
    /\ cnt[k][kd]["timed"] = Cardinality(Metered(k, kd))
    /\ cnt[k][kd]["error"] = Cardinality(Metered(k, kd) \intersect Failed)
    /\ kd # "transparent" =>
       SumOf([o \in Outcomes \ {"timed"} |-> cnt[k][kd][o]]) = Cardinality(Metered(k, kd))
    /\ kd = "transparent" => \A o \in Outcomes \ {"timed", "error"} : cnt[k][kd][o] = 0
\* C22
LogsTellWhatWasSent ==
  \A k \in Sinks : logs[k] = {s \in Answered : ~Neg(s).default /\ Cfg(s).logger = k}
\* C09
ChoosesOnlyIfPermitted ==
  \A s \in Answered : Trans(s) /\ st[s].body = "rep" =>
    /\ MayChoose(Directives(s).es)
    /\ Neighbors(Reps(s)[st[s].pick].loc, X(s).url)
    /\ GuessSmall(Directives(s).es) =>
         Reps(s)[st[s].pick].len <= DocLength(s, Cfg(s).list) + (IF Cfg(s).guess < 0 THEN -1 ELSE Cfg(s).guess)
ListsOtherwise ==
  \A s \in Answered : Trans(s) /\ st[s].body = "list" =>
    \/ ~MayChoose(Directives(s).es) \/ st[s].pick = 0
    \/ ~Neighbors(Reps(s)[st[s].pick].loc, X(s).url)
    \/ GuessSmall(Directives(s).es)
       /\ Reps(s)[st[s].pick].len > DocLength(s, Cfg(s).list) + Cfg(s).guess
\* C10
RvsaIsOptimal ==
  \A s \in Done : Trans(s) /\ Cfg(s).alg = "builtin" /\ st[s].pick # 0 =>
    LET H == st[s].H r == Reps(s) p == st[s].pick IN
    /\ Overall(H, r[p]) > 0 /\ ~Speculative(H, r[p])
    /\ \A i \in 1..Len(r) : Overall(H, r[i]) <= Overall(H, r[p])
    /\ \A i \in 1..(p - 1) : Overall(H, r[i]) < Overall(H, r[p])
\* C11
TruthfulHeaders ==
  \A s \in Answered : Trans(s) /\ st[s].status # 204 =>
    /\ st[s].tcn = (IF st[s].body = "list" THEN "list" ELSE "choice")
    /\ (st[s].tcn = "list") = (st[s].status = 300)
    /\ Len(st[s].alts) = Len(Reps(s))
    /\ \A i \in 1..Len(Reps(s)) : st[s].alts[i].uri = Reps(s)[i].loc /\ st[s].alts[i].length = Reps(s)[i].len
    /\ (st[s].fb # <<>>) = (st[s].tcn = "list")
\* C12
NeverOutsideTheNeighborhood ==
  \A s \in Answered : Trans(s) /\ st[s].body = "rep" => Neighbors(Reps(s)[st[s].pick].loc, X(s).url)
\* C15
LawsOfFeatures ==
  \A s \in DOMAIN st : Trans(s) =>
    LET fs == hdr[s].f IN
    \A i \in 1..Len(Reps(s)) : \A j \in 1..Len(Reps(s)[i].feat) :
      LET e == ListElement(Reps(s)[i].feat[j])
          Holds(p) == HoldsPredicate(p, fs)
          Says(k, p) == [p EXCEPT !.k = k]
      IN e.ok => \A n \in 1..Len(e.preds) :
           LET p == e.preds[n] IN
           \* nothing is both there and missing, equal and different; what is
           \* known of a value implies presence; an unmentioned tag is unknown
           /\ ~(Holds(Says("present", p)) /\ Holds(Says("absent", p)))
           /\ ~(Holds(Says("equals", p)) /\ Holds(Says("differs", p)))
           /\ \A k \in {"equals", "differs", "within"} : Holds(Says(k, p)) => Holds(Says("present", p))
           /\ p.t \notin (fs.have \union fs.lack) => ~Holds(p)
           /\ (p.k = "within" /\ Holds(p)) =>
                \A lo \in {b \in {"", "0", "1", "2", p.lo} : AtMost(b, p.lo)} : Holds([p EXCEPT !.lo = lo])
\* C16: spelling does not matter to what is read, nor to how it ends
SpellingDoesNotMatter ==
  case.fam = "spelling" =>
    \A s, r \in DOMAIN st : X(s).neg = X(r).neg =>
      /\ hdr[s] = hdr[r]
      /\ \A i \in 1..Len(Reps(s)) : Reps(s)[i].media = Reps(r)[i].media /\ Reps(s)[i].tongue = Reps(r)[i].tongue
      /\ (s \in Done /\ r \in Done) =>
            /\ st[s].status = st[r].status /\ st[s].pick = st[r].pick /\ st[s].ret = st[r].ret
            /\ st[s].doc = st[r].doc
\* C18
ReactiveAlwaysLists ==
  \A s \in Answered : Cfg(s).kind = "reactive" /\ Reps(s) # <<>> => (st[s].status = 300 /\ st[s].body = "list")
\* C19
MalformedIsRefused ==
  \A s \in Done : Pro(s) /\ Reps(s) # <<>> /\ ~(Accepts(s).ok /\ Tongues(s).ok /\ Charsets(s).ok) =>
     (s \in Failed /\ st[s].why = "header")
\* C20
LimitEnforced ==
  \A s \in Done : Trans(s) =>
    /\ (Len(Reps(s)) > Cfg(s).max) <=> (s \in Failed /\ st[s].why = "limit")
    /\ (Reps(s) = <<>>) <=> st[s].status = 204
\* C21
ExtensionsAreFinal ==
  \A s \in Done : Cfg(s).alg = "custom" /\ ~Neg(s).default /\ Faultless(s) /\ WellFormed(s) =>
    LET x == X(s).script
        final == x.unless = <<>>
    IN /\ (Pro(s) /\ final /\ x.reps \in 1..Len(Reps(s)) /\ s \in Answered /\ st[s].body = "rep") => st[s].pick = x.reps
       /\ (Pro(s) /\ final /\ x.reps = 0 /\ s \in Answered /\ Reps(s) # <<>>) => st[s].status = 406
       /\ (s \in Answered /\ st[s].body = "list" /\ st[s].from # "lists") => st[s].doc = Cfg(s).list
       /\ (s \in Answered /\ st[s].from = "lists" /\ x.lists \in 1..Len(Cfg(s).docs)) => st[s].doc = Cfg(s).docs[x.lists]
       /\ (s \in Failed) => st[s].why \in {"algorithm", "limit", "header"}
LastOptionWins ==
  \A s \in DOMAIN st :
    LET os == Neg(s).opts
        Last(names) == LET I == {i \in 1..Len(os) : os[i].o \in names} IN IF I = {} THEN 0 ELSE MaxOf(I)
    IN ~Neg(s).default =>
       /\ Last({"Algorithm", "RVSA"}) # 0 => Cfg(s).alg = os[Last({"Algorithm", "RVSA"})].v
       /\ Last({"ListRepresentation", "Representation"}) # 0 => Cfg(s).list = os[Last({"ListRepresentation", "Representation"})].v
       /\ Last({"Representations"}) # 0 => Cfg(s).docs = os[Last({"Representations"})].vs
       /\ Last({"DefaultRepresentation"}) # 0 => Cfg(s).default = os[Last({"DefaultRepresentation"})].v
\* C17: what an exchange ends with is a function of that exchange alone
EndOf(s) == [ret |-> st[s].ret, status |-> st[s].status, body |-> st[s].body, doc |-> st[s].doc,
             pick |-> st[s].pick]
\* where metrics and log entries go makes no difference
Unnamed(c) == [c EXCEPT !.scope = 0, !.logger = 0]
\* C21
DefaultsAreOptionless ==
  \A s, r \in DOMAIN st :
    (Neg(s).default /\ Neg(r).opts = <<>> /\ Neg(s).kind = Neg(r).kind) => Unnamed(Cfg(s)) = Unnamed(Cfg(r))
SameEnds ==
  \A s, r \in Done : (X(s) = X(r) /\ Unnamed(cfg[s]) = Unnamed(cfg[r])) => EndOf(s) = EndOf(r)

TypeOK ==
  \A s \in DOMAIN st :
    /\ st[s].pc \in {"idle", "parse", "gate", "choose", "filter", "chosen", "guess", "neighbor",
                     "serialise", "head", "body", "done"}
    /\ st[s].pick \in 0..(Len(Reps(s)) + Len(Cfg(s).docs))
    /\ st[s].pc = "done" => st[s].ret \in {"ok", "err"}
Terminates == <>AllDone
=============================================================================
