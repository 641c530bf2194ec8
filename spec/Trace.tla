-------------------------------- MODULE Trace --------------------------------
(* Conformance: every recorded case is replayed through the state machine of  *)
(* Negotiator and what the implementation was observed to do (case.obs, one   *)
(* record per exchange) is judged against what the machine does.  The verdict *)
(* on the property Prop is printed; spec invariants are checked on the way.   *)
EXTENDS Negotiator, IOUtils

CONSTANT Prop

VARIABLE judged

TraceCases == Range(ndJsonDeserialize(IOEnv.TRACE))

O(s) == case.obs[s]

(* --------------------------- reading observations ------------------------ *)
Is(vals, want) == vals = <<want>> \/ (want = "" /\ \A i \in 1..Len(vals) : vals[i] = "")
CodingsListed(vals) == SelectSeq(Elements(vals), LAMBDA x : x # "")
Describes(o, d) ==
  /\ Is(o.hdr.type, d.ct) /\ Is(o.hdr.lang, d.lang) /\ Is(o.hdr.cs, d.cs)
  /\ CodingsListed(o.hdr.enc) = d.enc
Framed(o) ==
  Len(o.hdr.clen) = 1 /\ IsNat(o.hdr.clen[1]) /\ NatOf(o.hdr.clen[1]) = o.len

FormatOf(ct) ==
  LET full == Lower(Trim(Split(ct, ";")[1]))
  IN CASE full = "application/json" -> "json"
       [] full \in {"application/xml", "text/html"} -> "xml"
       [] full \in {"application/yaml", "text/yaml"} -> "yaml"
       [] OTHER -> "?"

\* the entry of a list document (or variant description) for a candidate
Entry(r) == [ct |-> r.ct, lang |-> r.lang, cs |-> r.cs, enc |-> r.enc, feat |-> r.feat,
             loc |-> r.loc, qs |-> r.qs]
Entries(s) == [i \in 1..Len(Reps(s)) |-> Entry(Reps(s)[i])]

IsListDoc(s, d) ==
  LET o == O(s)
  IN o.body.k = "list" /\ o.body.fmt = FormatOf(d.ct) /\ (o.body.zip = ("gzip" \in Range(d.enc)))
IsRep(s, i) == O(s).body.k = "rep" /\ i \in Range(O(s).body.is)
Complete(s) == O(s).body.k = "list" /\ O(s).body.items = Entries(s)

\* the answer of the machine was given
SameBody(s) ==
  CASE st[s].body = "none" -> O(s).len = 0
    [] st[s].body = "rep" -> IsRep(s, st[s].pick)
    [] OTHER -> IsListDoc(s, Doc(st[s].doc)) /\ Describes(O(s), Doc(st[s].doc)) /\ Complete(s)
SameAnswer(s) ==
  /\ O(s).ret = st[s].ret
  /\ st[s].ret = "ok" => O(s).status = st[s].status /\ SameBody(s)

Ok(s) == O(s).ret = "ok"
SpecOk(s) == st[s].ret = "ok"
ServedRep(s) == Ok(s) /\ O(s).status \in {200, 201} /\ O(s).len > 0

(* --------------------------------- verdicts ------------------------------ *)
\* Each is a pair <<applies, holds>> for one exchange: whether the property
\* says anything about it, and whether it held.
Quiet == <<FALSE, TRUE>>
Verdict(applies, holds) == IF applies THEN <<TRUE, holds>> ELSE Quiet

C01(s) == Verdict(Httpd(s) /\ ServedRep(s) /\ WellFormed(s),
                  \E i \in Range(O(s).body.is) : AcceptableNow(s, i))

C02(s) == Verdict(Httpd(s) /\ SpecOk(s) /\ Reps(s) # <<>>,
                  (Ok(s) /\ O(s).status = 406) = (st[s].status = 406))

C03(s) == Verdict(Httpd(s) /\ SpecOk(s) /\ st[s].body = "rep",
                  Ok(s) /\ O(s).status \in {200, 201} /\ IsRep(s, st[s].pick))

C04(s) == Verdict(Pro(s) /\ SpecOk(s) /\ Reps(s) # <<>>,
                  Ok(s) /\ O(s).status = st[s].status /\ (st[s].body = "rep" => IsRep(s, st[s].pick)))

C05(s) == Verdict(Pro(s) /\ SpecOk(s) /\ st[s].status = 406,
                  Ok(s) /\ O(s).status = 406 /\ SameBody(s)
                  /\ (st[s].body = "list" => Framed(O(s))))

ListDocsOf(s) == IF Pro(s) THEN Range(Cfg(s).docs) \union {Cfg(s).default} ELSE {Cfg(s).list}
C06(s) ==
  LET o == O(s) IN
  Verdict(Ok(s),
    /\ o.heads = 1 /\ ~o.late /\ o.readable
    /\ CASE o.status = 204 -> Reps(s) = <<>> /\ o.len = 0
         [] o.status = 406 /\ o.len = 0 -> Pro(s) /\ ~Cfg(s).body
         [] o.status \in {200, 201} ->
              /\ o.status = (IF Pro(s) /\ X(s).creation THEN 201 ELSE 200)
              /\ Framed(o) /\ o.body.k = "rep"
              /\ \E i \in Range(o.body.is) : Describes(o, Reps(s)[i]) /\ Is(o.hdr.loc, Reps(s)[i].loc)
         [] o.status \in {300, 406} ->
              /\ (o.status = 406) = Pro(s)
              /\ Framed(o)
              /\ \E n \in ListDocsOf(s) : IsListDoc(s, Doc(n)) /\ Describes(o, Doc(n))
         [] OTHER -> FALSE)

\* (where the outcome is not clear, it is one of the two still)
C07(s) ==
  LET o == O(s)
      clear == ~Unclear(s)
  IN
  Verdict(TRUE,
    /\ o.ret \in {"ok", "err"}
    /\ (clear /\ ~SpecOk(s)) => o.ret = "err"
    /\ (o.ret = "err" /\ ~(IF clear THEN st[s].why = "write" ELSE X(s).wfail)) =>
         (o.heads = 0 /\ o.writes = 0 /\ ~o.touched)
    /\ o.ret = "ok" => /\ o.heads = 1
                       /\ o.len > 0 => Framed(o)
                       /\ (clear /\ st[s].body # "none") => o.body.k \in {"rep", "list"})

\* the metrics of the whole case against the observed outcomes
ObservedEnd(s) == [ret |-> O(s).ret, status |-> O(s).status]
Tally(k, kd, o) ==
  Cardinality({s \in DOMAIN st : /\ Cfg(s).kind = kd /\ Cfg(s).scope = k
                                 /\ o \in OutcomeOf(kd, ObservedEnd(s)) \union {"timed"}})
Ledger == \A k \in Sinks : \A kd \in Kinds : \A o \in Outcomes : case.cnt[k][kd][o] = Tally(k, kd, o)
C08(s) == Verdict(\A r \in DOMAIN st : O(r).ret \in {"ok", "err"}, Ledger /\ case.cntother = 0)

\* what a logger was told of an outcome, against what was sent; "?" is not stated
Stated(field, vals) == field = "?" \/ Is(vals, field)
Tells(e, s) ==
  LET o == O(s) IN
  /\ e.status = o.status
  /\ o.len > 0 => /\ e.clen \in {-1, o.len}
                  /\ Stated(e.type, o.hdr.type) /\ Stated(e.enc, o.hdr.enc) /\ Stated(e.lang, o.hdr.lang)
                  /\ Stated(e.cs, o.hdr.cs) /\ Stated(e.loc, o.hdr.loc)
LogOf(k) == SelectSeq(case.logs, LAMBDA e : e.sink = k)
LogsAgree(k) ==
  LET sent == {s \in DOMAIN st : Ok(s) /\ Cfg(s).logger = k}
      log == LogOf(k)
  IN /\ Len(log) = Cardinality(sent)
     /\ \A i \in 1..Len(log) : \E s \in sent : Tells(log[i], s)
     /\ \A s \in sent : \E i \in 1..Len(log) : Tells(log[i], s)
     /\ \A c \in {O(s).status : s \in sent} :
          Len(SelectSeq(log, LAMBDA e : e.status = c)) = Cardinality({s \in sent : O(s).status = c})
C22(s) == Verdict(\A r \in DOMAIN st : O(r).ret \in {"ok", "err"}, \A k \in Sinks : LogsAgree(k))

C09(s) == Verdict(Trans(s) /\ SpecOk(s) /\ Reps(s) # <<>>,
                  Ok(s) /\ O(s).status = st[s].status /\ (st[s].body = "rep" => IsRep(s, st[s].pick)))
C10(s) == C09(s)
C12(s) == C09(s)
C15(s) == C09(s)

C11(s) ==
  LET o == O(s)
      list == o.status = 300
  IN Verdict(Trans(s) /\ Ok(s) /\ o.status \in {200, 300} /\ Reps(s) # <<>>,
    /\ o.alts.ok /\ o.alts.vs = VariantsOf(s)
    /\ Len(o.hdr.tcn) = 1 /\ o.alts.fields = 1
    /\ Lower(o.hdr.tcn[1]) = (IF list THEN "list" ELSE "choice")
    /\ o.alts.fb = (IF list THEN <<Reps(s)[1].loc>> ELSE <<>>)
    \* the kind of response named is the one that was sent
    /\ list => o.body.k = "list"
    /\ ~list => o.body.k = "rep" /\ \E i \in Range(o.body.is) : Is(o.hdr.loc, Reps(s)[i].loc)
    \* and where the machine answers as well, it tells the same
    /\ (SpecOk(s) /\ st[s].status = o.status) =>
         /\ Lower(o.hdr.tcn[1]) = st[s].tcn /\ o.alts.vs = st[s].alts /\ o.alts.fb = st[s].fb)

C16(s) == Verdict(TRUE, SameAnswer(s))

\* (steps are atomic only if memory accesses of concurrent ones are ordered)
C17(s) == Verdict(TRUE, SameAnswer(s) /\ ~O(s).mutated /\ case.races = 0)

C18(s) == Verdict(Cfg(s).kind = "reactive" /\ SpecOk(s) /\ Reps(s) # <<>>,
                  /\ Ok(s) /\ O(s).status = 300 /\ Framed(O(s))
                  /\ SameBody(s))

\* errors that the headers are responsible for
C19(s) == Verdict(st[s].why \in {"", "header"} /\ Reps(s) # <<>>,
                  O(s).ret = st[s].ret /\ (SpecOk(s) => O(s).status = st[s].status))

C20(s) ==
  LET o == O(s) IN
  Verdict(Trans(s),
    CASE Reps(s) = <<>> -> Ok(s) /\ o.status = 204 /\ o.len = 0
      [] Len(Reps(s)) > Cfg(s).max -> /\ o.ret = "err" /\ o.limit /\ o.heads = 0 /\ o.writes = 0
                                      /\ ~o.touched /\ o.calls = <<>>
      [] OTHER -> o.ret \in {"ok", "err"} /\ ~o.limit /\ (SpecOk(s) => Ok(s)))

\* extensions were given what they are promised, and their word was final
\* (up to white space around a field value, which HTTP does not convey)
Trimmed(l) == [i \in 1..Len(l) |-> Trim(l[i])]
SameField(f, g) == f.p = g.p /\ (f.p => Trimmed(f.l) = Trimmed(g.l))
SeesRequest(s, call) ==
  /\ \A h \in {"a", "l", "c", "e", "f", "n"} :
       \/ SameField(call[h], X(s)[h])
       \/ h \in st[s].dis \ Cfg(s).strict /\ ~call[h].p
RepsCalls(s) == SelectSeq(O(s).calls, LAMBDA c : c.of = "reps")
CallsOk(s) ==
  /\ \A i \in 1..Len(O(s).calls) : O(s).calls[i].of \in {"reps", "lists"} /\ SeesRequest(s, O(s).calls[i])
  /\ Cfg(s).kind = "reactive" => O(s).calls = <<>>
  /\ RepsCalls(s) # <<>> => \A h \in {"a", "l", "c", "e", "f", "n"} : SameField(RepsCalls(s)[1][h], X(s)[h])
BuiltOk(s) ==
  \A i \in 1..Len(O(s).built) : /\ O(s).built[i].name \in ListDocsOf(s) /\ O(s).built[i].complete
C21(s) == Verdict(SpecOk(s) \/ st[s].why = "algorithm", SameAnswer(s) /\ CallsOk(s) /\ BuiltOk(s))

\* what is judged even if the outcome is not clear
Exact == {"C06", "C07", "C08", "C11", "C22"}
JudgeOne(s) ==
  CASE Prop \notin Exact /\ Unclear(s) -> Quiet
    [] Prop = "C01" -> C01(s) [] Prop = "C02" -> C02(s) [] Prop = "C03" -> C03(s)
    [] Prop = "C04" -> C04(s) [] Prop = "C05" -> C05(s) [] Prop = "C06" -> C06(s)
    [] Prop = "C07" -> C07(s) [] Prop = "C08" -> C08(s) [] Prop = "C09" -> C09(s)
    [] Prop = "C10" -> C10(s) [] Prop = "C11" -> C11(s) [] Prop = "C12" -> C12(s)
    [] Prop = "C15" -> C15(s) [] Prop = "C16" -> C16(s) [] Prop = "C17" -> C17(s)
    [] Prop = "C18" -> C18(s) [] Prop = "C19" -> C19(s) [] Prop = "C20" -> C20(s)
    [] Prop = "C21" -> C21(s) [] Prop = "C22" -> C22(s)

Expected(s) == [ret |-> st[s].ret, why |-> st[s].why, status |-> st[s].status, body |-> st[s].body,
                pick |-> st[s].pick, doc |-> st[s].doc, dis |-> st[s].dis]
\* one line per case: id, how many exchanges the property applied to, and the
\* exchanges in which it was violated with what was expected of them
Judge ==
  LET J == [s \in DOMAIN st |-> JudgeOne(s)]
      bad == {s \in DOMAIN st : ~J[s][2]}
      applied == Cardinality({s \in DOMAIN st : J[s][1]})
  IN /\ AllDone /\ ~judged
     /\ judged' = TRUE
     /\ UNCHANGED vars
     /\ PrintT("@@" \o ToJson([id |-> case.id, applied |-> applied, bad |-> bad,
                               want |-> [s \in bad |-> ToString(Expected(s))]]))

TraceInit == Init /\ judged = FALSE
TraceNext == (Next /\ UNCHANGED judged) \/ Judge
=============================================================================
