--------------------------------- MODULE MC ---------------------------------
(* Model checking of the negotiators over one of the domains, which is also   *)
(* written to a file so that it can be executed.                              *)
EXTENDS Negotiator, Domains, IOUtils, SequencesExt

CONSTANTS Family, Deep,
          Part, Parts \* to divide the work: every Parts-th case, from the Part-th on

Whole ==
  CASE Family = "selection" -> SelectionDomain(Deep)
    [] Family = "strict" -> StrictDomain(Deep)
    [] Family = "refusal" -> RefusalDomain(Deep)
    [] Family = "permission" -> PermissionDomain(Deep)
    [] Family = "rvsa" -> RvsaDomain(Deep)
    [] Family = "features" -> FeatureDomain(Deep)
    [] Family = "neighbors" -> NeighborDomain(Deep)
    [] Family = "limit" -> LimitDomain(Deep)
    [] Family = "malformed" -> MalformedDomain(Deep)
    [] Family = "faults" -> FaultDomain(Deep)
    [] Family = "framing" -> FramingDomain(Deep)
    [] Family = "history" -> HistoryDomain(Deep)
    [] Family = "reports" -> ReportDomain(Deep)
    [] Family = "concurrency" -> ConcurrencyDomain(Deep)
    [] Family = "reactive" -> ReactiveDomain(Deep)
    [] Family = "spelling" -> SpellingDomain(Deep)
    [] Family = "extensions" -> ExtensionDomain(Deep)

FamilyCases ==
  IF Parts = 1 THEN Whole
  ELSE LET q == SetToSeq(Whole) IN {q[i] : i \in {j \in 1..Len(q) : j % Parts = Part}}

ASSUME ndJsonSerialize(IOEnv.VECTORS, SetToSeq(FamilyCases))
=============================================================================
