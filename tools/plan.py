"""What is explored for each property: the families that are model checked (with
the invariants that state the property) and executed exhaustively, and the random
families with the number of cases of the quick check."""

BASE = ["Go's standard library, the JVM and TLC are trusted",
        "candidates, list documents, algorithms and response writers are supplied by the driver through the public interface",
        "languages and regions are those the specification knows of; weights have at most three decimals"]

def P(model, random, parts=None, more=(), race=None, **kw):
    return dict(race=race or {}, model=model, random=random, parts=parts or {}, assumptions=BASE + list(more), **kw)

PLAN = {
    "C01": P({"selection": ["ServesAcceptable"], "strict": ["ServesAcceptable"]},
             {"selection": 900, "tied": 300, "strict": 250, "history": 120}, {"selection": 3, "strict": 2}),
    "C02": P({"selection": ["RefusesOnlyTheUnacceptable"], "strict": ["RefusesOnlyTheUnacceptable"]},
             {"selection": 900, "tied": 200, "strict": 250, "refusal": 200, "history": 120}, {"selection": 3, "strict": 2}),
    "C03": P({"selection": ["ServesTheBest"], "strict": ["ServesTheBest"]},
             {"selection": 700, "tied": 900, "strict": 150, "history": 120}, {"selection": 3, "strict": 2},
             more=["products of source quality and weight that lie exactly halfway between two thousandths are not judged"]),
    "C04": P({"strict": ["StrictSwitches"], "extensions": ["StrictSwitches"]},
             {"strict": 1200, "selection": 300}, {"strict": 3, "extensions": 3}),
    "C05": P({"refusal": ["RefusalListsEverything"]}, {"refusal": 1200, "strict": 300, "extensions": 200}, {"refusal": 2}),
    "C06": P({"framing": ["OneHeadFirst"], "reactive": ["OneHeadFirst"]}, {"framing": 900, "history": 200, "faults": 200}, {"framing": 3}),
    "C07": P({"faults": ["FailuresAreSilent"], "malformed": ["FailuresAreSilent"]},
             {"faults": 900, "malformed": 300, "limit": 200, "features": 150, "history": 150}, {"faults": 4}),
    "C08": P({"history": ["LedgerBalances"], "reports": ["LedgerBalances"], "faults": ["LedgerBalances"], "concurrency": ["LedgerBalances"]},
             {"history": 400, "reports": 400, "faults": 300, "concurrency": 100, "crowd": 60}, {"faults": 4}),
    "C09": P({"permission": ["ChoosesOnlyIfPermitted", "ListsOtherwise"]},
             {"permission": 1200, "guess": 600, "spelling": 200, "history": 150}),
    "C10": P({"rvsa": ["RvsaIsOptimal"]}, {"rvsa": 1500, "features": 200}, {"rvsa": 3},
             more=["ratings next to halfway between two values of five decimals are not judged"]),
    "C11": P({"permission": ["TruthfulHeaders"], "rvsa": ["TruthfulHeaders"], "framing": ["TruthfulHeaders"]},
             {"permission": 300, "rvsa": 400, "features": 300, "framing": 300, "history": 200}, {"rvsa": 2, "framing": 2}),
    "C12": P({"neighbors": ["NeverOutsideTheNeighborhood"]}, {"neighbors": 2000, "permission": 200}, {"neighbors": 2}),
    "C13": P({"codec": ["CodedAsDeclared", "RefusedIfUnsupported"]}, {"codec": 1200, "listing": 300}),
    "C14": P({"codec": ["Inverts", "CutIsNoticed", "FlipIsNoticed", "EndsAsPredicted"]}, {"codec": 1500, "listing": 300}),
    "C15": P({"features": ["LawsOfFeatures", "RvsaIsOptimal"]}, {"features": 2200}, {"features": 3}),
    "C16": P({"spelling": ["SpellingDoesNotMatter"]}, {"spelling": 1500, "permission": 250}, {"spelling": 5}),
    "C17": P({"history": ["SameEnds"], "concurrency": ["SameEnds"]},
             {"history": 700, "concurrency": 400, "crowd": 120, "neighbors": 100, "features": 60, "strict": 60, "spelling": 60}, {"history": 2, "concurrency": 2}, race={"crowd": 80, "concurrency": 60},
             more=["scheduled interleavings switch between exchanges where code supplied by the user is called; "
                   "others are sampled by running exchanges freely"]),
    "C18": P({"reactive": ["ReactiveAlwaysLists"], "codec": ["CodedAsDeclared", "Inverts"]},
             {"reactive": 700, "listing": 700}, {"reactive": 2}),
    "C19": P({"malformed": ["MalformedIsRefused"]}, {"malformed": 1500, "spelling": 500, "selection": 300}, {"malformed": 2}),
    "C20": P({"limit": ["LimitEnforced"]}, {"limit": 1500, "history": 200}, {"limit": 2}),
    "C21": P({"extensions": ["ExtensionsAreFinal", "LastOptionWins", "DefaultsAreOptionless"], "codec": ["CodedAsDeclared", "FaultsSurface"]},
             {"extensions": 700, "strict": 200, "refusal": 200, "permission": 150, "codec": 300}, {"extensions": 4}),
    "C22": P({"reports": ["LogsTellWhatWasSent"], "framing": ["LogsTellWhatWasSent"]},
             {"reports": 700, "framing": 300, "faults": 200, "concurrency": 100}, {"framing": 3}),
    "C23": P({"pool": ["EndsAsAlone", "KeepsWhatWasHanded"]}, {"pool": 900}, {"pool": 3}, race={"pool": 120},
             more=["interleavings of operations are sampled by running them freely"]),
}
