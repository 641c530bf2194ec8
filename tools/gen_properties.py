#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the anchors stay readable)."""
import json
P = []
def prop(id, title, statement, over, q, why, files, state, mech, obs):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=s) for s in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=obs, hook_needed=None)))

PRO = "proactive/proactive.go"; HT = "proactive/apache_httpd.go"
TR = "transparent/transparent.go"; RV = "transparent/rvsa.go"; RE = "reactive/reactive.go"
H = "internal/header/"; RP = "representation/"
RESP = "status, headers and body received by the http.ResponseWriter"

prop("C01", "A served representation is acceptable to the client",
 "Whenever proactive negotiation with the built-in algorithm serves a representation (200 or 201), each media type, charset, language and content coding it declares is acceptable under the request's Accept, Accept-Charset, Accept-Language and Accept-Encoding headers: for each header the most specific entry that matches decides (ties go to the higher weight), a weight of 0 or no match excludes, an absent or empty header and an undeclared attribute never exclude, a language entry also matches tags of the same primary language, 'identity' is acceptable unless excluded, and all codings of a representation must be acceptable. Only a header for which strict mode is disabled and which no candidate satisfies may be disregarded.",
 ["inputs", "configurations"], "every set of representations, every combination of the four headers (wildcards, specificity, weights, several lines) and every strict mode setting",
 "The decision is a product of four independently matched dimensions with precedence rules; tests sample a few headers with one or two entries each.",
 [PRO, HT, H+"accept.go", H+"accept_charset.go", H+"accept_language.go", H+"accept_encoding.go", H+"media_range.go"],
 ["the request headers", "the candidate representations", "the strict mode switches"],
 [("most specific matching entry", H+"accept*.go Match"), ("elimination of unacceptable candidates", HT+" Choose"), ("strict mode gate", PRO+" Negotiate")],
 [RESP])

prop("C02", "406 is returned only when no representation is acceptable",
 "With at least one representation and well-formed headers, proactive negotiation with the built-in algorithm responds with 406 exactly when no single candidate is acceptable in all of the dimensions that apply. Absent or empty headers, attributes a candidate does not declare, wildcards, and headers that are not strict and that no candidate satisfies never lead to a 406.",
 ["inputs", "configurations"], "every set of representations with missing or present attributes, every header combination including absent and empty ones, every strict mode setting",
 "Unjustified 406 responses show up for particular combinations of undeclared attributes, empty headers, wildcards and weights that a sample does not contain.",
 [PRO, HT, H+"accept.go", H+"accept_language.go", H+"accept_charset.go", H+"accept_encoding.go"],
 ["the request headers", "the candidate representations", "the strict mode switches"],
 [("strict mode gate", PRO+" Negotiate"), ("elimination", HT+" Choose")], [RESP])

prop("C03", "Proactive negotiation serves the best acceptable representation",
 "Among the acceptable candidates the built-in algorithm serves the one that is best by, in this order: source quality times media type weight; language weight; position of the matching language entry in Accept-Language (ordered by weight, then as written); highest text/html level if any has one; charset weight; not being ISO-8859-1; content coding weight (the lowest over its codings, 0.001 for an unmentioned identity); smallest body. Values are compared to three decimals, an undeclared attribute or absent header counts as weight 1, and complete ties go to the candidate supplied first.",
 ["inputs"], "every set of representations of any size and order, all weights in steps of 0.001, all header combinations",
 "A lexicographic order over eight criteria only shows a wrong, missing or swapped step for inputs that tie on all the earlier ones.",
 [HT, RP+"set.go", RP+"ranked.go", H+"quality_value.go", H+"accept_language.go"],
 ["quality values of each candidate", "order of candidates"],
 [("eight filters applied in order", HT+" ApacheHTTPD"), ("stable ranking", RP+"set.go Sort"), ("three decimal comparison", H+"quality_value.go")],
 ["which representation's body and metadata the response carries"])

prop("C04", "Strict mode switches act per header and independently",
 "For each of Accept, Accept-Language and Accept-Charset: while strict mode is enabled, a header no candidate satisfies yields 406 whatever algorithm is configured; while disabled, such a header is disregarded as though the request did not carry it and never prevents a response. A header some candidate satisfies keeps excluding the others whether strict or not, and the switch of one header does not affect the other headers nor later requests.",
 ["inputs", "configurations", "histories"], "all eight strict mode settings in any order of options, all header and candidate combinations, sequences of requests on one negotiator",
 "The switches interact with each other, with the algorithm's own elimination and with custom algorithms; tests use a scripted algorithm that hides this.",
 [PRO, "proactive/proactive_options.go", HT],
 ["strict mode switches", "per header count of unacceptable candidates"],
 [("gate", PRO+" Negotiate"), ("second choice without the disregarded headers", PRO+" Negotiate"), ("options", "proactive/proactive_options.go")],
 [RESP, "calls received by a custom algorithm"])

prop("C05", "A 406 response lists every representation in a negotiated format",
 "Unless it was disabled, the body of a 406 response is a document describing every candidate, in the order supplied and with all their metadata, in the format the configured algorithm selects for the request among the configured list formats, or the configured default format if it selects none. Its headers describe that document, and if the body was disabled the response is an empty 406.",
 ["inputs", "configurations"], "all candidate sets, headers selecting JSON, XML, YAML or nothing, custom list formats and defaults, body enabled or disabled",
 "The second negotiation depends on headers that already excluded all candidates, and the listing on every metadata field of every candidate.",
 [PRO, RP+"list.go", "proactive/proactive_options.go"],
 ["list constructors", "default list constructor", "candidate metadata"],
 [("negotiation among list documents", PRO+" notAcceptable"), ("metadata copying", RP+"list.go SetRepresentations")], [RESP])

prop("C06", "Response headers frame and describe exactly the body sent",
 "Every response of every negotiator sets its status exactly once, and before any body byte; Content-Length equals the number of body bytes, and Content-Type, Content-Encoding, Content-Language, Content-Charset and (when a candidate is served) Content-Location are those of the representation whose bytes make up the body, each with a single value even if the caller had preset it. Status is 200, or 201 for creations, for a proactively served representation, 300 or 406 for lists, 204 without body if there are no representations, and a real HTTP client can read the response completely.",
 ["inputs", "configurations"], "all negotiators, all representations and sizes, response writers with preset headers, recorded and real HTTP connections",
 "Tests compare single responses on recorders, which accept inconsistent framing, duplicate headers and late header changes that a real connection does not.",
 [PRO, TR, RE, "negotiator.go"],
 ["response writer state", "chosen representation"],
 [("acceptable/notAcceptable", PRO), ("listResponse/choiceResponse", TR), ("Negotiate", RE)], [RESP, "a net/http client on the loopback interface"])

prop("C07", "A negotiation that fails reports the error and writes nothing",
 "If a header is malformed, the algorithm fails, a representation cannot be serialized, or the variant list is too large, then negotiation returns an error and has not written a status, a header or any body; a failed body write is returned as an error as well. Negotiation never panics, and whenever it returns no error a complete response was written.",
 ["inputs", "fault_sequences"], "every placement of a malformed header, failing algorithm, failing serialization or failing write, for all negotiators, empty candidate lists and invalid feature lists included",
 "Faults have to be placed at each of the points of the exchange, in combination with what was decided before; tests inject a few of them.",
 [PRO, TR, RE, HT, RV],
 ["returned error", "response writer state"],
 [("serialization ahead of the response head", PRO+" acceptable, notAcceptable; "+TR+" listResponse, choiceResponse; "+RE+" Negotiate"), ("error returns", HT+" Choose; "+RV+" Choose")],
 ["returned error", "all calls the response writer receives"])

prop("C08", "Metrics account for every negotiation exactly once",
 "For any history of negotiations, in the scope each negotiator is configured with (and no other) the counters of a kind of negotiator sum up to the outcomes: one error per failed negotiation, and for the successful ones one acceptable, not acceptable or no content (proactive), one multiple choices or no content (reactive), and none other than errors for transparent ones. Every negotiation, whatever its outcome, is timed exactly once, under a tag naming the kind of negotiator.",
 ["histories", "inputs", "fault_sequences"], "all sequences of negotiations with any outcomes over several negotiators sharing a scope",
 "A ledger property over histories and fault outcomes; tests assert single counters after single calls.",
 [PRO, TR, RE], ["tally counters and timers"],
 [("deferred counters", PRO+", "+TR+", "+RE+" Negotiate")], ["snapshot of a tally test scope"])

prop("C09", "Transparent negotiation chooses only when permitted",
 "Transparent negotiation sends a choice response (200) exactly if the Negotiate header permits the server to choose ('*', '1.0' or 'guess-small', in any case or position), the algorithm selects a representation, and that representation is a neighbor of the resource; with 'guess-small' its body must also be smaller than the list document or exceed it by at most the configured threshold (50 bytes by default). In all other successful cases it sends a list response (300).",
 ["inputs", "configurations"], "all Negotiate headers, algorithm outcomes, body and list sizes around the threshold, thresholds and locations",
 "The decision is a conjunction of independent conditions whose boundary cases (size equal to the threshold, directive combinations) tests sample sparsely.",
 [TR, H+"negotiate.go", H+"negotiate_directive.go", "transparent/transparent_options.go"],
 ["negotiate directives", "guess-small threshold", "sizes of choice and list"],
 [("permission to choose", TR+" Negotiate"), ("guess-small rule", TR+" Negotiate"), ("neighbor rule", TR+" Negotiate")], [RESP])

prop("C10", "Remote variant selection scores variants per RFC 2296",
 "The built-in remote variant selection algorithm rates each variant with the product of source quality, media type, charset, language and feature quality, rounded to five decimals (most specific entry decides; 1 for undeclared attributes or absent headers), and selects the variant with the highest rating, the first supplied among equals. It selects nothing if that rating is 0 or speculative, which it is if a declared attribute was matched by a wildcard entry or its header is absent.",
 ["inputs"], "all variant lists and combinations of Accept, Accept-Charset, Accept-Language and Accept-Features headers",
 "Ties, wildcards and zero weights in five multiplied dimensions; the algorithm's few tests use one or two variants.",
 [RV, RP+"set.go", H+"accept.go", H+"accept_charset.go", H+"accept_language.go", H+"accept_features.go"],
 ["quality values of each variant", "definiteness"],
 [("Choose", RV), ("overallQuality", RV)], ["result of the algorithm", RESP])

prop("C11", "Alternates and TCN headers describe the negotiation truthfully",
 "Every list or choice response carries an Alternates header describing all variants in the order supplied, each with its location, source quality, media type, charset, language, features and exact body length, and a TCN header naming the kind of response sent. List responses name the first variant as fallback, choice responses name none and give the chosen variant's location in Content-Location.",
 ["inputs"], "all variant lists and both kinds of response, whatever led to them",
 "Completeness over every variant and attribute, for every path that leads to a response.",
 [TR, H+"alternates.go", H+"tcn.go"], ["variant list"],
 [("NewAlternates", H+"alternates.go"), ("listResponse/choiceResponse", TR)], ["Alternates, TCN and Content-Location headers"])

prop("C12", "A choice response never serves a variant from outside the neighborhood",
 "Transparent negotiation sends a choice response only if the chosen variant's location and the requested URL are equal up to the last slash of their paths, where scheme and host compare case-insensitively, an absent port means the scheme's default port, escaped letters are the same as unescaped ones but an escaped slash (%2F) is no slash, and query and fragment do not count. Variants whose location differs in scheme, user information, host, port or directory are never sent in a choice response, and variants that are equal in these respects are not refused for their location.",
 ["inputs"], "all pairs of requested URL and variant location, both absolute or both without host",
 "URL equivalence has many independent components; a missing one allows spoofing across directories or hosts only for particular pairs.",
 [TR], ["request URL", "variant location"], [("isNeighbor and sameURL", TR+" Negotiate")], [RESP])

prop("C13", "Content codings are applied in the order they are declared",
 "The serialized form of a representation is the document produced by the marshaller of its media type (case and parameters ignored), to which every declared content coding other than identity has been applied completely, once, and in the order declared, using the format registered for the coding. A media type or coding without an implementation is refused with an error instead of being skipped.",
 ["inputs", "configurations"], "all sequences of codings (repetitions, identity anywhere, any case), all media types, default and custom marshallers and coders",
 "Order and completeness of nested codings need sequences of two or more codings and a check of the actual bytes, which the tests never decode independently.",
 [RP+"base.go", RP+"writer_constructor.go"], ["declared codings", "registered coders"],
 [("encode", RP+"base.go"), ("writer constructors", RP+"writer_constructor.go")], ["bytes returned by Bytes"])

prop("C14", "Deserializing inverts serializing and detects damage",
 "For every media type, sequence of content codings and content, a representation restored from the serialized form of another with the same metadata has the same content. Content with a content coding, and JSON and XML documents, are refused with an error wherever they are truncated; a coding whose format has a checksum (gzip, and the format written for compress) never yields different content for corrupted bytes, nor accepts a corrupted checksum. This holds at any nesting of the codings and without a panic.",
 ["inputs", "fault_sequences"], "all media types and coding sequences, truncation at every length and corruption of any byte covered by a checksum",
 "Damage has to be tried at every position and layer; tests only decode intact single-coded documents.",
 [RP+"base.go", RP+"reader_constructor.go", RP+"list.go"], ["serialized bytes"],
 [("decode", RP+"base.go"), ("reader constructors", RP+"reader_constructor.go")], ["result of FromBytes"])

prop("C15", "Feature predicates are evaluated as RFC 2295 defines",
 "A variant's feature quality is the product over its feature list of the element's true factor if a predicate of it holds for the feature set given in Accept-Features and of its false factor otherwise (defaults: 1 and 0; with only one factor given, the other is 1). Presence, absence, equality, inequality and range predicates (inclusive, highest numeric value, open-ended if a bound is missing), tags compared case-insensitively and values case-sensitively, and bags that hold if any predicate does, all evaluate as defined for present, negated, valued, excluded and unmentioned features.",
 ["inputs"], "all feature lists (predicates, bags, factors) and all Accept-Features headers",
 "A small language with several predicate and expression forms; only their combinations reveal a wrong evaluation.",
 [H+"feature_predicate.go", H+"feature_list.go", H+"feature_list_element.go", H+"feature_expression.go", H+"feature_set.go", H+"feature_tag.go", H+"accept_features.go", RV],
 ["supported and unsupported feature sets"], [("Evaluate", H+"feature_predicate.go"), ("QualityDegradation", H+"feature_list.go"), ("AsFeatureSets", H+"accept_features.go")],
 ["which variant is selected"])

prop("C16", "Equivalent spellings of a request get the same response",
 "The response does not depend on how a header is spelled: elements on one line separated by commas or on several lines, optional whitespace around commas, semicolons and weights, empty list elements, upper or lower case of media types, charsets, codings, language tags, weight parameter names and negotiation directives, and trailing zeros of weights. Commas within quoted parameter values do not separate elements.",
 ["inputs"], "all spellings of the same header values, for all negotiators",
 "Each header has its own parser and each spelling dimension can be missed by one of them only; tests use one canonical spelling.",
 [H+"list.go", H+"accept.go", H+"media_range.go", H+"accept_charset.go", H+"charset_range.go", H+"accept_encoding.go", H+"content_coding_range.go", H+"accept_language.go", H+"accept_features.go", H+"negotiate.go"],
 ["raw header lines"], [("listElements", H+"list.go"), ("range grammars", H+"*_range.go")], [RESP])

prop("C17", "Negotiations do not influence each other",
 "The response to a request depends only on that request, its candidates and the configuration: not on requests handled before or concurrently by the same negotiator, algorithm or default negotiator, and for every interleaving of concurrent negotiations each gets the response it would get alone. Negotiation modifies neither the request, the candidates, nor the caller's list of candidates.",
 ["schedules", "histories", "inputs"], "all interleavings of concurrent negotiations at the points where user code is called, and all request histories, sharing negotiators and candidates",
 "Shared mutable state (cached parsing results, package level defaults, in-place sorting) only shows under particular interleavings or histories.",
 [PRO, HT, TR, RV, RE, RP+"set.go", RP+"list.go", H+"accept.go"],
 ["negotiator values shared by sessions", "package level defaults"],
 [("value receivers", PRO+", "+TR+", "+RE), ("sorting of private sets", RP+"set.go")], [RESP, "request and candidates after the call"])

prop("C18", "List documents are complete and faithful in every format",
 "Reactive negotiation with at least one representation responds with 300 and a list document, whatever the request headers say. A list document in JSON, XML or YAML (HTML is written as XML), with any content codings, has one entry per representation, in the order supplied and duplicates included, with media type, language, codings, location, charset, features and source quality as declared, and reading it back yields the same entries.",
 ["inputs", "configurations"], "all representation lists and metadata (special characters included), all list formats and codings, arbitrary requests",
 "Faithfulness over all metadata fields, formats and list lengths.",
 [RE, RP+"list.go", RP+"base.go"], ["representation metadata"],
 [("Negotiate", RE), ("SetRepresentations", RP+"list.go")], [RESP, "List.Bytes and List.FromBytes"])

prop("C19", "Malformed negotiation headers are refused, well-formed ones are not",
 "A weight that is not a number or lies outside 0 to 1, an empty Accept, Accept-Charset, Accept-Encoding or Negotiate header, an unregistered content coding or language, and an ill-formed charset or language range each make a negotiation that evaluates the header fail with an error, wherever in the header they occur. Headers that conform to RFC 7231 and RFC 2295 are never refused and weights have their numerical value.",
 ["inputs"], "all header values with a malformed element at any position among well-formed ones, and all well-formed values",
 "Grammar conformance over arbitrary element sequences, positions and spellings for five separate parsers.",
 [H+"quality_value.go", H+"media_range.go", H+"charset_range.go", H+"content_coding_range.go", H+"accept_language.go", H+"negotiate_directive.go"],
 ["raw header lines"], [("NewQualityValue", H+"quality_value.go"), ("range parsers", H+"*_range.go")], ["returned error", RESP])

prop("C20", "Transparent negotiation enforces its variant list limit",
 "A variant list longer than the configured maximum (10 by default; settings below 1 count as 1) makes transparent negotiation fail with the dedicated error, without consulting the algorithm or writing anything; a list within the maximum never fails for its size. An empty variant list yields 204.",
 ["inputs", "configurations"], "all list sizes around all configured limits, in any order of options",
 "Boundary cases of size against configured limit.",
 [TR, "transparent/transparent_options.go"], ["maximum variant list size"],
 [("size check", TR+" Negotiate"), ("MaximumVariantListSize", "transparent/transparent_options.go")], ["returned error", RESP])

prop("C21", "Configured extensions are used, and only those configured",
 "A custom algorithm receives the request's headers and all candidates in order, and its decision is final (a representation is served, an error is returned, and none leads to the response for no match); custom list formats are built from all candidates and used in place of the built-in ones; custom marshallers and coders replace the built-in ones, and if one of them fails, at whatever point, so does serializing or deserializing. The last option given wins, options affect only the negotiator they were given to, and the default negotiators behave as ones built without options.",
 ["configurations", "inputs", "histories"], "all combinations and orders of options over several negotiators alive at the same time",
 "Configurations interact only in combination, and leaks between negotiators need several of them.",
 [PRO, "proactive/proactive_options.go", TR, "transparent/transparent_options.go", RE, "reactive/reactive_options.go", RP+"base.go"],
 ["options of each negotiator"], [("New", PRO+", "+TR+", "+RE), ("Set(Un)marshallers, SetEncodingReaders/Writers", RP+"base.go")],
 [RESP, "calls received by custom algorithms, list constructors, marshallers and coders"])

prop("C22", "Log entries tell what was sent",
 "For every history of negotiations, a logger receives for each successful negotiation of the negotiators it was configured for exactly one entry (of level info or above) stating the outcome; the status, content length, media type, codings, language, charset and location it states are those of the response sent. A failed negotiation is never logged with a status, negotiators without the logger report nothing to it, and neither loggers nor scopes influence responses.",
 ["histories", "configurations", "fault_sequences"], "all histories of negotiations (successful, failed, concurrent) over several negotiators with their own loggers and scopes",
 "Agreement between what is sent and what is reported, over every way a negotiation can end and over negotiators that are alive together.",
 [PRO, TR, RE], ["loggers", "responses sent"], [("Logger options", "proactive/proactive_options.go, transparent/transparent_options.go, reactive/reactive_options.go"), ("logging of outcomes", PRO+", "+TR+", "+RE)],
 ["log entries", RESP])

prop("C23", "Serializations do not influence each other",
 "What serializing or deserializing a representation yields depends only on its content, its metadata and the bytes given: it is the same whatever was serialized, deserialized or refused before, and whatever is being serialized concurrently, be it the same representation. Bytes that were returned do not change afterwards, and bytes that were given are not modified.",
 ["histories", "schedules", "inputs"], "all histories and interleavings of (successful and failing) operations over all media types and codings, sharing representations",
 "Pooled buffers, reused coders and in-place processing only show when results of one operation are looked at after others, or under particular interleavings.",
 [RP+"base.go", RP+"list.go", RP+"reader_constructor.go", RP+"writer_constructor.go"], ["bytes handed to the caller", "coders and marshallers in use"],
 [("Bytes/FromBytes, encode/decode", RP+"base.go")], ["serialized bytes", "restored content", "returned errors"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
