"""Random cases, to go beyond the domains that are enumerated by the model checker.

Nothing in here knows what the right answer is: the specification decides."""
import random

ABSENT = {"p": False, "l": []}
def F(*lines): return {"p": True, "l": list(lines)}

def rep(**kw):
    r = dict(ct="text/plain", lang="", cs="", enc=[], feat=[], qs=1000, len=10, loc="/a/x", err=False)
    r.update(kw); return r
def exch(**kw):
    x = dict(neg=1, creation=False, a=ABSENT, l=ABSENT, c=ABSENT, e=ABSENT, f=ABSENT, n=ABSENT, url="/a/r",
             reps=[], script=dict(reps=1, lists=0, unless=[]), lens={}, wfail=False, preset=False, http=False)
    x.update(kw); return x
def opt(o, v="", n=0, vs=()): return dict(o=o, v=v, n=n, vs=list(vs))
def neg(kind, *opts, default=False): return dict(kind=kind, default=default, opts=list(opts))
def doc(name, ct, lang, enc, qs, fails=False, cs="ascii"):
    return dict(name=name, ct=ct, lang=lang, cs=cs, enc=enc, qs=qs, fails=fails)
DOCS = [doc("d1", "application/json", "en", [], 1000), doc("d2", "text/html", "fr", ["gzip"], 500),
        doc("d3", "text/yaml", "de", ["identity"], 900), doc("bad", "application/json", "en", [], 1000, True),
        doc("d4", "application/xml", "ja", ["gzip"], 1000), doc("d5", "application/yaml", "it", [], 700, cs="utf-8")]
def formats(rng, least=0):
    """mostly a few list formats, sometimes many"""
    return rng.choices(["d1", "d2", "d3"], k=rng.randint(least, 3)) if rng.random() < .7 else rng.choices(["d1", "d2", "d3", "d4", "d5"], k=rng.randint(max(least, 1), 6))
def case(negs, exchs, docs=DOCS, **kw):
    c = dict(id=0, kind="exchange", fam="random", conc=False, sched=[], burst=1, rounds=1, negs=negs, docs=docs, exch=exchs)
    c.update(kw); return c

# ------------------------------------------------------------------ vocabulary
FULL = ["text/html", "text/plain", "application/json", "application/xml", "image/png", "text/csv"]
# media types of which the names have something in common, but which are different ones
SIMILAR = {"application/json": ["application/vnd.api+json", "application/ld+json", "application/json-seq", "text/json"],
           "application/xml": ["application/atom+xml", "text/xml", "application/xml-dtd",
                               "application/vnd.openxmlformats-officedocument.wordprocessingml.document"],
           "text/html": ["text/htm", "application/html", "text/x-html", "application/xhtml+xml"],
           "text/plain": ["text/plain-bas", "plain/text"], "image/png": ["image/x-png", "image/pn"], "text/csv": ["text/csv-schema", "text/tab-separated-values"]}
PARAMS = ["", "", "", "", ";level=1", ";level=1", ";level=2", ";level=3", ";level=10", ";level=11", ";level=21", ";charset=utf-8", ";v=1",
          ";v=2;level=1", ";level=1;v=2", ";v=12", ";v=2", ";v=ab", ";v=abc", ';t="a,b"', ';t="x;y"', ';t="a"', ";t=a", ";t=a;v=1;level=2",
          ";v=1;level=2;t=a;charset=utf-8", ";level=010", ";level=08", ";level=0", ';t="a\\",b"']
RANGE_PARAMS = ["", "", "", "", "", ";level=1", ";level=2", ";level=11", ";v=1", ";v=ab", ";level=1;v=2", ";t=a"]
LANGS = ["en", "en-US", "en-GB", "fr", "fr-CA", "de", "de-AT", "ja", "it", "pt-BR", "pt", "es-MX", "sv", "cs", "fi", "fil", "ko", "kok"]
CHARSETS = ["utf-8", "iso-8859-1", "us-ascii", "utf-16", "windows-1252", "ISO-8859-1", "UTF-8", "iso-8859-15", "utf-7"]
CODINGS = ["gzip", "deflate", "compress", "identity", "br", "zstd", "x-gzip", "x-compress"]
DIRECTIVES = ["trans", "vlist", "guess-small", "1.0", "*", "1.1", "2.0", "x-ext", "1.05", "11.0", "guess", "guess-smaller",
              "an-extension-directive-that-has-a-rather-long-name"]

# languages that have nothing in common but how they begin
ALIKE = {"fi": "fil", "fil": "fi", "ko": "kok", "kok": "ko"}

def weight_text(q, rng):
    """a weight in thousandths, as one of its spellings"""
    if q == 1000: return rng.choice(["1", "1.0", "1.00", "1.000"])
    if q == 0: return rng.choice(["0", "0.0", "0.00", "0.000"])
    s = "%03d" % q
    short = s.rstrip("0")
    return "0." + s[:rng.randint(len(short), 3)]

class Spell:
    """spelling of header fields; plain=True sticks to the usual one"""
    def __init__(self, rng, plain=False): self.rng, self.plain = rng, plain
    def name(self, s):
        if self.plain or self.rng.random() < .5: return s
        return "".join(self.rng.choice([c.lower(), c.upper()]) for c in s)
    def media(self, s):
        if ";" not in s: return self.name(s)
        head, tail = s.split(";", 1)
        return self.name(head) + self.ows() + ";" + self.ows() + tail
    def ows(self): return "" if self.plain else self.rng.choice(["", "", "", " ", "\t", "  "])
    def element(self, name, q):
        if q is None: return name
        qn = "q" if self.plain else self.rng.choice(["q", "q", "Q"])
        return name + self.ows() + ";" + self.ows() + qn + "=" + weight_text(q, self.rng)
    def field(self, elements):
        if not elements: return ABSENT
        if self.plain: return F(", ".join(elements))
        lines, cur = [], []
        often = self.rng.choice([.3, .3, .3, 1])
        for e in elements:
            cur.append(e)
            if self.rng.random() < often: lines.append(cur); cur = []
        if cur: lines.append(cur)
        out = []
        for l in lines:
            t = ""
            for i, e in enumerate(l):
                if i: t += self.ows() + "," + self.ows()
                elif self.rng.random() < .1: t += self.rng.choice([",", " ,", ", ,"])
                t += e
                if self.rng.random() < .1: t += self.rng.choice([" ,", ",", ",,", ", "])
            out.append(self.ows() + t + self.ows())
        return F(*out)

WEIGHTS = [None, None, 1000, 900, 800, 700, 500, 500, 300, 200, 100, 1, 0, 0, 333, 334, 999, 250]
class AnyWeight(list):
    """any thousandth at all, mostly next to a few of them"""
    def __init__(self, rng):
        at = rng.choice([1, 100, 333, 500, 700, 900, 990])
        super().__init__([None, 1000, 0] + [min(999, max(1, at + rng.randint(-4, 4))) for _ in range(8)] + [rng.randint(1, 999) for _ in range(4)])
ONE_DIGIT = [None, None, 1000, 900, 800, 500, 500, 200, 100, 0]

def some(rng, n):
    """mostly few; more than a dozen are sorted by other means than a few are"""
    return rng.randint(1, n) if rng.random() < .96 else rng.randint(13, 24)
def accept(rng, sp, weights=WEIGHTS, near=()):
    out = []
    for _ in range(some(rng, 4)):
        k = rng.random()
        if out and rng.random() < .08:
            out.append(sp.element(again, rng.choice(weights)))   # the same range once more
            continue
        if near and k < .5:
            r = rng.choice(near)
            if rng.random() < .3: r = r.split(";")[0]
            elif r.count(";") > 1 and '"' not in r and rng.random() < .5:   # some of the parameters, in another order
                ps = r.split(";")[1:]
                r = ";".join([r.split(";")[0]] + rng.sample(ps, rng.randint(1, len(ps))))
            if rng.random() < .15: r = r.split("/")[0] + "/*" + (";" + r.split(";", 1)[1] if ";" in r and rng.random() < .5 else "")
            elif rng.random() < .1 and ";" in r: r += rng.choice(["0", "1", "x"]) if not r.endswith('"') else ";v=1"
            elif rng.random() < .7 and (alike := [t for t in SIMILAR if r.split(";")[0].lower() in SIMILAR[t]]): r = rng.choice(alike)
            elif rng.random() < .12 and r in SIMILAR: r = rng.choice(SIMILAR[r])
            elif rng.random() < .1 and ";" in r: r = r[:-1] if r[-2] not in '="' and r[-1] != '"' else r
        elif k < .65: r = "*/*" + rng.choice(RANGE_PARAMS)
        elif k < .8: r = rng.choice(["text/*", "application/*", "image/*"]) + rng.choice(RANGE_PARAMS)
        else: r = rng.choice(FULL) + rng.choice(PARAMS)
        again = sp.media(r)
        e = sp.element(again, rng.choice(weights))
        if "=" in e[len(again):] and rng.random() < .1:
            e += sp.ows() + ";" + sp.ows() + rng.choice(["ext=1", "ext", "level=1", "v=1", "q=0", 'x="a,b;q=1"', "ext;q=0.1"])
        out.append(e)
    return sp.field(out)
def simple(rng, sp, pool, weights=WEIGHTS, near=(), wild=.25, n=4):
    out = []
    for _ in range(some(rng, n)):
        k = rng.random()
        r = r if out and rng.random() < .08 else "*" if k < wild else rng.choice(near) if near and k < .8 else rng.choice(pool)
        out.append(sp.element(sp.name(r), rng.choice(weights)))
    return sp.field(out)
def language(rng, sp, weights=WEIGHTS, near=()):
    if rng.random() < .03: return F("")
    near = list(near) + [x.split("-")[0] for x in near] + [ALIKE[x] for x in near if x in ALIKE] * 4
    return simple(rng, sp, LANGS, weights, near)
def charset(rng, sp, weights=WEIGHTS, near=()): return simple(rng, sp, CHARSETS, weights, near)
def encoding(rng, sp, weights=WEIGHTS, near=()): return simple(rng, sp, CODINGS, weights, near)

SOURCE = [1000, 1000, 1000, 900, 800, 700, 500, 500, 300, 100, 0]
def candidate(rng, i=0, lens=(1, 5, 10, 10, 10, 11, 12, 12, 13, 20, 50, 0), loc="/a/x%d"):
    r = rep(ct=rng.choice(FULL) + rng.choice(PARAMS), lang=rng.choice(LANGS), cs=rng.choice(CHARSETS),
            enc=rng.choice([[], [], ["gzip"], ["identity"], ["deflate"], ["gzip", "deflate"], ["br"], ["gzip", "identity"], ["gzip", "deflate", "compress"], ["x-gzip"], ["x-compress", "identity"], ["deflate", "br", "gzip", "gzip"]]),
            qs=rng.choice(SOURCE), len=rng.choice(lens), loc=loc % i)
    if rng.random() < .12: r["lang"] = rng.choice(sorted(ALIKE))
    if rng.random() < .08: r["enc"] = [rng.choice(CODINGS) for _ in range(rng.randint(3, 6))]
    if rng.random() < .1:
        t, *ps = r["ct"].split(";", 1)
        r["ct"] = ";".join([rng.choice(SIMILAR[t])] + (ps if rng.random() < .4 else []))
    if rng.random() < .12: spelled(rng, r)
    for k, empty, p in (("ct", "", .12), ("lang", "", .3), ("cs", "", .3)):
        if rng.random() < p: r[k] = empty
    return r
def candidates(rng, n=None, **kw):
    n = n or (rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]) if rng.random() < .97 else rng.randint(13, 18))
    rs = [candidate(rng, i, **kw) for i in range(n)]
    # make candidates that differ in one respect only
    for i in range(1, n):
        if rng.random() < .55:
            base = dict(rs[rng.randrange(i)])
            for k in rng.sample(["ct", "lang", "cs", "enc", "qs", "len"], rng.choice([0, 1, 1, 1, 2])):
                base[k] = rs[i][k]
            base["loc"] = rs[i]["loc"]
            rs[i] = base
    if rng.random() < .05: rs.append(again(rng, rs))
    return rs
def again(rng, reps):
    """one of the candidates once more: the very same one"""
    i = len(reps) if rng.random() < .7 else rng.randint(1, len(reps))
    return dict(reps[i - 1], same=reps[i - 1].get("same", i))
def spelled(rng, r):
    """names that are declared in another case than the usual one, blanks before parameters"""
    sp = Spell(rng)
    if '"' not in r["ct"]: r["ct"] = sp.media(r["ct"]).strip()
    else: r["ct"] = sp.name(r["ct"].split(";")[0]) + ";" + r["ct"].split(";", 1)[1]
    r.update(lang=sp.name(r["lang"]), cs=sp.name(r["cs"]), enc=[sp.name(c) for c in r["enc"]])
def near(reps, k): return [r[k] for r in reps if r[k]]

def headers(rng, reps, sp=None, p=.55, weights=WEIGHTS):
    if rng.random() < .25: weights = AnyWeight(rng)
    sp = sp or Spell(rng, plain=rng.random() < .6)
    x = {}
    if rng.random() < p: x["a"] = accept(rng, sp, weights, near(reps, "ct"))
    if rng.random() < p: x["l"] = language(rng, sp, weights, near(reps, "lang"))
    if rng.random() < p: x["c"] = charset(rng, sp, weights, near(reps, "cs"))
    if rng.random() < p: x["e"] = encoding(rng, sp, weights, [c for r in reps for c in r["enc"]])
    return x
STRICT = ["DisableStrictAccept", "DisableStrictAcceptLanguage", "DisableStrictAcceptCharset", "DisableStrictMode"]
def strict_options(rng):
    return [opt(o) for o in rng.sample(STRICT, rng.choice([0, 1, 1, 2, 2, 3]))]

# ------------------------------------------------------------------ proactive
def selection(rng):
    def make():
        reps = candidates(rng)
        return exch(reps=reps, creation=rng.random() < .2, **headers(rng, reps, p=rng.choice([.3, .6, .9])))
    x = make()
    opts = strict_options(rng) if rng.random() < .4 else []
    if rng.random() < .2: opts.append(opt("DisableNotAcceptableRepresentation"))
    n = neg("proactive", default=True) if rng.random() < .1 else neg("proactive", *opts)
    return case([n], [x])

def tied(rng):
    """candidates that tie on the first criteria, for the later ones to decide"""
    def make():
        sp = Spell(rng, plain=True)
        base = candidate(rng, 0)
        reps = []
        if rng.random() < .25:
            # one long header whose ranges weigh the same: their order decides
            k, key, pool = rng.choice([("a", "ct", [f + p for f in FULL for p in PARAMS]), ("l", "lang", LANGS), ("l", "lang", LANGS), ("c", "cs", CHARSETS)])
            pool = sorted(set(x for x in pool if x)); rng.shuffle(pool)
            for i in range(min(len(pool), rng.randint(4, 9))): reps.append(dict(base, loc="/a/t%d" % i, **{key: pool[i]}))
            names = pool[:20] + rng.choices(["nl", "pl", "ru", "fi", "da"] if k == "l" else ["koi8-r", "big5"] if k == "c" else ["audio/ogg", "video/mp4"], k=max(3, 16 - len(pool)))
            rng.shuffle(names)
            weights = rng.choice([[None], [500, 500, 500, 1000], [500, 1000], [500, 700, 700], [None, None, 900], [None, 300, 300]])
            f = sp.field([sp.element(sp.media(n) if k == "a" else sp.name(n), rng.choice(weights)) for n in names])
            return exch(reps=reps, **{k: f})
        if rng.random() < .15:
            # levels against the criteria before and after them
            for i in range(rng.randint(2, 6)):
                r = dict(base, ct=rng.choice(["text/html", "text/plain;level=4"] + [sp.media("text/html") + ";level=%d" % v for v in (0, 1, 2, 3, 9, 10)]), qs=1000, loc="/a/t%d" % i)
                for k in rng.sample(["lang", "cs", "enc", "len"], rng.choice([1, 1, 2])): r[k] = candidate(rng, i)[k]
                reps.append(r)
            x = exch(reps=reps)
            if rng.random() < .5: x["a"] = F(rng.choice(["text/*", "*/*;q=0.5", "text/html, text/plain", "text/html;level=2;q=0.9, text/html;q=0.9, */*;q=0.1"]))
            if rng.random() < .7: x["l"] = language(rng, sp, [None, 500, 500], near(reps, "lang"))
            if rng.random() < .5: x["c"] = charset(rng, sp, [None, 500, 500, 999], near(reps, "cs"))
            if rng.random() < .3: x["e"] = encoding(rng, sp, [None, 500, 500], [c for r in reps for c in r["enc"]])
            return x
        focus = [rng.choice(["ct", "lang", "cs", "enc", "enc", "len", "qs"])] if rng.random() < .4 else []
        for i in range(rng.randint(2, 6) if rng.random() < .93 else rng.randint(13, 16)):
            r = dict(base, loc="/a/t%d" % i)
            for k in focus or rng.sample(["ct", "lang", "cs", "enc", "len", "qs"], rng.choice([1, 1, 2, 3])):
                r[k] = candidate(rng, i)[k]
            reps.append(r)
        x = exch(reps=reps)
        for k, mk, f in (("a", accept, "ct"), ("l", language, "lang"), ("c", charset, "cs")):
            if rng.random() < .6: x[k] = mk(rng, sp, [None, 1000, 500, 500, 999, 998], near(reps, f))
        if focus == ["enc"] or rng.random() < .5:
            x["e"] = encoding(rng, sp, rng.choice([[None, 1000, 500, 999, 2, 1], [None, 1, 2, 5, 9, 10, 1000]]), [c for r in reps for c in r["enc"]])
        return x
    return case([neg("proactive", *(strict_options(rng) if rng.random() < .5 else []))], [make()])

def script(rng, n, lists=3):
    return dict(reps=rng.choice([0, 0, -1] + list(range(1, n + 1)) * 2) if n else 0,
                lists=rng.choice([0, -1, 1, 2, 3][:lists + 2]),
                unless=rng.choice([[], [], ["a"], ["l"], ["c"], ["a", "l"], ["a", "l", "c"]]))

def strict(rng):
    negs = [neg("proactive", *strict_options(rng)), neg("proactive", *strict_options(rng), opt("Algorithm", "custom")), neg("proactive")]
    xs = []
    for _ in range(rng.randint(1, 4)):
        def make():
            reps = candidates(rng, rng.randint(1, 3))
            h = headers(rng, [] if rng.random() < .5 else reps, p=.5)
            if rng.random() < .1: h[rng.choice("alc")] = None   # nothing at all
            h = {k: F("*/*;q=0" if k == "a" else "*;q=0") if v is None else v for k, v in h.items()}
            return exch(neg=rng.randint(1, 3), reps=reps, creation=rng.random() < .15, script=script(rng, len(reps)), **h)
        xs.append(make())
    return case(negs, xs)

def refusal(rng):
    opts = []
    for _ in range(rng.randint(0, 3)):
        opts.append(rng.choice([opt("Representations", vs=formats(rng)),
                                opt("DefaultRepresentation", rng.choice(["d1", "d2", "d3"])),
                                opt("DisableNotAcceptableRepresentation") if rng.random() < .2 else opt("DefaultRepresentation", "d1")]))
    def make():
        reps = candidates(rng, rng.randint(1, 5) if rng.random() < .92 else rng.randint(6, 16))
        for r in reps:
            if rng.random() < .15: r["loc"] = rng.choice(["", "", "http://h.org/a", "/a?b=c&d=e#f", "/%C3%A9/x y", "https://me:pw@h.org:8443/a", "urn:x:y"])
            if rng.random() < .3: r["feat"] = rng.choice([["tables"], ["tables", "color=4"], ["x!=1"]])
        sp = Spell(rng, plain=True)
        x = exch(reps=reps, creation=rng.random() < .2, script=dict(reps=0, lists=rng.choice([0, 1, 2, 3]), unless=[]))
        x["a"] = accept(rng, sp, WEIGHTS, ["application/json", "application/xml", "application/yaml", "text/html", "text/yaml", "image/gif"])
        if rng.random() < .4: x["l"] = language(rng, sp, WEIGHTS, ["en", "fr", "de"])
        if rng.random() < .4: x["e"] = encoding(rng, sp)
        if rng.random() < .3: x["c"] = simple(rng, sp, ["ascii", "utf-8", "utf-16"])
        if rng.random() < .5:
            for r in reps: r["ct"] = "image/png"
        return x
    if rng.random() < .25: opts.append(opt("Algorithm", "custom"))
    return case([neg("proactive", *opts)], [make()])

def any_negotiator(rng):
    n = some_negotiator(rng)
    if not n["default"]:
        for o in ("Scope", "Logger"):
            if rng.random() < .25: n["opts"].insert(rng.randint(0, len(n["opts"])), opt(o, n=rng.randint(1, 3)))
    return n
def some_negotiator(rng):
    k = rng.random()
    if k < .1: return neg(rng.choice(["proactive", "transparent", "reactive"]), default=True)
    if k < .5:
        o = strict_options(rng)
        if rng.random() < .3: o.append(opt("Algorithm", "custom"))
        if rng.random() < .2: o.append(opt("DisableNotAcceptableRepresentation"))
        if rng.random() < .3: o.append(opt("Representations", vs=formats(rng, 2)))
        if rng.random() < .3: o.append(opt("DefaultRepresentation", rng.choice(["d1", "d2", "d3"])))
        return neg("proactive", *o)
    if k < .85:
        o = []
        if rng.random() < .5: o.append(opt("RVSA", "custom"))
        if rng.random() < .3: o.append(opt("MaximumVariantListSize", n=rng.randint(-1, 4)))
        if rng.random() < .3: o.append(opt("ListRepresentation", rng.choice(["d1", "d2", "d3"])))
        if rng.random() < .3: o.append(opt("GuessSmallThreshold", n=rng.choice([0, 10, 100])))
        return neg("transparent", *o)
    return neg("reactive", *([opt("Representation", rng.choice(["d1", "d2", "d3"]))] if rng.random() < .4 else []))

def any_exchange(rng, negs, kinds_weights=ONE_DIGIT, size=None, noise=.2):
    def make():
        n = rng.randint(1, len(negs))
        k = rng.random()
        reps = [] if k < .06 else candidates(rng, size or rng.randint(1, 5), lens=(0, 1, 5, 10, 10, 12, 200, 300, 400, 600))
        trans = negs[n - 1]["kind"] == "transparent"
        for r in reps:
            if rng.random() < .2: r["loc"] = rng.choice(["/b/x", "/a/x?q=/1", "/a/", "/x", "http://h.org/a/x", "/a/y#f", ""])
            if rng.random() < .2: r["feat"] = rng.choice([["tables"], ["!tables"], ["tables=1;+0.5", "fonts;-0.5"]])
        h = headers(rng, reps, weights=kinds_weights)
        x = exch(neg=n, reps=reps, script=script(rng, len(reps)), creation=rng.random() < .2, **h)
        if x["creation"] and rng.random() < .3:
            for r in reps: r["loc"] = ""
        if rng.random() < .6: x["n"] = Spell(rng, plain=rng.random() < .5).field(rng.sample(DIRECTIVES + ["guess-small"] * 4, rng.randint(1, 3)))
        if rng.random() < .4: x["f"] = F(rng.choice(["tables", "!tables", "tables=1, fonts", "fonts", "*"]))
        return x
    return make()

def faults(rng):
    negs = [any_negotiator(rng) for _ in range(rng.randint(1, 3))]
    bad = rng.random() < .3
    if bad:
        k = rng.choice([("proactive", "DefaultRepresentation"), ("transparent", "ListRepresentation"), ("reactive", "Representation")])
        negs.append(neg(k[0], opt(k[1], "bad")))
    xs = []
    for _ in range(rng.randint(1, 3)):
        x = any_exchange(rng, negs)
        k = rng.random()
        if k < .25 and x["reps"]: rng.choice(x["reps"])["err"] = True
        elif k < .4: x["wfail"] = True
        elif k < .65:
            h = rng.choice("alce")
            x[h] = F(*(x[h]["l"] + [rng.choice({"a": ["text/html;q=2", "text/", "a/b;q=x"], "l": ["en;q=2", "xx", "e n"],
                                                "c": ["utf-8;q=x", "a b"], "e": ["gzip;q=9", "zippy"]}[h])]))
        elif k < .72: x["n"] = F("")
        elif k < .76 and x["reps"]:
            for r in rng.sample(x["reps"], rng.randint(1, len(x["reps"]))):
                if rng.random() < .7: r["ct"] = rng.choice(["text", "text/", "/", "a b/c", "text/html; level", "texthtml", "text/html;;", ";", "text//html"])
                else: r["lang"] = rng.choice(["e n", "-", "en-", "1", "e_n_", "xx-toolongsubtag"])
        elif k < .8 and x["reps"]: rng.choice(x["reps"])["feat"] = [rng.choice(BAD_FEATURES)]
        xs.append(x)
    return case(negs, xs)

def framing(rng):
    negs = [any_negotiator(rng)]
    x = any_exchange(rng, negs)
    x["http"] = rng.random() < .25
    x["preset"] = rng.random() < .3 and not x["http"]
    for r in x["reps"]:
        if rng.random() < .2: r["len"] = rng.choice([2047, 2048, 4096, 5000, 40000, 70000, 300000])
    if x["http"]: x["url"] = "/a/r"
    return case(negs, [x])

def history(rng):
    negs = [any_negotiator(rng) for _ in range(rng.randint(1, 4))]
    xs = [any_exchange(rng, negs) for _ in range(rng.randint(2, 6))]
    if rng.random() < .6:  # come back to an earlier request
        xs.append(dict(rng.choice(xs)))
    for x in xs:
        if rng.random() < .15: x["wfail"] = True
        if rng.random() < .1:
            x["reps"] = [dict(r) for r in x["reps"]]
            if x["reps"]: rng.choice(x["reps"])["err"] = True
        if rng.random() < .15: x["a"] = F("text/html;q=7")
    return case(negs, xs)

def reports(rng):
    negs = [any_negotiator(rng) for _ in range(rng.randint(2, 4))]
    for n in negs:
        if not n["default"]:
            for o in rng.choices(["Scope", "Logger"], k=rng.randint(1, 3)):
                n["opts"].insert(rng.randint(0, len(n["opts"])), opt(o, n=rng.randint(1, 3)))
    c = history(rng)
    for x in c["exch"]: x["neg"] = rng.randint(1, len(negs))
    return dict(c, negs=negs)

def concurrency(rng):
    negs = [any_negotiator(rng) for _ in range(rng.choice([1, 1, 2]))]
    n = rng.choice([2, 2, 2, 3, 4])
    xs = [any_exchange(rng, negs, size=rng.randint(1, 3)) for _ in range(n)]
    sched = [] if rng.random() < .3 else [rng.randint(1, n) for _ in range(rng.randint(6, 40))]
    return case(negs, xs, conc=True, sched=sched, burst=rng.choice([1, 1, 2, 3, 5]))

def crowd(rng):
    """many unscheduled exchanges at the same time, again and again"""
    negs = [any_negotiator(rng) for _ in range(rng.choice([1, 1, 2]))]
    kinds = [any_exchange(rng, negs, size=rng.randint(1, 3)) for _ in range(rng.randint(2, 4))]
    for x in kinds:
        if rng.random() < .1: x["wfail"] = True
    return case(negs, [dict(rng.choice(kinds)) for _ in range(rng.randint(4, 10))], conc=True, sched=[], rounds=40)

# ---------------------------------------------------------------- transparent
def permission(rng):
    sp = Spell(rng, plain=rng.random() < .5)
    k = rng.randint(1, 3)
    reps = [rep(ct=rng.choice(FULL), len=rng.choice([1, 50, 100, 150, 200, 250, 300, 400, 700]), loc=rng.choice(["/a/x", "/a/y?z=/b/", "/b/x", "/a/b/x"]))
            for _ in range(k)]
    opts = [opt("RVSA", "custom")]
    if rng.random() < .5: opts.append(opt("GuessSmallThreshold", n=rng.choice([0, 1, 10, 50, 100, 200, 500, 1000])))
    if rng.random() < .3: opts.append(opt("ListRepresentation", rng.choice(["d1", "d2", "d3"])))
    rng.shuffle(opts)
    x = exch(reps=reps, creation=rng.random() < .1, script=dict(reps=rng.choice([0] + list(range(1, k + 1)) * 3), lists=0, unless=[]),
             n=sp.field([sp.name(d) for d in rng.sample(DIRECTIVES + ["guess-small"] * 4, rng.randint(1, 4))]) if rng.random() < .95 else ABSENT)
    return case([neg("transparent", *opts)], [x])

def guess(rng):
    """sizes just around the limit, given by the size of the list document, which the driver finds out"""
    t = rng.choice([0, 1, 5, 49, 50, 51, 200, 1000])
    to = rng.choice(["json", "json", "d1", "d2"])
    opts = [opt("RVSA", "custom")]
    if t != 50 or rng.random() < .5: opts.append(opt("GuessSmallThreshold", n=t))
    if to != "json": opts.append(opt("ListRepresentation", to))
    k = rng.randint(1, 3)
    reps = [rep(ct=rng.choice(FULL), len=5, loc="/a/x%d" % i) for i in range(k)]
    for r in reps: r["rel"] = dict(to=to, by=rng.choice([-1, 0, 1, t - 1, t, t, t + 1, t + 1, 2 * t, -t, -t - 1, -2 * t - 2, rng.randint(-300, 1200)]))
    n = F(*rng.sample(["guess-small", "trans", "vlist", "2.0"], rng.randint(0, 2)) + ["guess-small"] + ([rng.choice(["*", "1.0"])] if rng.random() < .2 else []))
    return case([neg("transparent", *opts)], [exch(reps=reps, n=n, script=dict(reps=rng.randint(1, k), lists=0, unless=[]))])

def rvsa(rng):
    weights = ONE_DIGIT if rng.random() < .35 else WEIGHTS if rng.random() < .4 else AnyWeight(rng)
    narrow = rng.random() < .2   # ratings that differ in their last decimals only
    if narrow:
        w, b = rng.choice([999, 998, 990, 700, 500, 101]), rng.choice([998, 990, 700, 333, 102])
        weights = [w, w - 1, w - 1, w - 2, w]
    source = rng.choice([[b, b + 1, b + 2]] if narrow else [[1000, 1000, 900, 800, 500, 200, 100, 0], [1000, 999, 998, 501, 500, 499, 333, 1], [1000], list(range(1, 1001))])
    if narrow:
        base = dict(candidate(rng), ct="", lang="", cs="")
        reps = [dict(base, ct=FULL[i], loc="/a/v%d" % i, **({} if rng.random() < .5 else dict(lang=LANGS[i]))) for i in range(rng.randint(2, 5))]
    elif rng.random() < .35:   # variants that differ little
        base = candidate(rng)
        reps = []
        for i in range(rng.randint(2, 5)):
            r = dict(base, loc="/a/v%d" % i)
            k = rng.choice(["ct", "lang", "cs", "qs", "feat"])
            r[k] = candidate(rng)[k]
            reps.append(r)
    else: reps = candidates(rng, rng.randint(1, 6) if rng.random() < .95 else rng.randint(13, 24))
    for r in reps:
        r["qs"] = rng.choice(source); r["enc"] = []; r["len"] = rng.choice([1, 5])
        if not narrow and rng.random() < .25: r["feat"] = rng.choice([["tables"], ["!tables"], ["tables;+0.5-0.2"], ["fonts;-0.5"], ["tables;+0.999-0.998", "fonts;+0.501-0.5"], ["fonts;+1.25"]])
    sp = Spell(rng, plain=rng.random() < .6)
    x = exch(reps=reps, n=F(rng.choice(["*", "1.0"])))
    definite = narrow or rng.random() < .5
    def cut(mk, k, pool):
        if definite:   # every variant is mentioned, so that nothing is left to wildcards
            es = list(dict.fromkeys(near(reps, k)))
            rng.shuffle(es)
            es = [e for e in es if narrow or rng.random() < .93]
            if es: return sp.field([sp.element(sp.media(e) if k == "ct" else sp.name(e), rng.choice(weights)) for e in es])
        return mk(rng, sp, weights, near(reps, k))
    p = 1 if definite else .8
    if rng.random() < p: x["a"] = cut(accept, "ct", FULL)
    if rng.random() < p: x["l"] = cut(language, "lang", LANGS)
    if rng.random() < p: x["c"] = cut(charset, "cs", CHARSETS)
    if rng.random() < .6: x["f"] = F(rng.choice(["tables", "!tables", "tables=1, fonts", "fonts", "*"]))
    opts = [opt("RVSA", "builtin")] if rng.random() < .3 else []
    if len(reps) > 10: opts.append(opt("MaximumVariantListSize", n=30))
    return case([neg("transparent", *opts)], [x])

TAGS = ["tables", "fonts", "Paper", "x_1", "ua-media", "fonts.2"]
VALS = ["1", "2", "3", "10", "12", "a", "B", "b", "a4", "a-4", "02", "1.5"]
BIG = ["16777216", "16777217", "2147483647", "2147483648", "4294967297", "9007199254740992", "9007199254740993", "9223372036854775807",
       "9223372036854775808", "18446744073709551617", "0000000000000000000000012", "100000000000000000000000000000"]
def predicate(rng, vals=VALS):
    t, v = rng.choice(TAGS), rng.choice(vals)
    if rng.random() < .2: t = t.upper()
    if vals is not VALS and rng.random() < .7:
        lo, hi = (rng.choice([x for x in vals if x.isdigit()]) for _ in "lh")
        return t + "=[" + rng.choice([lo + "-" + hi, lo + "-", "-" + hi]) + "]"
    return rng.choice([t, "!" + t, t + "=" + v, t + "!=" + v, t + "=[%d-%d]" % (rng.randint(0, 3), rng.randint(2, 12)),
                       t + "=[%d-]" % rng.randint(0, 4), t + "=[-%d]" % rng.randint(0, 11)])
def factors(rng):
    return rng.choice(["", "", "", ";+0.5", ";-0.5", ";+0.8-0.2", ";+1.0-0.5", ";+1.5-0.5", ";-0.0", ";+0.0-1.0", ";+2-0.75", ";+1.125", ";-0.375", ";+0.333-0.334",
                       ";+1-0.001"])
def list_element(rng, vals=VALS):
    if rng.random() < .25:
        sep = rng.choice([" ", " ", " ", "  ", " \t", "\t"])
        return "[" + rng.choice(["", "", "", sep]) + sep.join(predicate(rng, vals) for _ in range(rng.randint(1, 3))) + rng.choice(["", "", "", sep]) + "]" + factors(rng)
    return predicate(rng, vals) + factors(rng)
BAD_FEATURES = ["", "a b", "tables=", "=x", "[a", "a;z", "a;", "tables;0.5", "tables;-0.5+0.5", "[a b];z", "[a b];+x", "[]", "[ ]", "[a !]", "[a b=]", "tables;+.5",
                "tables=[1", "tables=[-]", "tables=[a-b]", "!", "fonts;-", "fonts;+"]
def features(rng):
    els = []
    vals = VALS if rng.random() < .88 else rng.sample(BIG, rng.randint(2, 4)) + rng.sample(VALS, 2) + ["3"]
    sp = Spell(rng, plain=rng.random() < .6)
    for t in TAGS:
        k = rng.random()
        if k < .25: continue
        def name(): return rng.choice([t.lower(), t, t, t.upper(), t.capitalize()]) + sp.ows()
        def value():
            v = rng.choice(vals)
            if v[0] in "aBb" and rng.random() < .2: v = '"' + v + '"'
            return sp.ows() + v
        s = name()
        if rng.random() < .15: els.append(rng.choice(["!" + name(), name(), name() + "!=" + value()]))
        if k < .45: els.append("!" + sp.ows() + s)
        elif k < .6: els.append(s)
        elif k < .72: els.append(s + "!=" + value())
        else:
            for v in [value() for _ in range(rng.randint(1, 3))]:
                els.append((s if rng.random() < .6 else name()) + "=" + (v if rng.random() < .7 else sp.ows() + "{" + v + sp.ows() + "}"))
    if rng.random() < .2: els.append("*")
    rng.shuffle(els)
    reps = []
    for i in range(rng.randint(1, 3)):
        if rng.random() < .35: reps.append(rep(ct="", qs=rng.choice([100, 300, 500, 900]), loc="/a/p%d" % i))
        else: reps.append(rep(ct="", qs=rng.choice([1000, 500]), feat=[list_element(rng, vals) for _ in range(rng.randint(1, 3) if rng.random() < .85 else rng.randint(4, 9))], loc="/a/f%d" % i))
    if rng.random() < .05: rng.choice(reps)["feat"] = reps[0]["feat"] + [rng.choice(BAD_FEATURES)]
    return case([neg("transparent")], [exch(reps=reps, n=F("1.0"), f=sp.field(els))])

def neighbors(rng):
    def path():
        p = rng.choice(["", "/", "/d/", "/d/r", "/d/e/x", "/d", "/r", "/D/r", "/d/r.html", "/d/e/", "/d//x", "/d/e/../r", "/d/./r", "/d/e;v=1/x", "/d;v=1/r"])
        if rng.random() < .15: p = p.replace("/e", rng.choice(["%2Fe", "%2fe"]))
        if rng.random() < .1: p = p.replace("d", "%64").replace("e", "%65")
        return p
    pick = dict(scheme=lambda: rng.choice(["http", "http", "https", "https", "HTTP", "hTTps", "HTTPS"]), user=lambda: rng.choice([""] * 9 + ["me@", "me:pw@", "you@"]),
                host=lambda: rng.choice(["a.org"] * 6 + ["A.org", "b.org", "a.org.evil.net", "[::1]", "127.0.0.1", "a.org.", "org", "A.ORG", "[::1%25a]", "[::A]", "[::a]"]),
                port=lambda: rng.choice(["", "", ":80", ":443", ":8080", ":", ":0080"]), path=path,
                tail=lambda: rng.choice(["", "", "", "?a=b", "?p=/x/y", "#f", "#/x/y", "?q#/z", "?", "#"]))
    def write(u, absolute):
        if not absolute: return (u["path"] or "/") + u["tail"]
        return u["scheme"] + "://" + u["user"] + u["host"] + u["port"] + u["path"] + u["tail"]
    first = {k: f() for k, f in pick.items()}
    def url(absolute):
        """anything, or what differs from the first in a part or two"""
        u = {k: f() for k, f in pick.items()}
        if rng.random() < .6: u = dict(first, **{k: u[k] for k in rng.sample(sorted(u), rng.choice([0, 1, 1, 1, 2, 2]))})
        if rng.random() < .12 and u["host"].lower().endswith("org"):   # a host of a name that has something in common
            u["host"] = rng.choice([rng.choice(["www.", "WWW.", "m.", "x", "www.b."]) + u["host"], u["host"] + rng.choice([".", "s", ".uk", ".a.org"]), u["host"][1:]])
        if rng.random() < .05 and u["path"].startswith("/d/"):   # a directory likewise
            u["path"] = rng.choice(["/dd", "/d.d", "/d-1", "/d_", "/dir", "/~d", "/d%20", "/d+", "/d:1"]) + u["path"][2:]
        return write(u, absolute)
    ab = rng.random() < .7
    reps = [rep(loc=url(ab)) for _ in range(rng.randint(1, 2))]
    if rng.random() < .4: reps[0]["loc"] = url(ab)
    return case([neg("transparent", opt("RVSA", "custom"))],
                [exch(reps=reps, url=write(first, ab), n=F(rng.choice(["*", "1.0"])), script=dict(reps=rng.randint(1, len(reps)), lists=0, unless=[]))])

def limit(rng):
    opts = []
    for _ in range(rng.randint(0, 3)):
        opts.append(rng.choice([opt("MaximumVariantListSize", n=rng.choice([-100, -1, 0, 1, 2, 3, 5, 10, 11, 20])), opt("GuessSmallThreshold", n=5),
                                opt("ListRepresentation", "d1")]))
    if rng.random() < .5: opts.insert(rng.randint(0, len(opts)), opt("RVSA", "custom"))
    sizes = [0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 19, 20, 21]
    if rng.random() < .05:
        most = rng.choice([30, 50, 64, 100, 127, 128])
        opts.append(opt("MaximumVariantListSize", n=most))
        sizes = [most - 1, most, most + 1, most + 5]
    reps = [rep(len=5, ct=rng.choice(FULL)) for _ in range(rng.choice(sizes))]
    return case([neg("transparent", *opts), neg("transparent", default=True)],
                [exch(neg=rng.choice([1, 1, 1, 2]), reps=reps, n=rng.choice([ABSENT, F("*"), F("trans"), F("guess-small")]), script=script(rng, len(reps)))])

# ------------------------------------------------------------------- spelling
def spelling(rng):
    negs = [neg("proactive", *(strict_options(rng) if rng.random() < .3 else [])), neg("transparent"), neg("reactive")]
    sp = Spell(rng)
    def make():
        reps = candidates(rng, rng.randint(1, 4))
        for r in reps:
            r["qs"] = rng.choice([1000, 900, 500])
            if rng.random() < .3 and r["ct"]: r["ct"] = sp.media(r["ct"])
            r["lang"], r["cs"] = sp.name(r["lang"]), sp.name(r["cs"])
        x = exch(neg=rng.choice([1, 1, 1, 2, 2, 3]), reps=reps, **headers(rng, reps, sp, p=.6, weights=ONE_DIGIT))
        if x["neg"] == 2:
            x["n"] = sp.field([sp.name(d) for d in rng.sample(DIRECTIVES + ["guess-small"] * 4, rng.randint(1, 3))])
            x["f"] = sp.field(rng.choice([["tables"], ["!tables", "fonts"], ["tables=1", "fonts"]]))
            for r in reps:
                if rng.random() < .3: r["feat"] = rng.choice([["Tables"], ["tables = 1"], ["fonts;+0.5"]])
        return x
    return case(negs, [make()])

def malformed(rng):
    x = (lambda: exch(reps=(rs := candidates(rng, rng.randint(1, 3))), **headers(rng, rs, p=.7, weights=ONE_DIGIT)))()
    for r in x["reps"]: r["qs"] = 500
    h = rng.choice("aaalllccceeen")
    bad = rng.random() < .6
    if bad:
        w = rng.choice(["abc", "1.5", "2", "-0.1", "NaN", "", "1.001", "inf", "0x1", "0x", "-0.0003", "1.0001", "1_0", "1 0"])
        e = {"a": "text/html;q=" + w, "l": "en;q=" + w, "c": "utf-8;q=" + w, "e": "gzip;q=" + w, "n": ""}[h]
        if rng.random() < .3: e = {"a": "text/", "l": "xx", "c": "a b", "e": "zippy", "n": ""}[h]
        lines = list(x[h]["l"])
        if h == "n": lines = [""]
        elif rng.random() < .5 or not lines: lines.insert(rng.randint(0, len(lines)), e)
        else:
            i = rng.randrange(len(lines))
            lines[i] = (lines[i] + ", " + e) if rng.random() < .5 else (e + ", " + lines[i])
        x[h] = F(*lines)
    if rng.random() < .2: x[rng.choice("ac")] = F("")
    k = rng.random()
    n = neg("proactive", *strict_options(rng)) if k < .7 else neg("transparent")
    if n["kind"] == "transparent" and x["n"] is ABSENT: x["n"] = F("*")
    return case([n], [x])

# ------------------------------------------------------------------- reactive
def reactive(rng):
    negs = [neg("reactive"), neg("reactive", opt("Representation", rng.choice(["d1", "d2", "d3"]))), neg("reactive", default=True)]
    return case(negs, [any_exchange(rng, negs) for _ in range(rng.randint(1, 3))])

def extensions(rng):
    kind = rng.choice(["proactive", "proactive", "transparent", "reactive"])
    def options():
        pool = {"proactive": [opt("Algorithm", "custom"), opt("Algorithm", "builtin"), opt("Representations", vs=formats(rng)),
                              opt("DefaultRepresentation", rng.choice(["d1", "d2", "d3"])), opt(rng.choice(STRICT)), opt("Algorithm", "custom")],
                "transparent": [opt("RVSA", "custom"), opt("RVSA", "builtin"), opt("ListRepresentation", rng.choice(["d1", "d2", "d3"])), opt("GuessSmallThreshold", n=rng.choice([0, 100])),
                                opt("MaximumVariantListSize", n=rng.choice([2, 5]))],
                "reactive": [opt("Representation", rng.choice(["d1", "d2", "d3"]))]}[kind]
        return [rng.choice(pool) for _ in range(rng.randint(0, 4))]
    negs = [neg(kind, *options()), neg(kind), neg(kind, default=True), neg(kind, *options())]
    xs = [any_exchange(rng, negs) for _ in range(rng.randint(2, 4))]
    return case(negs, xs)

# ---------------------------------------------------------------- serialization
SPECIAL = ["", "a", "yes", "null", "~", "1e3", "- x", "a: b", "#c", "<&>", "]]>", "\"'", "\u00e9\u4e2d\U0001f600", " lead", "trail ",
           "two\nlines", "tab\there", "%41", "{{", "*ref", "&anchor", "!tag", "0x10", "\\", "a,b;c=d"]
def words(rng, n=6): return "".join(rng.choice(SPECIAL) for _ in range(rng.randint(0, n)))
def noise(rng, n):
    """text that does not repeat itself"""
    return "".join(rng.choices("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", k=n))

def codec(rng):
    sp = Spell(rng)
    ct = rng.choice(["application/json", "application/xml", "text/html", "application/yaml", "text/yaml"] * 3 + ["text/plain", "application/x", "", "application/vnd.api+json", "image/svg+xml", "application/x-yaml", "text/json", "text/xml", "application/jsonp", "json"])
    if rng.random() < .4 and ct: ct = sp.name(ct) + rng.choice(["", ";charset=utf-8", "; charset=\"a;b\"", " ; v=1", ";level=1;q=2"])
    enc = [sp.name(rng.choice(["gzip", "deflate", "compress", "identity", "x-gzip", "x-compress"])) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))]
    if rng.random() < .12: enc.insert(rng.randint(0, len(enc)), rng.choice(["br", "zstd", "gzipp", ""]))
    coders, marshallers = [], []
    if rng.random() < .25: coders = rng.sample(["gzip", "br", "deflate", "identity", "compress"], rng.randint(1, 4))
    if rng.random() < .25: marshallers = rng.sample(["application/json", "text/plain", "application/xml", "text/yaml"], rng.randint(1, 3))
    damage = rng.choice(["none", "none", "cut", "flip"])
    c = dict(id=0, kind="codec", fam="random", what="thing", ct=ct, enc=enc, reps=[], name=words(rng), num=rng.randint(-5, 10 ** rng.randint(0, 9)),
             items=[words(rng, 3) for _ in range(rng.randint(0, 4))], coders=coders, marshallers=marshallers, damage=damage, fault="", faulty="")
    if damage == "none" and rng.random() < .4:
        if coders: c.update(fault=rng.choice(["wopen", "write", "wclose", "ropen", "read", "rclose"]), faulty=rng.choice(coders))
        elif marshallers: c.update(fault=rng.choice(["marshal", "unmarshal"]), faulty=rng.choice(marshallers))
    if damage == "none" and rng.random() < .2: c["name"] = rng.choice(SPECIAL[1:]) * rng.choice([100, 3000, 40000])
    elif damage == "none" and rng.random() < .08: c["name"] = noise(rng, rng.choice([300, 5000, 20000, 70000]))
    return c
def listing(rng):
    c = codec(rng)
    c.update(what="list", items=[], name="", num=0, damage="none", coders=[], marshallers=[], fault="", faulty="")
    c["enc"] = [e for e in c["enc"] if e.lower() in ("gzip", "deflate", "compress", "identity", "x-gzip", "x-compress")]
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 30])):
        r = candidate(rng)
        if rng.random() < .3 and c["reps"]: r = dict(rng.choice(c["reps"]))
        r["feat"] = [rng.choice(["tables", "x=[1-2]", "!y;+0.5", "a<b", "[p q]"]) for _ in range(rng.randint(0, 3))]
        r["loc"] = rng.choice(["", "/a", "/a?b=c&d=e", "http://h.org:81/x#f", "/sp%20ace", "/%3C%3E", "http://me:pw@h.org/x", "//h.org/x", "?q", "#f", "urn:isbn:0451450523"])
        if rng.random() < .3: r["cs"] = rng.choice(["a&b", "<c>", "\u00fc"])
        r["qs"] = rng.randint(0, 1000)
        c["reps"].append(r)
        if rng.random() < .15: c["reps"].append(again(rng, c["reps"]))
    if rng.random() < .9: c["ct"] = rng.choice(["application/json", "application/xml", "text/html", "application/yaml", "text/yaml"])
    return c

def pool(rng):
    """serializations and deserializations of a few representations, mixed"""
    subjects = []
    for _ in range(rng.randint(1, 4)):
        c = (codec if rng.random() < .6 else listing)(rng)
        if len(c["name"]) > 20000: c["name"] = c["name"][:20000]
        subjects.append({k: c[k] for k in ("what", "ct", "enc", "coders", "marshallers", "name", "num", "items", "reps")})
    ops = []
    for _ in range(rng.randint(3, 12)):
        o = rng.choice(["write", "write", "read"])
        ops.append(dict(op=o, of=rng.randint(1, len(subjects)), at=rng.randint(0, 999),
                        hurt="no" if o == "write" else rng.choice(["no", "no", "cut", "flip"])))
    conc = rng.random() < .6
    return dict(id=0, kind="pool", fam="random", conc=conc, pause=rng.random() < .01, rounds=4 if conc else 1, subjects=subjects, ops=ops)

FAMILIES = dict(pool=pool, selection=selection, tied=tied, strict=strict, refusal=refusal, faults=faults, framing=framing, history=history, reports=reports,
                concurrency=concurrency, crowd=crowd, permission=permission, guess=guess, rvsa=rvsa, features=features, neighbors=neighbors,
                limit=limit, spelling=spelling, malformed=malformed, reactive=reactive, extensions=extensions, codec=codec, listing=listing)

def generate(family, seed, n):
    rng = random.Random("%s/%s" % (family, seed))
    out = []
    for _ in range(n):
        c = FAMILIES[family](rng); c["fam"] = "random:" + family; out.append(c)
    return out
