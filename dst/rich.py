"""Seeded generator of small but complete databases: markets, market groups, regional and global producers, allocation of
all kinds, waste, recycling, combined production, activity links, parameters and formulas.  All amounts and production
volumes are dyadic rationals or integers, so that sums do not depend on their order."""
import random
from xml.sax.saxutils import escape, quoteattr

HEAD = '<?xml version="1.0" encoding="utf-8"?>\n<ecoSpold xmlns="http://www.EcoInvent.org/EcoSpold02">\n'
TAIL = "</ecoSpold>\n"
# sets of locations without overlap
REGIONS = [["DE", "FR", "CH"], ["RER", "US", "CN"], ["RNA", "IN", "JP"], ["CA-QC", "US", "BR"], ["CH", "Europe without Switzerland", "AU"],
           ["DE", "US", "JP", "BR"], ["RER"], ["CN"], ["CA", "FR"]]
TWINS = [("EG", "RAF", ("UN-NAFRICA", "IAI Area, Africa")), ("CN-HA", "CN", ("CSG", "CN-CSG")), ("BR", "RLA", ("IAI Area, South America", "IAI Area 3")),
         ("CA-QC", "CA", ("CA-QC", "Québec, HQ distribution network")), ("US-SERC", "US", ("US-SERC", "SERC")), ("EG", "RAF", ("IAI Area 1", "IAI Area, Africa"))]
CONF = ["latex production", "zeolite production, powder", "citric acid production"]
CLS = {"a": "allocatable product", "w": "Waste", "r": "Recyclable"}
DY = [0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 5.0]


def attr(**kw):
    return "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in kw.items() if v is not None)


def unc(r, mean):
    k = r.randrange(6)
    ped = "" if r.random() < 0.2 else '<pedigreeMatrix reliability="%d" completeness="%d" temporalCorrelation="%d" geographicalCorrelation="%d" furtherTechnologyCorrelation="%d"/>' % tuple(r.randint(1, 5) for _ in range(5))
    m = abs(mean) or 1.0
    if k <= 1:
        d = '<lognormal meanValue="%r" mu="%r" variance="0.0625" varianceWithPedigreeUncertainty="0.125"/>' % (mean, 0.5)
    elif k == 2:
        d = '<normal meanValue="%r" variance="0.25" varianceWithPedigreeUncertainty="0.5"/>' % mean
    elif k == 3:
        d = '<triangular minValue="%r" mostLikelyValue="%r" maxValue="%r"/>' % (mean - m / 2, mean, mean + m / 2)
    elif k == 4:
        d = '<uniform minValue="%r" maxValue="%r"/>' % (mean - m / 2, mean + m / 2)
    else:
        d = '<undefined minValue="%r" maxValue="%r" standardDeviation95="0.5"/>' % (mean - m / 2, mean + m / 2)
    return d + ped


class DB:
    def __init__(self, seed, size=1.0):
        self.r = r = random.Random(seed)
        self.n = 0
        self.seed = seed
        self.r2 = random.Random(seed * 31 + 7)
        self.wild = self.r2.random() < 0.4       # some of the odd things that ecoinvent has
        self.items = []          # (uid, xml)
        self.prods = {}          # product -> kind
        self.bad = r.random() < 0.12
        np_ = max(2, int(r.randint(3, 6) * size))
        self.plain = ["prod %s" % c for c in "abcdefgh"[:np_]]
        self.waste = ["waste %d" % i for i in range(r.choice([0, 1, 1, 2]))]
        self.scrap = ["scrap %d" % i for i in range(r.choice([0, 1, 1, 2]))]
        self.params_used = set()
        self.grouped = set()     # products and places of market groups
        self.links = []          # (uid, product) that may be linked to
        self.regs = {p: r.choice(REGIONS) for p in self.plain + self.waste + self.scrap}
        for p in self.plain:
            self.producers(p)
        if r.random() < 0.6:
            self.combined()
        for w in self.waste:
            self.treatment(w)
        for s in self.scrap:
            self.recycling(s)
        if r.random() < 0.3 and len(self.plain) > 3:
            self.constrained()
        for p in self.plain:
            self.markets(p, "a", 1.0)
        for w in self.waste:
            self.markets(w, "w", -1.0)
        for s in self.scrap:
            self.markets(s, "r", self.r.choice([1.0, -1.0]))
        if self.wild:
            self.oddities()
        self.twins()
        self.combined_treatment()
        if self.bad:
            k = r.choice([0, 1, 2, 3, 3, 3])
            if k == 3 and self.n % 2:
                self.activity("broken", "GLO", [self.out("prod a", 1.0, 10, var="rp_a"), self.bio("flow 1", 1.0, formula=r.choice(["kk * 2 * rp_a", "kk * 2 * rp_a", "alpha * 2 * rp_a"]))])
            elif k == 3:                                              # uses what others define
                self.activity("broken", "GLO", [self.out("prod a", 1.0, 10, var="rp_a", props=self.price()), self.out("prod b", 1.0, 10, var="rp_b", props=self.price()),
                                                self.bio("flow 1", 1.0, formula=r.choice(["kk * 2 * rp_a", "kk * 2 * rp_a", "alpha * 2 * rp_a"]))])
            elif k == 0:
                self.items.append(self.items[0])                  # an id twice
            elif k == 1:
                self.activity("broken", "DE", [self.out("prod a", 1.0, 10), self.inp("nobody makes this", 1.0)])
            else:
                self.activity("broken", "DE", [self.out("prod a", 1.0, 10), self.inp("prod b", 1.0, link="no-such-id")])

    # -- pieces -----------------------------------------------------------------------------------------------------
    def uid(self):
        self.n += 1
        return "%08x-0000-4000-8000-%012x" % (self.n, self.seed % 2 ** 40)

    def exc(self, name, amount, tag="intermediateExchange", group="", unit="kg", pv=None, cls=None, link=None, var=None, formula=None, props=(), pvvar=None, pvformula=None,
            comp=None, uncert=None):
        i = self.uid()
        a = attr(id=i, amount=repr(float(amount)), productionVolumeAmount=pv, activityLinkId=link, variableName=var, mathematicalRelation=formula,
                 productionVolumeVariableName=pvvar, productionVolumeMathematicalRelation=pvformula)
        x = "<%s%s><name>%s</name><unitName>%s</unitName>" % (tag, a, escape(name), unit)
        if uncert:
            x += "<uncertainty>%s</uncertainty>" % uncert
        for n, v, pvn, pf in props:
            x += '<property%s><name>%s</name><unitName>EUR</unitName></property>' % (attr(propertyId="p-" + n.replace(" ", "-"), amount=repr(float(v)), variableName=pvn, mathematicalRelation=pf), n)
        if cls:
            x += "<classification><classificationSystem>By-product classification</classificationSystem><classificationValue>%s</classificationValue></classification>" % CLS[cls]
        if comp:
            x += "<compartment><compartment>%s</compartment><subcompartment>%s</subcompartment></compartment>" % comp
        x += group + "</%s>" % tag
        return i, x

    def out(self, name, amount, pv, cls="a", by=False, **kw):
        return self.exc(name, amount, group="<outputGroup>%d</outputGroup>" % (2 if by else 0), pv=pv, cls=cls, **kw)[1]

    def inp(self, name, amount, **kw):
        return self.exc(name, amount, group="<inputGroup>5</inputGroup>", **kw)[1]

    def bio(self, name, amount, **kw):
        return self.exc(name, amount, tag="elementaryExchange", comp=("air", "urban"), group="<outputGroup>4</outputGroup>", **kw)[1]

    def param(self, name, amount, var=None, formula=None, uncert=None):
        return "<parameter%s><name>%s</name><unitName>kg</unitName>%s</parameter>" % (
            attr(parameterId=self.uid(), amount=repr(float(amount)), variableName=var, mathematicalRelation=formula), name,
            "<uncertainty>%s</uncertainty>" % uncert if uncert else "")

    def activity(self, name, loc, parts, typ="0", level=None, parent=None, uid=None, dates=("1996-01-01", "2015-12-31")):
        uid = uid or self.uid()
        r = self.r
        x = ('<childActivityDataset><activityDescription><activity%s><activityName>%s</activityName></activity>'
             '<classification><classificationSystem>ISIC rev.4 ecoinvent</classificationSystem><classificationValue>42%d</classificationValue></classification>'
             '<geography><shortname>%s</shortname></geography><technology technologyLevel="%s"/><timePeriod startDate="%s" endDate="%s"/>'
             '<macroEconomicScenario><name>Business-as-Usual</name></macroEconomicScenario></activityDescription><flowData>%s</flowData>'
             '<administrativeInformation><dataEntryBy personName="W %d"/><dataGeneratorAndPublication accessRestrictedTo="1" personName="F %d"/></administrativeInformation>'
             '</childActivityDataset>\n') % (attr(id=uid, specialActivityType=typ, parentActivityId=parent), escape(name), r.randrange(9), escape(loc),
                                             level if level is not None else self.level(), dates[0], dates[1], "".join(parts), r.randrange(5), r.randrange(5))
        self.items.append((uid, x))
        return uid

    def level(self):
        k = self.r.randint(1, 5)
        return 0 if self.wild and self.r2.random() < 0.06 else k

    def oddities(self):
        r = self.r2
        if r.random() < 0.5:
            self.activity("petroleum refinery operation", r.choice(["GLO", "CH"]), [self.out("prod a", 1.0, 10), self.bio("refinery gas", 0.0), self.inp("prod b", 0.5)])
        if r.random() < 0.5:
            self.activity("cement production, alternative constituents 6-20%", r.choice(["GLO", "US"]), [
                self.out("prod b", 1.0, 10, var="cement"), self.param("slag", 0.5, "blast_furnace_slag"), self.param("apv", 4.0, "APV_cement"),
                self.param("x", 1.0, "slag_pv", "ABS(blast_furnace_slag/ cement* APV_cement)"), self.bio("flow 6", 2.0, formula="slag_pv * 2")])
        if r.random() < 0.6 and self.links:
            u, p = r.choice(self.links)
            q = r.choice([x for x in self.plain if x != p] or [p])
            self.activity("uses nothing of " + p, r.choice(["GLO", "FR"]), [self.out(q, 1.0, 10), self.inp(p, 0.0, link=u), self.bio("flow 7", 1.0)])
        if r.random() < 0.2 and self.links:
            u, p = r.choice(self.links)
            self.activity("linked product", r.choice(["GLO", "US"]), [self.out(p, 1.0, 10, link=u), self.bio("flow 8", 1.0)])

    def twins(self):
        """Market groups of the same size in places that overlap, and consumers within and around them."""
        r = random.Random(self.seed * 17 + 5)
        if r.random() > 0.35:
            return
        p, q = r.sample(self.plain, 2)
        inner, outer, pair = r.choice(TWINS)
        if not self.grouped.isdisjoint({(p, x) for x in pair}):
            return
        for loc in pair:
            self.activity("market group for " + p, loc, [self.out(p, 1.0, None, "a")], typ="10")
        for loc in r.choice([[inner], [outer], [inner, outer]]):
            self.activity("consumer of %s in %s" % (p, loc), loc, [self.out(q, 1.0, r.choice([8, 64])), self.inp(p, 0.5), self.bio("flow 0", 1.0)])

    def pv(self):
        return self.r.choice([8, 16, 40, 64, 100, 256, 1000])

    def price(self, pv=None):
        out = [("price", self.r.choice([0.25, 0.5, 1.0, 2.0, 4.0]), None, None)]
        if self.r.random() < 0.25:
            out.append(("true value relation", self.r.choice([1.0, 2.0, 3.0]), None, None))
        if self.r.random() < 0.2:
            out.append(("dry mass", 0.5, None, None))
        return out

    def formulas(self, parts):
        """Some parameters, and exchanges which use them."""
        r = self.r
        if r.random() < 0.5:
            return
        vs = r.sample(["alpha", "Beta", "yield", "lambda", "in", "gamma_PV", "x1"], r.randint(1, 4))
        for k, v in enumerate(vs):
            f = None
            if k and r.random() < 0.6:
                f = r.choice(["%s * 2", "if(%s>1;2;3)", "power(2;3)*%s", "%s*50%%", "if(%s=1;if(%s>0;1;2);4)", "%s +* 3", "max(%s;2)"])
                f = f.replace("%s", vs[0]).replace("%%", "%")
            am = r.choice(DY)
            parts.append(self.param("p " + v, am, v, f, unc(r, am) if r.random() < 0.3 else None))
        for _ in range(r.randint(0, 2)):
            parts.append(self.bio("flow %d" % r.randrange(9), r.choice(DY), formula=r.choice(["%s", "%s*%s", "1/%s", "2,5 * %s"]).replace("%s", r.choice(vs))))
        if r.random() < 0.3:
            i, x = self.exc("flow ref", 0.5, tag="elementaryExchange", comp=("water", "river"), group="<outputGroup>4</outputGroup>")
            parts.append(x)
            parts.append(self.bio("flow using ref", 1.0, formula="Ref('%s') * 2" % i))

    def inputs(self, exclude, n):
        r = self.r
        out = []
        for p in r.sample(self.plain, min(len(self.plain), n)):
            if p == exclude:
                continue
            kw = {}
            if r.random() < 0.25 and self.links:
                c = [u for u, q in self.links if q == p]
                if c:
                    kw["link"] = r.choice(c)
            am = r.choice(DY)
            if r.random() < 0.3:
                kw["uncert"] = unc(r, am)
            out.append(self.inp(p, am, **kw))
        if self.scrap and r.random() < 0.15:
            out.append(self.inp(r.choice(self.scrap), r.choice(DY)))
        return out

    # -- activities ----------------------------------------------------------------------------------------------------
    def producers(self, p):
        r = self.r
        for t in range(r.choice([1, 1, 2, 3])):
            name = "production of %s, tech %d" % (p, t) if r.random() < 0.9 else (r.choice(CONF) if p == "prod a" and t == 0 else "production of %s, tech %d" % (p, t))
            regs = self.regs[p] if r.random() < 0.7 else r.choice(REGIONS)
            regs = r.sample(regs, r.randint(1, len(regs)))
            locs = r.choice([["GLO"], ["GLO"] + regs, ["GLO"] + regs, regs])
            by = []
            if r.random() < 0.35 and len(self.plain) > 1:
                by.append(("a", r.choice([q for q in self.plain if q != p])))
                if r.random() < 0.3 and len(self.plain) > 2:
                    rest = [q for q in self.plain if q != p and q != by[0][1]]
                    by.append(("a", r.choice(rest)))
            if self.waste and r.random() < 0.5:
                by.append(("w", r.choice(self.waste)))
            if self.scrap and r.random() < 0.5:
                by.append(("r", r.choice(self.scrap)))
            parent = None
            for loc in locs:
                am = r.choice([1.0, 1.0, 1.0, 2.0, 0.5])
                pv = self.pv() * (8 if loc == "GLO" else 1) if r.random() < 0.93 else 0
                parts = [self.out(p, am, pv, r.choice(["a", "a", None]) if not any(c == "a" for c, _ in by) else "a", props=self.price(), pvvar=r.choice([None, None, "apv_x"]))]
                for c, q in by:
                    parts.append(self.out(q, r.choice(DY), r.choice([0, self.pv()]) if c == "a" else None, c, by=True, props=self.price() if c == "a" else ()))
                parts += self.inputs(p, r.choice([0, 1, 2, 3]))
                for _ in range(r.randint(0, 2)):
                    q = r.choice(DY)
                    parts.append(self.bio("flow %d" % r.randrange(9), q, uncert=unc(r, q) if r.random() < 0.4 else None))
                if r.random() < 0.1:
                    parts.append(self.inp(p, 0.25, props=[("consequential", 1, None, None)]))
                self.formulas(parts)
                uid = self.activity(name, loc, parts, parent=parent)
                if loc == "GLO":
                    parent = uid
                self.links.append((uid, p))
                for c, q in by:
                    if c == "a":
                        self.links.append((uid, q))

    def combined(self):
        r = self.r
        if len(self.plain) < 3:
            return
        a, b = r.sample(self.plain, 2)
        c = r.choice([q for q in self.plain if q not in (a, b)])
        by = r.random() < 0.5
        x = random.Random(self.seed * 13 + 3)
        u = [unc(x, m) if x.random() < 0.5 else None for m in (1.0, 2.0, 2.0)]
        for loc in r.choice([["GLO"], ["GLO", "DE"], ["US", "FR"]]):
            parts = [self.out(a, 1.0, self.pv(), "a", var="rp_a", props=self.price()), self.out(b, 2.0, self.pv(), "a", var="rp_b", props=self.price()),
                     self.param("k", 2.0, "kk"), self.inp(c, 1.0, formula="rp_a * 0.5 + rp_b * 0.25", uncert=u[0]), self.bio("flow 1", 2.0, formula="if(kk>1;2;3)*rp_a + 0.5", uncert=u[1]),
                     self.bio("flow 2", 2.0, formula="rp_b*kk", uncert=u[2])]
            if by:
                parts.append(self.out(c, 0.5, self.pv(), "a", by=True, props=self.price(), formula="rp_a * 0.25 + rp_b * 0.125"))
            self.activity("combined production of %s" % a, loc, parts)

    def combined_treatment(self):
        """Several wastes and recyclables treated together, which gives products but has none of its own."""
        r = random.Random(self.seed * 19 + 11)
        if not self.scrap or r.random() > 0.3:
            return
        a, b = r.choice(self.scrap), r.choice(self.waste or self.scrap)
        if a == b:
            return
        q = r.choice(self.plain)
        for loc in r.choice([["GLO"], ["GLO"], ["US"], ["GLO", "DE"]]):
            parts = [self.out(a, -1.0, 16, "r", var="rp_a"), self.out(b, -2.0, 64, "w" if self.waste else "r", var="rp_b"), self.param("k", 2.0, "kk"),
                     self.bio("flow 1", 2.0, formula="rp_a * -0.5 + rp_b * -0.75"), self.inp(q, 0.5, formula="rp_a * -0.5 * kk"),
                     self.out(r.choice([x for x in self.plain if x != q]), 1.5, 8, "a", by=True, formula="rp_a * -0.5 + rp_b * -0.5", props=self.price())]
            self.activity("combined treatment of %s and %s" % (a, b), loc, parts)

    def treatment(self, w):
        r = self.r
        regs = self.regs[w]
        by = r.choice(self.plain) if r.random() < 0.6 else None
        for loc in r.choice([["GLO"], ["GLO", regs[0]], regs]):
            parts = [self.out(w, -1.0, self.pv(), "w")]
            if by:
                parts.append(self.out(by, r.choice(DY), self.pv(), "a", by=True, props=self.price()))
            parts += self.inputs(None, r.choice([0, 1, 2])) + [self.bio("flow 3", 0.5)]
            self.formulas(parts)
            self.activity("treatment of " + w, loc, parts)

    def recycling(self, s):
        r = self.r
        qs = r.sample(self.plain, 2)
        nq = r.randint(1, 2)
        for loc in r.choice([["GLO"], ["GLO", self.regs[s][0]], self.regs[s][:1]]):
            parts = [self.out(s, -1.0, self.pv(), "r")]
            for q in qs[:nq]:
                parts.append(self.out(q, r.choice(DY), self.pv(), "a", by=True, props=self.price()))
            parts += self.inputs(qs[0], 1) + [self.bio("flow 4", 0.25)]
            self.activity("recycling of " + s, loc, parts)

    def constrained(self):
        """A market with a conditional exchange (consequential only)."""
        a, b, c = self.r.sample(self.plain, 3)
        t = self.activity("marginal %s" % c, "GLO", [self.out(c, 1.0, 10), self.inp(b, 0.5), self.bio("flow 5", 1.0)])
        self.cond = (a, self.out(b, -0.25, None, "a", by=True, link=t, props=[("consequential", 1, None, None)]))

    def markets(self, p, cls, sign):
        r = self.r
        cond = getattr(self, "cond", None)
        regs = self.regs[p]
        locs = r.choice([["GLO"], ["GLO"] + regs, ["GLO"] + regs, ["GLO"] + r.sample(regs, 1)])
        glo = None
        for loc in locs:
            parts = [self.out(p, sign, self.pv(), cls)]
            if cls == "a" and r.random() < 0.5:
                q = r.choice(self.plain)
                if q != p:
                    parts.append(self.inp(q, r.choice(DY)))
            uid = self.uid()
            if r.random() < 0.15 and cls == "a":
                parts.append(self.inp(p, 0.125, link=r.choice([uid, glo or uid])))
            if cond and cond[0] == p and loc == locs[0]:
                parts.append(cond[1])
            self.activity("market for " + p, loc, parts, typ="1", parent=glo, uid=uid)
            glo = glo or uid
        if cls == "a" and r.random() < 0.45:
            inside = {"GLO": locs, "RER": ["DE", "FR", "CH", "RER", "Europe without Switzerland"], "RNA": ["US", "CA", "CA-QC", "RNA"], "ENTSO-E": ["DE", "FR", "CH"]}
            ok = [g for g in inside if set(inside[g]) & set(locs)]
            r.shuffle(ok)
            for loc in ok[:r.randint(1, len(ok))]:
                self.grouped.add((p, loc))
                self.activity("market group for " + p, loc, [self.out(p, 1.0, None, cls)], typ="10")

    # -- files --------------------------------------------------------------------------------------------------------------
    def files(self):
        r = self.r
        items = list(self.items)
        r.shuffle(items)
        out, i = {}, 0
        while items:
            k = r.choice([1, 1, 1, 2, 3])
            name = "%s%03d.spold" % (r.choice("aKzé_"), i)
            out[name] = (HEAD + "".join(x for _, x in items[:k]) + TAIL).encode("utf-8")
            del items[:k]
            i += 1
        return out


def files(seed, size=1.0):
    return DB(seed, size).files()
