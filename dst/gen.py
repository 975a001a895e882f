"""Generated ecospold2 source directories for the cache / extraction / run checks: each file holds 1..k datasets whose
contents are a function of (file name, version), so that what was read can be attributed to one version."""
import random

HEAD = '<?xml version="1.0" encoding="utf-8"?>\n<ecoSpold xmlns="http://www.EcoInvent.org/EcoSpold02">\n'
TAIL = "</ecoSpold>\n"
ODD = "odd [a-z]* $HOME ü"          # of a directory with links to the source directories


def spelled(root, c):
    """The path a command is given for its source directory."""
    how = c.get("spell")
    return {"slash": "%s/%s/", "double": "%s//%s", "dots": "%s/cwd/../%s", "odd": "%s/" + ODD + "/%s"}.get(how, "%s/%s") % (root, c["src"])


def dataset(uid, name, loc, token, nexc, typ="0", pad=""):
    exc = []
    for i in range(nexc):
        exc.append('<intermediateExchange id="%s-e%d" amount="%s"%s><name>product %s %d</name><unitName>kg</unitName>'
                   '<comment>%s</comment>%s</intermediateExchange>' % (
                       uid, i, token + i, ' productionVolumeAmount="%d"' % (i + 1) if i == 0 else "", uid, i, pad,
                       "<outputGroup>0</outputGroup>" if i == 0 else "<inputGroup>5</inputGroup>"))
    return ('<childActivityDataset><activityDescription><activity id="%s" specialActivityType="%s">'
            '<activityName>%s</activityName></activity><classification><classificationSystem>ISIC rev.4 ecoinvent</classificationSystem>'
            '<classificationValue>42</classificationValue></classification><geography><shortname>%s</shortname></geography>'
            '<technology technologyLevel="3"/><timePeriod startDate="1996-01-01" endDate="2015-12-31"/>'
            '<macroEconomicScenario><name>Business-as-Usual</name></macroEconomicScenario></activityDescription>'
            '<flowData>%s</flowData><administrativeInformation><dataEntryBy personName="W"/>'
            '<dataGeneratorAndPublication accessRestrictedTo="1" personName="F"/></administrativeInformation>'
            '</childActivityDataset>\n') % (uid, typ, name, loc, "".join(exc))


def shape(fname):
    """Size class of a file is a function of its name only."""
    r = random.Random("shape" + fname)
    return {"nds": r.choice([1, 1, 1, 2, 3]), "nexc": r.choice([1, 2, 3, 3, 40]), "pad": "x" * r.choice([0, 0, 0, 300])}


def content(fname, version, small=True):
    s = shape(fname)
    nexc = min(s["nexc"], 4) if small else s["nexc"]
    out = [HEAD]
    for d in range(s["nds"]):
        out.append(dataset("%s-%d" % (fname, d), "activity %s %d v%d é" % (fname, d, version), "GLO", version * 1000, nexc, pad=s["pad"] if not small else ""))
    out.append(TAIL)
    return "".join(out).encode("utf-8")


def summary(data):
    """What the model predicts about extracted data: sorted list of (file, id, name, amounts)."""
    import os
    return sorted((os.path.basename(ds["filepath"]), ds["id"], ds["name"], tuple(e["amount"] for e in ds["exchanges"])) for ds in data)


def expect(files, small=True):
    """files: name -> version; the summary that extraction of exactly these files has to give."""
    out = []
    for fname, v in files.items():
        if not fname.lower().endswith(".spold"):
            continue
        s = shape(fname)
        nexc = min(s["nexc"], 4) if small else s["nexc"]
        for d in range(s["nds"]):
            out.append((fname, "%s-%d" % (fname, d), "activity %s %d v%d é" % (fname, d, v), tuple(float(v * 1000 + i) for i in range(nexc))))
    return sorted(out)
