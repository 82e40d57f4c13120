"""Configuration tables: which harness, which types, which bounds, per property and tier."""
class Job:
    def __init__(s, src, name, defs, params=None, san=False, timeout=None, opt="-O1"):
        s.src, s.name, s.defs, s.params, s.san, s.opt = src, name, defs, params or {}, san, opt
        s.timeout = timeout or 800

RO, LO, CL, OP, DY, CO = "right_open_interval left_open_interval closed_interval open_interval discrete_interval continuous_interval".split()
# name -> (domain, interval template, extra defines)
DOMEXTRA = {"DDouble": ["CONTDOM"], "DFloat": ["CONTDOM"], "DString": ["CONTDOM", "NO_LENGTH", "NO_DISTANCE"], "DRat": ["CONTDOM", "USE_RATIONAL"],
            "DDate": ["USE_GREGORIAN"], "DDays": ["USE_GREGORIAN"], "DPtime": ["USE_PTIME"], "DTdur": ["USE_PTIME"], "DTick": ["NO_LENGTH", "NO_DISTANCE", "NO_COUNT"]}
def tcfg(dom, itv):
    base = dom[4:-1] if dom.startswith("Rev<") else dom
    d = ["DOM=%s" % dom, "ITV=%s" % itv] + DOMEXTRA.get(base, [])
    if base in ("DDate", "DDays", "DPtime", "DTdur"): d.append("NO_TRAIL")
    if itv.startswith("user"): d.append("USERITV")
    if itv in (DY, CO): d.append("DYN")
    if "CONTDOM" in d and itv != CO: d.append("STATIC_CONT")
    return d
def short(dom, itv): return "%s/%s" % (dom[1:] if dom[0] == "D" else dom, itv.replace("_interval", ""))

ITV_TYPES = [("DInt", DY), ("DInt", RO), ("DInt", LO), ("DInt", CL), ("DInt", OP), ("DUns", DY), ("DUns", OP), ("DUns", LO), ("DUnsZ", DY), ("DUnsZ", RO), ("DUnsZ", CL), ("DShort", DY),
             ("DDouble", CO), ("DDouble", RO), ("DDouble", LO), ("DString", CO), ("DRat", CO), ("DDate", DY), ("DDate", CL), ("DPtime", DY), ("DTdur", RO), ("DDays", DY), ("DPtr", DY), ("DPtr", RO), ("DTick", DY), ("DTick", CL),
             ("Rev<DInt>", DY), ("Rev<DInt>", RO), ("Rev<DInt>", OP), ("Rev<DInt>", CL), ("Rev<DDouble>", CO),
 ("DInt", "user_right_open"), ("DShort", "user_left_open"), ("DInt", "user_closed"), ("Rev<DInt>", "user_open"), ("DDouble", "user_right_open")]

EDGE_ITV_TYPES = [(d, i) for d in ("DTop<signed char>", "DTop<unsigned>", "DTop<int>", "DTop<long long>") for i in (CL, LO, DY, OP)] + [("DTop<unsigned char>", RO)] + [(d, i) for d in ("DBot<int>", "DBot<signed char>", "DUchZ", "DUllZ", "DBot<long long>") for i in (CL, RO, DY)] + [("DBot<int>", LO), ("DUchZ", OP)]
def edge_itv_jobs(tier):
    return [Job("itv.cpp", "itv(edge) %s" % short(dom, itv), tcfg(dom, itv) + ["EDGE", "F_I01", "F_I02", "F_I03", "F_I04"], {"P": 5 if tier == "quick" else 8}) for dom, itv in EDGE_ITV_TYPES]
# interval<T>::closed/open/left_open/right_open when the library is built with statically bounded default intervals
STATIC_FACT = [(d, i) for d in ("DInt", "DUns", "DShort", "DTick", "DDate", "Rev<DInt>") for i in (RO, LO, CL, OP)] + [("DDouble", RO), ("DDouble", LO)]
def static_fact_jobs(tier):
    out = []
    for dom, itv in STATIC_FACT:
        d = tcfg(dom, itv) + ["F_I01", "FACT", "FACTCMP=,std::greater" if dom.startswith("Rev") else "FACTCMP=", "BOOST_ICL_USE_STATIC_BOUNDED_INTERVALS"]
        d += ["BOOST_ICL_CONTINUOUS_STATIC_INTERVAL_DEFAULT="+itv, "FACT_ONLY=%d" % (2 if itv == RO else 1)] if "CONTDOM" in d else ["BOOST_ICL_DISCRETE_STATIC_INTERVAL_DEFAULT="+itv]
        out.append(Job("itv.cpp", "itv(static default) %s" % short(dom, itv), d, {"P": 5 if tier == "quick" else 9}))
    return out
WIDE_TYPES = [("DInt", DY), ("DInt", RO), ("DInt", CL), ("DInt", LO), ("DInt", OP), ("DUns", DY), ("DUns", RO), ("DUns", CL), ("DShort", DY), ("DShort", CL), ("DLong", RO), ("DLong", CL), ("DLong", DY), ("DSch", DY), ("DSch", RO), ("DUchZ", CL), ("DUllZ", DY), ("DUllZ", CL), ("Rev<DInt>", DY), ("Rev<DInt>", CL), ("Rev<DUns>", RO)]
def wide_jobs(tier):
    return [Job("itv.cpp", "itv(wide) %s" % short(dom, itv), tcfg(dom, itv) + ["F_WIDE"], {}) for dom, itv in WIDE_TYPES]
def itv_jobs(pid, tier):
    out = static_fact_jobs(tier) if pid == "I01" else wide_jobs(tier) if pid == "I04" else []
    for dom, itv in ITV_TYPES:
        defs = tcfg(dom, itv) + ["F_"+pid]
        p = 5 if tier == "quick" else 9
        if dom.startswith("DUnsZ"): defs.append("EDGE")
        if pid == "I01" and itv in (DY, CO) and not dom.startswith("DUnsZ"):
            defs.append("FACT"); defs.append("FACTCMP=,std::greater" if dom.startswith("Rev") else "FACTCMP=")
        if pid == "I04" and "NO_LENGTH" in defs and "CONTDOM" not in defs: continue  # no subtraction: cardinality undefined
        out.append(Job("itv.cpp", "itv %s" % short(dom, itv), defs, {"P": p}))
    return out


# ---------------------------------------------------------------- interval sets, one operand
# (domain, interval template, kinds, P quick, P thorough)
SET_TYPES = [
 ("DInt", DY, "JSX", 4, 5), ("DInt", RO, "JSX", 6, 9), ("DInt", CL, "JSX", 6, 8), ("DInt", LO, "JX", 6, 8), ("DInt", OP, "JS", 6, 8),
 ("DUns", DY, "J", 4, 5), ("DUns", OP, "S", 5, 7),
 ("DDouble", CO, "JSX", 3, 5), ("DDouble", RO, "JX", 5, 8), ("DDouble", LO, "S", 5, 8), ("DString", CO, "J", 3, 4), ("DRat", CO, "X", 3, 4),
 ("Rev<DInt>", DY, "JS", 3, 5), ("Rev<DInt>", RO, "X", 5, 8), ("Rev<DInt>", CL, "J", 5, 7), ("Rev<DDouble>", CO, "S", 3, 4),
 ("DDate", DY, "X", 3, 4), ("DPtime", DY, "S", 3, 4), ("DTdur", DY, "J", 3, 4), ("DPtr", RO, "X", 5, 7), ("DTick", CL, "J", 5, 7), ("DTick", DY, "S", 3, 4),
 ("DInt", "user_right_open", "X", 5, 7), ("DInt", "user_closed", "J", 5, 7), ("Rev<DInt>", "user_open", "S", 5, 7)]
EDGE_TYPES = [
 ("DUchZ", RO, "JSX", 5, 7), ("DUchZ", CL, "JX", 5, 7), ("DUchZ", DY, "JS", 3, 4), ("DUllZ", DY, "X", 3, 4),
 ("DTop<signed char>", CL, "JS", 5, 7), ("DTop<signed char>", LO, "JX", 5, 7), ("DTop<unsigned>", CL, "X", 5, 7), ("DTop<long long>", LO, "S", 5, 7), ("DTop<int>", CL, "J", 5, 7),
 ("DBot<int>", RO, "JX", 5, 7), ("DBot<signed char>", CL, "S", 5, 7), ("DBot<long long>", RO, "S", 5, 7), ("DBot<int>", CL, "J", 5, 7)]
MAPMUT = ["G_ADDX", "G_SUB", "G_INS", "G_AND", "G_FLIP", "G_MISC"]
ALLMUT = ["G_ADD", "G_SUB", "G_AND", "G_FLIP", "G_MISC"]
def set_jobs(tier, groups, mode, cap=None, types=None, discrete_only=False, countable=False, less=0, tag="", san=False, extra=(), nth=1, off=0):
    out = []; n = off
    for dom, itv, kinds, pq, pt in (types or SET_TYPES):
        defs0 = tcfg(dom, itv)
        if discrete_only and ("CONTDOM" in defs0 or "NO_COUNT" in defs0): continue
        if countable and "NO_COUNT" in defs0: continue
        if dom == "DUns" and itv in (OP, LO): defs0.append("NO_OUTSIDE")
        p = (pq if tier == "quick" else pt) - less
        for k in kinds:
            n += 1
            if tier == "quick" and n % nth: continue
            defs = defs0 + ["KINDT="+k, "JMODE=%d" % mode] + list(groups) + list(extra)
            out.append(Job("set_unary.cpp", "set%s %s %s" % (tag, k, short(dom, itv)), defs, {"P": max(2, p)}, san=san))
    return out

# ---------------------------------------------------------------- interval sets, pairs and triples of states
# (domain, interval template, pairs of kinds, P quick, P thorough, representations quick, thorough)
PAIR_TYPES = [
 ("DInt", RO, ["JJ", "SS", "XX", "JS", "SJ", "JX", "XJ", "SX", "XS"], 4, 5, 1, 1), ("DInt", CL, ["JJ", "SX", "XS"], 4, 5, 1, 1), ("DInt", DY, ["JJ", "SS", "XX", "JX"], 3, 4, 3, 3), ("DInt", LO, ["SJ"], 4, 5, 1, 1), ("DInt", OP, ["XX"], 4, 5, 1, 1),
 ("DDouble", CO, ["JJ", "SS", "XJ"], 2, 3, 2, 2), ("DDouble", RO, ["XX"], 4, 5, 1, 1), ("DString", CO, ["XX"], 2, 3, 1, 2), ("Rev<DInt>", DY, ["JX"], 3, 4, 2, 2), ("Rev<DInt>", RO, ["SS"], 4, 5, 1, 1), ("DUns", DY, ["XS"], 3, 4, 2, 2), ("DTick", CL, ["JJ"], 4, 5, 1, 1),
 ("DInt", "user_left_open", ["JX"], 4, 5, 1, 1), ("DInt", "user_closed", ["SS"], 4, 5, 1, 1), ("Rev<DInt>", "user_right_open", ["XJ"], 4, 5, 1, 1)]
def pair_jobs(tier, groups, mode=0, same_only=False, types=None, nth=1, less=0, tri=None, tag="", san=False):
    out = []; n = 0
    for dom, itv, kinds, pq, pt, rq, rt in (types or PAIR_TYPES):
        for k in kinds:
            if same_only and k[0] != k[1]: continue
            n += 1
            if (n-1) % nth: continue
            p, r = (pq, rq) if tier == "quick" else (pt, rt)
            params = {"P": max(2, p-less), "reps": r}
            if tri: params["tri"] = tri[0] if tier == "quick" else tri[1]
            out.append(Job("set_binary.cpp", "setpair%s %s %s" % (tag, k, short(dom, itv)), tcfg(dom, itv)+["KA="+k[0], "KB="+k[1], "JMODE=%d" % mode]+list(groups), params, san=san))
    return out

# ---------------------------------------------------------------- interval maps, one operand
# (domain, interval template, kind, traits, codomain, combiner, P quick, P thorough, number of values, extra parameters)
PA, PE, TA, TE = "partial_absorber partial_enricher total_absorber total_enricher".split()
PLUS = "inplace_plus"
MAP_TYPES = [
 ("DInt", RO, "J", PA, "CInt", PLUS, 4, 5), ("DInt", RO, "X", PA, "CInt", PLUS, 3, 4), ("DInt", RO, "J", PE, "CInt", PLUS, 3, 4), ("DInt", RO, "X", PE, "CInt", PLUS, 3, 4),
 ("DInt", RO, "J", TA, "CInt", PLUS, 4, 4), ("DInt", RO, "X", TA, "CInt", PLUS, 3, 4), ("DInt", RO, "J", TE, "CInt", PLUS, 3, 4), ("DInt", RO, "X", TE, "CInt", PLUS, 3, 4),
 ("DInt", DY, "J", PA, "CInt", PLUS, 2, 3), ("DInt", DY, "X", PE, "CInt", PLUS, 2, 3), ("DInt", DY, "J", TE, "CSet", PLUS, 2, 3), ("DInt", DY, "X", PA, "CSet", PLUS, 2, 3), ("DInt", DY, "X", TA, "CInt", PLUS, 2, 3),
 ("DInt", CL, "J", PE, "CSet", PLUS, 3, 4), ("DInt", CL, "X", TA, "CSet", PLUS, 3, 4), ("DInt", LO, "J", TA, "CUns", PLUS, 4, 5), ("DInt", LO, "X", PA, "CIset", PLUS, 3, 4), ("DInt", OP, "J", PA, "CDbl", PLUS, 4, 5), ("DInt", OP, "X", TE, "CDbl", PLUS, 3, 4),
 ("DDouble", CO, "J", PA, "CSet", PLUS, 2, 2), ("DDouble", CO, "X", TE, "CInt", PLUS, 2, 2), ("DDouble", RO, "J", PE, "CInt", PLUS, 3, 4), ("DDouble", LO, "X", PA, "CInt", PLUS, 3, 4), ("DString", CO, "J", TA, "CInt", PLUS, 2, 2),
 ("Rev<DInt>", DY, "J", PA, "CSet", PLUS, 2, 3), ("Rev<DInt>", RO, "X", PE, "CInt", PLUS, 3, 4), ("Rev<DInt>", CL, "J", TE, "CInt", PLUS, 3, 4),
 ("DUns", DY, "J", PE, "CUns", PLUS, 2, 3), ("DDate", DY, "X", PA, "CUns", PLUS, 2, 3), ("DPtime", DY, "J", TA, "CSet", PLUS, 2, 3), ("DPtr", RO, "X", TA, "CInt", PLUS, 3, 4), ("DTick", CL, "J", PA, "CIset", PLUS, 3, 4),
 ("DInt", RO, "J", PA, "CStr", PLUS, 3, 4), ("DInt", RO, "X", TE, "CStr", PLUS, 3, 4),
 ("DInt", "user_left_open", "J", PA, "CInt", PLUS, 3, 4), ("DInt", "user_closed", "X", TE, "CSet", PLUS, 3, 4)]
# interval maps whose values are maps themselves
NEST_TYPES = [("DInt", RO, "J", PA, "CMap", PLUS, 3, 4), ("DInt", RO, "X", PE, "CMap", PLUS, 2, 3), ("DInt", RO, "J", PE, "CIMap", PLUS, 2, 3), ("DInt", RO, "X", PA, "CIMap", PLUS, 3, 4), ("DInt", DY, "J", TE, "CMap", PLUS, 2, 2), ("DInt", CL, "J", TA, "CIMapT", PLUS, 2, 3), ("DInt", RO, "X", TE, "CIMapT", PLUS, 2, 3), ("DInt", RO, "X", TA, "CRat", PLUS, 3, 4), ("DInt", RO, "J", PE, "CRat", PLUS, 3, 4)]
EDGE_MAP_TYPES = [("DUchZ", RO, "J", PA, "CInt", PLUS, 4, 5), ("DUchZ", CL, "X", PE, "CSet", PLUS, 3, 4), ("DUchZ", DY, "J", TA, "CInt", PLUS, 2, 3), ("DTop<signed char>", CL, "X", PA, "CInt", PLUS, 3, 4), ("DTop<unsigned>", CL, "J", TE, "CSet", PLUS, 3, 4),
 ("DTop<long long>", LO, "J", PA, "CSet", PLUS, 3, 4), ("DTop<int>", LO, "X", TE, "CInt", PLUS, 3, 4), ("DBot<int>", RO, "X", PA, "CSet", PLUS, 3, 4), ("DBot<signed char>", CL, "J", PE, "CInt", PLUS, 3, 4), ("DBot<long long>", RO, "J", TA, "CInt", PLUS, 3, 4)]
def _c(comb, cod, *trs):
    return [("DInt", RO if (len(comb)+n) % 2 else DY, "JX"[(len(comb)//2+n) % 2], tr, cod, "inplace_"+comb, 3 if (len(comb)+n) % 2 else 2, 4 if (len(comb)+n) % 2 else 3) for n, tr in enumerate(trs)]
COMB_TYPES = (_c("minus", "CInt", PA, PE, TA, TE) + _c("max", "CInt", PA, PE, TE) + _c("max", "CUns", PA, TA) + _c("max", "CStr", PA, PE) + _c("min", "CInt", PA, PE, TA, TE)
 + _c("bit_add", "CBit", PA, PE, TA, TE) + _c("bit_subtract", "CBit", PA, PE, TE) + _c("bit_and", "CBit", PA, PE, TE) + _c("bit_xor", "CBit", PA, PE, TA)
 + _c("et", "CSet", PA, PE, TE) + _c("caret", "CSet", PA, PE, TA) + _c("minus", "CSet", PE, TE) + _c("insert", "CSet", PA, PE) + _c("erase", "CSet", PA, PE) + _c("identity", "CInt", PA, PE, TE) + _c("identity", "CStr", PA)
 + _c("erasure", "CInt", PE, PA) + _c("star", "CInt", PA, TA) + _c("slash", "CInt", PA) + _c("et", "CIset", PE) + _c("caret", "CIset", PA) + _c("minus", "CIset", PE) + _c("plus", "CIset", PA, TE) + _c("plus", "CStr", PA))
def map_jobs(tier, groups, mode, types=None, discrete_only=False, countable=False, less=0, tag="", san=False, extra=(), nth=1, off=0):
    out = []; n = off
    for t in (types or MAP_TYPES):
        dom, itv, k, tr, cod, comb, pq, pt = t[:8]
        n += 1
        if tier == "quick" and n % nth: continue
        defs = tcfg(dom, itv)
        if discrete_only and ("CONTDOM" in defs or "NO_COUNT" in defs): continue
        if countable and "NO_COUNT" in defs: continue
        gs = list(groups)
        if cod == "CRat": defs.append("USE_RATIONAL")
        if cod == "CStr" and comb == PLUS:
            gs = [g for g in groups if g != "G_SUB"]; defs.append("NO_SUB")
        if tr[0] == "t": defs.append("TOTALMAP")
        p = (pq if tier == "quick" else pt) - less
        params = {"P": max(2, p)}
        if len(t) > 8: params.update(t[8])
        out.append(Job("map_unary.cpp", "map%s %s %s %s %s %s" % (tag, k, short(dom, itv), tr, cod, comb), defs + ["KINDT="+k, "TR="+tr, "COD="+cod, "COMB="+comb, "JMODE=%d" % mode] + gs + list(extra), params, san=san))
    return out

# ---------------------------------------------------------------- interval maps, pairs of states and map x set
# (domain, interval template, kinds, traits A, traits B, codomain, combiner, set kind, P quick, P thorough[, params])
MAP_PAIR_TYPES = [
 ("DInt", RO, "JJ", PA, PA, "CInt", PLUS, "SJ", 3, 4), ("DInt", RO, "XX", PA, PA, "CInt", PLUS, "SX", 2, 3), ("DInt", RO, "JX", PA, PA, "CSet", PLUS, "SS", 3, 3), ("DInt", RO, "XJ", PA, PA, "CInt", PLUS, "SJ", 3, 3),
 ("DInt", RO, "JJ", PE, PE, "CInt", PLUS, "SX", 3, 3), ("DInt", RO, "XX", PE, PE, "CSet", PLUS, "SS", 2, 3), ("DInt", RO, "XJ", PE, PE, "CInt", PLUS, "SJ", 2, 3),
 ("DInt", RO, "JJ", TA, TA, "CInt", PLUS, "SJ", 3, 4), ("DInt", RO, "XX", TA, TA, "CSet", PLUS, "SX", 2, 3), ("DInt", RO, "JX", TA, TA, "CInt", PLUS, "SS", 2, 3),
 ("DInt", RO, "JJ", TE, TE, "CInt", PLUS, "SX", 2, 3), ("DInt", RO, "XX", TE, TE, "CInt", PLUS, "SJ", 2, 3), ("DInt", RO, "XJ", TE, TE, "CSet", PLUS, "SS", 2, 3),
 ("DInt", DY, "JJ", PA, PA, "CSet", PLUS, "SX", 2, 3), ("DInt", DY, "XJ", PE, PE, "CSet", PLUS, "SJ", 2, 2), ("DInt", CL, "JX", PA, PA, "CInt", PLUS, "SJ", 3, 3), ("DInt", CL, "XX", TE, TE, "CUns", PLUS, "SX", 2, 3), ("DInt", LO, "JJ", PA, PA, "CIset", PLUS, "SS", 2, 3), ("DInt", OP, "XX", PE, PE, "CInt", PLUS, "SJ", 2, 3),
 ("DDouble", CO, "JJ", PA, PA, "CInt", PLUS, "SX", 2, 2), ("DDouble", CO, "XX", TA, TA, "CSet", PLUS, "SJ", 2, 2), ("DDouble", RO, "JX", TE, TE, "CDbl", PLUS, "SS", 2, 3), ("DString", CO, "XJ", PA, PA, "CSet", PLUS, "SJ", 1, 2),
 ("Rev<DInt>", DY, "JJ", PA, PA, "CDbl", PLUS, "SX", 2, 3), ("Rev<DInt>", RO, "XX", PE, PE, "CInt", PLUS, "SJ", 2, 3), ("Rev<DInt>", CL, "JX", TA, TA, "CInt", PLUS, "SS", 2, 3), ("DUns", RO, "JJ", PE, PE, "CUns", PLUS, "SJ", 3, 3), ("DDate", DY, "JJ", PA, PA, "CSet", PLUS, "SX", 2, 2),
 ("DInt", RO, "JJ", PA, PA, "CStr", PLUS, "SJ", 2, 3), ("DInt", RO, "XX", PE, PE, "CStr", PLUS, "SS", 2, 3),
 ("DInt", RO, "JJ", PA, PE, "CInt", PLUS, "SJ", 2, 3), ("DInt", RO, "XJ", PE, TA, "CSet", PLUS, "SX", 2, 3), ("DInt", DY, "JX", TA, PA, "CInt", PLUS, "SS", 2, 2), ("DInt", CL, "XX", TE, PE, "CSet", PLUS, "SJ", 2, 3), ("DInt", RO, "JX", TA, TE, "CInt", PLUS, "SS", 2, 3), ("DDouble", RO, "JJ", PE, TE, "CSet", PLUS, "SX", 2, 2),
 ("DInt", "user_right_open", "JX", PA, PA, "CInt", PLUS, "SS", 2, 3), ("DInt", "user_closed", "XX", TE, TE, "CSet", PLUS, "SJ", 2, 3)]
COMB_PAIR_TYPES = [("DInt", RO, "JJ", PA, PA, "CUns", "inplace_max", "SJ", 2, 3), ("DInt", RO, "XX", PE, PE, "CInt", "inplace_max", "SX", 2, 3), ("DInt", RO, "JX", TE, TE, "CInt", "inplace_min", "SJ", 2, 3), ("DInt", RO, "XJ", PE, PE, "CSet", "inplace_et", "SS", 2, 3), ("DInt", DY, "JJ", PE, PE, "CSet", "inplace_insert", "SJ", 2, 2),
 ("DInt", RO, "JJ", PA, PA, "CSet", "inplace_caret", "SJ", 2, 3), ("DInt", RO, "XX", PA, PA, "CBit", "inplace_bit_add", "SJ", 2, 3), ("DInt", RO, "JJ", TA, TA, "CBit", "inplace_bit_xor", "SJ", 2, 3), ("DInt", RO, "XX", PE, PE, "CInt", "inplace_identity", "SJ", 2, 3), ("DInt", RO, "JX", PA, PA, "CInt", "inplace_star", "SJ", 2, 3),
 ("DInt", RO, "JJ", PE, PE, "CInt", "inplace_minus", "SJ", 2, 3), ("DInt", RO, "XX", PA, PA, "CInt", "inplace_minus", "SX", 2, 3), ("DInt", RO, "XJ", TE, TE, "CInt", "inplace_minus", "SJ", 2, 3), ("DInt", CL, "JX", PE, PE, "CInt", "inplace_min", "SS", 2, 3), ("DInt", RO, "JJ", PE, PE, "CSet", "inplace_erase", "SJ", 2, 3),
 ("DInt", RO, "XX", PE, PE, "CBit", "inplace_bit_and", "SX", 2, 3), ("DInt", LO, "JJ", PA, PA, "CBit", "inplace_bit_subtract", "SJ", 2, 3), ("DInt", RO, "JJ", PA, PA, "CInt", "inplace_slash", "SJ", 2, 3), ("DInt", RO, "XX", PE, PE, "CInt", "inplace_erasure", "SJ", 2, 3), ("DInt", RO, "JJ", PE, PE, "CStr", "inplace_max", "SJ", 2, 3)]
def map_pair_jobs(tier, groups, mode=0, types=None, same_kind=False, same_traits=False, commutative=False, nth=1, off=0, less=0, tri=None, tag="", san=False, extra=()):
    out = []; n = off
    for t in (types or MAP_PAIR_TYPES):
        dom, itv, k, ta, tb, cod, comb, ks, pq, pt = t[:10]
        if same_kind and k[0] != k[1]: continue
        if same_traits and ta != tb: continue
        if commutative and cod == "CStr": continue
        n += 1
        if tier == "quick" and n % nth: continue
        defs = tcfg(dom, itv)
        if cod == "CStr" and comb == PLUS: defs += ["NO_SUB"]
        if cod == "CStr" and comb == PLUS or comb in ("inplace_minus", "inplace_identity", "inplace_erase", "inplace_erasure", "inplace_slash", "inplace_bit_subtract"): defs.append("NONCOMM")
        if comb == "inplace_minus": defs.append("NO_AND")
        if ta[0] == "t": defs.append("TOTALMAP")
        if k[0] != k[1] or ta != tb: defs.append("MIXED")
        if k == "XJ": defs.append("NO_CTOR")
        params = {"P": max(1, (pq if tier == "quick" else pt) - less)}
        if len(t) > 10: params.update(t[10])
        if tri: params["tri"] = tri[0] if tier == "quick" else tri[1]
        out.append(Job("map_binary.cpp", "mappair%s %s %s %s,%s %s %s" % (tag, k, short(dom, itv), ta, tb, cod, comb), defs + ["KA="+k[0], "KB="+k[1], "TRA="+ta, "TRB="+tb, "COD="+cod, "COMB="+comb, "KS="+ks, "JMODE=%d" % mode] + list(groups) + list(extra), params, san=san))
    return out

# ---------------------------------------------------------------- element containers: icl::map and std::set
# (key, traits, codomain, combiner, extra defines, P quick, P thorough, pairs quick)
ELEM_TYPES = ([("KInt", t, "CInt", PLUS, [], 3, 4) for t in (PA, PE, TA, TE)] + [("KRev", PA, "CSet", PLUS, [], 3, 4), ("KStr", PE, "CSet", PLUS, [], 3, 4), ("KInt", TA, "CSet", PLUS, [], 3, 4), ("KRev", TE, "CIset", PLUS, [], 3, 3),
 ("KInt", PA, "CIset", PLUS, [], 3, 4), ("KStr", TE, "CUns", PLUS, [], 3, 4), ("KRev", PE, "CDbl", PLUS, [], 3, 4), ("KInt", PA, "CStr", PLUS, ["NO_SUB"], 3, 4), ("KStr", TA, "CInt", PLUS, [], 3, 4),
 ("KInt", PE, "CInt", "inplace_max", [], 3, 4), ("KInt", TA, "CUns", "inplace_max", [], 3, 4), ("KInt", PA, "CInt", "inplace_min", [], 3, 4), ("KInt", PA, "CInt", "inplace_minus", ["NO_AND", "NO_FLIP"], 3, 4), ("KInt", TE, "CInt", "inplace_minus", ["NO_AND", "NO_FLIP"], 3, 3),
 ("KInt", PA, "CBit", "inplace_bit_add", [], 3, 4), ("KInt", PE, "CBit", "inplace_bit_and", [], 3, 4), ("KInt", TA, "CBit", "inplace_bit_xor", [], 3, 4), ("KInt", PA, "CSet", "inplace_et", [], 3, 4), ("KInt", PE, "CSet", "inplace_caret", [], 3, 4), ("KInt", PA, "CInt", "inplace_identity", [], 3, 4),
 ("KRev", PE, "CSet", "inplace_insert", [], 3, 4), ("KInt", PA, "CSet", "inplace_erase", [], 3, 4), ("KInt", PA, "CInt", "inplace_star", [], 3, 4), ("KStr", PE, "CBit", "inplace_bit_subtract", [], 3, 4), ("KInt", TE, "CInt", "inplace_min", [], 3, 4), ("KInt", TE, "CBit", "inplace_bit_add", [], 3, 4)])
def elem_jobs(tier, groups, nth=1, sets=True, san=False, tag="", types=None):
    out = []
    if sets:
        for k in ("KInt", "KRev", "KStr")[:1 if types else 3]: out.append(Job("elem.cpp", "elem%s set %s" % (tag, k), ["E_SET", "KEYT="+k] + groups, {"P": 5 if tier == "quick" else 7, "pairs": 32 if tier == "quick" else 128}, san=san))
    for n, (k, tr, cod, comb, ex, pq, pt) in enumerate(types or ELEM_TYPES):
        if tier == "quick" and n % nth: continue
        d = ["E_MAP", "KEYT="+k, "TR="+tr, "COD="+cod, "COMB="+comb] + ex + groups
        if cod == "CSet": d += ["NO_INCL", "NO_STREAM"]
        if cod == "CIset": d.append("NO_STREAM")
        out.append(Job("elem.cpp", "elem%s map %s %s %s %s" % (tag, k, tr, cod, comb), d, {"P": pq if tier == "quick" else pt, "pairs": 216 if tier == "quick" else 700}, san=san))
    return out

# ---------------------------------------------------------------- every operation interrupted at every point that can throw
FAULT_SETS = [(0, RO, 4, 5), (1, RO, 4, 5), (2, RO, 4, 5), (0, DY, 3, 3), (1, DY, 3, 3), (2, DY, 3, 3), (0, CL, 4, 5), (2, LO, 4, 5), (1, OP, 4, 5)]
FAULT_MAPS = ([(k, it, tr, PLUS, 3, 4) for k, it, tr in ((0, RO, PA), (2, RO, PA), (0, CL, PE), (2, LO, PE), (0, RO, TA), (2, OP, TA), (0, RO, TE), (2, CL, TE))]
 + [(0, DY, PA, PLUS, 2, 2), (2, DY, PE, PLUS, 2, 2), (0, DY, TE, PLUS, 2, 2), (2, RO, PA, "inplace_max", 3, 3), (0, RO, PE, "inplace_minus", 3, 3), (0, LO, TA, "inplace_min", 3, 3)])
FAULT_EMAPS = [(tr, c) for tr in (PA, PE, TA, TE) for c in (PLUS, "inplace_max")]
def fault_jobs(tier):
    q = tier == "quick"; kn = ["interval", "separate", "split"]
    out = [Job("fault.cpp", "fault set %s %s" % (kn[k], it.replace("_interval", "")), ["F_SET", "KINDN=%d" % k, "ITV="+it], {"P": pq if q else pt}) for k, it, pq, pt in FAULT_SETS]
    out += [Job("fault.cpp", "fault map %s %s %s %s" % (kn[k], it.replace("_interval", ""), tr, cb), ["F_MAP", "KINDN=%d" % k, "ITV="+it, "TR="+tr, "COMB="+cb], {"P": pq if q else pt, "nval": 3}) for k, it, tr, cb, pq, pt in FAULT_MAPS]
    out += [Job("fault.cpp", "fault icl::map %s %s" % (tr, cb), ["F_EMAP", "TR="+tr, "COMB="+cb, "ITV="+RO], {"P": 2 if q else 3}) for tr, cb in FAULT_EMAPS]
    return out

# ---------------------------------------------------------------- the library's build options: Boost.Container instead of std containers; without rvalue overloads
BUILD_OPTS = [("boost.container", "ICL_USE_BOOST_MOVE_IMPLEMENTATION"), ("no rvalues", "BOOST_ICL_NO_CXX11_RVALUE_REFERENCES")]
def build_jobs(tier, mk):
    out = []
    for tag, macro in BUILD_OPTS:
        for j in mk("(%s)" % tag): j.defs = j.defs + [macro]; out.append(j)
    return out

import os, json
_b = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bounds.json")
BOUNDS = json.load(open(_b)) if os.path.exists(_b) else {}   # measured by tools/tune.py
def jobs(pid, tier):
    out = table(pid, tier); b = BOUNDS.get(pid, {})
    for j in out:
        if j.name in b: j.params["P"] = max(j.params["P"], b[j.name][tier != "quick"])
    return out
BUILD_SET = [("DInt", RO, "JX", 5, 7), ("DInt", DY, "S", 3, 4)]
BUILD_PAIR = [("DInt", RO, ["JX", "SS"], 4, 5, 1, 1), ("DInt", DY, ["XJ"], 3, 4, 2, 2)]
BUILD_MAP = [("DInt", RO, "J", PA, "CInt", PLUS, 3, 4), ("DInt", DY, "X", TE, "CSet", PLUS, 2, 3)]
BUILD_MAPPAIR = [("DInt", RO, "JX", PA, PA, "CInt", PLUS, "SJ", 3, 3), ("DInt", RO, "XX", TE, TE, "CInt", PLUS, "SX", 2, 3), ("DInt", DY, "XJ", PE, PE, "CSet", PLUS, "SJ", 2, 2)]
BUILD_ELEM = [("KInt", PA, "CInt", PLUS, [], 3, 4), ("KRev", TE, "CSet", PLUS, [], 3, 3)]
def table(pid, tier):
    out = table0(pid, tier); B = lambda f: build_jobs(tier, f)
    if pid == "S04": out += B(lambda t: pair_jobs(tier, ["B_OPS"], types=BUILD_PAIR, tag=t))
    if pid == "S05": out += B(lambda t: set_jobs(tier, ALLMUT, 1, types=BUILD_SET, tag=t))
    if pid == "M06": out += B(lambda t: map_pair_jobs(tier, ["B_OPS"], types=BUILD_MAPPAIR, tag=t))
    if pid == "M07": out += B(lambda t: map_jobs(tier, MAPMUT, 1, types=BUILD_MAP, tag=t))
    if pid == "L04": out += B(lambda t: set_jobs(tier, ["G_HINT"], 0, less=1, types=BUILD_SET[:1], tag=t) + map_jobs(tier, ["G_HINT"], 0, types=BUILD_MAP[:1], tag=t))
    if pid == "L07": out += B(lambda t: pair_jobs(tier, ["B_CONV", "B_CTOR"], types=BUILD_PAIR, tag=t) + map_pair_jobs(tier, ["B_CONV"], types=BUILD_MAPPAIR, same_traits=True, tag=t))
    if pid == "L08": out += B(lambda t: elem_jobs(tier, ["G_ONE", "G_PAIR"], types=BUILD_ELEM, tag=t))
    if pid == "L10": out += B(lambda t: set_jobs(tier, ["G_ALIAS"], 0, types=BUILD_SET[:1], tag=t) + map_jobs(tier, ["G_ALIAS"], 0, types=BUILD_MAP[:1], tag=t))
    return out
def table0(pid, tier):
    if pid == "L14": return fault_jobs(tier)
    if pid == "L08": return elem_jobs(tier, ["G_ONE", "G_PAIR"])
    if pid == "M01": return map_jobs(tier, ["G_ADD"], 0, types=MAP_TYPES+NEST_TYPES+COMB_TYPES[::4])
    if pid == "M02": return map_jobs(tier, ["G_SUB"], 0, types=MAP_TYPES+NEST_TYPES+COMB_TYPES[1::2])
    if pid == "M03": return map_jobs(tier, ["G_INS"], 0, types=MAP_TYPES+NEST_TYPES+COMB_TYPES[2::5])
    if pid == "M04": return map_jobs(tier, ["G_AND"], 0, types=MAP_TYPES+NEST_TYPES+[t for t in COMB_TYPES if t[5] != "inplace_minus"][3::5]) + map_jobs(tier, ["G_AND"], 0, tag="(recorded)", types=[("DInt", RO, "J", PA, "CInt", "inplace_minus", 1, 1, dict(P=1, nval=1, withid=0, maxviol=1000))])
    if pid == "M05": return map_jobs(tier, ["G_FLIP"], 0, types=MAP_TYPES+NEST_TYPES+COMB_TYPES[3::5])
    if pid == "M06": return map_pair_jobs(tier, ["B_OPS"]) + map_pair_jobs(tier, ["B_OPS", "NO_FLIP"], types=COMB_PAIR_TYPES)
    if pid == "M07": return map_jobs(tier, MAPMUT, 1, types=MAP_TYPES+NEST_TYPES) + map_pair_jobs(tier, ["B_OPS"], 1, nth=3)
    if pid == "M08": return map_jobs(tier, MAPMUT+["Q_TOTAL"], 3) + map_pair_jobs(tier, ["B_OPS"], 3, nth=3, off=1) + map_pair_jobs(tier, ["B_DIST"], same_traits=True, same_kind=True, tag="(dist)") + elem_jobs(tier, ["G_ONE", "G_PAIR", "ONLY_IDS"], sets=False, nth=2)
    if pid == "M09": return map_jobs(tier, ["G_ADDX", "G_SUB", "G_INS"], 1, types=COMB_TYPES) + map_pair_jobs(tier, ["B_OPS", "NO_FLIP"], 1, types=COMB_PAIR_TYPES) + map_jobs(tier, ["G_ADDX"], 1, tag="(recorded)", types=[("DInt", RO, "J", PA, "CSet", "inplace_minus", 1, 1, dict(P=1, nval=1, withid=0, maxviol=1000))]) + elem_jobs(tier, ["G_ONE", "G_PAIR", "FILTER=4"], sets=False)
    if pid in ("I01", "I02", "I03", "I04"): return itv_jobs(pid, tier)
    if pid == "S01": return set_jobs(tier, ["G_ADD"], 0)
    if pid == "S02": return set_jobs(tier, ["G_SUB"], 0)
    if pid == "S03": return set_jobs(tier, ["G_AND", "G_FLIP"], 0)
    if pid == "S05": return set_jobs(tier, ALLMUT, 1) + pair_jobs(tier, ["B_OPS"], 1, nth=2)
    if pid == "S06": return set_jobs(tier, ALLMUT, 2, nth=2) + pair_jobs(tier, ["B_OPS"], 2, nth=3) + map_jobs(tier, MAPMUT, 2, nth=2)
    if pid == "L01": return set_jobs(tier, ["Q_LOOK"], 0) + map_jobs(tier, ["Q_LOOK"], 0, nth=2)
    if pid == "L02": return set_jobs(tier, ["Q_CONT"], 0) + pair_jobs(tier, ["B_REL"]) + map_jobs(tier, ["Q_CONT"], 0, nth=2, off=1) + map_pair_jobs(tier, ["B_REL"], nth=2)
    if pid == "L04": return set_jobs(tier, ["G_HINT"], 0, less=1) + map_jobs(tier, ["G_HINT"], 0, nth=2)+map_jobs(tier, ["G_HINT"], 0, types=COMB_TYPES, nth=5) + elem_jobs(tier, ["G_ONE", "FILTER=1"], nth=2)
    if pid == "S04": return pair_jobs(tier, ["B_OPS"])
    if pid == "L03": return pair_jobs(tier, ["B_ORD"]) + map_pair_jobs(tier, ["B_ORD"], nth=2)
    if pid == "L07": return set_jobs(tier, ["G_CONV"], 1, nth=2) + map_jobs(tier, ["G_CONV"], 1, nth=2, types=[t for t in MAP_TYPES if t[2] == "X"]) + pair_jobs(tier, ["B_CONV", "B_CTOR"]) + map_pair_jobs(tier, ["B_CONV"], same_traits=True)
    if pid == "L09": return pair_jobs(tier, ["B_LAW"], same_only=True, tri=(40, 90)) + map_pair_jobs(tier, ["B_LAW"], same_kind=True, same_traits=True, commutative=True, tri=(40, 90))
    if pid == "L05": return set_jobs(tier, ["Q_ELEM"], 0, discrete_only=True) + map_jobs(tier, ["Q_ELEM"], 0, discrete_only=True, nth=2, off=1)
    if pid == "L06": return set_jobs(tier, ["Q_SIZE"], 0, countable=True) + map_jobs(tier, ["Q_SIZE"], 0, countable=True, nth=2)
    if pid == "L10": return set_jobs(tier, ["G_ALIAS"], 0, nth=2) + map_jobs(tier, ["G_ALIAS"], 0, nth=2) + elem_jobs(tier, ["G_ALIAS"], nth=2)
    if pid == "L11": return set_jobs(tier, ALLMUT+["Q_CONT", "Q_LOOK", "Q_SIZE"], 1, types=EDGE_TYPES, extra=["NO_OUTSIDE"]) + edge_itv_jobs(tier) + map_jobs(tier, MAPMUT+["Q_CONT", "Q_LOOK", "Q_SIZE"], 1, types=EDGE_MAP_TYPES, extra=["NO_OUTSIDE"])
    if pid == "L13": return map_jobs(tier, ["G_PRED"], 0) + elem_jobs(tier, ["G_ONE", "G_PAIR", "FILTER=2"], nth=2)
    if pid == "L12": return set_jobs(tier, ["Q_STREAM"], 0) + map_jobs(tier, ["Q_STREAM"], 0, nth=2, off=1) + itv_jobs("L12", tier) + elem_jobs(tier, ["G_ONE", "FILTER=3"], nth=2)
    raise SystemExit("unknown property "+pid)

def assumptions(pid):
    return []

CLAIMED = "I01 I02 I03 I04 S01 S02 S03 S04 S05 S06 M01 M02 M03 M04 M05 M06 M07 M08 M09 L01 L02 L03 L04 L05 L06 L07 L08 L09 L10 L11 L12 L13 L14".split()
UNCLAIMED = {}
