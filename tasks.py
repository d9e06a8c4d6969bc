"""What each check explores: property -> tier -> list of "ENTRY:CASE", and the witnesses that must be reached.

Case encodings are documented at the entries in harness/src. Attribute kinds are indices into refm::NAMES."""

(ANN_DEFAULT, BOOTSTRAP, CODE, CONST_VALUE, DEPRECATED, ENCLOSING, EXCEPTIONS, INNER, LINES, LOCALS, LOCAL_TYPES, PARAMS, MODULE, MAIN_CLASS, PACKAGES,
 RVA, RIA, RVPA, RIPA, RVTA, RITA, SIGNATURE, SOURCE, FRAMES, SYNTHETIC, SDE, UNKNOWN) = range(27)
CLASS, FIELD, METHOD, CODE_L = range(4)
LEVEL = {ANN_DEFAULT: METHOD, BOOTSTRAP: CLASS, CODE: METHOD, CONST_VALUE: FIELD, DEPRECATED: CLASS, ENCLOSING: CLASS, EXCEPTIONS: METHOD, INNER: CLASS,
         LINES: CODE_L, LOCALS: CODE_L, LOCAL_TYPES: CODE_L, PARAMS: METHOD, MODULE: CLASS, MAIN_CLASS: CLASS, PACKAGES: CLASS, RVA: CLASS, RIA: FIELD,
         RVPA: METHOD, RIPA: METHOD, RVTA: CLASS, RITA: CODE_L, SIGNATURE: FIELD, SOURCE: CLASS, FRAMES: CODE_L, SYNTHETIC: METHOD, SDE: CLASS, UNKNOWN: FIELD}
HEAVY = (FRAMES, SDE)


def at(kind, n, level=None):
    return kind * 1000 + (LEVEL[kind] if level is None else level) * 100 + n


def lens(kind, quick):
    """bytes of symbolic attribute content that stay affordable"""
    if kind == FRAMES: return 8 if quick else 10
    if kind == SDE: return 6 if quick else 9
    if kind == ANN_DEFAULT: return 9 if quick else 13
    if kind in (RVA, RIA, RVPA, RIPA): return 12 if quick else 18
    if kind in (RVTA, RITA): return 11 if quick else 15
    if kind == CODE: return 14 if quick else 15
    if kind == MODULE: return 18 if quick else 26
    if kind in (CONST_VALUE, DEPRECATED, SYNTHETIC, SIGNATURE, SOURCE, MAIN_CLASS, UNKNOWN): return 4 if quick else 12
    return 14 if quick else 24


def t(entry, *cases):
    out = []
    for c in cases:
        if isinstance(c, range): out += ["%s:%d" % (entry, x) for x in c]
        else: out.append("%s:%d" % (entry, c))
    return out


def total(p, q):
    e = "h_%s_" % p
    r = []
    kinds = [k for k in range(27) if k != CODE]
    r += t(e + "attr", *[at(k, lens(k, q)) for k in kinds])
    r += t(e + "attr", *[at(k, 0) for k in range(27)], at(CODE, 8), at(CODE, 9 if q else 10))
    r += t(e + "raw", range(0, 13), 114, 115) if q else t(e + "raw", range(0, 21), 116, 118, 120)
    r += t(e + "code", 1, 102) if q else t(e + "code", 1, 2, 103)
    r += t(e + "switch", *[op * 10000 + rows * 100 + al * 10 + n for op in (0, 1) for al in (range(4) if q else range(8)) for rows in ((0, 2) if q else (0, 1, 2, 3, 5, 20)) for n in ((0, 1) if q else (0, 1, 2))])
    r += t(e + "many", *[s * 10000 + n for s in range(8) for n in ((60,) if q else (60, 120, 250))])
    r += t(e + "counts", *[s * 100 + n for s in range(6) for n in ((9,) if q else (9, 14))])
    return r


def attrs(kinds, q, levels=True):
    """all lengths up to the bound at the kind's own level, some at the others"""
    r = []
    for k in kinds:
        m = lens(k, q)
        if not q: m += 1 if k == FRAMES else 3 if k in (ANN_DEFAULT, RVA, RIA, RVPA, RIPA, RVTA, RITA, SDE) else 4 if k == MODULE else 16
        r += t("h_attr", *[at(k, n) for n in range(0, m + 1)])
        if levels: r += t("h_attr", *[at(k, min(m, 6), l) for l in range(4) if l != LEVEL[k]])
    return r


def wide(vs, q):
    c = []
    for v in vs:
        small = v in (6, 11, 29)
        for n in ((0, 1, 2, 60, 128, 255) if small else (0, 1, 2, 16, 130, 256, 260)) if q else ((0, 1, 2, 3, 16, 60, 127, 128, 254, 255) if small else (0, 1, 2, 3, 16, 130, 255, 256, 300, 1000, 1024, 4000, 4096, 32767, 32768)):
            c.append(v * 100000 + n)
    return t("h_wide", *c)


def big(vs, ns=(65535,)):
    """lists near the largest count"""
    return t("h_wide", *[v * 100000 + n for v in vs for n in ns])


SIZE = [248, 249, 464, 498, 645, 725, 887, 1016, 1168, 1637, 1873, 4212]  # harness/data, in the order of around::REAL


def cuts(entry, files):
    return t(entry, *[i * 1000 + p for i in files for p in range((SIZE[i] + 31) // 32)])


def quick_and_thorough(prop, quick):
    q = quick
    if prop == "C01": return total("c01", q)
    if prop == "C02": return total("c02", q)
    if prop == "C03":
        r = t("h_c03_nest", *[s * 100000 + l for s in (0, 1, 2, 3, 4, 10, 11, 12, 13, 14, 15) for l in ((1, 2, 31, 32, 1001) if q else (1, 2, 3, 8, 16, 30, 31, 32, 1001, 2000, 4000, 9000))])
        return r + t("h_c03_mix", *[s * 100000 + l for s in (0, 1) for l in ((7, 32, 1001) if q else (7, 20, 31, 32, 1001, 3000))])
    if prop == "C04":
        ks = [k for k in range(27) if k not in (CODE,)]
        cut, app = [], []
        for k in ks:
            m = min(lens(k, q), 10)
            if k == FRAMES: m = 6 if q else 8
            if k == SDE: m = 4 if q else 7
            if k == MODULE: m = 16
            ns = (m, m - 1, m - 2, m - 3) if q else range(0, m + 1)
            for n in ns:
                if n >= 0: cut.append(at(k, n)); app.append(at(k, n))
        for n in (0, 1) if q else (0, 1, 2): cut.append(27000 + n); app.append(27000 + n)
        return t("h_c04_cut", 30000, *cut) + t("h_c04_append", 30000, *app) + cuts("h_c04_real", range(9 if q else 12)) + t("h_c04_real", *[i * 1000 + 999 for i in range(12)])
    if prop == "C05":
        r = t("h_c05_envelope", *(range(14, 27, 2) if q else range(12, 36)))
        r += t("h_c05_members", *[a * 100 + b * 10 + c for a in range(4) for b in range(4) for c in range(0, 4)])
        r += t("h_c05_magic", *(range(0, 13) if q else range(0, 17)))
        r += t("h_c05_long", 300, 100300, 200300, 300300, 400300, 501000, 601000, 701000)
        r += t("h_c05_long", 565535, 665535, 765535)
        if not q: r += t("h_c05_long", 2000, 101000, 201000, 301000, 401000, 500000, 600000)
        return r
    if prop == "C06": return t("h_c06_flags", range(0, 7)) + t("h_c06_masks", 0)
    if prop == "C07":
        r = []
        for k in range(27):
            if k == CODE: r += t("h_c07_attr", *[at(k, n) for n in ((7, 8) if q else (7, 8, 9, 10))]); r += t("h_c07_near", *[27000 + n for n in ((0, 1) if q else (0, 1, 2))]); continue
            m = lens(k, q)
            if k == FRAMES: m = 7 if q else 9
            if k == SDE: m = 5 if q else 8
            r += t("h_c07_attr", at(k, m), at(k, min(3, m)))
            r += t("h_c07_near", *[at(k, n) for n in (range(max(0, m - 4), m + 1) if q else range(0, m + 1))])
            if k != CODE: r += t("h_c07_nested", *[k * 100 + n for n in ((min(m, 8),) if q else range(0, min(m, 9) + 1))])
        r += t("h_c07_code", *((1, 2) if q else (1, 2, 3)))
        return r
    if prop == "C08":
        r = t("h_c08_kinds", range(1, 3)) if q else t("h_c08_kinds", range(1, 3), *[10 * f + 3 for f in range(1, 17)])
        n = 4 if q else 5
        r += t("h_c08_repeat", *[s * 10 + k for k in range(2, n + 1) for s in range(4 ** k)])
        r += t("h_c08_long", *[s * 100000 + n for s in range(5) for n in ((300,) if q else (300, 3000))])
        r += t("h_c08_long", 65534)
        if not q: r += t("h_c08_long", 132767, 232767, 321844, 465534)
        return r
    if prop == "C09": return t("h_c09_entry", range(0, 5 if q else 7))
    if prop == "C10":
        r = t("h_c10_const", *(range(0, 8) if q else range(0, 11))) + t("h_c10_sde", *(range(0, 7) if q else range(0, 10)))
        r += t("h_c10_const", *[post * 100000 + pre * 100 + n for post, pre, n in ((1, 1, 4), (0, 60, 4), (3, 250, 3), (300, 300, 2))])
        r += t("h_c10_const", *[post * 100000 + pre * 100 + n for pre in (4, 7, 8, 15, 16, 31, 32, 63, 64) for post in (8, 17) for n in ((2,) if q else (2, 3))], 6500053000 + (2 if q else 5))
        r += t("h_c10_const", *[8 * 100000 + p % 1000 * 100 + p // 1000 * 100000000 + 2 for k in range(7, 16) for p in ((2 ** k - 1, 2 ** k) if q else (2 ** k - 3, 2 ** k - 2, 2 ** k - 1, 2 ** k))])
        r += t("h_c10_const", *[8 * 100000 + p % 1000 * 100 + p // 1000 * 100000000 + 2 for k in (4, 5, 6, *range(7, 17)) for p in (2 ** k - 10, 2 ** k - 11) if p < 65526])
        r += t("h_c10_sde", *[(2 ** k - 2) * 100 + 2 for k in range(3, 18)])
        r += t("h_c10_sde", 7000000 + (2 if q else 4))
        r += t("h_c10_sde", *[pre * 100 + n for pre, n in ((1, 4), (60, 4), (300, 3))])
        return r
    if prop == "C11":
        r = t("h_c11_history", *[how * 10 + n for how in range(5) for n in (1, 2)])
        r += t("h_c11_history", *[a * 100 + 3 for a in ((1, 4, 5, 6) if q else range(1, 17))])
        r += t("h_c11_long", *[how * 10 + n for how in (0, 1, 3) for n in ((4, 5) if q else (4, 5, 6, 7))])
        r += t("h_c11_text", 402, 3003, 6002, 700002, *(() if q else (2572, 404, 3004))) + t("h_c11_history", 51, 52)
        r += t("h_c11_high", 201300, 2240000, 1265000) if q else t("h_c11_high", 301300, 333000, 2340000, 1365000, 265000)
        r += t("h_c11_many", 10, 300, 100300) if q else t("h_c11_many", 10, 300, 1000, 100300, 400400, 3000)
        return r
    if prop == "C12":
        r = t("h_c12_lookup", *([0, 1, 2, 3, 101, 102, 13, 23] if q else [0, 1, 2, 3, 4, 101, 102, 103, 104, 12, 13, 23, 33, 43]))
        r += t("h_c12_parsed", *((1, 2, 3) if q else (1, 2, 3, 4)))
        r += t("h_c12_names", 5, 40, 300, 33000, *(() if q else (60, 20000, 40000)))
        r += t("h_c12_large", 2, 10, 300, 20000, 65534) if q else t("h_c12_large", 1, 2, 10, 255, 256, 300, 20000, 32767, 32768, 65533, 65534)
        return r
    if prop == "C13":
        r = t("h_c13_full", *[f * 100 + 20 + g for f in (0, 1) for g in (range(0, 4) if q else range(0, 5))])
        if not q: r += t("h_c13_full", *[f * 100 + s * 10 + g for f in (0, 1, 10, 11) for s in (1, 3) for g in range(0, 5)])
        return r + t("h_c13_parsed", 0, 1, 2)
    if prop == "C14":
        r = t("h_c14_history", *[how * 10 + n for how in (0, 1, 3) for n in (0, 1, 2)], 103, *(() if q else (104, 113, 123, 3)))
        r += t("h_c14_parsed", 0, 1, 2, 3, *(() if q else (4, 5)))
        r += t("h_c14_large", 100, 300, 100300, 200300, 65534, *(() if q else (132767, 265533, 265532)))
        return r
    if prop == "C15":
        return t("h_c15_pair", *[k * 10 + n for k in range(16) for n in ((0, 1, 3) if k == 0 else (1,))], 5, 7, 9) + t("h_c15_triple", range(0, 16)) + t("h_c15_text", 3, 40, 257, 300, 600, 1000, *(() if q else (17, 64, 128, 4000, 20000)))
    if prop == "C16": return t("h_c16_insn", *(range(0, 11) if q else range(0, 16)))
    if prop == "C17":
        r = t("h_c17_table", *[n * 10 + a for n in ((1, 2, 5) if q else (1, 2, 3, 5, 9, 40)) for a in range(0, 8)])
        r += t("h_c17_table", 2000, 3001, 200002) if q else t("h_c17_table", 2000, 3001, 20002, 40003, 700003)
        r += t("h_c17_bounds", *[n * 10 + a for n in ((0, 1, 3) if q else (0, 1, 2, 3, 6)) for a in range(0, 4)])
        r += t("h_c17_count", *[n * 10 + a for n in ((0, 1, 3) if q else (0, 1, 2, 3, 6)) for a in range(0, 4)])
        r += t("h_c17_lookup", *[n * 10 + a for n in ((0, 1, 2, 4) if q else (0, 1, 2, 3, 4, 5, 6)) for a in range(0, 8)])
        r += t("h_c17_lookup", 2000, 3001, 700003) if q else t("h_c17_lookup", 2000, 3001, 10002, 40003, 700003)
        return r
    if prop == "C18":
        r = t("h_c18_tiles", 1, 2)
        r += t("h_c18_mix", *((3, 4) if q else (3, 4, 5)))
        r += t("h_c18_tables", *[h * 10 + n for h in (0, 1, 2, 3) for n in (0, 1, 3)], 3002, 4007)
        r += t("h_c18_long", 40, 300, 100300, 200100, 370000, 430000, 520000, *(() if q else (3000, 65530, 103000, 201000)))
        r += t("h_c18_far", *((4, 7, 9, 10) if q else range(4, 13)))
        r += t("h_c18_tables", 655350, *(() if q else (20009, 100001)))
        return r + t("h_c18_empty", 0)
    if prop == "C19": return t("h_c19_undefined", *(range(0, 13) if q else range(0, 20)), 4464) + t("h_c19_after", 1, 2, 3)
    if prop == "C20":
        r = attrs([FRAMES], q) + wide(range(0, 3), q) + t("h_rich", 3, 4, 12, 13) + t("h_row", 3)
        r += t("h_full", 20, 2, 11, 21, 12, 30, 3) + t("h_seq", 2, 3) if q else t("h_full", 20, 2, 11, 21, 12, 30, 40, 31, 22, 13, 4) + t("h_seq", 2, 3, 4)
        return r + big(range(0, 3)) + ([] if q else big(range(0, 3), (256, 32767, 32768, 65534)))
    if prop == "C21":
        r = attrs([ANN_DEFAULT, RVA, RIA, RVPA, RIPA], q) + wide(range(3, 8), q) + t("h_rich", 0, 1, 14) + t("h_row", 10, 11, 12, 13) + t("h_seq", *((12, 13, 22) if q else (12, 13, 22, 23)), *[w * 10 + n for w in (9, 10, 12) for n in ((2, 3) if q else (2, 3, 4))])
        return r + big((3, 4, 5, 7)) + ([] if q else big((3, 4, 5, 7), (32767, 32768, 65534)))
    if prop == "C22":
        r = attrs([RVTA, RITA], q) + wide(range(8, 12), q) + t("h_rich", 2) + t("h_row", 20, 21, 22, 23) + t("h_seq", *((32, 43, 112, 113) if q else (32, 33, 43, 45, 112, 113, 114)))
        return r + big((8, 9, 10)) + ([] if q else big((8, 9, 10), (32767, 32768)))
    if prop == "C23":
        r = attrs([BOOTSTRAP, ENCLOSING, INNER, MODULE, MAIN_CLASS, PACKAGES, SOURCE, SDE], q) + wide(range(12, 25), q) + t("h_seq", *[w * 10 + n for w in (5, 6, 7, 8) for n in ((2, 3) if q else (2, 3, 4, 5))]) + t("h_rich", 5, 6, 7) + t("h_row", 30, 31, 32, 33)
        r += t("h_attr", *[at(MODULE, n) for n in ((20, 22) if q else (28, 30))])
        return r + big(range(12, 25)) + ([] if q else big(range(12, 25), (32767, 32768)))
    if prop == "C24":
        r = attrs([CONST_VALUE, DEPRECATED, EXCEPTIONS, LINES, LOCALS, LOCAL_TYPES, PARAMS, SIGNATURE, SYNTHETIC], q) + wide(range(25, 30), q) + t("h_rich", 8, 9, 10, 11) + t("h_row", 40, 41, 42, 43)
        r += t("h_attr", at(LOCALS, 22), at(LOCAL_TYPES, 22))
        return r + big(range(25, 29)) + ([] if q else big(range(25, 29), (32767, 32768, 65534)))
    if prop == "C25":
        r = t("h_c25_name", *[l * 100 + n for l in range(4) for n in ((1, 2, 9, 20) if q else list(range(1, 40)))], *(() if not q else range(3, 40)))
        r += t("h_c25_near", *[k * 10 + e for k in range(26) for e in range(3)])
        r += t("h_c25_bytes", *[l * 100000 + n for l in range(4) for n in ((0, 1, 7, 300, 70000) if q else (0, 1, 2, 7, 255, 256, 300, 5000, 70000))])
        r += t("h_c25_large", 116800000, 316800000, *(() if q else (16800000, 216800000, 133600000)))
        r += t("h_c25_index", range(0, 4)) + t("h_c25_far", 250, 300, *(() if q else (0, 253, 254, 255, 1000, 3000)))
        return r + t("h_row", 50, 51, 52, 53)
    M = 1000000
    if prop in ("C26", "C28", "C35", "C37"):
        s = [p * M + n for p in (0, 1, 253, 254, 255, 256, 301, 330, 400, 403, 2001, 2070) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
        s += list(range(0, 10 if q else 13))
        s += [w * 10 + n for n in (2, 3) for w in range(1, 4 ** n)] + [4 * 10 + 3, 20 * 10 + 4, 301 * M + 1 * 10 + 2, 301 * M + 2 * 10 + 2, 301 * M + 12 * 10 + 2]
    if prop == "C26": return t("h_c26_type", *s)
    if prop in ("C27", "C28", "C35", "C37"):
        m = [p * M + n for p in (1, 2, 3, 4, 5, 6, 7) for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4))]
        m += list(range(0, 6 if q else 8))
        m += [p * M + n for p in (350, 353, 354, 355, 356, 400 + 254, 400 + 255, 400 + 256, 700, 700 + 254, 700 + 255, 700 + 256, 1100, 1254, 1255, 1256) for n in ((1, 2) if q else (1, 2, 3))]
        m += [p * M + w * 10 + 2 for p in (1, 2, 4, 5) for w in range(1, 16)]
        m += [p * M + n for p in (2001, 2070, 3001, 3070) for n in (1, 2, 3)]
    if prop == "C27": return t("h_c27_method", *m)
    if prop == "C28":
        r = t("h_c28_type", *s) + t("h_c28_method", *m)
        r += t("h_c28_value", *((1, 2, 3, 20) if q else (1, 2, 3, 4, 5, 8, 20, 300)))
        return r + t("h_c28_mvalue", 1, 11, 22, 31, 401, 2001, 2551, *(() if q else (32, 41)))
    if prop == "C29":
        e = "h_c29_"
        r = t(e + "raw", range(4, 13), 110, 112, 114) if q else t(e + "raw", range(4, 21), 110, 112, 114, 115, 116, 118)
        for k in range(27):
            if k == CODE: continue
            m = lens(k, q)
            if k in HEAVY: m -= 1
            r += t(e + "attr", at(k, m), at(k, 0)) + t(e + "near", *[at(k, n) for n in (range(max(0, m - 4), m + 1) if q else range(0, m + 1))]) + t(e + "nested", *[k * 100 + n for n in ((min(m, 7),) if q else range(0, min(m, 9) + 1))])
            r += t(e + "cut", *[at(k, n) for n in (range(max(0, min(m, 10) - 3), min(m, 10) + 1) if q else range(0, min(m, 12) + 1))])
        r += t(e + "attr", at(CODE, 7)) + t(e + "near", 27000, *(() if q else (27001, 27002))) + t(e + "cut", 27000, 30000, *(() if q else (27001,)))
        r += t(e + "code", 1, 102, *(() if q else (2, 3, 103))) + t(e + "counts", *[s * 100 + n for s in range(6) for n in ((7,) if q else (7, 12))])
        return r + t(e + "string", *(range(0, 7) if q else range(0, 9))) + cuts(e + "real", range(5 if q else 12))
    if prop == "C30":
        e = "h_c30_"
        r = t(e + "raw", *(range(0, 13) if q else range(0, 18)), 110, 112, 114, *(() if q else (116, 118)))
        for k in range(27):
            m = 8 if k == CODE else lens(k, q)
            if k in HEAVY: m -= 1
            r += t(e + "attr", at(k, m), at(k, 0), *(() if q else range(at(k, 0), at(k, m))))
        r += t(e + "code", 1, 102, *(() if q else (2, 3, 103))) + t(e + "switch", *[op * 10000 + rows * 100 + al * 10 + n for op in (0, 1) for al in (range(2) if q else range(4)) for rows in ((0, 2) if q else (0, 1, 2, 20)) for n in (0, 1)])
        r += t(e + "counts", *[s * 100 + n for s in range(6) for n in ((9,) if q else (9, 14))])
        r += t(e + "large", *[s * 100000 + n for s in range(10) for n in ((100, 5000) if q else (100, 5000, 30000))])
        r += t(e + "tables", *[s * 100000 + n for s in range(26) for n in ((3000,) if q else (100, 3000, 30000))])
        return r + t(e + "many", *[s * 10000 + n for s in range(8) if s != 3 for n in ((100, 3000) if q else (100, 3000, 9000))], 30100, 30250)
    if prop == "C31":
        e = "h_c31_"
        r = []
        for k in range(27):
            if k == CODE: continue
            m = min(lens(k, q), 12) - (2 if k in HEAVY else 0)
            r += t(e + "attr", *[w * 100000 + at(k, n) for w in (range(5) if not q else (0, 1 + k % 4)) for n in ((m, m - 1) if q else (m, m - 1, m - 2, 2, 0)) if n >= 0])
            r += t(e + "cut", *[at(k, n) for n in ((min(m, 8),) if q else (m, min(m, 8), 4)) if k not in HEAVY or n < 7])
        r += t(e + "twice", *((4, 7, 114, 116) if q else (4, 7, 8, 9, 10, 114, 116, 118, 120))) + t(e + "string", *[m * 100 + n for m in ((3,) if q else (1, 2, 3, 4)) for n in ((0, 2, 3) if q else range(5))])
        r += t(e + "code", *((10, 110, 211, 2) if q else (10, 11, 20, 21, 110, 111, 112, 120, 211, 311, 102))) + t(e + "pools", *[a * 10 + n for a in (0, 1, 3, 10, 13, 33) for n in ((3,) if q else (3, 4, 5))])
        return r + t(e + "desc", *[h * 1000 + w * 100 + n for h in (0, 1) for w in range(5) for n in ((1, 3, 4) if q else (1, 2, 3, 4, 5, 6))])
    if prop == "C32":
        e = "h_c32_"
        r = t(e + "sample", *[k * 10 + l for k in range(27) for l in range(4)]) + t(e + "shift", *[k * 10 + l for k in range(27) for l in ((LEVEL[k], (LEVEL[k] + 1) % 4) if q else range(4))])
        r += t(e + "pair", *[l * 100 + k for k in range(27) for l in range(4)]) + t(e + "everywhere", range(27)) + t(e + "free", *[s * 100 + l * 10 + i for s, i in ((0, 0), (1, 0), (1, 1)) for l in range(4)])
        for k in range(27):
            if k == CODE: continue
            m = lens(k, q)
            if k in HEAVY: m -= 2
            r += t(e + "around", *[at(k, n, l) for l in ((LEVEL[k],) if q else range(4)) for n in ((m, min(m, 2)) if q else range(0, m + 1))])
        return r + t(e + "code", *((0, 1) if q else (0, 1, 2)))
    if prop == "C33":
        r = t("h_c33_real", *[i * 100000 for i in range(12)])
        for i in ((0, 1, 2, 3, 4) if q else range(12)): r += t("h_c33_real", *[i * 100000 + p * 10 + 1 for p in range((SIZE[i] + 15) // 16)])
        for i in ((0, 1, 3) if q else (0, 1, 4, 3)): r += t("h_c33_real", *[i * 100000 + p * 10 + 2 for p in range((SIZE[i] + 15) // 16) if not q or (i, p) not in ((1, 11), (3, 22), (3, 23))])
        if q: r += t("h_c33_real", *[8 * 100000 + p * 10 + 1 for p in range(65, 73)])
        return r
    if prop == "C34":
        e = "h_c34_"
        r = t(e + "after", 0, 1, 2, 10, 11, *[(k + 1) * 100 + n for k in range(16) for n in (12, 21)])
        if not q: r += t(e + "after", *[(l + 1) * 10000 + (k + 1) * 100 + n for k in range(16) for l in range(16) for n in (13, 22)], *[(l + 1) * 1000000 + (k + 1) * 100 + 31 for k in range(16) for l in range(16)])
        r += t(e + "lookup", *((1, 11, 12, 21) if q else (1, 2, 11, 12, 13, 21, 22, 31)))
        r += t(e + "real", *[f * 1000 + k for f in range(12) for k in range(16)], *[f * 1000 + n * 100 for f in range(12) for n in ((1, 4) if q else range(1, 10))])
        return r + t(e + "again", range(12)) + t(e + "full", *((21, 121, 222) if q else [w * 100 + n * 10 + g for w in range(3) for n in (0, 2, 3) for g in range(0, 4)]))
    if prop == "C35":
        return t("h_c35_type", *s) + t("h_c35_method", *m) + t("h_c35_large", *[w * M + n for w in range(20) for n in ((300, 20000) if q else (300, 5000, 65000, 300000)) if (w, n) != (12, 300000)])
    if prop == "C36":
        r = t("h_c36_op", *[w * 100000 + n for w in range(4) for n in ((100, 5000) if q else (1, 2, 30, 100, 1000, 5000, 20000)) ], 65534, 132767, 365534, *(() if q else (265534, 60000, 57344, 57343, 365000)))
        r += t("h_c36_fill", *[w * 100000 + n for w in [*range(10, 15), *range(20, 37), *range(40, 45), *range(50, 87)] for n in ((2000,) if q else (2000, 9000))])
        return r + t("h_c36_fill", *[w * 100000 + n for w in range(6) for n in ((300, 6000) if q else (3, 300, 6000, 30000))], 65534, *(() if q else (532768, 265534, 565534)))
    if prop == "C37": return t("h_c37_type", *s) + t("h_c37_method", *m)
    if prop == "C38": return t("h_c38_flags", range(16)) + ([] if q else t("h_c38_flags", range(16, 32)))
    raise KeyError(prop)


REACH = {
    "C01": ["parsed", "rejected"], "C02": ["parsed", "rejected"], "C03": ["nested input parsed", "deep input rejected"],
    "C04": ["complete file parsed", "file with surplus bytes parsed", "class file cut"], "C05": ["accepted", "rejected", "not a class", "a class"],
    "C06": ["flags read", "masks"], "C07": ["accepted", "rejected"], "C08": ["pool numbered", "pool rejected"], "C09": ["constant decoded", "constant rejected"],
    "C10": ["string decoded", "string rejected"], "C11": ["new push", "repeated push", "history done"],
    "C12": ["nothing there", "string", "class name", "no name", "bad name", "item"], "C13": ["push refused", "new push", "repeated push", "full pool"],
    "C14": ["iterated"], "C15": ["equal", "different", "three equal"], "C16": ["instruction decoded"],
    "C17": ["tableswitch decoded", "lookupswitch decoded", "bounds rejected", "bounds accepted", "table too large", "count accepted", "count too large"], "C18": ["accepted", "rejected"],
    "C19": ["undefined opcode", "undefined wide opcode", "undefined array type", "undefined bytecode reported"],
    "C20": ["accepted", "rejected"], "C21": ["accepted", "rejected"], "C22": ["accepted", "rejected"], "C23": ["accepted", "rejected"], "C24": ["accepted", "rejected"],
    "C25": ["accepted", "named", "unnamed"], "C26": ["accepted", "rejected"], "C27": ["accepted", "rejected"], "C28": ["printed"],
    "C29": ["accepted", "limit", "malformed string", "not a class file", "invalid constant", "cut file", "other"], "C30": ["parsed", "rejected"],
    "C31": ["accepted", "rejected", "parsed twice", "failed twice", "string decoded", "string rejected", "pools filled", "new push", "repeated push"],
    "C32": ["accepted", "rejected"], "C33": ["accepted", "rejected"],
    "C34": ["new push", "repeated push", "push refused", "iterated", "string", "class name", "nothing there"], "C35": ["printed", "rejected"], "C37": ["fault inside", "ends too early", "too many parameters"], "C38": ["flags printed", "no flags"], "C36": ["item", "nothing there", "new push", "repeated push", "push refused", "iterated"],
}


def tasks(prop, tier):
    seen, out = set(), []
    for x in quick_and_thorough(prop, tier == "quick"):
        if x not in seen: seen.add(x); out.append(x)
    return out


if __name__ == "__main__":
    import sys
    for i in range(1, 39):
        p = "C%02d" % i
        print(p, len(tasks(p, "quick")), len(tasks(p, "thorough")))
