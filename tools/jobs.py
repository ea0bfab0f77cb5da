"""Which symbolic executions decide which property, per tier. A job is (name, harness id, parameter[, step limit])."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tpl
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = tpl.names(ROOT)
IDX = {n: i for i, n in enumerate(NAMES)}
DIFF, POS, RT, IDENT, TYPES, LOOK, MSG = 1, 2, 4, 8, 16, 32, 64
LIM = 20_000_000


def doc(asp, *names):
    return [(f"{n}/{asp}", 1, IDX[n] | asp << 16, LIM) for n in names]


def seq(rep, *names):
    return [(f"seq-{n}+{rep}", 11, IDX[n] | rep << 16, LIM) for n in names]


def release(*names):
    return [(f"release-{n}", 12, IDX[n], LIM) for n in names]


def num(w, d, form, *pos):
    p = list(pos) + [255] * (3 - len(pos))
    return (f"num-{w}.{d}-{form}-{'_'.join(map(str, pos))}", 2, w | d << 8 | form << 16 | p[0] << 24 | p[1] << 32 | p[2] << 40, LIM)


def arith(op, na, nb, kind, pa, pb, edge=0):
    return (f"arith{'+-*/%'[op]}-{na}.{nb}-{kind}-{pa}_{pb}{'e' if edge else ''}", 3, op | na << 8 | nb << 16 | kind << 24 | pa << 32 | pb << 40 | edge << 48, LIM)


def layout(t, n): return (f"layout{t}-{n}", 4, t | n << 16, LIM)
def comment(k, n): return (f"comment{k}-{n}", 5, k | n << 8, LIM)
def depth(n, pair=0, rt=0): return (f"depth{n}{'p' if pair else ''}{'r' if rt else ''}", 6, n | (pair | rt << 1) << 8, LIM)
def chain(k): return (f"chain{k}", 7, k, 200_000_000)
def wrapped(k, w=0): return (f"wrapped{k}{'w' if w else ''}", 8, k | w << 8, 200_000_000)
def types(d, l, w, three=0): return (f"types-{d}.{l}.{w}{'x3' if three else ''}", 20, d | l << 8 | w << 16 | three << 24, LIM)
def tlong(n, l=7): return (f"typeslong{n}-{l}", 20, n << 16 | l << 8 | 1 << 25, LIM)
def arr(n, k, r): return (f"arr{n}-{k}-{('values', 'text', 'plus', 'file')[r]}", 21, n | k << 8 | r << 16, LIM)
def arrlong(n, k, r): return (f"arrlong{n}-{k}-{r}", 21, n | k << 8 | (4 | r) << 16, LIM)
def write(d, rich, w, what=0): return (f"{('write', 'display')[what]}-{d}.{rich}.{w}", 22, d | rich << 8 | w << 16 | what << 24, LIM)
def wlong(k, n): return (f"long{k}-{n}", 23, k | n << 8, LIM)
def eq(d, rich, w): return (f"eq-{d}.{rich}.{w}", 24, d | rich << 8 | w << 16, LIM)
def eqline(n, k): return (f"eqline{n}.{k}", 24, n | k << 16 | 1 << 24, LIM)
def eqlong(n): return (f"eqlong{n}", 24, n << 16 | 2 << 24, 4_000_000_000)
def lookline(n, k): return (f"lookline{n}.{k}", 33, n | k << 16 | 1 << 24, LIM)
def eqint(k): return (f"eqint{k}", 25, k, LIM)
def look(d, rich, w): return (f"look-{d}.{rich}.{w}", 33, d | rich << 8 | w << 16, LIM)
def nest(n): return (f"nest{n}", 9, n, 100_000_000)
def edges(op, fr=0): return (f"edges{'+-*/%'[op]}{'f' if fr else ''}", 10, op | fr << 8, LIM)
def getters(d, rich, w): return (f"get-{d}.{rich}.{w}", 26, d | rich << 8 | w << 16, LIM)
def errors(): return ("errors", 27, 0, LIM)
def ids(n): return (f"ids{n}", 28, n, LIM)
def par(n): return (f"par{n}", 29, n, LIM)
def field(k, n, first=0, blocks=0): return (f"field{k}-{n}-{first:x}+{blocks}", 30, k | n << 8 | first << 16 | blocks << 32, LIM)
def cont(n): return (f"cont{n}", 31, n, LIM)
def macros(): return ("macros", 32, 0, LIM)
def releaseapi(d, rich, w): return (f"release-{d}.{rich}.{w}", 34, d | rich << 8 | w << 16, LIM)
def inc(s, more=0): return (f"inc{s}-{more}", 40, s | more << 8, LIM)
def incm(s, more=0): return (f"inc{s}-{more}m", 40, s | more << 8 | 1 << 32, LIM)
def io(s, mask=0, budget=0, n=0): return (f"io{s}-{mask}-{budget}-{n}", 41, s | mask << 8 | budget << 24 | n << 32, LIM)
def fdoc(asp, *names):
    return [(f"file-{n}/{asp}", 42, IDX[n] | asp << 16, LIM) for n in names]
def big(asp, *ks, file=0): return [(f"big{k}-{n}{'f' if file else ''}/{asp}", 43, k | n << 8 | file << 32 | asp << 40, 4_000_000_000) for k, n in ks]
def threads(t, each, sw, kind=0, warm=0): return (f"threads{t}x{each}-{sw}-{kind}-{warm}", 50, t | each << 8 | sw << 16 | kind << 24 | warm << 32, LIM)
def refs(t, sw): return (f"refs{t}-{sw}", 51, t | sw << 8, LIM)

def parsers(t, sw): return (f"parsers{t}-{sw}", 52, t | sw << 8, LIM)


MORE_R, MORE_W, SIZE, STAT = 1024, 2048, 4096, 8192
READS, WRITES, INCS = 7, 8 | 16 | 32 | 256 | 512, 1 | 2 | 4 | 64 | 128
IN = ["in_obj", "in_arr", "in_tup", "in_inc", "in_str"]
AFTER = ["after", "after_s", "after_b", "after_v"]
UNI = ["uni_val", "uni_top", "uni_field", "uni_num", "uni_after", "uni_str", "uni_name", "uni_obj"]
DOT = ["dot2", "dot3", "dot4", "dot5", "doti", "doti2", "doti3", "doti4", "doti5", "dotone", "dotd", "dotd3", "dotg", "dotg2", "dotv", "dotv2", "dotv3", "dotx", "dotx3", "dota", "dotb", "opdot", "many_dot", "many_idx", "many_idx2", "many_lvl"]
FILED = ["in_obj", "in_arr", "in_str", "dup", "glob", "resv", "kw2", "opz", "divz", "doti", "dotd", "after", "str3a", "many_gdup", "brmix", "parq", "arr2"]
BR = ["brobj", "brarr", "brtup", "brmix", "inc", "inc2"]
MANY = [n for n in NAMES if n.startswith("many_")]
# too long for every check; each is in a thorough one, and some are in a quick one
HEAVY = ["num7", "num6", "num5", "numz", "defs5", "id5", "struni3", "lay6", "lay2", "lay3", "layobj", "ops3", "ops4", "opin", "tokv4", "tok4", "val4", "rt3", "rtlong", "opbig3", "opbigd", "rtfrac2", "pos4", "defs4", "id4", "kw3", "uni_val"]
LIGHT = [n for n in NAMES if n not in HEAVY]
CHAINS = list(range(16))
OPS = range(5)
# every block of 256 characters, those whose tables of letters are the most work apart
BLOCKS = [(0x34, 0x6c), (0xa0, 56), (0xd8, 40), (0x120, 64), (0x160, 112), (0x1f0, 16), (0x200, 255), (0x2ff, 255), (0x3fe, 255)] + [(b, min(255, 0x1100 - b)) for b in range(0x4fd, 0x1100, 255)]
HARDBLOCKS = [(8, 10), (0x12, 1), (0x13, 1), (0x14, 16), (0x24, 16), (0x100, 16), (0x110, 16), (0x1d0, 16), (0x1e0, 8), (0x1e8, 8)]
# long documents: (what is long, how long)
LONG_TEXT = [(0, 255), (0, 256), (0, 65535), (1, 255), (1, 65535), (2, 65536), (3, 255), (3, 256), (3, 65536), (4, 4096), (5, 255), (5, 65535), (6, 257)]
LONG_SEQ = [(25, 20), (25, 300), (7, 255), (7, 300), (8, 256), (9, 17), (9, 65), (9, 130), (21, 257)]
LONG_FIELDS = [(23, 20), (23, 70), (24, 17), (24, 260), (10, 256), (10, 300), (11, 257), (12, 70), (12, 260)]
LONG_OPS = [(22, 4), (22, 9), (22, 33), (22, 130), (13, 300), (16, 257), (17, 257), (18, 70), (19, 300)]
LONG_NUM = [(14, 260), (14, 1000), (15, 260), (15, 700)]
LONG = LONG_TEXT + LONG_SEQ + LONG_FIELDS + LONG_OPS + LONG_NUM + [(20, 70), (20, 257)]
INC15 = [inc(15, k) for k in range(11)]
NEST = [1, 2, 5, 61, 62, 63, 64, 65, 66, 80]

JOBS = {
    "C01": dict(
        quick=doc(0, *LIGHT) + [io(0, 0, 0, 3), io(4, 0, 0, 2)] + [chain(k) for k in CHAINS] + [depth(63), depth(64)] + big(0, *LONG),
        known=[wrapped(1), wrapped(2)],
        thorough=doc(0, *[n for n in HEAVY if n not in ("num7", "defs5")]) + [io(0, 0, 0, 4)] + [edges(o, 1) for o in OPS] + [inc(11), inc(7, 3), inc(8, 0), inc(8, 5)]),
    "C02": dict(
        quick=doc(RT, *[n for n in LIGHT if n != "num4"], "rt3", "rtlong", "rtfrac2") + [depth(5, 1, 1), depth(63, 0, 1), edges(3, 1)] + big(RT, *LONG),
        thorough=doc(RT, *[n for n in HEAVY if n not in ("num7", "defs5")], "num4")),
    "C03": dict(
        quick=[write(1, 0, 1), write(1, 2, 1), write(1, 0, 2, 1), write(2, 1, 1, 1), write(0, 2, 0, 1)] + [wlong(0, 20), wlong(1, 100), wlong(2, 70), wlong(3, 63), wlong(4, 40), wlong(5, 40), wlong(6, 0), wlong(6, 27), wlong(7, 62), wlong(7, 63), wlong(7, 70), wlong(7, 140), wlong(9, 7)] + big(0, (3, 8191), (4, 4096), (3, 65536), (7, 300), (10, 300), file=1),
        thorough=[wlong(5, 130), wlong(6, 8), wlong(6, 16), wlong(6, 36), write(2, 1, 1), write(1, 1, 2), write(1, 2, 2, 1), wlong(0, 200), wlong(1, 700), wlong(2, 300), wlong(4, 60)]),
    "C04": dict(
        quick=[arr(3, 10, 0), arr(3, 10, 1), arr(3, 10, 2), arr(2, 21, 0), arr(2, 21, 1), arr(2, 21, 2), arr(2, 21, 3), arrlong(17, 11, 0), arrlong(70, 6, 0), arrlong(70, 6, 1), arrlong(70, 6, 2)] + doc(DIFF | TYPES | LOOK, "arr2", "arr3", "arrtup", "arrplus3", "arrplus", "arrdeep", "many_arr", "many_arr2", "strarr", "numarr", "opany", "opcat", "id3") + [inc(19)] + big(DIFF | TYPES | LOOK, *LONG_SEQ, (17, 257)),
        thorough=[arr(3, 21, 0), arr(3, 21, 1), arr(3, 21, 2), arr(3, 21, 3), arr(4, 9, 0), arr(4, 9, 2)] + doc(DIFF | TYPES | LOOK, "arr4", "id4", "tokv4", "val4", "tok4")),
    "C05": dict(
        quick=[types(1, 7, 2), types(2, 2, 1), types(1, 3, 1, 1), types(1, 7, 3), types(2, 3, 1), types(2, 1, 2), types(1, 3, 2, 1), types(3, 2, 1), tlong(5), tlong(6), tlong(9), tlong(17, 3), tlong(33, 3), tlong(70, 3)],
        thorough=[types(2, 2, 2), types(2, 7, 1), types(3, 3, 1), types(4, 2, 1), types(1, 7, 1, 1), types(2, 2, 1, 1), types(1, 5, 4), tlong(129, 3)]),
    "C06": dict(
        quick=doc(DIFF, "ops3", "ops5", "opf", "opf2", "sign", "signf", "opv", "opv3", "opsv", "opz", "opany", "opsp", "opcat", "opdot", "divz", "posexp", "opbig", "opbig3", "opbigd", "opbigm", "opstr", "oplong", "oplong2", "rtfrac", "rtfrac2")
        + [edges(o) for o in OPS] + [edges(o, 1) for o in OPS]
        + [arith(o, 11, 5, k, 1, 2) for o in OPS for k in ((0, 12) if o == 4 else (0, 5, 10))] + [arith(0, 19, 1, 0, 18, 0, 1), arith(1, 19, 1, 4, 18, 0, 1), arith(2, 19, 1, 0, 18, 0, 1)] + big(DIFF, *LONG_OPS),
        thorough=doc(DIFF, "ops4", "opin") + [arith(o, 20, 18, k, 4, 9) for o in OPS for k in range(0, 16, 5)] + [arith(o, 31, 19, 0, 5, 3, 1) for o in OPS]),
    "C07": dict(
        quick=doc(DIFF, "num4", "num5", "numarr", "signf", "uni_num") + [num(20, 0, 0, 0, 19), num(12, 0, 12, 3, 7), num(3, 3, 1, 0, 2, 5), num(0, 6, 2, 0, 3, 5), num(8, 8, 5, 7, 8), num(9, 0, 1, 1, 8), num(19, 0, 4, 18), num(2, 20, 1, 1, 21),
                                                                         num(39, 0, 0, 38), num(19, 0, 0, 0, 18), num(10, 0, 4, 0, 9), num(0, 19, 1, 0, 18), num(0, 20, 6, 19), num(18, 2, 9, 17, 18), num(5, 0, 2, 0, 4), num(1, 9, 5, 0, 9),
            num(1, 60, 1, 60), num(1, 60, 1, 40), num(60, 0, 0, 1), num(1, 39, 1, 38, 39), num(120, 0, 0, 119), num(1, 120, 5, 120)] + big(DIFF, *LONG_NUM),
        thorough=doc(DIFF, "num6", "num7", "numz") + [num(40, 0, 0, 0, 20, 39), num(20, 20, 1, 1, 19, 39), num(0, 30, 1, 0, 29), num(60, 0, 8, 30), num(120, 0, 0, 60), num(0, 60, 1, 59)]),
    "C08": dict(
        quick=doc(DIFF, "str4", "stru", "str3a", "stresc", "strarr", "in_str", "uni_str", "struni", "rtlong") + doc(DIFF | RT, "str3a") + [inc(8, 3), inc(8, 6)] + big(DIFF | RT, (3, 255), (3, 256), (3, 8191), (3, 65536), (4, 4096)),
        thorough=doc(DIFF, "str5", "str6", "struni3")),
    "C09": dict(
        quick=doc(DIFF, "dup", "scope", "glob", "globv", "globrec", "globrec2", "name", "fieldg", "uni_name", "defs3", "defs4", "resv", *MANY, "parq", "pare", "dotg", "dotg2", "cases", "casesdup") + [inc(5)] + big(DIFF, *LONG_FIELDS, (5, 65535), (6, 257)),
        thorough=doc(DIFF, "defs5", "tok4", "tokv4")),
    "C10": dict(
        quick=[par(1), par(2), par(3), lookline(3, 6), look(1, 1, 1), look(1, 2, 1), look(0, 2, 2), wlong(8, 3), wlong(8, 70)] + doc(DIFF | IDENT | LOOK, "par", "partop", "partop2", "parsc", "parq", "parq2", "pare", "many_par", "defs3", "id3", "rtpar2", "cases") + big(DIFF | IDENT | LOOK, (12, 70), (12, 260), (23, 20), (23, 70), (24, 17), (24, 70)),
        thorough=[wlong(8, 260), par(4), look(1, 0, 1), look(2, 1, 1)] + doc(DIFF | IDENT | LOOK, "defs4", "id4")),
    "C11": dict(
        quick=doc(DIFF, *DOT, "parsc", "parq") + [chain(4), chain(5)] + big(DIFF, *LONG_SEQ, (12, 70)),
        thorough=doc(DIFF, "tokv4", "id4", "kw3")),
    "C12": dict(
        quick=INC15 + [inc(19), inc(16), inc(16, 1), inc(21), inc(22), inc(23, 65536), inc(23, 70000), inc(24), inc(25), inc(26, 40), inc(26, 700), inc(0), inc(1), inc(3), inc(6), inc(7, 2), inc(8, 0), inc(8, 1), inc(8, 2), inc(8, 3), inc(8, 4), inc(8, 6), inc(9, 3), inc(9, 5), inc(9, 16), inc(9, 17), inc(9, 33)] + doc(DIFF, "inc2", "inc") + [inc(18, 20), inc(18, 70), io(2, 128, 2, 0), io(2, STAT | 128, 2, 0)],
        thorough=[inc(7, 3), inc(8, 5), inc(11)] + doc(DIFF, "inctok")),
    "C13": dict(quick=[inc(16), inc(16, 1), inc(1), inc(2), inc(2, 1), inc(3), inc(10, 2), inc(10, 5), inc(10, 12), inc(11), inc(18, 20), inc(18, 70), inc(18, 130), inc(21)], thorough=[inc(11, 1), inc(10, 20)]),
    "C14": dict(
        quick=big(0, (0, 65535), (3, 8191), (4, 4096), (3, 65536), file=1) + [io(2, STAT | 128, 2, 0), io(0, READS | 64, 2, 1), io(0, READS | 64, 2, 2), io(0, READS | 64, 3, 3), io(0, 1 | 2, 3, 1), io(1, WRITES, 2, 1), io(1, WRITES, 3, 3), io(2, INCS, 1, 0), io(2, INCS, 1, 1), io(2, INCS, 2, 0), io(3), io(4, 0, 0, 3), io(0, 0, 0, 3), inc(9, 3), inc(9, 17), inc(8, 1), inc(8, 4), io(0, MORE_R, 3, 1), io(0, MORE_R | 2, 4, 0), io(0, SIZE | STAT, 1, 2), io(0, SIZE | MORE_R, 3, 0), io(2, SIZE | STAT | MORE_R, 2, 0), io(2, SIZE | STAT | MORE_R, 2, 1), io(1, MORE_W, 2, 1), io(1, MORE_W | SIZE | STAT, 3, 2), inc(8, 1), inc(8, 3), inc(8, 4), inc(8, 6), inc(23, 65536), inc(23, 70000)],
        thorough=[io(2, INCS, 2, 1), io(2, INCS, 3, 1), io(2, INCS | SIZE | STAT | MORE_R, 2, 1), io(0, READS | 64 | MORE_R | SIZE | STAT, 3, 2), io(1, WRITES | MORE_W, 3, 3), io(1, WRITES, 4, 3), io(0, READS | 64, 4, 3), io(0, 0, 0, 4), inc(8, 0), inc(8, 5)]),
    "C15": dict(
        quick=doc(POS, *[n for n in LIGHT if n != "num4"], "pos4") + INC15 + [inc(4, 0), inc(4, 1), inc(4, 2), inc(4, 3), inc(2), inc(10, 3), nest(3), nest(62), nest(64)] + big(POS, *LONG) + fdoc(POS, *FILED),
        thorough=doc(POS, *[n for n in HEAVY if n not in ("num7", "defs5", "num6", "numz")], "num4")),
    "C16": dict(
        quick=doc(DIFF, "lay", "layw", "lay3", "layobj") + [layout(0, 2), layout(1, 2), layout(2, 1), layout(3, 1), layout(2, 2), layout(4, 1), layout(5, 1), layout(4, 2), comment(0, 4), comment(1, 4), inc(15, 9)] + big(DIFF | POS, (0, 65535), (1, 65535), (2, 65536), (20, 70)),
        thorough=doc(DIFF, "lay6", "lay2") + [layout(3, 2), layout(5, 2), layout(0, 4), layout(1, 4), layout(4, 3), comment(0, 8), comment(1, 8)]),
    "C17": dict(quick=[eq(1, 0, 1), eq(0, 2, 0), eqint(0), eqint(1), eq(1, 1, 1), eq(1, 2, 1), eq(0, 1, 2), eqline(2, 6), eqline(3, 3), wlong(8, 70), eqlong(3), eqlong(20), eqlong(70)], thorough=[eqlong(260), eq(1, 1, 2), eq(2, 1, 1), eqline(3, 4)]),
    "C18": dict(
        quick=[ids(2), ids(3), wlong(8, 70)] + doc(DIFF | IDENT, "id3", "id4", "par", "partop", "parsc", "parq", "pare", "dotg", "globv", "opcat", "many_par", "defs3") + [inc(1), inc(6), refs(1, 0), inc(16), inc(18, 20), inc(18, 70)] + big(DIFF | IDENT, *LONG_SEQ, *LONG_FIELDS),
        thorough=[ids(4)] + doc(DIFF | IDENT, "id5", "defs4")),
    "C19": dict(
        quick=[field(10, 5), field(10, 70), field(0, 2), field(0, 3), field(1, 1), field(1, 2), field(2, 1), field(3, 1), field(6, 0), field(7, 0), field(7, 1), field(8, 0), field(9, 0), field(4, 0, 0, 8), field(5, 0, 0, 8), field(4, 0, 0xe00, 2)] + [field(4, 0, *b) for b in BLOCKS] + doc(DIFF, "field", "uni_field", "resv", "resv2", "uni_top", "many_field", "fieldg", "name"),
        thorough=[field(0, 4), field(4, 1, 8, 8), field(5, 0, 0xe00, 2)] + [field(4, 0, *b) for b in HARDBLOCKS] + [field(5, 0, *b) for b in BLOCKS + HARDBLOCKS]),
    "C20": dict(quick=[getters(1, 0, 1), getters(0, 2, 0), getters(1, 2, 1), look(1, 1, 1), look(1, 2, 1), look(0, 2, 2), errors()] + big(DIFF | LOOK, (23, 20), (24, 70)), thorough=[getters(1, 2, 2), getters(2, 1, 1), look(1, 0, 1)]),
    "C21": dict(
        quick=[depth(n) for n in (1, 3, 61, 62, 63, 64, 65, 80)] + [depth(5, 1), depth(62, 1), depth(63, 1), depth(64, 1)] + [nest(n) for n in NEST] + [inc(10, 5), inc(17)] + [chain(k) for k in CHAINS] + big(0, *LONG_OPS, (12, 260)),
        known=[wrapped(1), wrapped(2)],
        thorough=[depth(n) for n in (2, 4, 8, 30, 60, 66, 67, 127, 128, 129, 200)] + [depth(n, 1) for n in (2, 3, 61, 65)] + [nest(n) for n in (3, 4, 30, 60, 67, 100, 130)] + [inc(10, 12)]),
    "C22": dict(
        quick=doc(DIFF, *[n for n in LIGHT if n != "num4"]) + INC15 + big(DIFF, *LONG),
        thorough=doc(DIFF, *[n for n in HEAVY if n not in ("num7", "defs5", "num6", "numz")])),
    "C23": dict(quick=[cont(0), cont(1), cont(2), cont(3), cont(4), cont(5), macros(), look(1, 1, 1), look(1, 2, 1), look(0, 2, 2)] + doc(DIFF | LOOK, "arrdeep", "arr2", "dup", "parq", "pare", "defs3", "tokin3", "many_idx2", "many_arr", "many_dot", "id3") + big(DIFF | LOOK, (7, 255), (7, 300), (8, 256), (10, 256), (23, 20), (24, 70)),
                thorough=[look(1, 0, 1), look(2, 1, 1)] + doc(DIFF | LOOK, "defs4", "id4", "arr4")),
    "C24": dict(quick=[threads(2, 1, 4), threads(2, 2, 3, 0), threads(2, 1, 4, 2, 1), threads(2, 2, 4, 3, 1), threads(3, 1, 2), threads(2, 2, 6, 1), threads(2, 2, 6, 2), threads(4, 1, 3), threads(2, 70, 2), threads(2, 150, 2), threads(3, 70, 2), refs(2, 2), refs(2, 4), refs(3, 2)],
                thorough=[threads(3, 2, 3, 0), threads(2, 3, 4, 3, 1), threads(3, 2, 4, 3, 1), threads(2, 3, 6, 0), threads(3, 100, 2), threads(2, 40, 3)]),
    "C25": dict(quick=doc(MSG, *[n for n in LIGHT if n != "num4"], "pos4") + [incm(0), incm(1), incm(2), incm(3), incm(4), incm(4, 1), incm(4, 2), incm(4, 3), incm(5), incm(6), incm(7, 2), incm(10, 3), errors()] + [incm(15, k) for k in range(11)] + [incm(17), io(2, 128, 2, 0)] + big(MSG, *LONG) + fdoc(MSG, *FILED),
                thorough=doc(MSG, *[n for n in HEAVY if n not in ("num7", "defs5", "num6", "numz")]) + [incm(11), incm(7, 3)]),
    "C26": dict(quick=seq(1, "pos1") + seq(0, "par", "brmix", "dup", "scope", "glob", "globrec", "globv", "kw2", "opz", "stresc", "dot2", "dotd", "many_deep", "many_gdup", "val1", "top1", "posdeep") + [inc(20, 80), inc(25), inc(12), inc(12, 1), inc(13), inc(13, 1), parsers(2, 2), parsers(2, 3), parsers(3, 1)],
                thorough=seq(1, "pos2") + seq(0, "pare", "str4", "arr2", "arrtup", "lay", "inc", "val2", "rt2", "defs3", "id3", "tok3", "val3", "dotd3", "parq", "opv", "brobj") + [inc(13, 2), parsers(3, 2), parsers(4, 1)]),
    "C27": dict(quick=release(*[n for n in LIGHT if n not in ("num4", "lay", "str6", "rtpar2", "arrplus", "tokv3", "dotd3", "opv3")]) + [releaseapi(1, 0, 1), releaseapi(1, 1, 1), inc(14), refs(2, 2)],
                thorough=release(*[n for n in HEAVY if n not in ("num7", "defs5", "num6", "numz", "struni3", "id5")], "lay", "str6", "rtpar2", "arrplus", "tokv3", "dotd3", "opv3") + [inc(14, 1), releaseapi(0, 2, 2), releaseapi(2, 1, 1)]),
}


def jobs(prop, tier):
    d = JOBS[prop]
    seen, out = set(), []
    for j in d["quick"] + (d.get("thorough", []) if tier == "thorough" else []):
        if j[0] not in seen:
            seen.add(j[0])
            out.append(j)
    return out, d.get("known", [])
