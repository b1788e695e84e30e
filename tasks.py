"""What each check runs: harness entries, parameters (bounds) and time limits."""
import itertools

SP, DP, MP = 32, 64, 0
MIN, MAX = -2**63, 2**63 - 1
COMMON_ASSUMPTIONS = [
    "the library is compiled for x86-64 with OSL_GMP_IS_HERE, assertions of the library on (no NDEBUG)",
    "malloc and friends succeed (running out of memory is outside the claims)",
    "C library and GMP functions behave as their models in models/libc.c, models/gmp.c and engine/exec.cpp say; GMP values stay below 2^126",
    "a counterexample is reported only when a native run of the same harness and inputs, under AddressSanitizer or valgrind, shows it too",
]
PROPS = {}
FI, FS, FN, FO = 1, 2, 4, 8     # which kinds of fields a check varies: integers, texts, list lengths, optional parts


def cuts(end, step):
    return [dict([("from", a), ("to", a + step)]) for a in range(0, end, step)]


def with_(gs, cs):
    return [dict(g, **c) for g in gs for c in cs]


def grid(**kw):
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[x if isinstance(x, (list, tuple, range)) else [x] for x in kw.values()])]


def T(harness, entry, quick=None, deep=None, time=40, dtime=240, reach=(), **kw):
    d = dict(harness=harness, entry=entry, quick=quick if quick is not None else [{}], deep=deep, time=time, dtime=dtime, reach=list(reach))
    d.update(kw)
    return d


def warmed(points):
    """Half of the points run after one or two other uses of the same operations, on fixed inputs, in the same process."""
    if len(points) == 1:
        return [points[0], dict(points[0], warm=1)]
    return [p if i % 2 == 0 or "warm" in p else dict(p, warm=1 + i // 2 % 2) for i, p in enumerate(points)]


def prop(pid, bounds, tasks, assumptions=(), level="model_checking"):
    PROPS[pid] = dict(bounds=bounds, tasks=tasks, assumptions=list(assumptions), level=level)


ARITH = (
    grid(op=[0, 1], prec=[SP, DP, MP], alias=[0, 1, 2, 3]) + grid(op=[3, 5, 6, 7, 8], prec=[SP, DP, MP], alias=[0, 1])
    + grid(op=[0, 1], prec=MP, alias=[0, 2], big=1) + grid(op=[3, 5, 6, 7, 8], prec=MP, alias=0, big=1)
    + grid(op=4, prec=[SP, DP, MP], alias=[0, 1]) + grid(op=2, prec=[SP, DP, MP], alias=[0, 1, 2])
)
prop("P07", "both operands range over all 64-bit integers (multiple precision: also values of the form v*2^40+12345), the small operand over all of int; every aliasing of the result with the operands",
     [T("arith", "h_arith", ARITH, reach=["exact"], ub=True)])

W = 2**62
prop("P08", "division: dividend and divisor over all 64-bit integers for every operation and aliasing (multiple precision holding 64-bit values); gcd and lcm: both operands in [-B,B] with B=12 and 6 (thorough 60 and 20), or multiples by [-4,4] ([-6,6]) of 2^40 (gcd: 2^60), and the extreme values of the type",
     [T("arith", "h_div", grid(op=[0, 1, 2, 4, 5], prec=[SP, DP, MP], alias=[0, 1, 2]) + grid(op=3, prec=[SP, DP, MP], alias=[0, 1, 2, 3, 4]), reach=["exact"], ub=True),
      T("arith", "h_gcd", grid(prec=[SP, DP, MP], alias=[0, 1, 2], B=12) + grid(prec=[SP, DP, MP], lcm=1, alias=[0, 1, 2], B=6) + grid(prec=[SP, DP, MP], lcm=1, S=1 << 40, B=4) + grid(prec=[SP, DP, MP], S=[1 << 40, 1 << 60], B=4), grid(prec=[SP, DP, MP], alias=[0, 1, 2], B=60) + grid(prec=[SP, DP, MP], lcm=[0, 1], S=[1 << 40, 1 << 50], B=6) + grid(prec=[SP, DP, MP], lcm=1, alias=[0, 1, 2], B=20), reach=["gcd"], ub=True),
      T("arith", "h_gcd_edge", grid(prec=[SP, DP, MP]), reach=["edge"], ub=True)])
prop("P09", "every value of 64 bits (multiple precision: also v*2^40+12345), every int; text of at most 2 or 3 characters for the refusals",
     [T("arith", "h_cmp", grid(prec=[SP, DP, MP]) + grid(prec=MP, big=1), reach=["cmp"]),
      T("arith", "h_set", grid(prec=[SP, DP, MP]), reach=["set"]),
      T("arith", "h_get", grid(prec=[SP, DP, MP], which=[0, 1, 2]) + grid(prec=MP, big=1, which=[0, 1, 2]), reach=["fits"]),
      T("arith", "h_prec", [g for g in grid(**{"from": [SP, DP, MP], "to": [SP, DP, MP]})] + grid(**{"from": MP, "to": [SP, DP, MP], "big": 1}), reach=["converted"]),
      T("arith", "h_text", grid(**{"from": [SP, DP, MP], "to": [SP, DP, MP], "fmt": [0, 1]}) + grid(**{"from": MP, "to": [SP, DP, MP], "big": 1}) + grid(**{"from": [SP, DP, MP], "to": DP, "file": 1}), reach=["read"]),
      T("arith", "h_text_bad", grid(to=[SP, DP, MP], n=[0, 1, 2]), grid(to=[SP, DP, MP], n=[0, 1, 2, 3])),
      T("arith", "h_size", grid(prec=[SP, DP, MP]) + grid(prec=MP, big=1), reach=["size2"]),
      T("arith", "h_size10", grid(prec=[SP, DP, MP]) + grid(prec=[SP, DP, MP], near=[1, 2, 3, 9, 18]), reach=["size10"])])
A3 = [SP, DP, MP]
NOMUL = [0, 1, 2, 4, 5, 6, 7, 8, 9, 10]
prop("P10", "relations of up to 4 rows by 6 columns (edited part) followed by another part, coefficients any 64-bit value (multiple precision: also v*2^40+12345), positions any int; sequences of up to 3 (thorough 4) edits; edited parts of 9 rows or 9 columns; both operands the same object",
     [T("edit", "h_edit", grid(op=range(10), prec=A3, rows=2, cols=3, n=1) + grid(op=[3, 5, 9], same=1, prec=A3, rows=2, cols=3) + grid(op=[3, 5, 9], same=1, prec=MP, rows=3, cols=1) + grid(op=range(10), prec=SP, rows=4, cols=6, n=3) + grid(op=[0, 1, 2, 3, 9], prec=A3, rows=0, cols=3, n=1, next=0) + grid(op=range(10), prec=MP, big=1, rows=3, cols=2, n=2) + grid(op=range(10), prec=SP, rows=1, cols=8, n=1, twice=1) + grid(op=[0, 1, 2, 3, 8, 9], prec=A3, rows=2, cols=1, n=1) + grid(op=[1, 9], prec=A3, rows=1, cols=0, n=2, next=0) + grid(op=range(10), prec=MP, rows=9, cols=2, n=3) + grid(op=range(10), prec=DP, rows=2, cols=9, n=1),
        grid(op=range(10), prec=A3, rows=[1, 2, 3, 5], cols=[1, 3, 7], n=[1, 2]) + grid(op=range(10), prec=MP, big=1, rows=3, cols=4, n=[0, 1, 2, 3])),
      T("edit", "h_edit_bad", grid(op=[2, 3, 4, 5, 9], prec=A3)),
      T("edit", "h_concat", grid(prec=A3, n=[0, 1, 3], vec=[0, 1], next=[0, 1], null=[0, 1, 2]) + grid(prec=A3, same=1, next=[0, 1]) + grid(prec=SP, bad=[-1, 1], vec=[0, 1])),
      T("edit", "h_edit_seq", grid(prec=A3, steps=2) + grid(prec=SP, steps=3), grid(prec=A3, steps=3) + grid(prec=SP, steps=4))])
prop("P11", "vectors of up to 4 (thorough 8) elements and rows of relations of that width, elements any 64-bit value (multiple precision: also v*2^40+12345), the scalar any int",
     [T("edit", "h_vector", grid(op=NOMUL, prec=A3, n=3) + grid(op=[0, 1, 6], same=1, prec=A3, n=3) + grid(op=NOMUL, prec=MP, big=1, n=3) + grid(op=NOMUL, prec=SP, n=2) + grid(op=[2, 4, 5, 6, 7, 10], prec=SP, n=5) + grid(op=3, prec=A3, n=[1, 2]) + grid(op=3, prec=A3, n=4, fix=1) + grid(op=3, prec=MP, big=1, n=3, fix=1),
        grid(op=NOMUL, prec=A3, n=[2, 5]) + grid(op=[2, 4, 5, 6, 7, 10], prec=A3, n=8) + grid(op=NOMUL, prec=MP, big=1, n=4) + grid(op=3, prec=A3, n=3) + grid(op=3, prec=A3, n=8, fix=1), reach=["vector"]),
      T("edit", "h_vector_bad", grid(op=[0, 1, 2, 4, 5, 6, 8, 9], prec=A3))])
prop("P12", "unions of up to 3 parts of different shapes, lists of up to 4 elements (absent elements included), sequences of up to 3 (thorough 4) list operations; coefficients any 64-bit value, types and requested counts any int; unions and lists of 9; both operands the same object",
     [T("shape", "h_union", grid(prec=A3) + grid(prec=A3, same=1) + grid(prec=MP, many=9), reach=["union"]),
      T("shape", "h_nclone", grid(prec=A3, rows=[0, 1]) + grid(prec=DP, rows=[0, 1], many=9)),
      T("shape", "h_remove_part", grid(prec=A3) + grid(prec=MP, many=9)),
      T("shape", "h_list_seq", grid(prec=A3, steps=2, start=[0, 2]) + grid(prec=SP, steps=3, start=[0, 1, 2]) + grid(prec=SP, steps=2, start=[1, 3], nulls=1) + grid(prec=SP, steps=2, start=[1, 2], norows=[1, 2]) + grid(prec=SP, steps=1, start=9), grid(prec=A3, steps=3, start=[0, 2]) + grid(prec=SP, steps=4, start=1) + grid(prec=A3, steps=3, start=[1, 2], nulls=1)),
      T("shape", "h_list_filter", grid(prec=A3, n=3) + grid(prec=SP, n=3, norows=[1, 2]) + grid(prec=SP, n=[0, 4]) + grid(prec=SP, n=9, nulls=0, last=1))])
prop("P14", "unions of up to 3 parts with 0..2 outputs, extended to at most 4; scops of up to 3 statements with scatterings of 0..2 parts and 0..2 outputs; coefficients any 64-bit value; unions of 9 parts, scops of 9 statements, extension to 9 outputs",
     [T("shape", "h_extend", grid(prec=A3, parts=[0, 1, 2]) + grid(prec=A3, parts=2, mixed=1) + grid(prec=SP, parts=2, rest=3) + grid(prec=SP, parts=3) + grid(prec=SP, parts=9, last=1) + grid(prec=MP, parts=1, dmax=9), grid(prec=A3, parts=[2, 3], mixed=[0, 1], rest=[0, 1, 4])),
      T("shape", "h_normalize", grid(prec=A3, n=[0, 2]) + grid(prec=SP, n=3) + grid(prec=SP, n=9, last=1, maxout=3), grid(prec=A3, n=3, maxout=4))])
prop("P15", "relations of up to 2 (thorough 3) parts of 0 to 2 rows, types any int, dimension counts any of -1..30 (thorough -1..100000), lists of up to 2 accesses, scops and lists of 2 scops of up to 2 statements of which one at a time has arbitrary contents; access matrices with one row naming the array",
     [T("integ", "h_relation_check", grid(acc=[0, 1], rows=[0, 1, 2], parts=1, dmax=30) + grid(prec=[DP, MP], acc=[0, 1], dmax=30) + grid(acc=[0, 1], parts=2, rows=1, dcols=[0, 1], dmax=30) + grid(parts=0),
        grid(acc=[0, 1], rows=[1, 2], prec=A3, parts=[1, 2], dcols=[0, 1]) + grid(acc=[0, 1], rows=1, parts=3, dcols=1, dmax=30)),
      T("integ", "h_list_check", grid(n=[0, 1, 2], dmax=30), grid(n=[0, 1, 2, 3])),
      T("integ", "h_statement_check", grid(n=1, scop=[0, 1], body=[0, 1, 2], dmax=30) + grid(n=1, scop=[4, 9], dmax=30) + grid(n=2, scop=[0, 1], focus=[0, 1], dmax=30) + grid(n=2, scop=1, focus=[0, 1], ctx=0, ccols=2, dmax=30) + grid(n=1, dom=1, scat=0, acc=[0, 2], dmax=30) + grid(n=1, dom=0, scat=0, acc=0) + grid(n=2, focus=1, cols=4, dmax=30) + grid(n=1, prec=[DP, MP], dmax=30) + grid(n=1, scop=1, crows=[0, 2], dmax=30) + grid(n=1, scop=2, ctx=1, dmax=30, acc=0, body=0) + grid(n=1, scop=1, ctx=2, dmax=30) + grid(n=1, scop=[0, 1], drows=[0, 2], srows=0, acc=[0, 1], body=0, dmax=30) + grid(n=1, dparts=2, acc=0, body=0, dmax=30) + grid(n=1, sparts=2, srows=2, acc=0, body=0, dmax=30) + grid(n=1, arows=2, scat=0, body=0, dmax=30),
        grid(n=[1, 3], scop=[0, 1], focus=[0, 2], acc=[1, 2], ctx=[0, 1], ccols=[2, 3]))])
prop("P22", "unions of up to 2 (thorough 3) parts of up to 2 rows, lists of 3 accesses, up to 2 statements and 2 scops of which three members at a time have arbitrary counts; coefficients any 64-bit value; relations of 9 rows or 11 columns",
     [T("shape", "h_array_id", grid(prec=A3) + grid(prec=A3, rows=1) + grid(prec=SP, rows=[0, 3], cols=[3, 5]) + grid(parts=2, pick=1, prec=A3) + grid(parts=0) + grid(prec=SP, rows=1, cols=11) + grid(prec=SP, rows=9, cols=3) + grid(prec=A3, used=1) + grid(parts=2, pick=1, prec=A3, used=1), grid(prec=A3, parts=3, rows=1, pick=1) + grid(prec=A3, rows=[1, 2, 3, 4], cols=[2, 3, 4, 6])),
      T("shape", "h_attributes", grid(which=range(5), parts=2) + grid(which=range(4), parts=[0, 1, 3], prec=SP) + grid(which=range(5), parts=1, rowset=[0, 2]) + grid(which=range(5), parts=2, rowset=[1, 10, 20, 12]), grid(which=range(5), parts=[1, 2, 3], prec=A3) + grid(which=range(5), parts=2, rowset=[0, 2, 21, 22], prec=A3) + grid(which=range(5), parts=3, rowset=[101, 110, 12, 120])),
      T("shape", "h_list_filter", grid(prec=SP, n=2)),
      T("integ", "h_scop_attributes", grid(level=0, which=range(5)) + grid(level=1, which=range(5), at=[0, 3]) + grid(level=2, which=range(5), at=[0, 3, 6, 9, 11]) + grid(level=[0, 1, 2], which=range(5), absent=1, at=[0, 3]), grid(level=[0, 1, 2], which=range(5), absent=1, at=[1, 5, 8, 10]) + grid(level=[1, 2], which=range(5), at=range(0, 13), span=4) + grid(level=2, which=range(5), at=[0, 4, 8, 12, 16], span=4, stmts=3))])
PROPS["P09"]["tasks"].append(T("shape", "h_rel_prec", grid(**{"from": A3, "to": A3}) + grid(**{"from": A3, "to": A3, "same": 1, "swap": [0, 1]}) + grid(**{"from": MP, "to": A3, "big": 1}) + grid(**{"from": MP, "to": A3, "same": 1, "big": 1}) + grid(**{"from": A3, "to": A3, "same": [0, 1], "parts": 9}) + grid(**{"from": A3, "to": A3, "parts": 1, "rows": [1, 9], "cols": [9, 2]}), reach=["converted"]))
prop("P17", "any text of up to 6 (thorough 8) characters of an alphabet of blanks, newlines, '#', and token characters, of up to 3 (thorough 4) of any ASCII characters; blanks, comments and tokens of up to 3000 (thorough 7000) characters with symbolic ends; sequences of 3 items; flags of up to 4 characters with the flag's end on both sides of the 2048-byte buffer boundaries",
     [T("text", "h_scan", grid(kind=range(4), stream=[0, 1], n=[1, 2, 3, 4, 5]) + grid(kind=[1, 2, 3], n=6) + grid(kind=range(4), stream=[0, 1], n=[2, 3], full=1), grid(kind=range(4), stream=[0, 1], n=[4], full=1) + grid(kind=range(4), stream=[0, 1], n=[6, 7]) + grid(kind=[2, 3], n=8)),
      T("text", "h_scan_long", grid(kind=0, stream=[0, 1], gap=[0, 3, 2050], com=[0, 4, 2046, 2047, 2048, 2049, 3000]) + grid(kind=[1, 2], stream=[0, 1], gap=[0, 3], com=[0, 3000], len=[2, 5, 2046, 2047, 2048, 2049, 2100, 4096]) + grid(kind=[0, 1, 2, 3], stream=1, gap=[2046, 2047, 2048], com=2047, len=30, tail=[0, 2100]) + grid(kind=3, stream=[0, 1], gap=[0, 7], com=[0, 5], len=[2, 9, 1000, 2046]),
        grid(kind=[1, 2], stream=[0, 1], gap=[0, 2047, 7000], com=[0, 2047, 7000], len=[2, 2047, 4095, 4096, 7000]) + grid(kind=[0, 3], stream=[0, 1], gap=[0, 2047, 7000], com=[0, 2048, 7000], len=[2, 2000]), reach=["read"]),
      T("text", "h_scan_seq", grid(stream=[0, 1], n=2), grid(stream=[0, 1], n=3), reach=["sequence"]),
      T("text", "h_skip_lines", grid(n=[1, 2, 3, 4, 5]) + grid(n=3, full=1) + grid(n=3, com=[5, 2046, 2047, 2048, 3000, 4095]) + grid(n=3, pre=[5, 2044, 2046]) + grid(n=2, len=[2045, 2046, 2047, 3000]) + grid(n=3, gap=3, com=[2043, 2044, 2045]), grid(n=[6, 7]) + grid(n=4, full=1) + grid(n=4, com=range(2044, 2052)) + grid(n=4, pre=range(2040, 2047)), reach=["line", "end"]),
      T("text", "h_provided", grid(n=[0, 3, 2100]), reach=["provided"]),
      T("text", "h_upto", grid(stream=[0, 1], flag=range(4), n=[0, 3, 6]) + grid(stream=[0, 1], flag=[0, 1, 3], pre=[2044, 2046, 2047, 2048, 4094]) + grid(stream=[0, 1], form=[1, 2], n=6, pre=[0, 2043, 2045]), grid(stream=[0, 1], flag=range(6), n=[9, 12], pre=range(0, 5)) + grid(stream=[0, 1], flag=[0, 1, 3, 5], n=6, pre=range(2040, 2052))),
      T("text", "h_tag_content", grid(n=[0, 1, 3, 5]) + grid(n=4, pre=[3, 2047], mid=[0, 1, 2046, 2048]), grid(n=[7, 9]) + grid(n=5, pre=[0, 5, 4000], mid=[0, 9, 4000]), reach=["found", "absent"]),
      T("text", "h_strcat", grid(a=[0, 1, 5, 2040, 2046, 2047, 2048], b=[0, 1, 2, 2047, 2048], k=[1, 3], slack=[0, 1]) + grid(a=7, b=5000, k=2), grid(a=range(2040, 2052), b=range(0, 12), k=2, slack=[0, 3]), reach=["appended"]),
      T("text", "h_env", reach=["env"])])
prop("P18", "up to 3 strings of up to 2 symbolic characters, or of about 2100 characters with symbolic ends; any text of up to 6 (thorough 8) characters of blanks, newlines, '#', letters, of up to 3 of any ASCII characters; generated lists of up to 101 names",
     [T("text", "h_strings", grid(n=[0, 1, 2, 3]), grid(n=[3, 4]), reach=["strings"]),
      T("text", "h_strings_join", grid(n=[0, 1, 2, 3], m=[0, 1, 2, 3]), reach=["joined"]),
      T("text", "h_strings_generate", grid(n=[-1, 0, 1, 2, 9, 10, 11, 100, 101]) + grid(n=[1000, 1001]), grid(n=[-1, 0, 1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001]), reach=["generated"], time=60),
      T("text", "h_names", reach=["names"]),
      T("text", "h_strings_text", grid(n=[0, 1, 2, 3], stream=[0, 1]) + grid(n=[1, 2, 3], len=[2046, 2047, 2048, 2100], stream=[0, 1])),
      T("text", "h_strings_scan", grid(n=[2, 3], full=1) + grid(n=[1, 2, 3, 4, 5, 6]) + grid(n=3, pre=[2046, 2047, 2048]), grid(n=[7, 8]) + grid(n=5, pre=[2046, 2047, 2048]))])
prop("P20", "any expression of up to 5 (thorough 7) characters over alphabets of identifier characters, blanks, brackets and operators, of up to 3 (thorough 5) of any ASCII characters; also after 2046 other characters; fixed identifier lists, two identifiers of any 1 or 2 characters, up to 120 identifiers, and identifiers of 30 to 300 (thorough 2100) characters",
     [T("text", "h_subst", grid(set=range(5), al=range(4), n=[1, 3, 4]) + grid(set=[0, 2, 3], al=[0, 2], n=5) + grid(set=range(4), al=4, n=[2, 3]) + grid(set=[0, 1], al=[0, 1], n=2, pre=[2043, 2046, 2047, 2050]), grid(set=range(5), al=range(4), n=[5, 6]) + grid(set=[0, 3], al=range(4), n=7) + grid(set=range(4), al=4, n=[4, 5]), reach=["done"]),
      T("text", "h_subst_ids", grid(n=[1, 2, 3], many=0) + grid(many=[1, 11, 120]), grid(n=[4, 5], many=0), reach=["done", "substituted"]),
      T("text", "h_subst_longid", grid(len=[30, 126, 255, 300]), grid(len=[1020, 2047, 2100]), reach=["substituted"])])
ALLT = range(7)
prop("P01", "unions of up to 3 parts of up to 4 rows and 12 columns (also 62 columns) of every printable type, with 0..3 dimensions of each kind; coefficients fixed but for one of any 64-bit value (multiple precision: also v*2^40+12345) or three of [-2,2] at the listed places; names of up to 2500 characters, too few names, absent names; layouts with blank lines and comments between lines; lists of up to 3 relations in a stream that goes on",
     [T("reltext", "h_rel_text", grid(type=ALLT, shape=[1, 2], parts=[1, 2], at=[4, 9], prec=SP) + grid(type=ALLT, shape=[2, 4], at=5, prec=[DP, MP], stream=1, names=[1]) + grid(type=[1, 2, 3, 6], shape=[1, 2], at=7, span=3, lo=-2, hi=2, prec=A3, stream=[0, 1]) + grid(type=[2, 4], shape=1, parts=3, names=[2, 3, 4], at=3, prec=SP)
        + grid(type=[1, 2, 6], shape=[1, 2], simple=[-1, 1], at=range(2, 8), prec=[SP, DP], tall=1) + grid(type=3, shape=2, at=[0, 1, 6, 7], tall=2, names=[0, 1], prec=DP) + grid(type=[4, 5], shape=2, at=[0, 1], tall=2, names=[0, 1], prec=SP, lo=-4, hi=4) + grid(type=[1, 2], wide=[50, 54], at=20, prec=SP, stream=[0, 1]) + grid(type=1, prec=MP, big=1, at=3, tall=1, lo=-10**7, hi=10**7),
        grid(type=ALLT, shape=range(6), parts=[1, 2, 3], at=[2, 3, 9, 14], prec=A3, stream=[0, 1]) + grid(type=[1, 2, 3, 6], shape=range(4), at=[1, 4, 7], span=4, lo=-2, hi=2, prec=A3) + grid(type=[1, 2, 3], parts=2, shape=[1, 2], prec=MP, big=1, at=[3, 5], stream=[0, 1]) + grid(type=ALLT, shape=[1, 2], names=range(5), at=4, span=2, lo=-20, hi=20, prec=A3), reach=["round trip"]),
      T("reltext", "h_rel_polylib", grid(type=[1, 2, 3], shape=2, parts=[1, 3], at=6, prec=A3), grid(type=ALLT, shape=range(5), parts=[1, 3], at=[3, 6], prec=A3, names=[0, 1, 2]), reach=["round trip"]),
      T("reltext", "h_rel_read", grid(type=ALLT, shape=2, parts=[1, 2], at=4, lo=-12, hi=12, stream=[0, 1], prec=MP) + grid(type=[1, 2], shape=1, at=4, stream=[0, 1], env=1, prec=A3, lo=-100, hi=100) + grid(type=2, shape=[1, 2], parts=2, at=4, env=[0, 1], untyped=1, prec=[SP, MP], lo=-12, hi=12) + grid(type=[1, 2], shape=1, counted=1, at=4, stream=[0, 1], lo=-12, hi=12) + grid(type=2, shape=1, counted=1, at=4, untyped=1, lo=-12, hi=12), grid(type=[1, 2, 3], shape=range(5), counted=1, at=4, stream=[0, 1], untyped=0) + grid(type=[1, 3], shape=range(5), counted=1, at=4, env=[0, 1], untyped=1) + grid(type=ALLT, shape=range(5), parts=[1, 2, 3], at=[4, 9], stream=[0, 1], env=[0, 1], prec=A3) + grid(type=[1, 3], shape=range(5), parts=[1, 2, 3], at=[4, 9], env=[0, 1], untyped=1, prec=A3), reach=["read"]),
      T("reltext", "h_rel_none", reach=["none"])])
PIECES = grid(env=[0, 1], prec=[SP, MP], mask=[FI, FS | FN | FO], range=99, sset=1)
PROPS["P01"]["tasks"].append(T("scoptext", "h_pieces", with_(PIECES, grid(kind=19)) + grid(kind=19, many=9, mask=FI, range=9), with_(PIECES, grid(kind=19, shape=[2, 3], off=[0, 1])), reach=["read back"]))
# --- every kind of structure (numbers: harness/zoo.h)
EXT = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]     # with a text form
ALLK = list(range(25))
CLONEK = [k for k in range(25) if k != 20]
prop("P03", "every extension kind with up to 3 elements per list (thorough 12) where any one integer takes any value of its type, any one text is any 1 or 2 characters of the texts its lexical rule allows, any one list has 0 to 3 elements, any one optional part is absent; one text of 2047 characters, or all texts of 1100; alone and between other extensions of an extension part; the raw text of the extensions of up to 3 symbolic characters, also after 5000 others; any one list of 9 (thorough 17) elements, any one field of its last element arbitrary",
     [T("zoort", "h_text", grid(kind=EXT, shape=[1, 2]) + grid(kind=[k for k in EXT if k not in (2, 5, 10, 18)], long=2047, mask=FS) + grid(kind=[k for k in EXT if k not in (2, 3, 6, 9)], all=1100, mask=FI | FN, range=9), grid(kind=EXT, shape=[3, 4], seed=[0, 3]) + grid(kind=EXT, slen=3, shape=[1, 2], mask=FS) + grid(kind=[0, 1, 3, 5, 6, 7, 8, 9, 12, 14, 16], size=13, mask=[1, 2], seed=1) + grid(kind=[13, 17], size=13, mask=1, range=99) + grid(kind=EXT, long=[2046, 2048, 4096], mask=FS), reach=["read back"]),
      T("zoort", "h_text", grid(kind=EXT, off=1), grid(kind=EXT, off=1, shape=[2, 3]), reach=[]),
      T("zoort", "h_text", grid(kind=EXT, many=9, mask=[FI, FS], range=9), grid(kind=EXT, many=[9, 17], mask=[FI, FS], range=99) + grid(kind=EXT, many=9, wrap=1, mask=[FI, FS], range=9), reach=[]),
      T("scoptext", "h_pieces", grid(kind=0, mask=15, sset=1) + grid(kind=0, many=9, mask=FS, sset=1) + grid(kind=0, shape=[2, 3], sset=3), reach=["read back"]),
      T("zoort", "h_textual", grid(n=[0, 1, 2, 3]) + grid(n=3, len=5000), reach=["kept"]),
      T("zoort", "h_text", grid(kind=EXT, wrap=1), grid(kind=EXT, wrap=1, shape=[2, 3]) + grid(kind=EXT, wrap=1, long=2047, mask=FS), reach=["wrapped"])],
     ["texts that the format cannot express are outside the claim: see the lexical rule in the statement of P03"])
prop("P04", "every structure with up to 3 elements per list, where any one of its integers takes any value, any one of its texts any 1 or 2 characters, any one of its lists 0 to 3 elements, any one of its optional parts is absent; thorough: all integers of the structure at once; any one list of 9 (thorough 17) elements, any one field of its last element arbitrary",
     [T("zooobj", "h_clone", grid(kind=CLONEK, shape=1) + grid(kind=[k for k in CLONEK if k != 24], shape=2), grid(kind=CLONEK, shape=[2, 3], prec=A3) + grid(kind=CLONEK, allsym=1, mask=FO, shape=[1, 2]), reach=["cloned"]),
      T("zooobj", "h_clone", grid(kind=[k for k in CLONEK if k != 24], off=1) + grid(kind=24, off=1, mask=FO | FN), grid(kind=CLONEK, off=1, shape=[1, 2])),
      T("zooobj", "h_clone", grid(kind=CLONEK, many=9, mask=FI | FS), grid(kind=CLONEK, many=17, mask=FI | FS) + grid(kind=CLONEK, many=9, mask=FI | FS, shape=2), reach=["cloned"]),
      T("text", "h_names", reach=["names"]),
      T("zooobj", "h_partial", grid(which=[0, 1, 3, 4, 5, 6, 7, 8], mask=[0, 15]) + grid(which=2, mask=[0, FO]), grid(which=range(9), mask=[0, 15], prec=A3) + grid(which=range(9), allsym=1), reach=["partial"])])
PAIR = [dict(g, shape=a, shape2=b) for g in grid(kind=[k for k in ALLK if k not in (2, 3, 4)], range=3, wf=1, mask=15) for a, b in ((1, 2), (2, 1), (2, 3), (3, 1))] + [g for g in grid(kind=[18, 19, 20, 23, 24], prec=A3, prec2=A3, range=3, mask=15, wf=1) if g["prec"] != g["prec2"]]
prop("P05", "pairs of structures of every kind with up to 3 elements per list differing in any one integer (any value), text (any 1 or 2 characters), list length (0 to 3) or optional part; thorough: pairs of which all integers are independent; collections of 3 elements in any order; extension lists of up to 3 of 4 kinds in any order; pairs of different sizes and precisions; any one list of 9 (thorough 17) elements, any one field of its last element arbitrary",
     [T("zooobj", "h_equal", grid(kind=[k for k in ALLK if k not in (2, 3, 4, 9)], shape=1) + grid(kind=[k for k in ALLK if k not in (2, 3, 4, 9, 24)], shape=2), grid(kind=[k for k in ALLK if k not in (2, 3, 4, 9)], shape=[2, 3], prec=A3), reach=["equal", "different"]),
      T("zooobj", "h_equal", grid(kind=[2, 3, 4, 9], shape=[1, 2])),
      T("zooobj", "h_equal", grid(kind=[k for k in ALLK if k not in (0, 1, 2, 3, 4, 6, 9, 12, 13, 22, 24)], two=1, allsym=1, mask=0), grid(kind=[k for k in ALLK if k not in (0, 1, 2, 3, 4, 6, 9, 12, 13, 22)], two=1, allsym=1, mask=0, shape=[1, 2])),
      T("zooobj", "h_equal", grid(kind=[k for k in ALLK if k != 24], off=1) + grid(kind=24, off=1, mask=FO | FN), grid(kind=ALLK, off=1, shape=[1, 2])),
      T("zooobj", "h_equal", PAIR, reach=["different"]),
      T("zooobj", "h_equal", grid(kind=[k for k in ALLK if k not in (2, 3, 4, 9)], many=9, mask=FI | FS), grid(kind=[k for k in ALLK if k not in (2, 3, 4, 9)], many=17, mask=FI | FS), reach=["equal", "different"]),
      T("zooobj", "h_equal_perm", grid(which=range(4)), grid(which=range(4), lo=-9, hi=9)),
      T("zooobj", "h_equal_order", reach=["equal", "different"], time=60),
      T("zooobj", "h_equal_one", grid(kind=[13, 15, 18], shape=[1, 2]) + grid(kind=18, shape=[1, 2], shape2=[1, 3]), grid(kind=[13, 15, 18], shape=[1, 2, 3], shape2=[1, 2, 3], prec=A3), reach=["different"]), T("zooobj", "h_equal_one", grid(kind=18, prec=SP, prec2=DP), reach=["different"]),
      T("zooobj", "h_equal_null", grid(kind=ALLK), reach=["null"])],
     ["the texts of comments and of the raw text extension are documented as not compared"])
prop("P06", "structures of every kind with up to 3 elements per list and any one integer of [-3,3] (printing of relations: with consistent attributes), text of any 1 or 2 characters, list length 0 to 3 or optional part absent, then any 2 (thorough 3) of copy, compare, print, dump at any of 3 levels, and release; every operation on absent structures and on structures as malloc leaves them; the executions of the other checks judged by how memory is used; any one list of 9 elements",
     [T("zooobj", "h_life", grid(kind=[k for k in ALLK if k < 23], range=3, wf=1, steps=2) + grid(kind=[23, 24], range=3, wf=1, steps=1), grid(kind=[k for k in ALLK if k < 23], range=3, wf=1, steps=3, shape=[1, 2]) + grid(kind=[23, 24], range=3, wf=1, steps=2, shape=[1, 2]), reach=["released"]),
      T("zooobj", "h_life", grid(kind=ALLK, many=9, mask=FO, range=3, wf=1, steps=1), grid(kind=ALLK, many=9, mask=15, range=3, wf=1, steps=1), reach=["released"]),
      T("zooobj", "h_absent", grid(kind=ALLK), reach=["absent"]), T("zooobj", "h_fresh", grid(kind=ALLK), reach=["fresh"])])


def mem(*ts):
    """The same executions judged only by how memory is used."""
    return [dict(t, memory=1) for t in ts]


def watch(*ts):
    """The same executions judged only by whether what they observe is altered."""
    return [dict(t, memory=2) for t in ts]




PROPS["P06"]["tasks"] += mem(
    T("edit", "h_edit", grid(op=range(10), prec=[SP, MP], rows=2, cols=[1, 3], n=1) + grid(op=[3, 5, 9], same=1, prec=[SP, MP], rows=2, cols=3) + grid(op=[0, 1, 2, 3, 9], prec=MP, rows=0, cols=3, n=1, next=0) + grid(op=[1, 9], prec=MP, rows=2, cols=0, n=2, next=0), grid(op=range(10), prec=A3, rows=[1, 3], cols=[1, 2, 5], n=[1, 2])),
    T("edit", "h_edit_seq", grid(prec=A3, steps=2), grid(prec=A3, steps=3, cols=[1, 2])),
    T("edit", "h_concat", grid(prec=[SP, MP], n=[0, 3], vec=[0, 1], next=[0, 1], null=[0, 1, 2]) + grid(prec=MP, same=1)),
    T("edit", "h_vector", grid(op=NOMUL, prec=[SP, MP], n=3) + grid(op=3, prec=MP, n=3, fix=1), grid(op=NOMUL, prec=A3, n=[1, 5])),
    T("shape", "h_union", grid(prec=[DP, MP]) + grid(prec=MP, same=1)), T("shape", "h_nclone", grid(prec=MP, rows=[0, 1])), T("shape", "h_remove_part", grid(prec=MP)),
    T("shape", "h_list_seq", grid(prec=MP, steps=2, start=[0, 2]) + grid(prec=MP, steps=2, start=2, nulls=1), grid(prec=MP, steps=3, start=[0, 1, 2], nulls=[0, 1])), T("shape", "h_list_filter", grid(prec=MP, n=3)),
    T("shape", "h_extend", grid(prec=[SP, MP], parts=2)), T("shape", "h_normalize", grid(prec=MP, n=2)), T("shape", "h_rel_prec", grid(**{"from": A3, "to": A3}) + grid(**{"from": A3, "to": A3, "same": 1})),
    T("shape", "h_array_id", grid(prec=A3, parts=1)), T("shape", "h_attributes", grid(which=range(5), parts=2, prec=MP, rowset=[11, 10])), T("integ", "h_scop_attributes", grid(level=[0, 1, 2], which=0, absent=1, at=[0, 3])),
    T("integ", "h_relation_check", grid(acc=[0, 1], rows=2, parts=1, dmax=30, prec=MP)), T("integ", "h_statement_check", grid(n=2, scop=1, focus=[0, 1], dmax=30, prec=MP)),
    T("text", "h_scan_long", grid(kind=[1, 2], stream=[0, 1], gap=[0, 3], com=[0, 3000], len=[2, 2046, 2047, 2048, 4096]) + grid(kind=0, stream=[0, 1], gap=[3, 2050], com=[2046, 2047, 2048]) + grid(kind=3, stream=[0, 1], gap=7, com=5, len=[2, 2046])),
    T("text", "h_upto", grid(stream=[0, 1], flag=range(4), n=[3, 6]) + grid(stream=[0, 1], flag=[0, 1, 3], pre=[2044, 2046, 2047, 2048, 4094])), T("text", "h_tag_content", grid(n=3) + grid(n=4, pre=[3, 2047], mid=[0, 2046, 2048])),
    T("text", "h_strcat", grid(a=[0, 1, 2046, 2047, 2048], b=[0, 1, 2, 2047, 2048], k=3, slack=0)),
    T("text", "h_strings", grid(n=[0, 3])), T("text", "h_strings_join", grid(n=[0, 2], m=[0, 2])), T("text", "h_strings_generate", grid(n=[-1, 0, 1, 10, 101])), T("text", "h_names"), T("express", "h_comments", grid(type=[1, 2, 3, 6], shape=2, at=4, names=[0, 2, 3, 4], parts=2, prec=MP, stream=[0, 2]) + grid(type=1, wide=[50, 54], shape=1, names=[0, 2])), T("express", "h_expression", grid(type=[1, 3], shape=2, at=4, long=[0, 1], prec=MP)), T("express", "h_scop_comments", grid(has=[0, 6, 15], via=[0, 1, 2])), T("scoplib", "h_scoplib", grid(depth=range(3), mix=1, prec=MP, has=[0, 7]) + grid(depth=0, stmts=2, via=1)), T("text", "h_strings_text", grid(n=[1, 3], len=[0, 2046, 2047, 2048], stream=[0, 1])), T("text", "h_strings_scan", grid(n=4) + grid(n=3, pre=[2046, 2047, 2048])),
    T("text", "h_subst", grid(set=[0, 2, 3], al=[0, 2], n=3) + grid(set=[0, 1], al=0, n=2, pre=[2043, 2046, 2047, 2050])), T("text", "h_subst_ids", grid(many=[1, 11, 120])), T("text", "h_subst_longid", grid(len=300)),
    T("arith", "h_text", grid(**{"from": A3, "to": A3, "fmt": [0, 1]})), T("arith", "h_prec", grid(**{"from": A3, "to": A3})),
    T("reltext", "h_rel_text", grid(type=ALLT, shape=[1, 2], parts=2, at=4, prec=MP, names=[0, 2, 3, 4]) + grid(type=[1, 2], wide=[50, 54], at=20, prec=[SP, MP], stream=[0, 1], names=[0, 3])), T("reltext", "h_rel_polylib", grid(type=[1, 2, 3], shape=2, parts=3, at=6, prec=MP)),
    T("reltext", "h_rel_read", grid(type=[1, 3], shape=2, parts=2, at=4, lo=-12, hi=12, stream=[0, 1], prec=MP)), T("reltext", "h_rel_none"),
    T("zoort", "h_text", grid(kind=EXT, mask=FN | FO) + grid(kind=EXT, mask=FN | FO, wrap=1) + grid(kind=[k for k in EXT if k not in (2, 3, 6, 9)], all=1100, mask=FN, range=9), grid(kind=EXT, off=1, wrap=[0, 1])),
    T("scoptext", "h_scop_text", grid(stmts=1, xset=[0, 1, 2, 3], mask=FN | FO, sset=[1]) + grid(stmts=2, xset=4, sset=3, mask=FN | FO) + grid(stmts=1, unions=2, mask=0, xset=4), grid(stmts=2, xset=range(6), mask=FN | FO, sset=range(4))),
    T("zooobj", "h_clone", grid(kind=[k for k in CLONEK if k != 24], mask=FN | FO) + grid(kind=24, mask=FO), grid(kind=CLONEK, off=1)), T("zooobj", "h_equal", grid(kind=[k for k in ALLK if k != 24], mask=FN | FO) + grid(kind=24, mask=FO)), T("zooobj", "h_partial", grid(which=range(9))),
    T("unions", "h_unions", grid(stmts=1, unions=2) + grid(stmts=1, mask=FN | FO)), T("unions", "h_union_statement", grid(stmts=2, mask=FN | FO)),
    T("generics", "h_generic_seq", grid(steps=2, start=[0, 3], kinds=5)), T("generics", "h_interface_seq", grid(steps=2, kinds=3)), T("generics", "h_shell"), T("generics", "h_register", grid(items=[1, 2])), T("generics", "h_documents", grid(way=range(4), items=2, kinds=5, sym=-1)),
    T("builders", "h_arrays", grid(n=2) + grid(n=1, pre=12)), T("builders", "h_arrays_names", grid(n=2)), T("builders", "h_list_add", grid(which=range(5), mask=FN)), T("builders", "h_extbody", grid(mask=[FN, FO])), T("builders", "h_unroll", grid(mask=[FN, FO])), T("builders", "h_irregular", grid(op=range(3), mask=FN)), T("builders", "h_text_append", grid(annotation=[0, 1], mask=FN)), T("builders", "h_statement_body", grid(n=2)), T("zooobj", "h_equal_one", grid(kind=[13, 15, 18], mask=FO | FN)), T("text", "h_names"), T("text", "h_env"),
)
OBS = {0: ALLK, 1: [k for k in ALLK if k < 19], 2: ALLK, 3: [0, 1, 10, 18, 19, 21, 22, 23, 24, 7, 13, 15, 11], 4: [0, 1, 7, 10, 18, 19, 21, 22, 23, 24], 5: [0, 7, 18, 19, 21, 23, 24], 6: [18, 19, 21, 23], 7: [18, 19, 21, 23, 24], 8: [18, 21, 23, 24], 9: [23, 24], 10: [24], 11: ALLK}
HIST = {**{op: [k for k in ks if k != 22 and not (op == 7 and k == 23)] for op, ks in OBS.items() if not (op == 6 or op == 8 or op == 2)}, 20: [k for k in ALLK if k not in (20, 21, 22)], 21: [k for k in ALLK if k not in (21, 22)]}
prop("P23", "structures of every kind with up to 3 elements per list and any one integer of [-3,3] (relations with consistent attributes), text of any 1 or 2 characters, list length 0 to 3 or optional part absent, under each printing, dumping, comparing, counting, looking up, checking and exporting operation; relations and lists of arbitrary coefficients under the look-ups and checks of the other properties; one change in place (of any one integer or text, array identifiers up to 12) between two observations",
     [T("zooobj", "h_observe", [g for op, ks in OBS.items() for g in grid(kind=ks, op=op, range=3, wf=1)] + grid(kind=24, op=[6, 8], scoplib=1, range=3, wf=1),
        [g for op, ks in OBS.items() for g in grid(kind=ks, op=op, range=3, wf=1, shape=[2, 3])] + grid(kind=24, op=[6, 8], scoplib=1, range=3, wf=1, shape=[2, 3]), reach=["observed"]),
      T("zooobj", "h_observe", [g for op, ks in OBS.items() for g in grid(kind=[k for k in ks if k != 24], op=op, range=3, wf=1, off=1, mask=FO | FN)] + grid(kind=24, op=[0, 2, 5, 7], range=3, wf=1, off=1, mask=FO), [g for op, ks in OBS.items() for g in grid(kind=ks, op=op, range=3, wf=1, off=1)]),
      T("zooobj", "h_history", [dict(g, ids=12) if g["kind"] in (7, 24) else g for op, ks in HIST.items() for g in grid(kind=ks, op=op, range=3, wf=1, mask=FI | FS)] + grid(kind=[18, 19, 23], op=5, range=3, mask=FI), [dict(g, ids=12) if g["kind"] in (7, 24) else g for op, ks in HIST.items() for g in grid(kind=ks, op=op, range=3, wf=1, mask=FI | FS, shape=[2, 3])], reach=["history"]),
      T("zooobj", "h_equal", PAIR, reach=["different"]),
      T("zooobj", "h_same_text", grid(kind=[0, 1, 10, 18, 21], range=3, wf=1), grid(kind=[0, 1, 10, 18, 21], wf=1, shape=[1, 2, 3]), reach=["same text"])]
     + watch(T("shape", "h_array_id", grid(prec=A3) + grid(prec=SP, parts=2, pick=1, rows=1), grid(prec=A3, parts=[1, 2], pick=1)),
        T("shape", "h_attributes", grid(which=[0, 4], parts=2)),
        T("integ", "h_relation_check", grid(acc=[0, 1], rows=2, parts=1, dmax=30)), T("integ", "h_list_check", grid(n=1, dmax=30)),
        T("integ", "h_statement_check", grid(n=1, scop=1, body=1, dmax=30)), T("integ", "h_scop_attributes", grid(level=[0, 1, 2], which=[0, 4], at=3)),
        T("shape", "h_list_filter", grid(prec=SP, n=2)), T("edit", "h_vector", grid(op=[6, 7], prec=[SP, MP], n=3)),
        T("builders", "h_arrays_names", grid(n=[2])), T("builders", "h_statement_body", grid(n=2)), T("zooobj", "h_equal_one", grid(kind=[13, 15, 18], shape=2))),
     ["the SCoPLib export is checked on the scops it accepts"])
prop("P13", "scop lists of up to 2 scops of up to 2 (thorough 3) statements with 0 to 3 domain parts and 0 to 3 scattering parts each, all coefficients any value; any one field of any part, access, extension, context or parameter arbitrary, any one list of 0 to 3 elements, any one optional part absent; any one list of 9 elements",
     [T("unions", "h_unions", grid(stmts=1, unions=3, allsym=[0, 1]) + grid(stmts=2, unions=2, allsym=[0, 1]) + grid(stmts=0) + grid(stmts=[1, 2], mask=15) + grid(stmts=1, shape=2, mask=15) + grid(stmts=1, shape=2, unions=2) + grid(stmts=3, unions=1) + grid(stmts=[0, 1], many=9, mask=FI, range=9),
        grid(stmts=3, unions=2) + grid(stmts=2, unions=3, prec=A3) + grid(stmts=1, shape=2, unions=3) + grid(stmts=2, shape=3, mask=15), reach=["eliminated"], time=60, dtime=400),
      T("unions", "h_unions", grid(stmts=1, off=1, mask=FO | FN), grid(stmts=2, off=1, mask=15), time=60, dtime=400),
      T("unions", "h_union_statement", grid(stmts=[1, 2], mask=[0, 15]) + grid(stmts=1, allsym=1, unions=[1, 3]), grid(stmts=1, allsym=1, unions=4, prec=A3), reach=["eliminated"])])
prop("P02", "lists of up to 3 scops of up to 2 (thorough 3) statements, each with any number 0 to 3 of domain parts, scattering parts and accesses, extensions of every kind with a text form in lists of up to 4; any one integer takes any value of its type (in the larger shapes and in other layouts of [-99,99]), any one text any 1 or 2 characters its lexical rule allows, any one list 0 to 3 elements, any one optional part absent; lines added everywhere or at any one place, and all comment and blank lines removed; statements read one by one from a stream that goes on; any one list of 9 elements, any one field of its last element arbitrary",
     [T("scoptext", "h_scop_text", grid(stmts=1, xset=4, mask=FI) + grid(stmts=1, xset=[0, 1, 2, 3], mask=FI, range=99, sset=[0]) + grid(stmts=1, xset=[0, 1, 2, 3], mask=FS | FN | FO, sset=[1, 3]) + grid(stmts=2, xset=[0, 1, 2, 3, 5], mask=[FI, FS, FN | FO], range=9, sset=1) + grid(stmts=[0, 2], shape=2, mask=[FI | FS, FN, FO], range=9, sset=3, xset=4) + grid(stmts=1, unions=3, mask=0) + grid(stmts=2, unions=1, mask=0) + grid(stmts=1, prec=A3, how=[0, 1], mask=FI, range=99, xset=4),
        grid(stmts=[1, 2], shape=[1, 2, 3], xset=range(6), sset=range(4), mask=[FI, FS, FN | FO], range=99) + grid(stmts=1, xset=range(6), sset=range(4), mask=FI) + grid(stmts=2, unions=2, mask=0) + grid(stmts=1, prec=A3, how=[0, 1], mask=FI), reach=["read back"], time=60, dtime=400),
      T("scoptext", "h_scop_text", grid(stmts=1, xset=range(4), off=1, mask=FO) + grid(stmts=1, xset=1, off=1, mask=FN) + grid(stmts=2, xset=4, sset=3, off=1, mask=FO) + grid(stmts=1, many=9, mask=FS, xset=4) + grid(stmts=1, many=9, mask=FI, xset=4, range=1), grid(stmts=1, many=9, mask=FI, xset=range(5), sset=[0, 1], range=9) + grid(stmts=1, xset=range(4), off=1, mask=FN) + grid(stmts=[1, 2], xset=range(6), sset=range(3), off=1, mask=15, range=99), time=60, dtime=400),
      T("scoptext", "h_scop_layout", grid(stmts=1, plain=1, form=0, mask=FI, range=9, xset=[0, 1, 2, 3], sset=0) + grid(stmts=1, plain=1, form=0, mask=FS | FN | FO, range=9, xset=[0, 1, 2, 3], sset=[0, 3]) + grid(stmts=2, plain=1, form=1, mask=15, range=9, xset=[0, 1, 2, 3], sset=0) + grid(stmts=1, plain=1, form=2, mask=0, xset=[0, 1, 2, 3], sset=[1, 3]),
        grid(stmts=2, plain=1, form=2, mask=0, xset=range(6), sset=range(4)) + grid(stmts=1, plain=1, form=2, mask=FO, range=9, xset=range(6), sset=3) + grid(stmts=2, shape=2, plain=1, form=[0, 1], mask=15, range=9, xset=range(6)), reach=["same"], time=60, dtime=400),
      T("scoptext", "h_pieces", with_(PIECES, grid(kind=23, stmts=[1, 2])) + grid(kind=23, stmts=0, mask=15, env=[0, 1]) + grid(kind=23, many=9, mask=3, stmts=1, sset=1, range=9), with_(PIECES, grid(kind=23, stmts=[1, 2, 3], shape=[2, 3])), reach=["read back"])],
     ["scops are well formed: a language and a context are present, access relations name an array, array identifiers of the arrays extension are at most 12 (printing a scop makes a name for each)", "texts that the format cannot express are outside the claim: see the lexical rule in the statement of P03"])
prop("P19", "extension lists of up to 6 kinds under sequences of up to 3 (thorough 4) additions, removals and look-ups, every integer of the data any value; names that differ from a standard one in any one byte, any shortening of it, or any 2 bytes after it; registries of up to 6 kinds; documents of up to 4 extensions of 16 known kinds and 5 unknown names, integers of one of them of [-9,9], unknown contents ending in any 2 characters of an alphabet of blanks, '#', '<', '>', '/'; lists of 9 kinds",
     [T("generics", "h_generic_seq", grid(steps=2, start=[0, 1, 3], kinds=[3, 5]) + grid(steps=3, start=[0, 2], kinds=3) + grid(steps=1, start=9, kinds=12), grid(steps=3, start=[1, 3, 4], kinds=[4, 6]) + grid(steps=4, start=1, kinds=3), reach=["sequence"]),
      T("generics", "h_lookup_name", reach=["found", "absent"]),
      T("generics", "h_registry", reach=["found", "absent"]),
      T("generics", "h_interface_ops", reach=["all"]),
      T("generics", "h_generic_equal", grid(mask=FI) + grid(mask=FI, kinds=6, len=2) + grid(many=9), grid(mask=FI, kinds=4, shape=[1, 2]) + grid(mask=FS | FN | FO, kinds=6, len=2), reach=["equal", "different"]),
      T("generics", "h_interface_seq", grid(steps=3, kinds=[3, 4]), grid(steps=4, kinds=[5, 6]), reach=["sequence"]),
      T("generics", "h_shell", reach=["shell"]),
      T("generics", "h_documents", grid(way=range(4), registry=range(3), items=3, sym=[0, 2], rot=[0, 1]) + grid(way=range(4), items=1, kinds=11) + grid(way=range(4), items=2, kinds=16, sym=-1) + grid(way=[0, 1], items=3, base=[4, 8], kinds=8, sym=-1, registry=[0, 1]) + grid(way=range(4), items=4, kinds=4, base=[3, 7], sym=-1),
        grid(way=range(4), registry=range(3), items=4, kinds=4, base=[0, 2, 5], sym=[0, 3], rot=[0, 2]) + grid(way=range(4), items=3, kinds=12, base=[0, 4], sym=-1), reach=["known", "unknown"]),
      T("generics", "h_register", grid(items=[0, 1, 2]), grid(items=3, steps=[2, 3]), reach=["registered"])])
prop("P21", "any int identifier and any name of up to 2 bytes (up to 12 arrays before them); lists of up to 3 additions of lists of up to 3 elements, any one integer of which takes any value; predicates with up to 3 iterators added to irregular extensions of any sizes up to 3; up to 3 lines appended to any text of regions and annotations of any sizes up to 3; any one list of 9 elements",
     [T("builders", "h_arrays", grid(n=[1, 2, 3]) + grid(n=1, pre=[3, 12]), grid(n=4) + grid(n=2, pre=[3, 12]), reach=["arrays"]),
      T("builders", "h_arrays_names", grid(n=[0, 1, 2, 3]) + grid(n=1, lo=-3, hi=40), grid(n=4, hi=4) + grid(n=2, lo=-20, hi=20), reach=["names"]),
      T("builders", "h_list_add", grid(which=range(5), mask=[FI, FN]) + grid(which=range(3), mask=[FI, FN], adds=3) + grid(which=range(3), shape=2, mask=FI) + grid(which=range(5), many=9, mask=FI, range=9), grid(which=range(5), mask=[FI, FS, FN, FO], adds=3, shape=[1, 2]), reach=["added"]),
      T("builders", "h_extbody", grid(mask=[FI, FS, FN, FO]) + grid(many=9, mask=FI, adds=2), grid(mask=[FI, FS, FN, FO], shape=[2, 4], adds=6), reach=["added"]),
      T("builders", "h_unroll", grid(mask=[FI, FS, FN, FO]), grid(mask=[FI, FS, FN, FO], shape=[2, 4]), reach=["filled"]),
      T("builders", "h_irregular", grid(op=range(3), mask=[FI, FN]) + grid(op=range(3), mask=FN, shape=3) + grid(op=[0, 1], mask=FS) + grid(op=range(3), many=9, mask=FI, range=9), grid(op=range(3), mask=[FI, FS, FN], shape=[2, 3, 4]), reach=["built"]),
      T("builders", "h_text_append", grid(annotation=[0, 1], mask=[FI, FN]) + grid(annotation=1, adds=3) + grid(annotation=[0, 1], many=9, mask=FI, range=9), grid(annotation=[0, 1], mask=[FI, FS, FN], adds=[2, 3], shape=[1, 2]), reach=["appended"]),
      T("builders", "h_statement_body", grid(n=[0, 2, 3]), grid(n=4), reach=["none"])],
     ["osl_symbols_lookup, osl_symbols_remove, osl_loop_to_strings and osl_pluto_unroll_to_strings are declared but defined nowhere in the repository"])
prop("P24", "one relation of every type in 3 shapes with up to 3 parts of up to 4 rows and 10 (also 60) columns, any 1 to 4 adjacent coefficients any 64-bit value (marker 0 or 1); names generated, given, very long, too few, or of one sort only; scops of 2 statements with any subset of parameter names, iterator names of each body, array names, any one coefficient of any relation of [-12,12]",
     [T("express", "h_comments", grid(type=ALLT, shape=[1, 2], at=[4, 9], names=[0, 1], parts=2, prec=[SP, DP]) + grid(type=ALLT, shape=3, at=5, names=[2, 3, 4], parts=3, prec=MP, stream=1) + grid(type=ALLT, shape=1, at=5, names=1, prec=MP, stream=[2, 3]) + grid(type=[0, 1, 2, 6], shape=2, at=3, span=2, names=1, simple=[-1, 1], prec=[SP, MP]) + grid(type=[1, 2, 3], shape=2, at=[0, 6], span=4, lo=-1, hi=1, names=1) + grid(type=[1, 2, 3, 6], shape=[1, 2], names=1, outs=2) + grid(type=[1, 6], shape=[1, 2], parts=2, names=0, outs=1) + grid(type=[0, 1, 2, 6], shape=0, at=range(0, 4), span=2, names=1, simple=[-1, 1], prec=DP) + grid(type=[3, 4, 5, 7], shape=[1, 2], at=range(0, 8), lo=-12, hi=12, names=[1, 3]) + grid(type=1, wide=[50, 54], shape=1, at=20, names=[1, 2]) + grid(type=2, wide=50, shape=1, at=20, names=1),
        grid(type=ALLT, shape=range(1, 5), at=range(0, 14, 2), names=[0, 1, 3], parts=[1, 3], prec=A3) + grid(type=[0, 1, 2, 6], shape=range(1, 4), at=range(0, 9, 2), span=2, names=1, simple=[-1, 1], prec=A3) + grid(type=[0, 1, 2, 3, 6], shape=[1, 2, 3], names=[0, 1], outs=3), reach=["comments"]),
      T("express", "h_expression", grid(type=[0, 1, 2, 3, 6], shape=[1, 2, 3], at=[1, 4], prec=[SP, MP]) + grid(type=[1, 2, 3], shape=2, at=range(5), prec=DP, span=3, lo=-2, hi=2) + grid(type=[1, 3], shape=2, at=4, long=1), grid(type=ALLT, shape=range(1, 5), at=range(9), prec=A3) + grid(type=ALLT, shape=2, at=4, long=1, wide=[0, 54]), reach=["expression"]),
      T("express", "h_scop_comments", grid(has=[0, 1, 2, 4, 8, 15], via=[0, 1, 2], rel=[1, 2, 5, 7], at=6) + grid(has=15, via=[0, 1, 2], rel=range(2, 8), at=3), grid(has=range(16), via=[0, 1, 2], rel=range(1, 8), at=range(0, 12, 3), shape=[1, 3], prec=[SP, MP]), reach=["scop"])],
     ["names are distinct words; a dimension without a name is written '?' and the coefficients of all such dimensions are only compared by their sum", "multiple-precision coefficients hold 64-bit values other than -2^63 here"])
prop("P25", "scops of 1 or 2 (thorough 3) statements with 0 to 2 iterators, 0 to 2 parameters, up to 4 accesses of 0 to 2 dimensions in any mix of reads and writes, with or without parameter names, arrays and bodies; any one exported coefficient any 64-bit value, the array identifier of [1,12]; refusals: any one coefficient of the output part of any scattering any 64-bit value, one absent or local-dimensional relation or a further scop",
     [T("scoplib", "h_scoplib", grid(depth=range(3), any=3, stmts=[1, 2], at=999) + grid(depth=range(3), par=range(3), mix=[1, 2], stmts=2, prec=SP, has=5) + grid(depth=range(3), mix=0, stmts=1, prec=[DP, MP]) + grid(depth=range(3), has=[0, 1, 2, 4, 6, 7], via=[0, 1], stmts=2) + grid(depth=range(3), mix=[0, 1], drows=[0, 1], flat=1) + grid(depth=range(3), mix=1, drows=[0, 2], pads=1) + grid(depth=0, mix=1, par=2, at=range(0, 25), prec=SP) + grid(depth=1, mix=1, par=2, at=range(0, 50), prec=MP) + grid(depth=2, mix=2, par=1, at=range(0, 70, 3), prec=DP),
        grid(depth=range(3), mix=[1, 2], par=[1, 2], at=range(0, 90), prec=A3, has=[2, 5]) + grid(depth=range(3), mix=[1, 2], par=range(3), stmts=3, has=range(8), seed=[1, 2], crows=[0, 3]) + grid(depth=range(3), any=4, at=999, prec=A3), reach=["exported"], time=60),
      T("scoplib", "h_refused", grid(which=[0, 6], prec=[SP, MP]) + grid(which=0, stmts=1), grid(which=[0, 6], stmts=[1, 2, 3], par=[0, 2], prec=A3), reach=["accepted"]),
      T("scoplib", "h_refused", grid(which=range(1, 6)) + grid(which=[1, 3], stmts=9) + grid(which=2, parts=4), grid(which=range(1, 6), stmts=[1, 3], prec=A3))],
     ["what SCoPLib can express: single-part domains and scatterings without local dimensions, scatterings and accesses whose output part is minus the identity, read and write accesses only"])
DK = [k for k in EXT if k != 2]
prop("P16", "the text of one representative object of every kind (also statements, lists of relations, whole scops with extensions), cut at any place, with any one byte changed to any other, any one byte added anywhere, any one byte or any one line lost; quick: scops of about 1750 characters without extensions, thorough: with every kind of extension, larger shapes, multi-part relations",
     [T("damage", "h_damage", grid(kind=[k for k in DK if k not in (1, 12)], mode=0, reprint=1) + grid(kind=[1, 12], mode=0) + grid(kind=DK, mode=[1, 2, 3, 4]) + grid(how=[1, 3, 4], kind=8, stream=[0, 1], mode=range(5)) + grid(how=[6, 7], mode=range(5)) + grid(how=[4], prec=[32, 64], mode=[0, 1]) + grid(kind=18, shape=2, mode=[0, 1])
        + with_(grid(how=5, mode=range(4)), cuts(1400, 350)) + grid(how=5, mode=4) + with_(grid(how=2, xset=4, mode=[0, 1, 3]), cuts(1800, 225)) + grid(how=2, xset=4, mode=4),
        grid(kind=[k for k in DK if k not in (1, 12)], mode=0, reprint=1, shape=[2, 3]) + grid(kind=DK, mode=[1, 2, 3, 4], shape=[2, 3]) + grid(how=[1], kind=DK, stream=[0, 1], mode=range(5)) + grid(how=[4, 7], shape=[2, 3], mode=range(5)) + with_(grid(how=5, mode=range(4), sset=[1, 3]), cuts(2400, 300)) + with_(grid(how=2, xset=range(6), sset=[0, 3], mode=range(4)), cuts(4800, 300)), reach=["refused"], time=60, dtime=300)],
     ["a relation's text is read line by line: a line holding more numbers than needed is accepted", "of a kept body text, an expression missing at the very end of the text is read as an empty one"])
