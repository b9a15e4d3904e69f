"""C20 - input files of the external overtopping models"""
from ob._lib import *

P_ = "C20"
BX = dict(beta=(-80.0, 80.0), h=(0.1, 30.0), Hm0=(0.05, 12.0), Tmm10=(1.0, 25.0), Bt=(0.0, 20.0), ht=(0.1, 30.0), B_berm=(0.0, 20.0),
          db=(-5.0, 5.0), Rc=(0.0, 20.0), Ac=(0.0, 20.0), Gc=(0.0, 20.0), cot_alpha_down=(0.0, 7.0), cot_alpha_up=(-5.0, 6.0))
NN = dict(mod=OT + "vangent2007", fn="write_input_file_NN_Overtopping", sep=" ", file="input_NN_Overtopping", ext=".inp", index=False, names=None,
          var=dict(BX, gamma_f=(0.35, 1.0), tan_alpha_B=(0.0, 0.1)),
          order="beta h Hm0 Tmm10 ht Bt gamma_f cot_alpha_down cot_alpha_up Rc B_berm db tan_alpha_B Ac Gc".split())
XGB = dict(mod=OT + "denbieman2021", fn="write_input_file_XGB_Overtopping", sep=";", file="input_XGB_Overtopping", ext=".csv", index=True,
           names=["", "b", "h", "Hm0 toe", "Tm-1,0 toe", "ht", "Bt", "hb", "B", "Rc", "Ac", "Gc", "cotad", "cotau", "gf_d", "gf_u", "tanaf"],
           var=dict(BX, gamma_f_down=(0.35, 1.0), gamma_f_up=(0.35, 1.0), tan_alpha_f=(0.0, 0.1)),
           order="beta h Hm0 Tmm10 ht Bt db B_berm Rc Ac Gc cot_alpha_down cot_alpha_up gamma_f_down gamma_f_up tan_alpha_f".split())


def writer(d, tag, n, some=None, name=None, twice=False):
    """n: None for one case in scalars, else the number of cases; some: arguments given as one number for all cases"""
    def h(M):
        kw, val = {}, {}
        for a, (lo, hi) in d["var"].items():
            if n is None or some and a in some:
                kw[a] = M.var(a, lo, hi)
                val[a] = [kw[a]] * (n or 1)
            else:
                val[a] = [M.var("%s_%d" % (a, i), lo, hi) for i in range(n)]
                kw[a] = M.arr(*val[a])
        opt = dict(file_name=name) if name else {}

        def run(out):
            f = M.fn(d["mod"], d["fn"])
            if twice:
                # an earlier file of the same name is replaced, not extended
                f(output_dir=out, **{a: 0.5 * x for a, x in kw.items()}, **opt)
            f(output_dir=out, **kw, **opt)
        r = M.table_of(d["mod"], run, d["sep"])
        M.check("one file", r is not None)
        if r is None:
            return
        path, comments, names, rows = r
        M.check("file name", path == (name or d["file"]) + d["ext"])
        if d["names"] is None:
            M.check("comment block before the values", len(comments) > 0 and all(c[:1] in ("!", "*") for c in comments))
            M.check("no header line", names is None)
        else:
            M.check("column names", names == d["names"])
            M.check("no comments", not comments)
        M.check("one line per case", len(rows) == (n or 1))
        if len(rows) != (n or 1):
            return
        for i, row in enumerate(rows):
            off = 1 if d["index"] else 0
            M.check("number of columns", len(row) == len(d["order"]) + off)
            if len(row) != len(d["order"]) + off:
                return
            if off:
                M.check("case number", row[0] == float(i))
            for a, x in zip(d["order"], row[off:]):
                M.check("column %s of case %d" % (a, i), M.eq(x, val[a][i]))
    ob(P_, tag, funcs=(d["mod"] + "." + d["fn"],))(h)


for key, d in (("nn", NN), ("xgb", XGB)):
    writer(d, key + "/scalar", None)
    writer(d, key + "/scalar-name", None, name="case_7")
    for n in (1, 2, 3):
        writer(d, "%s/cases-%d" % (key, n), n)
    writer(d, key + "/replaces-scalar", None, twice=True)
    writer(d, key + "/replaces-cases-2", 2, twice=True)
    writer(d, key + "/cases-2-name", 2, name="my file.v1")
    writer(d, key + "/shared-geometry", 2, some=[a for a in d["var"] if a not in ("beta", "Hm0", "Tmm10")])
    for a in d["var"]:
        if a != "beta":
            writer(d, "%s/shared-%s" % (key, a), 2, some=[a])
