"""Small admissible inputs on which a routine is compared when the general
comparison is undecided: loops over the given collections are expanded, so a
difference that hides in a loop summary becomes a difference of plain values.
A difference found this way is a genuine one (the instance satisfies the
specification's precondition); finding none decides nothing."""
from .terms import num, raw, string, mk


def p(name, ty=""):
    return raw("param", name, ty)


def tup(*a):
    return raw("tuple", *a)


def lst(*a):
    return raw("list", *a)


def d(*kv):
    return mk("dict", *kv)


def s(x):
    return string(x)


FN2 = d((s("fa"), p("fa", "fn")), (s("fb"), p("fb", "fn")))
OBJ2 = d((s("ma"), p("ma")), (s("mb"), p("mb")))
LIM = d((s("fa"), tup(p("lo_a", "float"), p("up_a", "float"))))
DEC2, DEC3 = lst(p("d1", "dec"), p("d2", "dec")), lst(p("d1", "dec"), p("d2", "dec"), p("d3", "dec"))

TABLE = {
    "data_splitter.split_df": [
        {"splits": d((s("f1"), tup(s("linear"), p("frac1", "float"))), (s("f2"), tup(s("ordered"), p("frac2", "float"))))},
        {"splits": d((s("f1"), tup(s("random"), p("frac1", "float"))))},
        {"splits": d((raw("none"), tup(s("linear"), p("frac1", "float"))))},
    ],
    "data_splitter.build_lag_df": [{"n_lags": num(1)}, {"n_lags": num(3)}, {"n_lags": num(3), "stride": num(2)}],
    "classification.get_pred_log_prob": [{"methods": OBJ2, "n_labels": num(3)}],
    "regression.get_gauss_pred": [{"methods": OBJ2}],
    "classification.loss_table": [{"metrics_dict": FN2}],
    "regression.loss_table": [{"metrics_dict": FN2}],
    "classification.curve_summary_table": [{"curve_dict": FN2}],
    "sciprint.adjust_headers": [
        {"headers": lst(tup(s("m_1"), s("estimate")), tup(s("m_1"), s("p"))), "shifts": d((s("m_1"), p("s1", "int"))), "unit_dict": d()},
        {"headers": lst(tup(s("m_1"), s("estimate")), tup(s("m2"), s("estimate"))), "shifts": d((s("m_1"), p("s1", "int")), (s("m2"), p("s2", "int"))), "unit_dict": d((s("m_1"), p("u1", "str")))},
    ],
    "sciprint.pad_num_str": [{"num_str_list": lst(p("t1", "str"), p("t2", "str"))}],
    "sciprint.find_shift": [{"mean_list": lst(), "err_list": lst()}],
    "sciprint.get_shift_range": [{"x_dec_list": lst(p("d1", "dec"))}, {"x_dec_list": DEC2}],
    "sciprint.decimal_all_finite": [{"x_dec_list": DEC2}],
    "sciprint.all_same": [{"L": lst(p("a1", "int"), p("a2", "int"))}],
    "sciprint.decimal_from_tuple": [{"digits": tup(num(1), num(2))}],
}
