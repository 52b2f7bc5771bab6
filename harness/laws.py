"""Three non-trivial parameter rows per family (generator parameter names)."""

ROWS = {
    "normal": [{"mean": 0, "var": 1}, {"mean": 3.0, "var": 4.0}, {"mean": -2.0, "var": 0.25}],
    "exponential": [{"lam": 0.5}, {"lam": 2.0}, {"lam": 7}],
    "weibull": [{"a": 1, "k": 5}, {"a": 2.5, "k": 1.5}, {"a": 0.7, "k": 3.0}],
    "uniform": [{"a": 0, "b": 1}, {"a": -3.0, "b": 2.0}, {"a": 5.0, "b": 5.5}],
    "student": [{"df": 2}, {"df": 1.0}, {"df": 9.5}],
    "gamma": [{"alfa": 1, "beta": 1}, {"alfa": 2.5, "beta": 3.0}, {"alfa": 0.6, "beta": 0.25}],
    "beta": [{"a": 1, "b": 1}, {"a": 2.0, "b": 5.0}, {"a": 0.7, "b": 1.5}],
    "log_normal": [{"s": 1, "mu": 0}, {"s": 0.5, "mu": 1.5}, {"s": 2.0, "mu": -1.0}],
    "cauchy": [{"t": 0.5, "s": 0.5}, {"t": -1.0, "s": 2.0}, {"t": 3.0, "s": 0.1}],
    "chi_2": [{"df": 2}, {"df": 5}, {"df": 1.5}],
    "gompertz": [{"eta": 1, "b": 1}, {"eta": 2.0, "b": 3.0}, {"eta": 0.3, "b": 0.5}],
    "gumbel": [{"mu": 0, "beta": 1}, {"mu": 2.0, "beta": 3.0}, {"mu": -1.0, "beta": 0.5}],
    "inv_gauss": [{"mu": 1, "lam": 1}, {"mu": 2.0, "lam": 3.0}, {"mu": 0.7, "lam": 0.4}],
    "laplace": [{"t": 0, "s": 1}, {"t": 2.0, "s": 3.0}, {"t": -1.0, "s": 0.25}],
    "lo_con_normal": [{"p": 0.5, "a": 0}, {"p": 0.3, "a": 4.0}, {"p": 0.8, "a": -3.0}],
    "logistic": [{"t": 0, "s": 1}, {"t": 2.0, "s": 3.0}, {"t": -1.0, "s": 0.25}],
    "mix_con_normal": [{"p": 0.5, "a": 0, "b": 1}, {"p": 0.3, "a": 4.0, "b": 2.0}, {"p": 0.8, "a": -3.0, "b": 0.5}],
    "rice": [{"nu": 0, "sigma": 1}, {"nu": 2.0, "sigma": 3.0}, {"nu": 3.0, "sigma": 0.5}],
    "scale_con_normal": [{"p": 0.5, "b": 1}, {"p": 0.3, "b": 4.0}, {"p": 0.8, "b": 0.25}],
    "trunc_normal": [{"mean": 0, "var": 1, "a": -10, "b": 10}, {"mean": 2.0, "var": 4.0, "a": 1.0, "b": 5.0},
                     {"mean": -1.0, "var": 0.25, "a": -1.2, "b": 3.0}],
    "tukey": [{"lam": 2}, {"lam": 0.14}, {"lam": -0.5}],
}


def random_row(d, r):
    """A random parameter row of family d (r: a random.Random)."""
    u = r.uniform
    pos = lambda: round(10 ** u(-0.6, 0.9), 3)  # noqa: E731
    loc = lambda: round(u(-5, 5), 3)  # noqa: E731
    a = loc()
    sd = pos()
    return {
        "normal": lambda: {"mean": a, "var": pos()},
        "exponential": lambda: {"lam": pos()},
        "weibull": lambda: {"a": pos(), "k": pos()},
        "uniform": lambda: {"a": a, "b": round(a + pos(), 3)},
        "student": lambda: {"df": round(u(1, 30), 2)},
        "gamma": lambda: {"alfa": pos(), "beta": pos()},
        "beta": lambda: {"a": pos(), "b": pos()},
        "log_normal": lambda: {"s": round(u(0.2, 2), 3), "mu": loc()},
        "cauchy": lambda: {"t": loc(), "s": pos()},
        "chi_2": lambda: {"df": round(u(0.8, 12), 2)},
        "gompertz": lambda: {"eta": pos(), "b": pos()},
        "gumbel": lambda: {"mu": loc(), "beta": pos()},
        "inv_gauss": lambda: {"mu": pos(), "lam": pos()},
        "laplace": lambda: {"t": loc(), "s": pos()},
        "lo_con_normal": lambda: {"p": round(u(0.1, 0.9), 2), "a": loc()},
        "logistic": lambda: {"t": loc(), "s": pos()},
        "mix_con_normal": lambda: {"p": round(u(0.1, 0.9), 2), "a": loc(), "b": pos()},
        "rice": lambda: {"nu": round(u(0, 4), 3), "sigma": pos()},
        "scale_con_normal": lambda: {"p": round(u(0.1, 0.9), 2), "b": pos()},
        "trunc_normal": lambda: {"mean": a, "var": round(sd * sd, 4), "a": round(a - u(-0.5, 3) * sd, 3), "b": round(a + u(0.7, 3) * sd, 3)},
        "tukey": lambda: {"lam": round(u(-0.6, 2.5), 2) or 0.3},
    }[d]()


def exchanged(d):
    """Two rows of family d with the values of two parameters exchanged."""
    names = list(ROWS[d][0])
    if len(names) == 1 or d == "uniform":
        return ROWS[d][1], ROWS[d][2]
    x, y = (0.3, 0.7) if "p" in names else (1.5, 2.5)
    rest = {"b": 1.2} if d == "mix_con_normal" else {"a": 0.0, "b": 5.0} if d == "trunc_normal" else {}
    return {names[0]: x, names[1]: y, **rest}, {names[0]: y, names[1]: x, **rest}
