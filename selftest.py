"""setup_cmd: checks that the toolchain is there and that the symbolic values
agree with Python's integers (solver-decided, and against concrete samples)."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import values as V
from symx.engine import Engine

SEED = int(os.environ.get("VERIF_SEED", "1"))


def arithmetic(E):
    a = E.int("a", -9, 9)
    b = E.int("b", -9, 9)
    d = E.cint("d", -4, 4)
    if d == 0:
        return
    q, r = a // d, a % d
    E.check(q * d + r == a, "divmod")
    E.check(E.land(r >= 0, r < d) if d > 0 else E.land(r <= 0, r > d), "mod range")
    E.check(E.smin(a, b) + E.smax(a, b) == a + b, "min/max")
    t = V.sym_int(a / d)
    E.check(E.lor(E.land(t * d <= a, a >= 0), E.land(t * d >= a, a <= 0)), "truncation")
    E.check(-(-a // d) >= a / d, "ceil")
    E.observe(a, b, d, q, r, t, a * 3 - b, E.smin(a, b), -(-a // d), abs(a))
    E.check(sum(1 for _ in V.sym_range(0, a, 3)) == E.smax(0, -(-a // 3)), "range")


def main():
    e = Engine()
    rest = e.explore(arithmetic)
    assert not rest and not e.violations, e.violations
    assert e.stats["paths"] > 20, e.stats
    for asg, obs in e.samples:
        a, b, d = asg["a"], asg["b"], asg["d"]
        if d:
            want = [a, b, d, a // d, a % d, int(a / d), a * 3 - b, min(a, b), -(-a // d), abs(a)]
            assert obs[0] == want, (asg, obs, want)
    # a false claim must be refuted with a genuine counterexample
    def wrong(E):
        x = E.int("x", 0, None)
        E.check(x * 3 // 2 <= x + 7, "wrong")
    e = Engine()
    e.explore(wrong)
    assert e.violations and e.violations[0][1]["x"] * 3 // 2 > e.violations[0][1]["x"] + 7
    # random expressions: symbolic evaluation under a model equals Python's
    rng = random.Random(SEED)
    for _ in range(300):
        e = Engine()
        vals = {}
        def f(E):
            x, y = E.int("x", -20, 20), E.int("y", -20, 20)
            rng2 = random.Random(_)
            s = [x, y, 1, -3]
            c = [rng2.randint(-20, 20), rng2.randint(-20, 20)]
            E.assume(E.land(x == c[0], y == c[1]))
            p = [c[0], c[1], 1, -3]
            for _i in range(6):
                op = rng2.choice("+-*/%mMn")
                i, j, k = rng2.randrange(len(s)), rng2.randrange(len(s)), rng2.choice([-5, -2, 1, 2, 3, 7])
                if op == "+": s.append(s[i] + s[j]); p.append(p[i] + p[j])
                if op == "-": s.append(s[i] - s[j]); p.append(p[i] - p[j])
                if op == "*": s.append(s[i] * k); p.append(p[i] * k)
                if op == "/": s.append(s[i] // k); p.append(p[i] // k)
                if op == "%": s.append(s[i] % k); p.append(p[i] % k)
                if op == "m": s.append(V.sym_min(s[i], s[j])); p.append(min(p[i], p[j]))
                if op == "M": s.append(V.sym_max(s[i], s[j])); p.append(max(p[i], p[j]))
                if op == "n": s.append(-s[i]); p.append(-p[i])
            for u, v in zip(s, p):
                E.check(u == v, "expression")
            E.check(bool(s[-1] <= s[-2]) == (p[-1] <= p[-2]), "comparison")
        e.explore(f)
        assert not e.violations, e.violations
    from symx import env
    env.load(symbolic=True)
    print("selftest ok")


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
