"""Every outcome of every random draw of the split selection: the tree of draws is explored to a bound covering all complete
selections and a restart; from every bounded prefix the draw must then be able to finish.  Seeds are enumerated as well."""
import os
import numpy as np
from mc import env, rng
from czone.util.misc import get_N_splits

PROPERTY = "C18"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["the list has positions 0 .. l-1; its ends are the first and the last position"]
N, M, L = (6, 5, 19) if THOROUGH else (5, 4, 15)


class TooMany(Exception):
    pass


def feasible(n, m, l):
    return n == 0 or l - 1 - 2 * m >= (n - 1) * m and l - 1 - 2 * m >= 0


def judge(ch, s, n, m, l, what):
    s = list(s)
    ch.check(len(s) == n, lambda: f"{what}: {len(s)} positions: {s}")
    ch.check(all(isinstance(x, (int, np.integer)) for x in s), lambda: f"{what}: not integers: {s}")
    ch.check(s == sorted(s), lambda: f"{what}: not sorted: {s}")
    ch.check(all(m <= x <= l - 1 - m for x in s), lambda: f"{what}: closer than {m} to an end: {s}")
    ch.check(all(b - a >= m for a, b in zip(s, s[1:])), lambda: f"{what}: closer than {m} to each other: {s}")


# how the draw may go on after the explored prefix; it is able to finish if one of these lets it
POLICIES = [lambda k, w: 0, lambda k, w: w - 1, lambda k, w: (k * 3 + 1) % w, lambda k, w: (k * k * 7 + k // 3) % w, lambda k, w: (k * 2654435761 >> 7) % w]


def drive(args, prefix, policy, limit):
    """prefix: choices already made; then the policy.  Returns the result, and the draws made"""
    made = []

    def pick(w):
        k = len(made)
        if k > limit:
            raise TooMany
        made.append(min(prefix[k], w - 1) if k < len(prefix) else policy(k, w))
        return made[-1]
    with rng.script(rng.Ask(integer=lambda lo, hi: lo + pick(hi - lo), pick=pick)):
        return get_N_splits(*args), made


def body(ch):
    n, m, l = ch.choose("count", range(0, N + 1)), ch.choose("separation", range(0, M + 1)), ch.choose("length", range(0, L + 1))
    what = f"get_N_splits({n}, {m}, {l})"
    depth = n + (2 if n <= 3 else 1)
    drawn = []

    def pick(w):
        if len(drawn) >= depth:
            raise TooMany
        drawn.append(ch.choose(f"draw{len(drawn)}", range(w)))
        return drawn[-1]
    try:
        ch.op()
        with rng.script(rng.Ask(integer=lambda lo, hi: lo + pick(hi - lo), pick=pick)):
            s = get_N_splits(n, m, l)
    except TooMany:
        ch.check(feasible(n, m, l), f"{what} keeps drawing although there is no selection")
        for p in POLICIES:
            try:
                ch.op()
                s, made = drive((n, m, l), drawn, p, len(drawn) + 60 * (n + 1))
                judge(ch, s, n, m, l, f"{what} drawing {made[:12]}")
                ch.outcome((n, m, l, tuple(s)))
                return
            except TooMany:
                pass
        ch.fail(f"{what}: after the draws {drawn} the selection cannot finish")
    except ValueError as e:
        ch.check(not feasible(n, m, l), f"{what} raised {e} although there is a selection (draws {drawn})")
        return
    ch.check(feasible(n, m, l), lambda: f"{what} returned {s} although there is no selection")
    judge(ch, s, n, m, l, f"{what} drawing {drawn}")
    ch.outcome((n, m, l, tuple(s)))


def body_every(ch):
    """no selection is left out: the tree of draws, to a depth that covers every way of drawing without a restart, yields all of them"""
    n, m, l = ch.choose("count", range(1, 4 + THOROUGH)), ch.choose("separation", range(0, M + 1)), ch.choose("length", range(0, 13 + 2 * THOROUGH))
    if not feasible(n, m, l) or n > 3 and l > 12 or n > 2 and l - 2 * m > 11:
        ch.prune()
    from itertools import combinations, combinations_with_replacement
    want = {c for c in (combinations if m else combinations_with_replacement)(range(m, l - m), n) if all(b - a >= m for a, b in zip(c, c[1:]))}
    got, stack = set(), [[]]
    while stack and got != want:
        pre = stack.pop()
        widths = []

        def pick(w):
            if len(widths) > n:
                raise TooMany
            widths.append(w)
            return pre[len(widths) - 1] if len(widths) <= len(pre) else 0
        try:
            ch.op()
            with rng.script(rng.Ask(integer=lambda lo, hi: lo + pick(hi - lo), pick=pick)):
                got.add(tuple(int(x) for x in get_N_splits(n, m, l)))
        except TooMany:
            pass
        for k in range(len(pre), len(widths)):
            stack += [pre + [0] * (k - len(pre)) + [j] for j in range(1, widths[k])]
    ch.check(got == want, lambda: f"get_N_splits({n}, {m}, {l}) never selects {sorted(want - got)[:3]}" + (f", and selects {sorted(got - want)[:3]}" if got - want else ""))
    ch.outcome((n, m, l, len(want)))


def body_seeds(ch):
    n, m, l = ch.choose("count", range(1, 7)), ch.choose("separation", range(0, 6)), ch.choose("length", (12, 19, 27, 40))
    seed = ch.choose("seed", range(40 if THOROUGH else 12))
    if not feasible(n, m, l):
        ch.prune()
    ch.op(2)
    s = get_N_splits(n, m, l, seed=seed)
    judge(ch, s, n, m, l, f"get_N_splits({n}, {m}, {l}, seed={seed})")
    ch.check(list(s) == list(get_N_splits(n, m, l, seed=seed)), "same seed, other positions")
    ch.outcome(tuple(s))


HARNESSES = {
    "draws": dict(body=body, shard=4, watchdog=20, bounds=f"count 0..{N}, separation 0..{M}, length 0..{L}: all outcomes of the first count+2 draws (count+1 for 4 and more), then able to finish"),
    "every selection": dict(body=body_every, shard=3, watchdog=60, bounds=f"count 1..{3 + THOROUGH}, separation 0..{M}, length up to {12 + 2 * THOROUGH}: every admissible selection is drawn by some outcome of the first count+1 draws"),
    "seeds": dict(body=body_seeds, shard=3, watchdog=20, bounds="count 1..6, separation 0..5, 4 lengths, all seeds below the bound"),
}
