"""Independent oracles over plans: written from the problem definition only."""
TOL = 2e-9


def routes_of(sol):
    """Split a giant tour [0,a,b,0,c,0] to customer lists."""
    out, cur = [], None
    for n in sol:
        if n == 0:
            if cur:
                out.append(cur)
            cur = []
        else:
            if cur is None:
                cur = []
            cur.append(n)
    if cur:
        out.append(cur)
    return out


def cost(sol, D):
    return float(sum(D[sol[i - 1], sol[i]] for i in range(1, len(sol))))


def plan_faults(sol, N, d, C, D, L, tol=TOL):
    """Everything wrong with a plan, as (kind, text). Empty list: it is a plan
    that serves everybody exactly once within the limits."""
    out = []
    if sol is None:
        return [("none", "no plan returned")]
    try:
        seq = [int(x) for x in sol]
        if any(float(a) != float(b) for a, b in zip(seq, sol)):
            return [("shape", "non-integral node in plan")]
    except Exception as e:
        return [("shape", "plan is not a sequence of nodes: %r" % (sol,))]
    if len(seq) < 1 or seq[0] != 0 or seq[-1] != 0:
        out.append(("shape", "plan does not start and end at the depot"))
    if any(x < 0 or x >= N for x in seq):
        return out + [("shape", "unknown node in plan")]
    cnt = [0] * N
    for x in seq:
        cnt[x] += 1
    miss = [i for i in range(1, N) if cnt[i] == 0]
    twice = [i for i in range(1, N) if cnt[i] > 1]
    if miss:
        out.append(("missing", "customers %s not served" % miss))
    if twice:
        out.append(("twice", "customers %s served more than once" % twice))
    for r in routes_of(seq):
        if C:
            q = sum(d[i] for i in r)
            if q > C + tol * max(1.0, abs(C)):
                out.append(("capacity", "route %s carries %r > %r" % (r, q, C)))
        if L:
            l = cost([0] + r + [0], D)
            if l > L + tol * max(1.0, abs(L)):
                out.append(("length", "route %s costs %r > %r" % (r, l, L)))
    return out
