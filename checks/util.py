"""Shared replay loop: items are (case, expectation, judge(result, expectation) -> None | str, label)."""
def run(ctx, pid, items, jobs=6, timeout_case=40, args=(), exe=None, confirm=12, env=None):
    exe = exe or ctx.exe
    res = ctx.replay(exe, [i[0] for i in items], jobs=jobs, timeout_case=timeout_case, args=args, env=env)
    bad = [i for i, r in enumerate(res) if items[i][2](r, items[i][1])]
    if bad:   # a disagreement counts only if it shows again
        again = ctx.replay(exe, [items[i][0] for i in bad[:confirm]], jobs=2, timeout_case=timeout_case, args=args, env=env)
        for i, r in zip(bad[:confirm], again):
            w = items[i][2](r, items[i][1])
            if w: ctx.mismatch(f"{pid}:{items[i][3]}:{w}", w, items[i][0])
    ctx.traces += len(items)
    if items: ctx.sample(items[len(items) // 2][0])
    return res
