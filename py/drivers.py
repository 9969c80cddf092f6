"""Per-property drivers: from a seed to recorded runs of the real code."""
import collections, random
import extras, gen, motifs, online, plan, special, spine, typing_cases
from plan import Run, Abort

ALL = ("naive", "numpy", "torch", "jax")
CPU = ("naive", "numpy", "torch")


def finish(r, label=""):
    r.stats = collections.Counter()
    for e in r.events:
        if e["ev"] == "build":
            r.stats["op:" + e["c"]["op"]] += 1
        elif e["ev"] == "eval":
            r.stats["eval:" + e["back"]] += 1
        else:
            r.stats[e["ev"]] += 1
    r.stats.update({"unsupported:" + k: v for k, v in r.unsup.items()})
    r.label = label
    return r


def run(p, backs, reread=False, label=""):
    r = plan.run_plan(p)
    if not r.aborted:
        for h in p["evals"]:
            for b in backs:
                r.eval(h, b)
        if reread:
            r.reread()
    return finish(r, label)


def general(seed, tier):
    return run(gen.general(seed), ("numpy",))


def backends(seed, tier):
    return run(gen.general(seed), ALL)


def profile(backs, **prof):
    return lambda seed, tier: run(gen.general(seed, **prof), backs)


def family(*names, backs=ALL, jax=3):
    """Programs of the named motifs; jax is slow and looked at every `jax`th time."""
    def drv(seed, tier):
        r = random.Random(seed)
        name = names[seed % len(names)]
        bs = [b for b in backs if b != "jax" or r.randrange(jax) == 0]
        on = online.program(getattr(motifs, name), r)
        if not on.aborted:
            if len(on.roots) > 4:
                on.roots = r.sample(on.roots, 4)
            online.evaluate(on, bs)
        return finish(on, name)
    return drv


def red_case(case, seed, tier):
    r = random.Random(seed)
    on = online.program(motifs.red_case(case), r)
    if not on.aborted:
        online.evaluate(on, list(CPU) + (["jax"] if r.randrange(6) == 0 and case["n"] <= 5 else []))
    return finish(on, "reduction")


def ix_case(case, seed, tier):
    r = random.Random(seed)
    on = online.program(motifs.ix_case(case), r)
    if not on.aborted:
        online.evaluate(on, list(CPU) + (["jax"] if r.randrange(12) == 0 else []))
    return finish(on, "access")


def ix_flags(case, seed, tier):
    r = random.Random(seed)
    on = online.program(motifs.ix_case(case), r)
    if not on.aborted:
        extras.switched(on, [h.id for h in on.roots], seed, r, 4)
    return finish(on, "access")


def wrapped(f):
    def drv(*args):
        rs = f(*args)
        if isinstance(rs, list):
            return [finish(r, getattr(r, "label", "")) for r in rs]
        return finish(rs, getattr(rs, "label", ""))
    return drv


DRIVERS = {
    "work": wrapped(special.work_random), "m_work": wrapped(special.work_motif),
    "functions": wrapped(special.functions),
    "m_const": wrapped(special.const_motif), "const_history": wrapped(special.const_history),
    "pure": wrapped(special.pure_random), "m_pure": wrapped(special.pure_motif),
    "env": wrapped(special.env_history), "rewrites": wrapped(special.rewrites), "m_scope": wrapped(special.scope_motif),
    "operators": wrapped(extras.operators),
    "m_ext": wrapped(extras.ext_motif),
    "m_grad": wrapped(extras.grad_motif), "grad": wrapped(extras.grad_random), "grad_function": wrapped(extras.grad_function),
    "printing": wrapped(extras.printing),
    "flags": wrapped(extras.flags_random), "m_flags": wrapped(extras.flags_motif),
    "general": general, "backends": backends,
    "shapes": profile(CPU, dims=[0, 0, 1, 1, 2, 3], p_rec=0.05),
    "infer": profile(("numpy",), p_infer=1.0, dims=[0, 1, 2, 3]),
    "folds": profile(CPU, p_fold=0.5, p_vec=0.05, p_rec=0.1),
    "reduces": profile(CPU, p_reduce=0.4, p_fold=0.05),
    "records": profile(CPU, p_rec=0.9),
    "exts": profile(CPU, p_ext=0.45),
    "m_index": family("ix_vector", "ix_matrix", "ix_rank3", "ix_const", "ix_fold", "ix_scatter"),
    "m_fold": family("fold_pattern", "fold_einsum", "fold_vector", "fold_nested", "fold_helpers", "fold_varying", "fold_pattern", "fold_einsum"),
    "m_reduce": family("red_monoid", "red_batch"),
    "m_record": family("rec_arrays", "rec_where", "rec_fold", "rec_nest", "rec_mismatch"),
    "m_shape": family("sh_broadcast", "sh_kinds", "sh_sizes", "sh_concat"),
    "m_type": family("ty_ops", "ty_calls", "ty_sizes", backs=("numpy",)),
    "m_infer": family("inf_direct", "inf_fold", "inf_none", "inf_scope", backs=("naive", "numpy")),
    "m_std": family("std_concat", "std_concat_inner", "std_where", "std_orempty", "std_slices", "std_minmax", "std_assume", "fold_helpers", "fold_helpers"),
    # cases enumerated by models
    "red_case": red_case,
    "ix_case": ix_case, "ix_flags": ix_flags,
    "const_cases": wrapped(special.const_cases),
    "fn_history": wrapped(special.fn_history),
    "typing": wrapped(typing_cases.typing),
    "spine": wrapped(spine.runs(("numpy",))),
    "spine_cpu": wrapped(spine.runs(CPU)),
    "spine_all": wrapped(spine.runs(CPU, jax=4)),
    "spine_index": wrapped(spine.runs(CPU, jax=24)), "spine_fold": wrapped(spine.runs(CPU, jax=24)),
    "spine_infer": wrapped(spine.runs(("numpy",))), "spine_red": wrapped(spine.runs(CPU, jax=24)),
    "spine_rec": wrapped(spine.runs(CPU, jax=24)),
    "spine_ext": wrapped(spine.runs(("numpy", "torch"))),
    "spine_flags": wrapped(spine.flags), "spine_env": wrapped(spine.env), "spine_pure": wrapped(spine.pure), "spine_work": wrapped(spine.work),
    "spine_grad": wrapped(spine.grad), "spine_print": wrapped(spine.printing),
}
