"""Which drivers decide which property, and how much of each per tier.

Each part is (driver, quick, thorough): numbers of seeds, or for drivers with
a model (cases enumerated by TLC) the fraction 1/k of the cases replayed.
"""
PARTS = {
    "C01": [("general", 3600, 120000), ("spine", 6, 12)],
    "C02": [("backends", 1100, 40000), ("spine_all", 24, 6)],
    "C03": [("m_shape", 2400, 60000), ("shapes", 1000, 40000), ("spine_env", 12, 1)],
    "C04": [("m_type", 3000, 120000), ("typing", 1, 1)],
    "C05": [("m_infer", 2400, 60000), ("infer", 1400, 60000), ("spine_infer", 12, 4)],
    "C06": [("m_index", 2200, 80000), ("spine_index", 5, 6), ("ix_case", 3, 12)],
    "C07": [("m_fold", 2200, 80000), ("folds", 600, 40000), ("spine_fold", 60, 3)],
    "C08": [("m_reduce", 1000, 60000), ("reduces", 700, 40000), ("spine_red", 16, 1), ("red_case", 4, 1)],
    "C09": [("m_record", 1200, 60000), ("records", 700, 40000), ("spine_rec", 30, 2)],
    "C10": [("m_work", 2000, 60000), ("work", 800, 40000), ("spine_work", 12, 4)],
    "C11": [("m_pure", 1200, 40000), ("pure", 800, 30000), ("spine_pure", 16, 1)],
    "C12": [("functions", 2000, 60000), ("fn_history", 12, 4)],
    "C13": [("m_const", 1600, 40000), ("const_history", 2000, 40000), ("const_cases", 2, 8)],
    "C14": [("operators", 5000, 150000)],
    "C15": [("m_grad", 1200, 40000), ("grad", 2200, 60000), ("grad_function", 900, 30000), ("spine_grad", 16, 2)],
    "C16": [("m_ext", 1600, 60000), ("exts", 1000, 40000), ("spine_ext", 24, 2)],
    "C17": [("m_std", 3000, 80000)],
    "C18": [("env", 1400, 60000), ("rewrites", 1400, 60000), ("m_scope", 600, 20000), ("spine_env", 20, 2)],
    "C19": [("printing", 1600, 50000), ("spine_print", 40, 4)],
    "C20": [("flags", 1200, 40000), ("m_flags", 1100, 40000), ("spine_flags", 24, 2), ("ix_flags", 12, 40)],
}


def spine(quick, thorough=None):
    return {"module": "MCSpine", "cfg": {"quick": quick + ".cfg", "thorough": (thorough or quick) + ".cfg"}}


INDEX = {"module": "MCIndex", "cfg": {"quick": "MCIndex.cfg", "thorough": "MCIndexDeep.cfg"}}
MODELS = {
    "spine": spine("MCSpine", "MCSpineDeep"),
    "spine_all": {"module": {"quick": "MCSpine", "thorough": "MCSpineSound"}, "cfg": {"quick": "MCSpine.cfg", "thorough": "MCSpineSound.cfg"}},
    "spine_env": spine("MCSpine"), "spine_pure": spine("MCSpine"), "spine_flags": spine("MCSpine"), "spine_grad": spine("MCSpine"), "spine_print": spine("MCSpine"),
    "spine_index": spine("MCSpineIndex", "MCSpineIndexDeep"), "spine_fold": spine("MCSpineFold"),
    "spine_infer": spine("MCSpineInfer", "MCSpineInferDeep"), "spine_red": spine("MCSpineRed"),
    "spine_ext": spine("MCSpineExt"), "spine_work": spine("MCSpineWork", "MCSpineWorkDeep"), "spine_rec": spine("MCSpineRec"),
    "red_case": {"module": "MCReduce", "cfg": {"quick": "MCReduce.cfg", "thorough": "MCReduceDeep.cfg"}},
    "ix_case": INDEX, "ix_flags": INDEX,
    "const_cases": {"module": "MCConst", "cfg": {"quick": "MCConst.cfg", "thorough": "MCConstDeep.cfg"}, "group": 4},
    "fn_history": {"module": "MCFunction", "cfg": {"quick": "MCFunction.cfg", "thorough": "MCFunctionDeep.cfg"}, "group": 4},
    "typing": {"module": "MCTyping", "cfg": "MCTyping.cfg", "group": 12},
}
LEVEL = "model_checking"
TECHNIQUE = {"*": "TLA+ specification checked with TLC; traces of the real code validated against it"}
NOTE = {"*": "Bounded: every explored program or history of the real code is a behaviour of the TLA+ specification (values exact rationals, "
             "transcendental terms compared within an error bound). Trusts TLC, the recorder in py/plan.py and numpy for reading results back."}
