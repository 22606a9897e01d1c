"""Fixed tables of module configurations (specs) used by the generated checks."""

EXPLICIT = [
    {"kind": "easif", "n": 2, "m": 1, "low": -1, "high": 1, "constraints": [{"alpha": [0, 1.0]}]},
    {"kind": "easif", "n": 3, "m": 2, "low": -1, "high": 1, "constraints": [{"alpha": [0, 0.5, 0, 0.1], "off0": True}, {"alpha": [0, 2.0], "bias": -0.1}]},
    {
        "kind": "easif", "n": 3, "m": 2, "low": [-1.0, -0.5], "high": [0.75, 2.0],
        "constraints": [{"alpha": [0, 0.7], "alpha_negative": [0, 3.0, 0, 0.5], "bias_negative": -0.25}, {"alpha": {"tanh": 1.5}}, {"alpha": [0, 0.25], "off0": True}],
        "direct": 1, "direct_off0": True,
    },
    {
        "kind": "easif", "n": 4, "m": 3, "low": {"array": [-2.0, -1.0, -0.25]}, "high": {"array": [2.0, 0.5, 1.0]},
        "constraints": [{"alpha": [0, 1.0, 0, 0.2], "bias": 0.05}, {"alpha": [0, 0.3], "bias_negative": 0.0}, {"alpha": [0, 1.5], "bias": -0.02}],
    },
    {"kind": "easif", "n": 4, "m": 3, "constraints": [{"alpha": [0, 1.0]}, {"alpha": [0, 0.5]}], "direct": 2},
    {"kind": "easif", "n": 2, "m": 1, "high": 0.5, "constraints": [{"alpha": [0, 0.8], "bias_negative": 0.1}]},
    {"kind": "easif", "n": 3, "m": 2, "low": -0.5, "constraints": [{"alpha": [0, 0.8, 0.05]}, {"alpha": [0, 0.1, 0, 0.6], "alpha_negative": {"tanh": 4.0}}]},
    {"kind": "easif", "n": 2, "m": 1, "low": -2, "high": 2, "no_jit": True, "constraints": [{"alpha": [0, 0.6]}, {"alpha": [0, 1.2], "bias": -0.05}], "direct": 1},
]

EXPLICIT_SLACK = [
    {"kind": "easif", "n": 2, "m": 1, "low": -1, "high": 1, "constraints": [{"alpha": [0, 1.0], "slack": 1e4}]},
    {"kind": "easif", "n": 3, "m": 2, "low": -1, "high": 1, "constraints": [{"alpha": [0, 1.0], "slack": 16.0, "off0": True}, {"alpha": [0, 0.5], "slack": 4e6}, {"alpha": [0, 0.25]}]},
    {"kind": "easif", "n": 3, "m": 2, "low": [-1.0, -2.0], "high": [0.5, 1.0], "constraints": [{"alpha": [0, 0.5]}, {"alpha": [0, 0.75], "slack": 1e12}], "direct": 1},
    {"kind": "easif", "n": 4, "m": 3, "low": -1, "high": 1, "constraints": [{"alpha": [0, 1.0], "slack": 1e6}, {"alpha": [0, 1.0], "slack": 1e2}]},
    {"kind": "easif", "n": 4, "m": 3, "low": -1, "high": 1, "constraints": [{"alpha": [0, 1.0], "slack": 1e12}, {"alpha": [0, 0.3], "slack": 1e8, "off0": True}, {"alpha": [0, 2.0], "slack": 1e4}]},
]

IMPLICIT = [
    {"kind": "iasif", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 0.5, "constraints": [{"alpha": [0, 1.0]}]},
    {
        "kind": "iasif", "n": 3, "m": 2, "low": -1, "high": 1, "backup_window": 1.0, "integration_method": "RK45",
        "constraints": [{"alpha": [0, 0.5, 0, 0.1]}, {"alpha": [0, 2.0], "bias": -0.1, "subsample": {"subsample_constraints_num_least": 2}}],
    },
    {
        "kind": "iasif", "n": 3, "m": 2, "low": [-1.0, -0.5], "high": [0.75, 2.0], "backup_window": 1.5,
        "constraints": [{"alpha": [0, 1.0], "subsample": {"num_check_all": 3, "skip_length": 2}}, {"alpha": [0, 0.5], "off0": True, "subsample": {"skip_length": 3, "keep_last": True}}],
        "direct": 1, "direct_off0": True,
    },
    {
        "kind": "iasif", "n": 4, "m": 3, "low": {"array": [-2.0, -1.0, -0.25]}, "high": {"array": [2.0, 0.5, 1.0]}, "backup_window": 1.0,
        "constraints": [
            {"alpha": [0, 1.0], "bias": 0.05, "subsample": {"subsample_constraints_num_least": 1, "keep_first": True, "keep_last": True}},
            {"alpha": [0, 0.3], "subsample": {"num_check_all": 2, "skip_length": 4, "subsample_constraints_num_least": 3}},
        ],
    },
    {"kind": "iasif", "n": 2, "m": 1, "backup_window": 2.0, "constraints": [{"alpha": [0, 1.0], "subsample": {"num_check_all": 4, "skip_length": 3, "keep_last": True}}]},
    {"kind": "iasif", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 0.75, "backup": "array", "constraints": [{"alpha": [0, 1.0]}, {"alpha": [0, 0.5]}]},
    {"kind": "iasif", "n": 3, "m": 2, "high": 1.0, "backup_window": 0.75, "backup": "dict", "integration_method": "RK45", "constraints": [{"alpha": [0, 0.8]}]},
    {"kind": "iasif", "n": 2, "m": 1, "low": -1, "high": 1, "no_jit": True, "backup_window": 0.5, "constraints": [{"alpha": [0, 1.0], "subsample": {"skip_length": 2}}]},
]

IMPLICIT_SLACK = [
    {
        "kind": "iasif", "n": 3, "m": 2, "low": -1, "high": 1, "backup_window": 1.0,
        "constraints": [{"alpha": [0, 1.0], "slack": 1e6, "off0": True, "subsample": {"skip_length": 2}}, {"alpha": [0, 0.5]}, {"alpha": [0, 0.5], "slack": 1e2}],
    },
    {"kind": "iasif", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 0.5, "constraints": [{"alpha": [0, 1.0]}, {"alpha": [0, 1.0], "slack": 1e12}]},
]

ESIMPLEX = [
    {"kind": "esimplex", "n": 2, "m": 1, "low": -1, "high": 1, "constraints": [{}]},
    {"kind": "esimplex", "n": 3, "m": 2, "low": [-1.0, -0.5], "high": [0.75, 2.0], "constraints": [{"bias": -0.2}, {}, {"bias": 0.1}]},
    {"kind": "esimplex", "n": 4, "m": 3, "constraints": [{"off0": True}, {}]},
    {"kind": "esimplex", "n": 3, "m": 2, "low": -0.5, "backup": "array", "constraints": [{}, {"phi": True}]},
    {"kind": "esimplex", "n": 2, "m": 1, "high": 0.5, "no_jit": True, "constraints": [{}, {}]},
    {"kind": "esimplex", "n": 4, "m": 3, "low": -1, "high": 1, "jit_compile_dict": {"pred_state": True, "constraint_violation": False}, "constraints": [{"phi": True}, {}]},
]

ISIMPLEX = [
    {"kind": "isimplex", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 1.0, "constraints": [{}]},
    {"kind": "isimplex", "n": 3, "m": 2, "low": [-1.0, -0.5], "high": [0.75, 2.0], "backup_window": 1.5, "constraints": [{"bias": -0.2}, {}, {"bias": 0.1}]},
    {"kind": "isimplex", "n": 4, "m": 3, "backup_window": 0.75, "constraints": [{}, {"off0": True}]},
    {"kind": "isimplex", "n": 3, "m": 2, "low": -0.5, "backup": "dict", "backup_window": 1.0, "constraints": [{}, {"phi": True}]},
    {"kind": "isimplex", "n": 2, "m": 1, "high": 0.5, "no_jit": True, "backup_window": 0.5, "constraints": [{}, {}]},
    {"kind": "isimplex", "n": 4, "m": 3, "low": -1, "high": 1, "backup_window": 1.0, "jit_compile_dict": {"integrate": True}, "constraints": [{}]},
]

DISCRETE = [
    {"kind": "discrete", "n": 2, "m": 1, "low": -1, "high": 1, "constraints": [{"alpha": [0, 0.5]}]},
    {"kind": "discrete", "n": 3, "m": 2, "low": [-1.0, -0.5], "high": [0.75, 2.0], "constraints": [{"alpha": [0, 0.5]}, {"alpha": [0, 0.25, 0, 0.01], "bias": -0.1, "off0": True}]},
    {"kind": "discrete", "n": 4, "m": 3, "low": {"array": [-2.0, -1.0, -0.25]}, "high": {"array": [2.0, 0.5, 1.0]}, "constraints": [{"alpha": [0, 0.3]}, {"alpha": [0, 0.9]}]},
    {"kind": "discrete", "n": 3, "m": 2, "constraints": [{"alpha": [0, 0.5]}]},
    {"kind": "discrete", "n": 2, "m": 1, "high": 1.0, "constraints": [{"alpha": [0, 0.5], "bias": 0.1}]},
    {"kind": "discrete_int", "n": 2, "m": 1, "low": -1, "high": 1, "constraints": [{"alpha": [0, 0.5]}]},
    {"kind": "discrete_int", "n": 3, "m": 2, "low": -1.5, "constraints": [{"alpha": [0, 0.25]}, {"alpha": [0, 0.5]}]},
]

DISCRETE_SLACK = [
    {"kind": "discrete", "n": 3, "m": 2, "low": -1, "high": 1, "constraints": [{"alpha": [0, 0.5], "slack": 100.0}, {"alpha": [0, 0.3]}]},
    {"kind": "discrete", "n": 3, "m": 2, "low": -1, "high": 1, "constraints": [{"alpha": [0, 0.3], "slack": 25.0, "off0": True}, {"alpha": [0, 0.5], "slack": 400.0}]},
]
