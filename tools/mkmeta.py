"""Writes properties.jsonl and MANIFEST.json (development helper, not used by the checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "run_time_assurance/"
BASE, SIM, ASIF, CON, CTL = R + "rta/base.py", R + "rta/simplex.py", R + "rta/asif.py", R + "constraint.py", R + "controller.py"
D2, D3, I1, I3, INT = (R + "zoo/cwh/docking_2d.py", R + "zoo/cwh/docking_3d.py", R + "zoo/cwh/inspection_1v1.py", R + "zoo/cwh/inspection_3d.py", R + "zoo/integrators/integrator_1d.py")
CWU, ST, RST = R + "zoo/cwh/utils.py", R + "utils/sample_testing.py", R + "zoo/cwh/random_sample_testing.py"

def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or [])

PROPS = [
P("C01", "Filtered control always respects the actuation bounds",
  "For every enabled filter the returned control has the dimension of the desired control, is finite for finite inputs, and lies elementwise within the configured lower and upper bounds, whatever form the bounds were given in (scalar, list, array, one sided or none). A disabled filter returns the desired control unchanged and reports that it is not intervening. The caller's state and control arrays are never modified, and the returned array does not share memory with them.",
  ["inputs", "configurations"], "all rta modules x bound forms x states x desired controls (far outside the bounds included)",
  "The tests run a few fixed episodes with scalar symmetric bounds and one desired controller.",
  [BASE, ASIF, SIM, I1, I3], [("clipping of the filtered control", BASE + " RTAModule._clip_control / filter_control"), ("actuation rows of the QP", ASIF + " _generate_actuation_constraint_mats"), ("SLSQP bounds", ASIF + " DiscreteASIFModule.__init__")],
  "Bounds are checked to float32 rounding; finite inputs of moderate magnitude only."),
P("C02", "Explicit ASIF returns the closest control satisfying every barrier condition",
  "When the constraints are consistent, an explicit optimization filter returns, up to rounding, the control closest in Euclidean norm to the desired control among those within the bounds for which every enabled constraint h satisfies grad h(x)(f(x)+g(x)u) + alpha(h(x)) >= 0 and every enabled direct inequality constraint holds. Where h (bias included) is negative, alpha is replaced by the negative strengthening function (ten times alpha by default) plus the negative bias. A desired control that already satisfies all of these is returned unchanged. The call comes to an end, also when constraints coincide.",
  ["inputs", "configurations"], "all states, desired controls, dynamics, constraint functions/parameters, strengthening functions, biases, bound forms; generic systems and every explicit zoo module",
  "The tests only compare a few recorded episodes of the zoo modules; minimality and the negative branch are never compared with an optimum.",
  [ASIF, CON], [("barrier rows", ASIF + " ExplicitASIFModule._generate_barrier_constraint_mats"), ("QP", ASIF + " ASIFModule._optimize"), ("direct rows", ASIF + " _update_ineq_mats")],
  "Reference QP in float64 with interval right hand sides sized by float32 error; near-degenerate (ambiguous) problems are counted and skipped."),
P("C03", "Implicit ASIF enforces barrier conditions along the backup trajectory",
  "An implicit optimization filter returns, up to rounding, the control closest to the desired one that is within the bounds and satisfies, for every enabled constraint and every point kept by its subsampling configuration, grad h(x_k) Phi_k (f(x_0)+g(x_0)u) + alpha(h(x_k)) >= 0. The points x_k are the states reached every step over the whole backup window when the clipped backup control is applied, Phi_k is the propagated sensitivity of x_k to x_0. Subsampling keeps exactly the documented points: the first num_check_all, then every skip_length-th, of these the num_least with least h, plus first and last when asked.",
  ["inputs", "configurations"], "all states, desired controls, dynamics, stateless/stateful backup controllers, windows, step sizes, integration methods, subsampling configurations",
  "No stable test runs an implicit optimization filter at all, and none uses subsampling options beyond one.",
  [ASIF, CON, CTL], [("trajectory and sensitivities", ASIF + " ImplicitASIFModule.integrate"), ("rows", ASIF + " invariance_constraints"), ("subsampling", ASIF + " subsample_constraints")],
  "Reference trajectory and sensitivities in float64; the adaptive integrator's own tolerance is included in the row uncertainty."),
P("C04", "Discrete ASIF satisfies the discrete barrier condition with minimal change",
  "When its solver succeeds, a discrete optimization filter returns a control within the bounds such that for every enabled constraint (h(x_next) - h(x))/dt + alpha(h(x)) >= 0 (up to solver tolerance), where x_next is the state after one step of the filter's own model under that control. No admissible control is appreciably closer to the desired control, and a desired control that already satisfies everything is returned unchanged.",
  ["inputs", "configurations"], "all states, desired controls, step sizes, dynamics (closed form next state or integrated state derivative), constraints, bound forms",
  "No stable test runs a discrete filter.",
  [ASIF, CON, I1], [("discrete CBF", CON + " DiscreteCBFConstraint.cbf_fn"), ("SLSQP", ASIF + " DiscreteASIFModule._filter_control"), ("differentiable ODE step", ASIF + " DifferentiableODESolver.step")],
  "Minimality is checked against sampled/feasible competitors and, for convex cases, the exact optimum, within the SLSQP tolerance."),
P("C05", "Explicit simplex switches exactly when the next state would be unsafe",
  "An unlatched explicit switching filter returns the (clipped) desired control when every enabled constraint h is non-negative at the state predicted one step ahead under that clipped control. Otherwise, and only then, it returns the backup controller's control clipped to the bounds. It reports that it is intervening exactly in the second case.",
  ["inputs", "configurations"], "all states, desired controls, step sizes, dynamics, constraints (bias included), bound forms, generic systems and zoo modules",
  "Tests run fixed episodes; a wrong decision in one step or direction rarely shows in their end condition.",
  [SIM, BASE], [("monitor", SIM + " ExplicitSimplexModule._monitor"), ("violation test", SIM + " _constraint_violation"), ("switch", SIM + " SimplexModule._filter_control")],
  "Decisions whose least constraint value is within float32 error of zero are counted and skipped."),
P("C06", "Implicit simplex switches exactly when the backup trajectory is unsafe",
  "An unlatched implicit switching filter returns the (clipped) desired control when every enabled constraint is non-negative at the state after one step of that control and at every step of the following trajectory under the clipped backup control over the complete backup window. Otherwise, and only then, it returns the clipped backup control and reports that it is intervening.",
  ["inputs", "configurations"], "all states, desired controls, step sizes and windows, dynamics, stateless and stateful backup controllers, constraints, bound forms",
  "Tests run fixed episodes of the zoo modules with one window and step size.",
  [SIM, BASE, CTL], [("trajectory", SIM + " ImplicitSimplexModule.integrate"), ("monitor", SIM + " ImplicitSimplexModule._monitor")],
  "Decisions within numerical error of the boundary are counted and skipped."),
P("C07", "Simplex latching holds the backup control for the latch time, then re-evaluates",
  "Once a switching filter intervenes it returns the backup control (and reports intervening) in every following call until the accumulated step sizes of those calls reach the latch time, whatever the desired controls and states are. It then evaluates the situation afresh and either releases or starts a new full latch. A latch never survives a reset or a call made while the filter is disabled, and a zero latch time means every call is evaluated afresh.",
  ["histories", "configurations"], "all call sequences with varying states, desired controls, step sizes, latch times, enable toggles and resets",
  "No test uses a latch time.",
  [SIM], [("latch counter", SIM + " SimplexModule._filter_control"), ("reset", SIM + " SimplexModule.reset")],
  "Model based: explicit state machine of the latch driven next to the filter; ambiguous decisions end the sequence."),
P("C08", "Infeasible problems are signalled, and slack relaxes constraints by priority",
  "When no control within the bounds satisfies all constraints, an optimization filter either raises its solver error (if so configured) or warns and falls back: to the clipped desired control (continuous) or to a control still within bounds (discrete). A constraint with a slack priority never makes the problem infeasible; it is violated only as far as hard constraints force, higher priority scales yielding less, and hard constraints stay satisfied. A continuous filter never reports a consistent problem as infeasible, and slack leaves consistent problems' solutions essentially unchanged for large scales.",
  ["inputs", "configurations"], "infeasible and barely feasible problems, slack scales from small to 1e12, any number of slack constraints, continuous and discrete filters, solver_exception on and off",
  "Tests neither provoke an infeasible problem nor use slack variables.",
  [ASIF, R + "utils/utils.py"], [("error handling", ASIF + " ASIFModule._optimize"), ("slack columns", ASIF + " _generate_barrier_constraint_mats"), ("discrete slack", CON + " DiscreteCBFConstraint.cbf_fn")],
  "The slack weight is the square root of the scale as implemented in the continuous filters (see known findings for the documentation mismatch)."),
P("C09", "Changed constraint parameters and enable flags take effect on the next call",
  "A parameter of a constraint or direct constraint changed by the user, or an enable flag toggled, is honoured by the very next call exactly as if the filter had been built with it; a disabled constraint has no influence at all. The constraint selection given at construction keeps exactly the named constraints, in order, and selecting none is rejected.",
  ["histories", "configurations"], "all interleavings of calls and parameter/flag changes, all filter kinds, all constraint subsets",
  "One test script changes parameters once per episode at fixed times; caches in compiled functions need other interleavings.",
  [BASE, ASIF, SIM, CON], [("parameter refresh", BASE + " ConstraintBasedRTA._update_params"), ("disabled branches", ASIF + "/" + SIM + " constraint_disabled"), ("selection", BASE + " ConstraintBasedRTA.__init__")],
  "Differential: against the reference oracle for the current parameters and against a freshly built filter."),
P("C10", "A reset filter behaves like a freshly constructed one",
  "After any history of calls, toggles and interventions, resetting a filter makes all its subsequent outputs, intervention flags and reports equal to those of a newly constructed filter given the same calls. This includes latches, backup controller state, nested filters of a cascade and attribution of interventions.",
  ["histories"], "all histories before the reset and all call sequences after it, all filter kinds including stateful backup controllers, cascades, the combined inspection filter and the delta-v limiter",
  "Tests never reset a filter after an intervention and compare.",
  [BASE, SIM, ASIF, CTL, I1, I3], [("reset methods", BASE + ", " + SIM + ", " + ASIF + ", " + CTL + ", " + I1 + ", " + I3)],
  "Differential on generated histories; constraint parameters and enable flags set by the user are not part of the reset."),
P("C11", "Reports tell the truth about the last call",
  "After every call the reported desired and actual control equal the call's input and output; an optimization filter reports intervening exactly when the (unclipped) optimum differs from the desired control by more than its threshold, and names exactly the constraints that are active at the optimum as the cause, none when the problem was infeasible. Reported constraint values are the user-facing constraint functions of the state last given, labelled as belonging to the last state until refreshed with the new one. Reports handed out earlier are not changed by later calls, nor by the caller modifying the arrays passed in or returned.",
  ["inputs", "histories"], "all calls and histories, all filter kinds, thresholds",
  "Tests log info but never check it.",
  [BASE, ASIF, SIM], [("info", BASE + " generate_info"), ("monitor", ASIF + " BaseOptimizationModule.monitor"), ("names", ASIF + " ASIFModule._optimize / constraint_names")],
  "Near-threshold distances and degenerate active sets are counted and skipped."),
P("C12", "Cascaded and combined filters equal the composition of their parts",
  "A cascade returns the control obtained by passing the desired control through its filters in order, each seeing the same state and the previous filter's output, and reports intervening exactly when some member did. The combined inspection filter gives each deputy the control that the single deputy filter would return for it, seeing itself first and all other deputies in order, and reports intervening when any deputy's control was changed. Bounds of the outer filter are applied to the result.",
  ["inputs", "configurations"], "all lists of filters (any order, any length), states, desired controls; any number of deputies",
  "Tests run the library's only cascade in one fixed episode and never look at the combined filter's reports.",
  [BASE, I3, I1], [("cascade loop", BASE + " CascadedRTA.compute_filtered_control"), ("agent permutation", I3 + " CombinedInspectionRTA.get_agent_state")],
  "Differential against member filters called by hand."),
P("C13", "Filtering is deterministic, pure and independent of jit settings",
  "The result of a filter without memory (optimization filters, unlatched switching filters with stateless backup) depends only on state, step size, desired control, parameters and flags: not on earlier calls, other filter instances, the array type of the inputs, whether the state is given as an array or read from a custom type, or whether compilation is enabled (up to rounding). The caller's arrays are not modified and returned arrays do not alias internal state.",
  ["histories", "inputs", "configurations"], "all call histories, interleaved instances, input array types and jit switches",
  "Tests use one instance, one array type and default compilation.",
  [BASE, ASIF, SIM, CTL, CON], [("compose", ASIF + " / " + SIM + " / " + CON + " compose"), ("state conversion", BASE + " _get_state")],
  "Bitwise comparison for repeated calls; rounding tolerance between jit modes."),
P("C14", "Zoo constraint functions and gradients match their mathematical definitions",
  "Every constraint of the docking, inspection and integrator modules evaluates to its documented formula (relative velocity limit, velocity limits, stopping-distance keep-out and keep-in zones, conic keep-out zone around the moving sun line, passively safe maneuver over the free-drift horizon, integrator collision), is non-negative exactly on its documented set and reports the documented logging value; the gradient used by the filters is the derivative of that function. Zoo modules configure them with the given parameters, and a constraint class strengthens with the function it is given or its documented default.",
  ["inputs", "configurations"], "all states away from the non-differentiable boundaries, all parameters (radii, limits, mean motion, mass, field of view, number of deputies)",
  "Tests never evaluate a constraint against an independent formula.",
  [D2, D3, I1, I3, INT, CON], [("constraints", D2 + ", " + D3 + ", " + I1 + ", " + I3 + ", " + INT)],
  "Independent float64 formulas; geometric definitions (cone distance, free drift by matrix exponential) where possible; gradients by finite differences."),
P("C15", "Zoo dynamics and backup controllers implement CWH/integrator physics and LQR",
  "The state transition of every zoo module equals the Clohessy-Wiltshire (or point mass) equations for the given mass and mean motion, sun angle and delta-v bookkeeping included; predicted and discrete next states equal the exact solution of these equations over the step. The docking backup controllers apply the stabilising LQR feedback that brings the velocity to zero, and state wrapper accessors read and write exactly their own component.",
  ["inputs", "configurations"], "all states, controls, step sizes, masses, mean motions, numbers of deputies",
  "Tests use default mass and mean motion only and never compare with an exact solution.",
  [CWU, D2, D3, I1, I3, INT, R + "state.py"], [("matrices", CWU + " generate_cwh_matrices"), ("prediction", D2 + "/" + D3 + " _docking_pred_state"), ("discrete matrices", I1 + " discrete_a_mat/discrete_b_mat"), ("LQR", D2 + "/" + D3 + " StopLQRBackupController")],
  "Reference: matrix exponential in float64 and an independent Riccati residual check."),
P("C16", "Generic constraints and higher order barrier functions follow their definitions",
  "The generic limit constraints are non-negative exactly on |x_i|<=L, x_i<=L, x_i>=L with the documented value, bias shifts the enforced value but not the reported one, and polynomial strengthening evaluates the given polynomial. A higher order barrier constraint of relative degree r equals psi_{r-1} with psi_0 = h and psi_{k+1} = grad psi_k . f + alpha(psi_k), carries h's parameters, and reports h itself as its logging value.",
  ["inputs", "configurations"], "all states, limits, biases, polynomials, relative degrees, drift dynamics",
  "Tests only use one higher order constraint of degree two in a script that does not assert its value.",
  [CON], [("limits", CON + " ConstraintMagnitudeStateLimit/Max/Min"), ("HOCBF", CON + " HOCBFConstraint"), ("polynomial", CON + " PolynomialConstraintStrengthener")],
  "Reference by float64 automatic recursion with analytic polynomials / finite differences."),
P("C17", "Zoo filters keep the system inside its safe set in closed loop",
  "Starting from a state inside the safe set, a zoo filter with its default configuration keeps every constraint satisfied (up to the discretisation margin) at every step of a closed-loop simulation of its own dynamics, whatever desired control an adversary applies, for as long as its optimization stays feasible (no solver error or warning).",
  ["inputs", "histories"], "all safe initial states and all adversarial desired control sequences (bang-bang, towards the obstacle, random, saturating) for docking, integrator and inspection modules",
  "Tests run a few fixed initial states with one (benign) desired controller.",
  [ASIF, SIM, D2, D3, INT, I1, I3], [("complete filter", ASIF + ", " + SIM), ("zoo configuration", D2 + ", " + D3 + ", " + INT + ", " + I1 + ", " + I3)],
  "Bounded horizon, plant stepped by the exact zero order hold solution; steps well below the time constants of the strengthening functions; for the implicit integrator filters the part of the line its backup window covers; small discretisation margin."),
P("C18", "Sample testing reports safety truthfully",
  "Every episode of a safety test starts from a reset filter (one that the user disabled stays disabled) and is reported safe exactly when every constraint stayed satisfied at every simulated step and the filter never raised its solver error, and unsafe otherwise; initial states that are unsafe by either constraint view are redrawn and never counted. Recorded trajectories contain the actual states, controls and intervention flags in order, starting with the initial state, and run until the done condition. Sampled initial states lie within the requested bounds or follow the requested distributions.",
  ["inputs", "histories", "fault_sequences"], "all dynamics, constraint parameters, desired controllers, done conditions, failing solver steps",
  "No test exercises the sample testing module.",
  [ST, RST], [("episode", ST + " _simulate_episode"), ("data tracking", ST + " simulate_episode"), ("samplers", ST + " LatinHypercube/Parametric")],
  "Scripted filters and dynamics with an independent replay of the episode; only files in a scratch directory are written."),
P("C19", "Stateful backup controllers are predicted faithfully and left undisturbed",
  "Predicting a backup trajectory never changes the backup controller: its internal state advances only by backup controls actually applied. The prediction itself starts from the current internal state, so a switching filter with a stateful controller decides and acts as the true closed loop would. Saving then restoring returns the state at the save, resetting returns the initial state, and the controller Jacobian is the derivative of its control.",
  ["histories", "inputs"], "all call histories, controller state representations (none, array, dict), save/restore/reset orders",
  "No test has a backup controller with internal state.",
  [CTL, SIM, ASIF, BASE], [("save/restore", CTL + " save/restore"), ("trajectory", SIM + " ImplicitSimplexModule.integrate, " + ASIF + " ImplicitASIFModule.integrate")],
  "Model based against an explicit float64 controller model."),
P("C20", "The delta-v limiter never lets the predicted budget be exceeded",
  "The delta-v limiter passes the desired control on exactly as long as one step of it followed by its station keeping controller for the prediction horizon keeps the accumulated delta-v within the limit. From the first call where this fails it applies its clipped station keeping control, with integral action, and reports intervening in every further call until reset.",
  ["inputs", "histories"], "all states, accumulated delta-v values, desired control sequences, limits, horizons, masses and mean motions for which it can be constructed",
  "The limiter is only exercised by cascade tests whose horizon never comes near the budget.",
  [I1], [("prediction and latch", I1 + " SwitchingDeltaVLimitRTA.compute_filtered_control"), ("backup", I1 + " SwitchingDeltaVLimitRTA.backup_control")],
  "Reference model with the gains computed by an independent Riccati solution."),
]
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    import sys
    sys.path[:0] = [V]
    done = sorted(x.strip() for x in open(os.path.join(V, "tools", "claimed.txt")).read().split())
    checks = []
    for p in PROPS:
        if p["id"] in done:
            checks.append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 run.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p['id']}", "technique": "property-based testing (Hypothesis) against a float64 reference/model oracle", "level": "exploration", "level_note": p["note"]})
    na = [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in done]
    json.dump({"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na, "notes": "No hooks are used: every check drives the library through its public methods and documented extension points."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

main()
