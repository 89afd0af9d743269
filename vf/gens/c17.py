"""C17 refusal of contradictory input"""
from .compose import *
from .c12 import T_BCS

LEVEL = "exploration"
RULE = ("a case is one valid model that is accepted, spoiled in one named way and initialised again; non-trivial when the valid model "
        "was accepted and the spoiled one judged; distinct by specification, way of spoiling and its random choices")
ASSUMPTIONS = ["only contradictions the code or the user guide already declares invalid are judged",
               "refusing means raising the documented kind of error no later than Simulation.initialise"]
ACTS = ["no_dt", "dt_in_steady", "no_final_time", "no_temperature", "heat_without_start", "wrong_temperature_type", "wrong_dt_type",
        "two_conditions_on_a_surface", "dirichlet_twice_on_a_trap", "condition_on_unknown_field", "surface_kinetics_not_1d",
        "heat_condition_without_heat", "heat_source_without_heat", "source_on_unknown_field", "start_of_unknown_field",
        "same_material_id", "property_missing_in_one_material", "extra_property_in_one_material", "borders_missing",
        "borders_with_gap_or_overlap", "borders_not_to_the_end", "borders_not_from_zero", "coordinates_beyond_dimension",
        "heat_without_conductivity", "transient_heat_without_capacity", "half_a_solubility", "unknown_solubility_law",
        "trap_in_unknown_material", "trap_twice_in_a_material", "trap_material_of_wrong_type", "henry_with_traps",
        "wrong_thing_in_a_list", "wrong_thing_in_the_model", "bad_file_name", "bad_xdmf_mode", "bad_xdmf_option",
        "quantity_on_no_subdomain", "angles_out_of_range", "adsorbed_without_surface_model", "restart_without_label_or_step",
        "temperature_file_without_label", "bad_decay_constant", "wrong_newton_solver", "quantity_of_other_coordinates"]
NEED = {"accepted": 100, "refused": 60}
NEED.update({"refused:" + a: 1 for a in ACTS})
BUDGET = {"quick": 40, "thorough": 300}

F1 = [["dirichlet", [1]], ["flux", [2]]]
CORE = [
    dict(nmat=1, bcs=F1, T="xt"),
    dict(nmat=2, traps=[dict(mats=[0, 1], multi=True), dict(mats=[1])], bcs=F1, T="xt", dt="adaptive"),
    dict(nmat=2, traps=[dict(mats=[0, 1], id=2), dict(mats=[1], id=5)], bcs=[["sieverts", [1]], ["recomb", [2]], ["mass", [2]]], T="t", soret=True),
    dict(nmat=3, ids=[9, 0, 6], elt="DG", traps=[dict(mats=[1])], bcs=[["implantation", [1, 2]]], T="t", sources=[["source", [0]]]),
    dict(nmat=2, sandwich=True, bcs=F1, T="t", with_k=True),
    dict(nmat=2, chem=True, traps=[dict(mats=[1], id=3), dict(mats=[0], id=1)], bcs=F1, T="xt"),
    dict(nmat=2, heat="transient", bcs=F1 + T_BCS + [["convective", [2]]], sources=[["source", [0], dict(field="T")]]),
    dict(nmat=2, heat="steady", bcs=[["henrys", [1]]] + T_BCS),
    dict(nmat=1, bcs=[["surfkin", [1]], ["implantation", [2]]], T="t", traps=[dict(mats=[0])]),
    dict(nmat=2, steady=True, bcs=[["custom_dirichlet", [1, 2]]], traps=[dict(mats=[1])], T="x"),
    dict(dim=2, nmat=2, traps=[dict(mats=[0, 1])], bcs=[["custom_dirichlet", [1]], ["custom_flux", [2]]], T="xt"),
    dict(dim=3, nmat=2, bcs=F1, T="t"),
    dict(typ="cylindrical", nmat=1, bcs=F1, T="xt"),
]
ALWAYS = {"no_dt": 0, "dt_in_steady": 9, "heat_without_start": 6, "surface_kinetics_not_1d": 10, "coordinates_beyond_dimension": 11,
          "henry_with_traps": 5, "transient_heat_without_capacity": 6, "heat_without_conductivity": 7, "borders_missing": 1,
          "dirichlet_twice_on_a_trap": 1, "trap_in_unknown_material": 2, "trap_twice_in_a_material": 2, "same_material_id": 3,
          "property_missing_in_one_material": 4, "extra_property_in_one_material": 1, "borders_with_gap_or_overlap": 3,
          "borders_not_to_the_end": 2, "borders_not_from_zero": 1}


LENGTHS = [2.0 ** -26, 2.0 ** -20, 2.0 ** 10]     # nanometres, micrometres, ...


def make(rng, st, a, L=None):
    spec = fill(rng, st)
    if L:
        spec = Units(L=L).scale(spec)
    return dict(spec=spec, st=dict(st, L=L) if L else st, act=a, seed=rng.randrange(10 ** 9))


def core(tier):
    out = []
    for i, a in enumerate(ACTS):
        rng = random.Random("c17 %s" % a)
        b = []
        sts = [ALWAYS.get(a, i % len(CORE))] + [(i + j) % len(CORE) for j in (1, 4)]
        for j in sts:
            b.append(make(rng, CORE[j], a))
        if a.startswith("borders_"):
            b += [make(rng, CORE[j], a, L) for j in (1, 3, 4) for L in LENGTHS]
        if a == "same_material_id":
            b += [make(rng, CORE[j], a) for j in (4, 4, 4, 4, 4, 4, 3, 3)]
        out.append(b)
    # every structure with clashing conditions
    for i, st in enumerate(CORE):
        rng = random.Random("c17 clash %d" % i)
        out.append([make(rng, st, "two_conditions_on_a_surface") for _ in range(4)])
    return out


def random_batches(rng, tier):
    while True:
        st = rng.choice(CORE)
        spec = fill(rng, st)
        L = rng.choice([None, None] + LENGTHS)
        if L:
            spec, st = Units(L=L).scale(spec), dict(st, L=L)
        yield [dict(spec=spec, st=st, act=rng.choice(ACTS), seed=rng.randrange(10 ** 9), control=i == 0) for i in range(6)]
