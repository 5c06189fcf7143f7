"""Which binaries decide which property, on how many ranks, in how many shards."""

from texts import TEXT

LIB = ["source/common/", "source/dealii/"]
BINARIES = {
    "agg": {"harness": ["agg.cc", "dense.cc"], "repo": ["source/common/amge.cc"], "ldflags": "-lz"},
    "ops": {"harness": ["ops.cc", "dense.cc", "abi_shim.cc"], "repo": [
        "source/common/utils.cc", "source/dealii/dealii_utils.cc",
        "source/dealii/dealii_trilinos_matrix_operator.cc",
        "source/dealii/dealii_matrix_operator.cc",
        "source/dealii/dealii_matrix_free_operator.cc",
        "source/dealii/dealii_matrix_free_smoother.cc",
        "source/dealii/dealii_smoother.cc", "source/dealii/dealii_solver.cc",
        "source/dealii/dealii_mesh_evaluator.cc",
        "source/dealii/dealii_matrix_free_mesh_evaluator.cc"]},
    "eig": {"harness": ["eig.cc", "dense.cc", "abi_shim.cc"], "repo": []},
    "sched": {"harness": ["sched.cc", "scheduler.cc", "dense.cc", "abi_shim.cc"], "repo": LIB,
              "tag": "o-sched", "compiler": "g++", "ldflags": "-ldl",
              "flags": "-I@HERE@/overlay -finstrument-functions -ftls-model=initial-exec"},
    "hier": {"harness": ["hier.cc", "dense.cc", "abi_shim.cc"], "repo": LIB},
}

LEVEL_ASSUMPTIONS = [
    "deal.II, p4est, Trilinos, METIS, LAPACK/ARPACK/UMFPACK and MPI behave as documented; they run as part of every execution but are not the subject",
    "mfmg is compiled from /repo's working tree with -O0 -DNDEBUG (release semantics: ASSERT is off)",
]


def ranks(bin, quick, ns=(1, 2, 3, 4), thorough=None, opts=None):
    return [{"bin": bin, "ranks": n, "opts": opts or {},
             "shards": {"quick": quick.get(n, 1), "thorough": (thorough or quick).get(n, 1)}}
            for n in ns]


PLAN = {
    "C01": {"jobs": ranks("agg", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C02": {"jobs": ranks("agg", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C03": {"jobs": ranks("agg", {1: 4, 2: 2, 3: 2, 4: 2})
            + ranks("agg", {1: 1, 2: 1, 3: 1, 4: 1}, opts={"reverse": 1})},
    "C04": {"jobs": ranks("agg", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C05": {"jobs": ranks("agg", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C06": {"jobs": ranks("agg", {1: 4, 2: 2, 3: 2, 4: 2}) + ranks("hier", {1: 2, 2: 1, 3: 1, 4: 1})},
    "C21": {"jobs": ranks("agg", {1: 4, 2: 2, 3: 2, 4: 2}) + ranks("ops", {1: 4, 2: 2, 3: 2, 4: 2})
            + ranks("agg", {}, (11,))},
    "C07": {"jobs": ranks("ops", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C22": {"jobs": ranks("ops", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C23": {"jobs": ranks("ops", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C24": {"jobs": ranks("ops", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C15": {"jobs": ranks("ops", {1: 8}, (1,))},
    "C12": {"jobs": ranks("eig", {1: 8}, (1,))},
    "C13": {"jobs": ranks("eig", {1: 8}, (1,))},
    "C14": {"jobs": ranks("eig", {1: 8}, (1,))},
    "C08": {"jobs": ranks("hier", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C09": {"jobs": ranks("hier", {1: 4, 2: 2, 3: 2, 4: 2})},
    "C10": {"jobs": ranks("hier", {1: 4, 2: 2}, (1, 2))},
    "C11": {"jobs": ranks("hier", {1: 8, 2: 2}, (1, 2))},
    "C17": {"jobs": ranks("hier", {1: 4, 2: 2, 3: 2}, (1, 2, 3))},
    "C20": {"jobs": ranks("hier", {1: 5, 2: 1}, (1, 2))},
    "C19": {"jobs": ranks("sched", {1: 16, 2: 2}, (1, 2))},
    "C16": {"jobs": ranks("ops", {1: 8}, (1,))},
}

for _id, (_rule, _quick, _thorough) in TEXT.items():
    PLAN[_id].update(rule=_rule, bounds={"quick": _quick, "thorough": "as quick, further: " + _thorough})

NOT_APPLICABLE = {
    "C25": "The CUDA back end needs nvcc, the CUDA libraries and a device; none exists in this sandbox and the headers do not compile without them, so no execution of that code can be enumerated here. A model of it could not be bound to the code by replaying traces.",
}
