"""What each property's check is built from."""
SIM_SOURCES = ["sim/src/core.cpp", "sim/src/mpi.cpp", "sim/src/runtime.cpp", "harness/common.cpp"]
CORE_SOURCES = [
    "communication/kernels/all_reduce.cpp", "communication/kernels/p2p.cpp", "communication/kernels/reduce.cpp",
    "communication/kernels/broadcast.cpp", "matrix.cpp", "matrix/matrix_ref.cpp", "communication/communicator_grid.cpp",
    "matrix/tile.cpp", "matrix/distribution.cpp", "init.cpp", "tune.cpp", "matrix_mirror.cpp",
    "communication/communicator.cpp", "memory/memory_chunk.cpp", "memory/memory_view.cpp",
    "common/single_threaded_blas.cpp", "blas/scal.cpp", "communication/communicator_impl.cpp", "communication/datatypes.cpp",
]
# instantiations shared by several harnesses
EIG = ["inst_red2band.cpp", "inst_b2t_d.cpp", "inst_b2t_z.cpp", "inst_tridiag.cpp", "inst_mult.cpp", "inst_tri.cpp",
       "inst_chol.cpp", "inst_eig.cpp"]
CAPI = {"harness": [h + d for h in EIG + ["inst_inverse.cpp"] for d in ("", "|DLAF_INST_SC")],
        "repo": ["c_api/grid.cpp", "c_api/utils.cpp", "c_api/init.cpp", "c_api/factorization/cholesky.cpp",
                 "c_api/inverse/cholesky.cpp", "c_api/eigensolver/eigensolver.cpp", "c_api/eigensolver/gen_eigensolver.cpp"],
        "defines": ["DLAF_WITH_SCALAPACK"], "copies": 6}
CAPI_TARGET = {"harness": ["capi.cpp"], "core": [], "sim": SIM_SOURCES[:3], "shared": CAPI, "ldflags": ["-rdynamic", "-Wl,--whole-archive", "-llapackpp", "-lblaspp", "-Wl,--no-whole-archive", "-lgomp"]}
DUMP_TARGET = dict(CAPI_TARGET, sim=SIM_SOURCES[:3] + ["sim/src/hdf5.cpp"], all_defines=["DLAF_WITH_HDF5"],
                   shared=dict(CAPI, repo=CAPI["repo"] + ["matrix/hdf5.cpp"], all_defines=["DLAF_WITH_HDF5"]))
MINIAPPS = ["cholesky", "eigensolver", "gen_eigensolver", "gen_to_std", "triangular_solver", "triangular_multiplication",
            "triangular_inverse", "inverse_from_cholesky_factor", "reduction_to_band", "band_to_tridiag", "tridiag_solver",
            "bt_band_to_tridiag", "bt_reduction_to_band", "communication", "redistribution"]
MINIAPP_TARGET = {"harness": ["miniapps.cpp"], "core": [], "sim": SIM_SOURCES[:3] + ["sim/src/hdf5.cpp"], "all_defines": ["DLAF_WITH_HDF5"], "ldflags": CAPI_TARGET["ldflags"] + ["-lboost_program_options"],
                  "shared": {"harness": [h + d for h in EIG + ["inst_inverse.cpp", "inst_trmm.cpp", "inst_norm.cpp"] for d in ("", "|DLAF_INST_SC")]
                             + ["inst_miniapp.cpp|MINIAPP=" + m for m in MINIAPPS],
                             "repo": ["matrix/hdf5.cpp"], "all_defines": ["DLAFSIM_BOOST_PROGRAM_OPTIONS", "DLAF_WITH_HDF5"], "ldflags": ["-lboost_program_options"], "copies": 6}}
TARGETS = {
    "C01": {"harness": ["pipeline.cpp"]},
    "C02": {"harness": ["tiles.cpp", "views.cpp"]},
    "C03": {"harness": ["comm_order.cpp", "programs.cpp"] + EIG + ["inst_trmm.cpp", "inst_inverse.cpp"]},
    "C04": {"harness": ["tile_comm.cpp"]},
    "C05": {"harness": ["panel.cpp"]},
    "C06": {"harness": ["copy.cpp"]},
    "C07": {"harness": ["triangular.cpp"]},
    "C08": {"harness": ["cholesky.cpp"]},
    "C09": {"harness": ["inverse.cpp"]},
    "C10": {"harness": ["gen_to_std.cpp"]},
    "C11": {"harness": ["red2band.cpp", "inst_red2band.cpp"]},
    "C12": {"harness": ["band2tridiag.cpp", "inst_b2t_d.cpp", "inst_b2t_z.cpp"]},
    "C13": {"harness": ["tridiag.cpp", "inst_tridiag.cpp", "inst_mult.cpp"]},
    "C14": {"harness": ["eigensolver.cpp"] + EIG},
    "C15": {"harness": ["permutations.cpp"]},
    "C16": {"harness": ["norm.cpp"]},
    "C17": {"harness": ["programs.cpp"] + EIG + ["inst_trmm.cpp", "inst_inverse.cpp"]},
    "C18": {"harness": ["multiplication.cpp"]},
    "C19": CAPI_TARGET,
    "C34": CAPI_TARGET,
    "C20": {"harness": ["release.cpp"] + EIG + ["inst_trmm.cpp", "inst_inverse.cpp"]},
    "C21": {"repo": ["c_api/grid.cpp", "c_api/utils.cpp"], "harness": ["failures.cpp"] + EIG + ["inst_trmm.cpp", "inst_inverse.cpp"]},
    "C22": {"harness": ["grid.cpp"]},
    "C23": {"harness": ["sync_comm.cpp"]},
    "C24": {"harness": ["generators.cpp"]},
    "C25": {"harness": ["output.cpp"]},
    "C26": {"harness": ["senders.cpp"]},
    "C27": {"harness": ["tile_ops.cpp"]},
    "C30": {"harness": ["distribution.cpp"]},
    "C31": {"harness": ["config.cpp"], "all_defines": ["DLAFSIM_BOOST_PROGRAM_OPTIONS"], "ldflags": ["-lboost_program_options"]},
    # the library's objects first: they are initialized first, as in a shared library
    "C32": {"harness": ["hdf5.cpp|DLAF_WITH_HDF5"], "repo": ["matrix/hdf5.cpp|DLAF_WITH_HDF5"], "sim": SIM_SOURCES + ["sim/src/hdf5.cpp"], "repo_first": True},
    "C35": {"harness": ["storage.cpp"]},
    "C36": MINIAPP_TARGET,
    "C37": DUMP_TARGET,
}
NOT_APPLICABLE = {
    "C33": "No GPU, CUDA or HIP toolchain here: the GPU backend cannot be compiled, so no execution of it can be simulated.",
}
LEVEL_NOTES = {}
