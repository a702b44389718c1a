# One entry per property: harness files (in harness/), /repo sources (in src/),
# qs: scale of the number of cases of the quick tier;
# asan: address+UB sanitizers, odl: compile against the MFEM overlay.
EM = ["common/coefficient.cpp", "physics/electromagnetics/electromag_integ.cpp", "physics/electromagnetics/cal2_ke_coefficient.cpp", "physics/electromagnetics/cal2_kh_coefficient.cpp", "utils/utils.cpp", "physics/miso_input.cpp"]
OUT = ["physics/mfem_common_integ.cpp", "physics/miso_integrator.cpp", "common/functional_output.cpp", "common/miso_linearform.cpp", "physics/finite_element_vector.cpp", "physics/finite_element_state.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp"]
FLOW = ["physics/fluidflow/flow_residual.cpp", "physics/diag_mass_integ.cpp", "physics/miso_nonlinearform.cpp", "common/functional_output.cpp", "common/miso_linearform.cpp", "physics/miso_integrator.cpp", "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp", "physics/pde_solver.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp", "common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/linesearch.cpp", "common/relaxed_newton.cpp", "utils/utils.cpp", "physics/miso_input.cpp", "common/material_library.cpp"]
TARGETS = {
    "P01": dict(harness=["p01_logging.cpp"], asan=True),
    "P02": dict(harness=["p02_linesearch.cpp"], repo=["common/linesearch.cpp"], asan=True),
    "P03": dict(harness=["p03_kdtree.cpp"], asan=True),
    "P04": dict(harness=["p04_orthopoly.cpp"], repo=["common/orthopoly.cpp", "utils/utils.cpp"]),
    "P05": dict(qs=40, harness=["p05_sbp.cpp"], repo=["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp"]),
    "P06": dict(qs=25, harness=["p06_euler.cpp"], repo=["utils/utils.cpp"], opt="-O2"),
    "P07": dict(qs=25, harness=["p07_ns.cpp"], repo=["utils/utils.cpp"], opt="-O2"),
    "P08": dict(harness=["p08_newton.cpp"], repo=["common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/linesearch.cpp", "common/relaxed_newton.cpp", "common/inexact_newton.cpp", "utils/utils.cpp", "physics/miso_input.cpp"]),
    "P09": dict(qs=3, harness=["p09_operators.cpp"], repo=["common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/linesearch.cpp", "common/relaxed_newton.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], asan=True),
    "P10": dict(harness=["p10_ode.cpp"], repo=["common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/linesearch.cpp", "common/relaxed_newton.cpp", "utils/utils.cpp", "physics/miso_input.cpp"]),
    "P11": dict(qs=2, harness=["p11_solver.cpp"], repo=["common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/linesearch.cpp", "common/relaxed_newton.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], asan=True),
    "P12": dict(qs=5, harness=["p12_utils.cpp"], repo=["utils/utils.cpp"], asan=True, flags=["-DMFEM_USE_LAPACK"], ld="-llapack", tag="lapack"),
    "P13": dict(harness=["p13_fields.cpp"], repo=["physics/finite_element_state.cpp", "physics/finite_element_vector.cpp", "physics/pde_solver.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp", "common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/linesearch.cpp", "common/relaxed_newton.cpp", "utils/utils.cpp", "physics/miso_input.cpp", "common/material_library.cpp"], asan=True),
    "P14": dict(qs=2, harness=["p14_euler_integ.cpp"], repo=["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], odl=True),
    "P15": dict(qs=2, harness=["p15_visc_integ.cpp"], repo=["common/sbp_fe.cpp", "common/orthopoly.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], odl=True),
    "P16": dict(qs=3, harness=["p16_coeff.cpp"], repo=["common/coefficient.cpp", "common/material_library.cpp", "physics/electromagnetics/reluctivity_coefficient.cpp", "physics/electromagnetics/conductivity_coefficient.cpp", "physics/electromagnetics/demag_flux_coefficient.cpp", "physics/electromagnetics/remnant_flux_coefficient.cpp", "physics/electromagnetics/cal2_ke_coefficient.cpp", "physics/electromagnetics/cal2_kh_coefficient.cpp", "physics/electromagnetics/pm_demag_constraint_coeff.cpp", "physics/electromagnetics/current_source_functions.cpp", "physics/electromagnetics/magnetic_source_functions.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], odl=True, asan=True),
    "P17": dict(qs=20, harness=["p17_magneto_integ.cpp"], repo=EM, odl=True, asan=True),
    "P18": dict(qs=10, harness=["p18_losses.cpp"], repo=EM, odl=True, asan=True),
    "P19": dict(qs=20, harness=["p19_common_integ.cpp"], repo=EM + ["physics/mfem_common_integ.cpp"], odl=True, asan=True),
    "P20": dict(qs=20, harness=["p20_outputs.cpp"], repo=EM + OUT + ["physics/common_outputs.cpp"], odl=True, asan=True),
    "P21": dict(qs=15, harness=["p21_em_outputs.cpp"], repo=EM + OUT + ["physics/common_outputs.cpp", "physics/electromagnetics/electromag_outputs.cpp", "physics/electromagnetics/pm_demag_constraint_coeff.cpp"], odl=True, asan=True),
    "P22": dict(qs=20, harness=["p22_thermal_integ.cpp"], repo=EM + ["physics/mfem_common_integ.cpp", "physics/thermal/thermal_integ.cpp"], odl=True, asan=True),
    "P23": dict(qs=40, harness=["p23_residuals.cpp"], repo=EM + OUT + ["physics/miso_nonlinearform.cpp", "physics/thermal/thermal_integ.cpp", "physics/thermal/thermal_residual.cpp", "physics/electromagnetics/magnetostatic_residual.cpp", "physics/electromagnetics/magnetic_load.cpp", "physics/electromagnetics/current_load.cpp", "physics/electromagnetics/current_source_functions.cpp", "physics/electromagnetics/magnetic_source_functions.cpp", "physics/electromagnetics/remnant_flux_coefficient.cpp", "utils/div_free_projector.cpp", "utils/irrotational_projector.cpp", "common/mfem_extensions.cpp", "common/relaxed_newton.cpp", "common/linesearch.cpp", "common/matrix_operators.cpp"], odl=True, asan=True),
    "P24": dict(qs=8, harness=["p24_warper.cpp"], repo=["utils/mesh_warper/mesh_warper.cpp", "utils/mesh_warper/mesh_move_integ.cpp", "common/coefficient.cpp", "physics/miso_nonlinearform.cpp", "physics/miso_integrator.cpp", "physics/finite_element_state.cpp", "physics/finite_element_vector.cpp", "physics/pde_solver.cpp", "common/sbp_fe.cpp", "common/orthopoly.cpp", "common/abstract_solver.cpp", "common/default_options.cpp", "common/ode.cpp", "common/mfem_extensions.cpp", "common/matrix_operators.cpp", "common/linesearch.cpp", "common/relaxed_newton.cpp", "utils/utils.cpp", "physics/miso_input.cpp", "common/material_library.cpp"], odl=True, asan=True),
    "P25": dict(qs=8, harness=["p25_flow.cpp"], repo=FLOW + ["physics/fluidflow/flow_solver.cpp"], odl=True),
    "P26": dict(qs=4, harness=["p26_control.cpp"], repo=FLOW + ["physics/fluidflow/flow_solver.cpp", "physics/fluidflow/flow_control_residual.cpp", "physics/fluidflow/flow_control_solver.cpp"], odl=True),
    "P27": dict(qs=15, harness=["p27_currents.cpp"], repo=EM + OUT + ["physics/thermal/thermal_integ.cpp", "physics/miso_nonlinearform.cpp", "physics/electromagnetics/magnetic_load.cpp", "physics/electromagnetics/current_load.cpp", "physics/electromagnetics/current_source_functions.cpp", "physics/electromagnetics/magnetic_source_functions.cpp", "physics/electromagnetics/remnant_flux_coefficient.cpp", "utils/div_free_projector.cpp", "utils/irrotational_projector.cpp", "common/mfem_extensions.cpp", "common/relaxed_newton.cpp", "common/linesearch.cpp", "common/matrix_operators.cpp"], odl=True, asan=True),
    "P28": dict(qs=4, harness=["p28_transfer.cpp"], repo=OUT + ["physics/miso_input.cpp", "utils/utils.cpp", "utils/l2_transfer_operator.cpp"], odl=True, asan=True),
    "P29": dict(qs=8, harness=["p29_solvers.cpp"], repo=sorted(set(EM + OUT + FLOW[1:] + ["physics/common_outputs.cpp", "physics/thermal/thermal_integ.cpp", "physics/thermal/thermal_residual.cpp", "physics/thermal/thermal.cpp", "physics/electromagnetics/magnetostatic.cpp", "physics/electromagnetics/electromag_outputs.cpp", "physics/electromagnetics/pm_demag_constraint_coeff.cpp", "physics/electromagnetics/magnetostatic_residual.cpp", "physics/electromagnetics/magnetic_load.cpp", "physics/electromagnetics/current_load.cpp", "physics/electromagnetics/current_source_functions.cpp", "physics/electromagnetics/magnetic_source_functions.cpp", "physics/electromagnetics/remnant_flux_coefficient.cpp", "physics/electromagnetics/reluctivity_coefficient.cpp", "physics/electromagnetics/conductivity_coefficient.cpp", "utils/l2_transfer_operator.cpp", "utils/div_free_projector.cpp", "utils/irrotational_projector.cpp"])), odl=True, asan=True),
    "P31": dict(qs=1, harness=["p31_ranks.cpp", "p31_physics.cpp"], repo=sorted(set(EM + OUT + FLOW[1:] + ["physics/common_outputs.cpp", "physics/thermal/thermal_integ.cpp", "physics/thermal/thermal_residual.cpp", "physics/thermal/thermal.cpp", "physics/electromagnetics/magnetostatic.cpp", "physics/electromagnetics/electromag_outputs.cpp", "physics/electromagnetics/pm_demag_constraint_coeff.cpp", "physics/electromagnetics/magnetostatic_residual.cpp", "physics/electromagnetics/magnetic_load.cpp", "physics/electromagnetics/current_load.cpp", "physics/electromagnetics/current_source_functions.cpp", "physics/electromagnetics/magnetic_source_functions.cpp", "physics/electromagnetics/remnant_flux_coefficient.cpp", "physics/electromagnetics/reluctivity_coefficient.cpp", "physics/electromagnetics/conductivity_coefficient.cpp", "utils/l2_transfer_operator.cpp", "utils/div_free_projector.cpp", "utils/irrotational_projector.cpp"] + FLOW + ["physics/fluidflow/flow_solver.cpp", "physics/fluidflow/flow_control_residual.cpp", "physics/fluidflow/flow_control_solver.cpp", "common/evolver.cpp", "utils/mesh_warper/mesh_warper.cpp", "utils/mesh_warper/mesh_move_integ.cpp", "common/coefficient.cpp"])), odl=True),
    "P32": dict(qs=3, harness=["p32_surface.cpp"], repo=["utils/utils.cpp"], asan=True),
    "P33": dict(qs=2, harness=["p33_evolver.cpp"], repo=["common/evolver.cpp", "utils/utils.cpp", "physics/miso_input.cpp"], asan=True),
    "P30": dict(py="p30_openmdao.py", qs=4),
}
