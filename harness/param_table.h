// name and type of every parameter a file can set
P_int64(initial_iteration)
P_int64(final_iteration)
P_double(initial_time)
P_double(final_time)
P_double(initial_dt)
P_double(timestep_cfl_factor)
P_bool(adaptive_timestep)
P_int64(pressure_updates_number)
P_int64(nparticles)
P_int64(lattice_nx)
P_double(sph_eta)
P_double(sph_smoothing_length)
P_double(sph_separation)
P_word(sph_kernel)
P_double(sph_sinc_index)
P_bool(sph_update_uniform_h)
P_bool(sph_variable_h)
P_int(domain_type)
P_double(box_length)
P_double(box_width)
P_double(box_height)
P_double(sphere_radius)
P_bool(do_boundaries)
P_bool(stop_boundaries)
P_bool(reflect_boundaries)
P_bool(periodic_boundary_x)
P_bool(periodic_boundary_y)
P_bool(periodic_boundary_z)
P_double(lattice_mismatch_tolerance)
P_string(initial_data_prefix)
P_bool(modify_initial_data)
P_string(output_h5data_prefix)
P_int(out_screen_every)
P_double(out_screen_dt)
P_int(out_scalar_every)
P_double(out_scalar_dt)
P_int(out_diagnostic_every)
P_int(out_h5data_every)
P_double(out_h5data_dt)
P_bool(out_h5data_separate_iterations)
P_string(wvt_method)
P_string(wvt_boundary)
P_double(wvt_mu)
P_double(wvt_ngb)
P_bool(wvt_convergence_check)
P_double(wvt_convergence_point)
P_bool(wvt_h_ngb)
P_int(wvt_cool_down)
P_double(wvt_radius)
P_word(eos_type)
P_string(eos_tab_file_path)
P_double(poly_gamma)
P_double(poly_gamma2)
P_double(ppt_density_thr)
P_word(sph_viscosity)
P_double(sph_viscosity_alpha)
P_double(sph_viscosity_beta)
P_double(sph_viscosity_epsilon)
P_double(sph_viscosity_alpha_max)
P_double(sph_viscosity_l)
P_double(sph_viscosity_delta)
P_bool(enable_fmm)
P_double(fmm_macangle)
P_int(relaxation_steps)
P_double(relaxation_beta)
P_double(relaxation_gamma)
P_double(relaxation_repulsion_radius)
P_double(relaxation_repulsion_gamma)
P_bool(evolve_internal_energy)
P_bool(thermokinetic_formulation)
P_string(external_force_type)
P_double(zero_potential_poison_value)
P_double(extforce_wall_powerindex)
P_double(extforce_wall_steepness)
P_double(mesa_rim_width)
P_double(gravity_acceleration_constant)
P_double(gravitational_constant)
P_double(orbital_separation)
P_double(mass_neutron_star)
P_double(mass_white_dwarf)
P_ushort(sodtest_num)
P_bool(equal_mass)
P_string(density_profile)
P_string(input_density_file)
P_double(rho_initial)
P_double(pressure_initial)
P_double(uint_initial)
P_double(sedov_blast_energy)
P_double(sedov_blast_radius)
P_double(noh_infall_velocity)
P_int(lattice_type)
P_double(lattice_perturbation_amplitude)
P_double(flow_velocity)
P_double(density_ratio)
P_double(KH_A)
P_double(KH_lambda)
P_double(rt_perturbation_amplitude)
P_double(rt_perturbation_stripe_width)
P_double(rt_perturbation_mode)
P_double(airfoil_size)
P_double(airfoil_thickness)
P_double(airfoil_camber)
P_double(airfoil_anchor_x)
P_double(airfoil_anchor_y)
P_double(airfoil_attack_angle)
