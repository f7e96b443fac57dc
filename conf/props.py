PROPS = {}
NOT_APPLICABLE = {}


def prop(id, src, quick, thorough, rule, technique, note, require=(), assumptions=(), phases=None, **kw):
    ph = [dict(exe=id.lower(), src=src if isinstance(src, list) else [src], quick=quick, thorough=thorough, **kw)]
    PROPS[id] = dict(phases=ph + list(phases or []), rule=rule, technique=technique, note=note, require=list(require), assumptions=list(assumptions))


def extra(exe, src, quick, thorough, **kw):
    return dict(exe=exe, src=src if isinstance(src, list) else [src], quick=quick, thorough=thorough, **kw)


SAN = "clang AddressSanitizer+UBSan builds of the real sources, "

prop("P10", "p10.cpp", 3000, 200000,
     "Case = random history of 5-90 container operations over up to 5 live containers with exact-size scribbled arguments; all containers are compared with the model after every operation. Non-trivial/distinct = distinct operation-kind history hash.",
     SAN + "online model-based history monitor of the well container",
     "Observed histories only; every container is compared field by field with an independent model after each operation under ASan/UBSan. Unset phase weights in reused slots are treated as unspecified.",
     require=["op_add_well", "op_append_control", "op_clone", "op_destroy", "op_clear", "op_shut", "container_comparisons"])
prop("P01", "p01.cpp", 5000, 30000,
     "Case = one structured grid through one of nine constructors with random counts, spacings, offsets and top-depth maps; every cell side is compared with the analytic box. Distinct = constructor, dimensions and geometry hash.",
     SAN + "structural and geometric grid monitors against analytic boxes",
     "Every cell, side, tag, centroid, normal and volume of every generated grid is compared with closed-form values within rounding tolerance; curved tops are checked for topology, closure and volume only.",
     require=["boxes_compared", "tilted_tops"] + ["grid_kind_%d" % i for i in range(9)])
prop("P02", "p02.cpp", 1500, 60000,
     "Case = random pillar geometry (faults, crossing layers, wedges, pinches, gaps, holes, skewed/sloped/mirrored/negated variants), processed at zero or positive coincidence tolerance. Distinct = feature set and depth hash.",
     SAN + "online comparison of every processed corner-point interface with an independent column-overlap oracle",
     "Every interface's area vector, every cell's activity, volume, centroid, closure, tags and orientation is compared with values computed from the input corners; warped (non-planar) cells are checked for activity, closure, positivity and interface vectors only.",
     require=["side_overlaps", "connections_across_collapsed", "interfaces_compared", "cell_moments_compared", "lefthanded_inputs", "negative_depth_inputs", "tolerance_cases"])
prop("P30", "p30.cpp", 6000, 300000,
     "Case = a random grid at reservoir depths with a deck or parameter fluid and one initialisation request (convection, segregation, contact, uniform, default, EQUIL or tabulated deck, with or without gas) with contacts and datums in, outside and exactly on cells; or a random set of wells. Non-trivial = a state was initialised; distinct = hash of request, fluid and grid.",
     SAN + "offline oracle over initial states (closed-form / fourth-order hydrostatic columns)",
     "Every cell's saturation and pressure, every face pressure and surface volume and every well pressure is compared with an independently computed value; pressures of compressible fluids within the error of a first-order integration over 1/100 of the depth range.",
     require=["cells", "hydrostatic_cells", "interior_faces", "boundary_faces", "convection_cases", "segregation_cases", "contact_cases", "uniform_cases", "default_cases", "deck_equilibrium", "deck_tabulated", "compressible_contact", "compressible_default", "compressible_equilibrium", "compressible_tabulated", "surface_volumes", "three_phase", "oil_gas", "incomplete_refused", "bhp_wells", "rate_wells", "shut_wells"])
prop("P31", "p31.cpp", 8000, 400000,
     "Case = one random table (nonuniform, uniform or cubic; random sizes, scales, monotone/flat/steep/oscillating data, file-based for some) evaluated at nodes, inside, at and beyond the ends; then copied, rescaled, scaled, extended, chopped and checked again. Distinct = table kind, size and data hash.",
     SAN + "differential monitors of every table evaluation against an independent interpolation model",
     "Values, slopes, inverse lookups, range policies, monotonicity, slope continuity and monotonicity flags are compared with an independent model at sampled arguments of random tables.",
     require=["linear_evaluations", "inverse_lookups", "cubic_intervals", "monotone_points", "shrunk", "chopped", "table_files", "uniform_monotone_tables"])
prop("P32", "p32.cpp", 3000, 200000,
     "Case = 20 root searches (ten function families, three error policies, with/without initial guess, forward/reversed interval, tight limits, unbracketed inputs) and 3 bracket searches, with every function evaluation recorded. Distinct = function end values, kind and evaluation count.",
     SAN + "online monitor over the recorded evaluation sequence of each root search",
     "The verdict uses only the recorded evaluations and the returned value/iteration count. Functions are continuous with values well above underflow.",
     require=["bracketed", "unbracketed", "roots_found", "brackets"])
prop("P04", "p04.cpp", 3000, 200000,
     "Case = 4 grids (Cartesian 2D/3D, corner-point with random activity, pinched layers, open vertical gaps, faults; some with randomly renumbered cells and reversed faces); the set of extracted columns is compared with an independent grouping. Distinct = activity pattern hash.",
     SAN + "partition/ordering monitor of extracted columns against an independent grouping oracle",
     "Every extracted column of every grid is compared with the grouping by logical position, split where vertically consecutive cells share no face.",
     require=["columns", "splits", "renumbered", "layer_gaps"])
prop("P05", "p05.cpp", 1500, 80000,
     "Case = one grid (box cut by random lines/planes into polygons/polyhedra, tensor grids, corner-point grids); all quadrature degrees on every cell and face, velocity and barycentric reconstruction at corners, edges and interior points of every cell. Distinct = grid and field hash.",
     SAN + "polynomial-exactness monitors against exact simplex moment integrals",
     "Quadrature sums are compared with exact moments over an independent simplex decomposition; reconstruction is checked on convex cells where each corner touches as many faces as dimensions.",
     require=["cells", "faces", "quadrature_points", "velocity_points", "bary_points"])
prop("P21", "p21.cpp", 2000, 150000,
     "Case = 3 (grid, flux field) pairs (structured, corner-point, polyhedral, chains; renumbered; seven flux families incl. loops, zeros, denormals) through both entry points and the solver base class, plus 10 arbitrary digraphs through the component finder. Distinct = graph hash.",
     SAN + "order/partition monitor over every produced sequence against an independent strong-component oracle",
     "Every sequence, group and graph of every case is judged by an independent two-pass strong-component search; all buffers have the exact documented size so overruns are caught.",
     require=["graphs", "loops", "mixed_graphs", "solver_calls", "digraphs", "upwind_relations"])
prop("P33", "p33.cpp", 6000, 300000,
     "Case = 0-3 generated XML and param files (nested groups, merged files, groups from files, comments, escapes), up to 6 command-line assignments in any position and programmatic insertions, then 3-20 typed requests with and without defaults and requirements, from the root or from fetched groups. Non-trivial = the tree was built; distinct = hash of all sources.",
     SAN + "online monitor of every request against an independent model of the parameter tree",
     "Each answer (value, default or kind of refusal), the usage listing and the written file are compared exactly with a model that parses nothing: it is built from the same generated sources.",
     require=["values", "defaults", "absent", "refused_types", "refused_requirements", "nested_or_inherited", "xml_files", "param_files", "command_line_assignments", "inserted", "merged_files", "groups_from_files", "merged_groups", "file_parameters", "blank_lines", "comment_lines", "groups_fetched", "requests_in_groups", "roundtrips", "used_parameters", "unused_parameters", "bad_sources"])
prop("P37", "p37.cpp", 2500, 150000,
     "Case = random histories of appends, multi-appends, clears and refused requests on the boundary-condition container, its manager (on random grids, all sides) and the three source containers; contents compared with a list model after every operation. Distinct = operation history hash.",
     SAN + "online model-based history monitor of the containers",
     "All fields of every entry are compared with a list model after each operation; side conditions are compared with an independent selection of outer faces by logical position and tag.",
     require=["appends", "multi_appends", "clears", "pressure_sides", "flux_sides", "refused", "source_appends", "source_refusals", "source_clears"])
prop("P16", "p16.cpp", 2500, 150000,
     "Case = 4 sparse matrices built by both construction protocols (random structure, insertion order, contributions, written to file and read back), 4 linear systems (six families incl. permuted, badly scaled, triangular and exactly singular) through five solver entry points, block assemblies, table/vector containers. Distinct = structure/value hash.",
     SAN + "differential monitors against dense models and componentwise residuals of every solve",
     "Every entry, row and product is compared with a dense model; every solution of a nonsingular system is judged by its componentwise backward error (1e-10), inputs must be bit-identical afterwards.",
     require=["sorted_matrices", "contributions", "solutions_checked", "singular_systems", "blocks_assembled", "table_states", "factory_refusals", "written"])
prop("P17", "p17.cpp", 4000, 60000,
     "Case = 2 flow problems (Cartesian, corner-point, polyhedral, renumbered, 2D/3D grids; scalar/diagonal/full tensors with up to 4 decades of contrast; SI and unit-size magnitudes; gravity; sources; pressure/flux boundaries; BHP/rate/shut wells; rigid or compressible rock) solved 1-3 times with the same solver object, plus a hydrostatic and a renumbered closed problem. Distinct = pressure field hash.",
     SAN + "conservation and Darcy-law monitors over every face, cell and well of every solve",
     "Half-face transmissibilities, face fluxes, perforation rates, well columns, cell balances and rock accumulation are recomputed independently from grid, rock, fluid and controls and compared with the solver's output. Pressure boundary conditions are read as values at cell level, as implemented.",
     require=["single_phase", "interior_faces", "pressure_faces", "flux_faces", "sources", "perforations", "bhp_wells", "rate_wells", "shut_wells", "rock_solves", "closed_solves", "gravity_solves", "hydrostatic_faces", "renumbered_comparisons", "refused_controls"])
prop("P18", "p18.cpp", 2500, 40000,
     "Case = random local Schur reductions (symmetric, unsymmetric, general), mimetic inner products on every cell of a random grid (Cartesian, corner-point, polyhedral, renumbered; full tensors), 1-3 solves of the hybrid system with the same solver object (pressure/flux/no-flow boundaries, sources, gravity, several wells per cell under BHP/rate control, or compressible terms), and a linear-pressure problem. Distinct = pressure field hash.",
     SAN + "monitors evaluating every equation of the unreduced mixed system on the returned pressures and fluxes",
     "Symmetry, definiteness and linear exactness of each inner product; every face, cell, boundary and well equation of each solve evaluated from the returned cell, face and well pressures. Cells with warped faces are exempt from exactness on linear fields. Prescribed flux values are outward in this solver, as implemented.",
     require=["inner_products", "schur_symm", "schur_unsymm", "schur_general", "incomp_solves", "compr_solves", "closed_solves", "bhp_wells", "rate_wells", "pressure_faces", "flux_faces", "linear_solves", "accumulation"])
prop("P19", "p19.cpp", 15000, 600000,
     "Case = either one assembly of the compressible residual system from arbitrary random fluid matrices, mobilities, wells (all control kinds, shut wells) and sources, or one or two pressure steps of the solver class on a random grid, rock, black-oil fluid (incompressible / compressible / with dissolution), gravity, rock compressibility and wells; or one system of the linearised compressible solver (wells, pressure conditions, sources, 1-3 phases), solved and evaluated. Distinct = pressure/residual hash.",
     SAN + "differential monitors of the assembled system and balance/upwinding/control monitors of every converged pressure step",
     "Residuals, Jacobians (by differences), fluxes, face and perforation pressures, well controls and singularity reports are compared with independent evaluations from the fluid definition; steps the solver reports as not converged give no verdict.",
     require=["jacobian_entries", "singular", "incomp_nonsingular", "sources", "shut_wells", "counter_current", "upwind_second", "wells_bhp", "wells_resv", "wells_surf", "balanced_cells", "equilibria", "rock2", "fluid2", "gravity", "legacy_solves", "legacy_matrix_entries", "legacy_faces", "legacy_pressure_faces", "legacy_perforations", "legacy_bhp", "legacy_rate", "legacy_singular", "legacy_transported", "legacy_max_times"],
     phases=[extra("p19l", "p19_legacy.cpp", 8000, 200000)])
prop("P20", "p20.cpp", 8000, 600000,
     "Case = three uniform box partitions (1-3 directions, subsets of cells, more blocks than cells), compression and inversion, splitting of a random multigraph and of a random grid partition (random, strips, seeds, uniform), a coarse topology, and a multiscale pressure system on a connected grid (sources, tensors, mobilities; assembled 1-3 times). Distinct = partition or flux field hash.",
     SAN + "set-model monitors of partitions/topologies and a differential monitor against an independent dense multiscale solve",
     "Block numbers, components, coarse faces and their fine faces are compared with set models; fine fluxes are checked for balance per cell and block and compared, like block pressures, with a dense reference computed from the definition of the basis functions.",
     require=["uniform_partitions", "more_blocks_than_cells", "inversions", "splits", "new_blocks", "topologies", "coarse_faces", "basis_functions", "multiscale_solves", "reassembled", "identity_partitions", "balanced_blocks", "flux_faces"])
_P36 = ["p36.cpp", "p36_noomp.c", "p36_noomp_cols.cpp"]
prop("P36", _P36 + ["p36_shim.cpp"], 900, 40000,
     "Case = a random 3-D grid (also warped) whose geometry is computed, a corner-point grid as the library builds it, or a set of gravity columns (also unconverged and singular ones), each run 2-4 times with 1-16 threads and differently jittered schedules. Distinct = grid or saturation hash and team sizes.",
     "gcc ThreadSanitizer build of the parallel loops on an instrumented stand-in for the OpenMP runtime (chunks dispatched with relaxed atomics, jittered), plus real libgomp runs; online bitwise differential monitor against the same sources compiled without the loops",
     "Races are observed on the executed schedules; results, refusals and printed iteration reports of every parallel run are compared bit by bit with the serial build of the same sources. dgtsv itself (LAPACK) is not instrumented.",
     require=["geometry_runs_parallel", "column_runs_parallel", "constructions", "parallel_regions", "chunks_dispatched", "chunk_owner_changes", "values_compared", "serial_converged", "singular_columns"],
     variant="tsan", phases=[extra("p36", _P36 + ["p36_real.cpp"], 2500, 100000, variant="omp", env={"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"})])
prop("P38", "p38.cpp", 8000, 200000,
     "Case = a random grid, rock, two- or three-phase fluid, saturations, pressures, wells (several per cell, shut, every control kind, any composition) and fluxes; each helper is called with output vectors holding leftovers of any size, over full and partial cell lists. Distinct = source and fractional-flow hash.",
     SAN + "online comparison of every derived quantity with its defining sum",
     "Pore volumes, volumes in place, averages, mobilities, fractional flows, surface volumes, injected and produced amounts, transport sources, well rates, hydrostatic offsets, reports and initial states are recomputed from their definitions for every case; refused inputs must be refused.",
     require=["single_phase_states", "roundtrips", "pore_volumes", "mobilities", "injected_produced", "boundary_sources", "perforation_sources", "well_rates", "well_columns", "report_rows", "well_sources", "state_cells", "well_states", "bo_mobilities", "cell_subsets", "bo_injected_produced", "bo_perforation_sources", "bo_report_rows", "refused", "mismatches", "watercut_rows"])
prop("P22", "p22.cpp", 12000, 200000,
     "Case = one random grid (Cartesian, corner-point, polyhedral, renumbered), fluid (regions, residual saturations), initial state and flux field (eight families incl. loops and injector-producer; sources are the net outflow of each cell), CFL 1e-3..300; 1-3 steps, repeated with used/fresh solver objects and another cell numbering. Distinct = saturation hash.",
     SAN + "online balance monitor of every cell of every step, differential monitors of repeated and renumbered runs",
     "The residual of each cell must change sign within the solver tolerance of the returned saturation; totals and renumbered results are bounded by measured residuals (L1 contraction). Looping groups the solver reports as not converged give no verdict.",
     require=["easy_loops_solved", "cells", "inflow_connections", "loop_cells", "injection_cells", "production_cells", "still_cells", "repeated", "renumbered_comparisons", "changed_cells"])
prop("P25", "p25.cpp", 12000, 400000,
     "Case = random grid, compressible or pressure-independent immiscible fluid, end-of-step pressures, pore-volume changes and either a flux field constructed along a random upstream order to match the expansion exactly (both surface volumes must then balance) or an arbitrary field incl. loops (water balance); used and fresh solver objects. Distinct = saturation hash.",
     SAN + "online surface-volume balance monitor of every cell of every step, differential monitor against the incompressible solver",
     "Each cell's water residual must change sign within the solver tolerance of the returned saturation; oil is judged where the fluxes match the pressures; cells into which more water is forced than their pores can hold have no solution and give no verdict.",
     require=["easy_loops_solved", "cells", "inflow_connections", "oil_balances", "loop_cells", "injection_cells", "production_cells", "pore_volume_changes", "matching_solves", "used_objects", "incompressible_comparisons", "miscible_refused"])
prop("P26", "p26.cpp", 30000, 800000,
     "Case = one grid (2-D/3-D tensor, corner-point, polygonal/polyhedral) and one steady flux field (random potential, solved with few sources, open boundary, uniform, with loops) solved for time of flight and tracers, first-order and multidimensional. Distinct = grid and flux hash.",
     SAN + "per-cell balance, bound and sum monitors over every cell outside loops; exact scaling and repeat monitors",
     "Balances are recomputed from the returned values, upstream order by an independent search; tracer sums carry a propagated bound for the mismatch of the flux field; sources are the net outflow of each cell and sum to zero as required.",
     require=["cells", "fed_cells", "own_sources", "reached_sources", "stagnant_cells", "total_balances", "multidim_cells", "used_objects", "acyclic_fields"])
prop("P27", "p27.cpp", 8000, 500000,
     "Case = basis functions on one cell, and one discontinuous Galerkin solve (degree 0/1, total-degree or multilinear basis, constant or corner velocity reconstruction, limiter method and usage) on one grid and steady flux field, including flow along the axes of (sheared) boxes where the solution is linear. Distinct = configuration and flux hash.",
     SAN + "residual monitor of the weak form in every cell outside loops; exact-solution, conservation, first-order and limiter monitors",
     "Basis functions are evaluated by definition; weak form assembled with the library's quadrature and velocity reconstruction (decided by P05); the limiter oracle scales the gradient about the average to the recomputed upstream minimum.",
     require=["basis_points", "averages", "weak_form_cells", "conservation_cells", "first_order_agreements", "exact_cells", "limited_cells", "reduced_cells", "flattened_cells", "used_objects"])
prop("P23", "p23.cpp", 8000, 300000,
     "Case = a 3D grid with columns (Cartesian, corner-point with gaps/faults/holes, renumbered), two-phase fluid (incompressible, or compressible with its own density and viscosity per cell), initial state (random, extreme, segregated), gravity up or down, CFL 1e-2..100, 1-4 steps, used and fresh objects, subsets of columns. Distinct = saturation hash.",
     SAN + "online per-cell balance, direction, volume and energy monitor of every gravity step",
     "Each cell's residual must change sign within the solver tolerance of the returned saturation; water crosses each interface only in the direction of its density difference, columns keep their volume, segregated and equal-density columns stay. Steps the solver reports as not converged give no verdict, unless they are short against the fastest exchange. Volumes are reservoir volumes, also in the compressible solver.",
     require=["easy_steps_solved", "refaced", "columns", "sinking_interfaces", "rising_interfaces", "compressible_steps", "segregated_steps", "equal_density_steps", "energy_checks", "repeated", "used_objects", "cells_outside", "changed_cells"])
prop("P24", "p24.cpp", 15000, 200000,
     "Case = (a) explicit and implicit single-point-upwind steps and assemblies with random tables, fluxes, gravity terms and sources, (b) Newton model assembly, complete Newton step and column solve with residual saturations, gravity and capillary pressure, or (c) explicit versus implicit under step refinement. Distinct = initial state and step hash.",
     SAN + "differential monitors of residuals, Jacobians and reports against phase-wise upwinding by definition; balance monitors of every step",
     "Fluxes are recomputed by searching the consistent upstream choice; Jacobians by central differences away from upwind switches and table nodes; reported norms and flags compared with the residual of the returned state; steps reported as not converged give no verdict on balance.",
     require=["explicit_cells", "explicit_bounds", "jacobian_entries", "implicit_converged", "newton_assemblies", "newton_jacobian_entries", "newton_converged", "solver_agreements", "column_solves", "unclamped_columns", "refinements", "gravity_problems", "capillary_problems", "segregated_cells", "changed_pv_refused", "used_objects"])
prop("P06", "p06.cpp", 20000, 800000,
     "Case = a random set of keywords (11 integer arrays, 38 floating-point arrays, 38 record and table keywords with given, defaulted and omitted items) rendered plainly and in two random layouts (order, comments anywhere, blank lines, breaks inside records, repeat counts, quotes, number formats, unknown and ignored keywords, nested include files, directories, streams, used parser objects). Distinct = deck text hash.",
     SAN + "online comparison of everything the parser holds with the model the deck was written from",
     "Every item of every record is compared exactly (interpolated defaults of saturation and end-point tables to 1e-11); field lists, epochs and absent fields are compared too. Names contain no blanks; texts in ignored keywords start with no capital letter.",
     require=["decks", "plain_decks", "relayouts", "values", "include_files", "unknown_keywords", "files", "streams", "used_parsers"])
prop("P07", "p07.cpp", 12000, 500000,
     "Case = a random set of keywords (as P06, with physical dimensions) over one or two epochs, written in one unit system, and again in another with every value expressed in the other units; read with and without conversion, converted later, converted twice, through used parser objects; plus the unit constants and conversion functions. Distinct = deck text hash.",
     SAN + "online comparison of every parsed value with written value times a factor computed from the definitions of the units",
     "Factors come from an independent table (inch, pound, standard gravity, gallon, atm). Defaults that the parser marks by special values are compared by sign only after conversion. MAPAXES and moduli carry no unit (the deck has none for them here).",
     require=["decks_raw", "decks_converted_later", "decks_default", "decks_METRIC", "decks_FIELD", "equivalent_pairs", "values", "second_epoch_keywords", "constants", "unit_values"])
prop("P08", "p08.cpp", 12000, 500000,
     "Case = a schedule: static keywords, optional start date, and up to 12 events (TSTEP with whole or fractional steps, DATES across month, year, century and leap boundaries, ten kinds of well and group records, arrays) in random layout; every epoch inspected in any order, timers driven per epoch, across epochs as the simulators do, and from any step; timers from parameters. Distinct = deck text hash.",
     SAN + "online comparison of epochs and steps with a reference schedule kept event by event; step-visit counters and calendar arithmetic of our own for the timer",
     "Step lengths to 1e-12 of the elapsed time (dates after fractional steps), dates to one second. Dates are given in increasing order. A timer that is initialised again is positioned explicitly, as the simulators do.",
     require=["schedules", "multi_epoch", "epochs", "tsteps", "dates", "leap_days", "appended", "epoch_keywords", "steps", "timer_steps", "timer_dates", "epoch_runs", "param_timers", "used_parsers", "starts"])
prop("P14", "p14.cpp", 30000, 1500000,
     "Case = a deck with 1-3 saturation regions (oil-water, oil-gas, three-phase; critical and residual saturations present or not; exact or resampled tables; simple, Stone II and segregated models; two- and three-point end-point scaling from arrays and depth tables), a grid with or without removed cells, and a batch of 1-10 saturation states (nodes, scaled end points, connate water, no gas, beyond the end points); or the parameter-based functions. Distinct = point hash.",
     SAN + "online comparison with reference curves from the tables as written; difference quotients of the library's own values along sum-preserving directions; every batch point recomputed alone",
     "At break points of the scaling only finiteness is compared. The oil permeability of the Stone II model is the formula with the oil-water curve taken at equal oil saturation.",
     require=["points", "alone", "values", "derivatives", "satnum", "global_cells", "regions", "three_point", "two_point", "scaled_ends", "depth_tables", "outside_depth_tables", "reduced_no_gas", "reduced_no_water", "three_phase_simple", "three_phase_stone2", "three_phase_gwseg", "oil_water", "oil_gas", "resampled", "exact_tables", "incompressible", "basic_values", "no_room_above_critical"] + ["keyword_" + k for k in "SWL SWCR SWU SOWCR KRW KRO KRWR KRORW".split()])
prop("P15", "p15.cpp", 12000, 600000,
     "Case = (a) a grid (Cartesian, tilted, corner-point with faults and inactive cells) with any subset of the nine permeability components and porosity, read from deck text or set as fields, through fresh and used objects; (b) the same through grid and fluid facades from one deck; (c) homogeneous rock; (d) rock compressibility from parameters, ROCK or ROCKTAB in both unit systems, several regions. Distinct = configuration and value hash.",
     SAN + "online comparison of every porosity and tensor entry with the written value of the cell's logical position; multiplier and compressibility against the relation or table and difference quotients",
     "If both entries of a symmetric pair are written either may win, but the tensor must be symmetric. With analytic compressibility the reported constant is compared with the multiplier's derivative to 2e-4 near the reference pressure.",
     require=["decks_read", "invalid_sets_refused", "components_0", "components_1", "components_2", "components_3", "components_4", "copied_diagonals", "cross_entries", "renumbered_grids", "used_objects", "facade_cells", "basic_cells", "compressibility_none", "compressibility_parameters", "compressibility_ROCK", "compressibility_ROCKTAB", "derivatives", "table_nodes", "table_points"])
prop("P13", "p13.cpp", 30000, 1500000,
     "Case = a black-oil fluid deck (oil-water, oil-gas, three-phase; constant-compressibility, dead and live oil, dead and wet gas, tables with and without undersaturated branches; both unit systems; exact or resampled dead tables) and a batch of 1-12 pressures and compositions (absent phases, table nodes, saturated and undersaturated, no oil and gas at all); or homogeneous and incompressible fluids. Distinct = point hash.",
     SAN + "online comparison with reference relations from the tables as written; difference quotients of the library's own values; every batch point recomputed alone",
     "Undersaturated branches missing in the oil table are expected with slopes interpolated between neighbouring branches. Within 1e-9 of the saturated/undersaturated switch values are only checked to be finite. Gas volume factor without gas present is not compared.",
     require=["points", "alone", "values", "derivatives", "matrix_entries", "mass_checks", "oil_water", "oil_gas", "three_phase", "oil_saturated", "oil_undersaturated", "gas_saturated", "gas_undersaturated", "live_live", "oil_kind_0", "oil_kind_1", "oil_kind_2", "gas_kind_0", "gas_kind_1", "gas_tables_mode0", "gas_tables_mode1", "gas_tables_mode2", "basic_points", "incomp_decks"])

prop("P11", "p11.cpp", 1500, 60000,
     "Case = a random grid (tensor or faulted corner-point with inactive cells) and a random deck of 1-4 epochs with well specifications, connections, controls, wildcards and open/shut records in free layout, or a deck stating something impossible. Non-trivial = the wells of every epoch were built and compared; distinct = hash of the deck text.",
     SAN + "deck-model monitor of the wells built from decks",
     "Every epoch's wells are compared field by field with an independent model of the records seen so far; impossible decks must be refused.",
     require=["decks", "multi_epoch", "wells", "perforations", "controls", "shut_wells", "group_controlled", "given_factors", "computed_factors", "connection_wildcards", "control_wildcards_many", "welopen", "default_depths", "injectors", "group_trees", "refusals"])

prop("P12", "p12.cpp", 12000, 120000,
     "Case = a random group forest (1-7 groups, 1-9 wells) stated by a deck, followed by 1-8 rounds of random bottom-hole pressures and rates (some exactly at a limit, shut wells without flow) with explicit reinjection and repeated limit checks. Non-trivial = the hierarchy was built and its targets compared; distinct = hash of the deck text.",
     SAN + "online monitor of control changes against a group-control model",
     "Every well's control list is compared with a model after construction, reinjection and each limit check; a limit check must make exactly one change that answers an exceeded limit, or none when all are satisfied.",
     require=["hierarchies", "split_targets", "sum_checks", "reinjections", "reinjections_in_subgroups", "all_satisfied", "well_switches", "group_injection_switches", "group_production_switches", "worst_well_shut", "subgroup_actions", "shut_wells", "rates_at_limit", "do_nothing_procedures", "refused"])

prop("P28", "p28.cpp", 800, 40000,
     "Case = a complete incompressible or compressible two-phase simulation: connected random grid, heterogeneous rock and fluids, wells / sources / boundary pressures / closed system, optional gravity, rock compressibility, transport substeps, segregation splitting, 1-5 unequal steps. Non-trivial = the run finished; distinct = hash of the case description.",
     SAN + "offline balance checker over recorded states and printed reports; differential replay of the same run (repeat, output settings, restarts)",
     "Each step's state change is balanced against injection and production evaluated independently from the recorded fluxes; the printed reports are parsed and compared; repeated and restarted runs must reproduce every state vector bit for bit.",
     require=["runs", "steps", "balances", "cumulative_reports", "repeated_runs", "runs_with_output", "restarts", "restarts_from_saved_state", "rock_compression_steps", "segregation_steps", "substep_steps", "producing_steps", "transport_replays", "transport_replays_substeps", "replayed_reports", "compressible_cases", "incompressible_cases"])
prop("P29", "p29.cpp", 4000, 60000,
     "Case = (3 of 5) a random grid of any kind with a random set of cell fields (1-7 components, values incl. denormals, extremes and zero) written as unstructured or structured VTK to a stream of any precision, or (2 of 5) a complete random two-phase simulation with random output settings (directory, VTK, interval), in 40% of which one destination cannot be written (file where a directory is needed, directory where a file is needed, full disk, missing destination). Non-trivial = all; distinct = hash of the file or case description.",
     SAN + "offline checker parsing every written file back and comparing it with recorded states; fault injection on destinations",
     "Every file is parsed by an independent strict reader and compared value by value with the state captured by stepwise runs of the same simulation, the grid's own topology, or the printed balance reports; the directory tree is compared with the exact expected set of files; runs with an unwritable destination must end in a reported error.",
     require=["vtu_files", "vtu_values", "structured_values", "state_values", "state_files", "watercut_fractions", "watercut_rows", "wellreport_entries", "wellreport_fractions", "timing_rows", "iteration_files", "fault_full-disk", "fault_file-for-directory", "fault_directory-for-file", "fault_missing-destination", "stopwatch_operations"])
prop("P03", "p03.cpp", 12000, 100000,
     "Case = one random grid, deck or file: a grid (Cartesian, tensor, faulted corner-point, polyhedral, renumbered; with and without tags and maps; arbitrary values) written as text in a random layout; six corruptions of such a text; a corner-point or block-size deck in a random layout and unit system; an inconsistent deck; a deck inspected or cut by box; or a VAG description with truncations. Non-trivial = all; distinct = hash of the file.",
     SAN + "round-trip and differential oracle over files: own writer and reference reader, independent cell geometry from the deck arrays",
     "Every array of every grid read back is compared bitwise with the grid written; corrupted texts must be refused exactly when an independent token-wise reader finds them invalid; deck grids are compared with the constructor and with corners and volumes computed from the deck; cut decks with clipped arrays computed independently.",
     require=["text_roundtrips", "text_values", "corrupted_files", "corruptions_reported", "corruptions_still_valid", "missing_files", "cornerpoint_decks", "block_decks", "deck_cells", "bad_cp", "bad_block", "inspected_cells", "dips", "chops", "refused_chops", "cut_grids", "vag_grids", "vag_roundtrips", "vag_corruptions_reported"])

prop("P09", "p09.cpp", 6000, 200000,
     "Case = one hostile input (mutated, truncated, spliced, generated from tokens, cyclic or deeply nested deck, XML or parameter file, grid file, VAG file or table file), read twice with different contents of fresh memory and stack. Distinct = input hash.",
     SAN + "hostile-input generator with allocation, descriptor, reproducibility, hang and reported-truncation monitors",
     "Each input is read twice under ASan/UBSan with different fill of fresh memory; live allocation and descriptor counts must return to their start, both readings must agree, only standard exceptions may escape, and decks cut inside a record must be refused.",
     require=["decks", "truncations", "xml_files", "param_files", "grid_files", "vag_files", "table_files", "accepted", "refused", "parser_reuses"],
     variant="sanu", env={"ASAN_OPTIONS+": "allocator_may_return_null=1:max_allocation_size_mb=300"})

# P35: the workloads of the other harnesses, each case executed repeatedly under lifetime monitors (lib/mon.hpp, MON_LIFE).
_LIFE = {p: 1000 for p in "P01 P03 P06 P07 P08 P10 P11 P13 P14 P15 P16 P21 P22 P23 P25 P26 P30 P31 P32 P33 P37 P38".split()}
_LIFE.update({p: 500 for p in "P02 P04 P05 P12 P17 P18 P19 P20 P24 P29".split()})
_LIFE.update({"P27": 150, "P28": 250})
_life = [extra("l_p19l", "p19_legacy.cpp", 500, 20000, variant="sanu", flags=("-DMON_LIFE",))] + [extra("l_" + p.lower(), PROPS[p]["phases"][0]["src"], n, n * 40, variant="sanu", flags=("-DMON_LIFE",)) for p, n in sorted(_LIFE.items())]
PROPS["P35"] = dict(phases=_life,
    rule="Case = one case of another property's workload (grids of every kind, wells, tables, decks, properties, flow and transport solvers, simulators, files), down to one cell, no wells and no sources, executed 2-4 times with the same seed while fresh heap blocks and the stack hold different values. Distinct = the workload's own case hashes.",
    technique=SAN + "lifetime monitors: allocation and descriptor accounting per executed case, differential monitor of all observed values over different contents of fresh memory",
    note="Live allocations and descriptors must return to their start after each case, and every value the workload observes must be bitwise the same whatever fresh heap and stack memory held. Blocks above 60 kB always start with one fill value.",
    require=["allocations_watched", "values_observed"] + ["life_runs_" + p for p in sorted(_LIFE)], assumptions=[])

_WRAP = ("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free",)
PROPS["P34"] = dict(phases=[extra("p34", "p34.cpp", 3000, 100000, flags=_WRAP), extra("p34l", "p34_legacy.cpp", 2000, 60000, flags=_WRAP)],
    rule="Case = one call with random arguments that creates, extends or copies a grid, well collection, side-condition or source container, sparse matrix, solver object, partition, hash set or coarse topology, first with memory available, then once for every allocation it makes with that allocation failing, alone and together with all later ones. Distinct = call and result hash.",
    technique=SAN + "fault injection into every allocation of the call (link-time wrapping), online monitor of live blocks, reported outcome, given objects and the repeated call",
    note="Each injected failure must be reported (or leave the result unchanged), give back all blocks, leave the given objects as they were, and the repeated call must succeed with the same result.",
    require=["failures_injected", "failures_reported", "retries"], assumptions=[])
prop("P39", "p39.cpp", 4000, 200000,
     "Case = averages of random pairs in three number types, all units and 20 conversions, a run-report sum and its two texts, a random stop-watch history, a random factory history. Distinct = value/history hash.",
     SAN + "differential monitor against definitions in extended precision; online history models of the stop watch (bracketing clock readings) and the factory (registrations, live objects)",
     "Stop-watch readings are judged by clock readings taken immediately before and after each call, so scheduling delays cannot raise an alarm. The compatibility constants in Opm::units (rounded by design) are not judged.",
     require=["averages", "geometric", "harmonic", "vector_averages", "units", "conversions", "report_sums", "report_texts", "watch_calls", "watch_refused", "watch_running", "watch_stopped", "registrations", "created", "unknown_types", "cloned", "clone_refused"])
prop("P40", "p40.cpp", 4000, 200000,
     "Case = one box in 2D or 3D cut by up to nine random lines or six random planes, optionally renumbered, with reversed faces, mapped affinely and translated; geometry arrays are wiped before the library computes them. Distinct = cell volumes hash.",
     SAN + "differential monitor against an independent decomposition of every face and cell",
     "Convex cells with planar faces only. Tolerances grow with the distance from the origin (rounding of the coordinates themselves).",
     require=["faces", "triangles", "quadrilaterals", "polygons", "tetrahedra", "six_sided", "polyhedra", "mapped_grids"])
prop("P41", "p41.cpp", 5000, 60000,
     "Case = one random deck (blocks or corner points with inactive cells, metric or field units, wells with one to three schedule epochs) simulated as the example programs do. Distinct = deck hash.",
     SAN + "differential monitor of every epoch's end state and of the wells' recorded rates and pressures against the deck itself; conservation monitors over cells and the whole field",
     "Two phases; reservoir-rate and bottom-hole-pressure controls (the pressure solvers support no other; phase-rate limits of groups with the shutting procedure are judged with the phases split by mobility at the start of the step); no fault in the solve is expected as long as no well has a rate limit.",
     require=["epochs_run", "wells_at_bhp", "wells_at_rate", "shut_wells", "control_switches", "cell_balances", "connection_rates", "water_balances", "pore_balances", "pore_balances_switched", "pore_balances_switched_comp", "group_limits", "wells_on_group_share", "wells_shut_by_group", "group_phase_limits", "group_actions_justified", "gave_up_after_all_tries"])
