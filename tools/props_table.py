ONE = ("The repository's tests check one or two hand-picked models per class, mostly by comparing generated forms as text or one "
       "analytical solution; ")

prop("C01", "Time marching honours final time, milestones, export times and stepsize rules",
     "A transient run advances through strictly increasing times, ends at the requested final time without passing it, and stops "
     "at every milestone and every profile-export time on the way, whatever the initial stepsize. A constant stepsize stays "
     "constant except where it is shortened to land on such a time; an adaptive one grows by its ratio after a solve of four "
     "iterations or fewer, shrinks by it otherwise, and never exceeds its (possibly time-dependent) maximum.",
     ["histories", "inputs", "configurations"],
     "all stepping parameters, milestone and export time sets (dense, coincident up to round-off, beyond the end, before the first "
     "step), time scales, and sequences of solver iteration counts",
     ONE + "the controller's unit tests call it once with one state, and no test follows a whole history with several "
     "milestones, caps and effort changes.",
     ["festim/stepsize.py", "festim/generic_simulation.py", "festim/h_transport_problem.py"],
     [("stepsize controller", "festim/stepsize.py Stepsize.adapt, next_milestone"),
      ("time loop", "festim/generic_simulation.py run_transient, iterate"),
      ("export times become milestones", "festim/generic_simulation.py initialise")],
     [("time", "current time of the simulation"), ("stepsize", "size of the next step")],
     technique="online trace monitor of the time stepper against a reference controller, scripted solver effort",
     observe=["user-supplied Newton solver (every solve call)", "times recorded by derived quantities"],
     note="Every stepsize of every generated history is judged; held on the histories run. Coincidence with a milestone is judged "
          "with the relative 1e-5 the code uses.")

prop("C02", "A failed solve is never accepted: it is retried consistently or the run stops",
     "When a solve does not converge, nothing of the failed attempt is kept: with an adaptive stepsize the step is retried from "
     "the last accepted state with a stepsize reduced by the ratio, and everything reported for the step that finally succeeds "
     "(time label, concentrations, trap densities, temperature, boundary values) belongs to that shorter step. With a constant "
     "stepsize, below the minimum stepsize, without a minimum, in steady state, or when the temperature or trap-density solve "
     "fails, the run stops with an error instead of carrying on from the failed attempt.",
     ["fault_sequences", "histories", "configurations"],
     "all patterns of failed solves (first, repeated, scattered, for ever), whatever garbage the failed attempt leaves in the "
     "unknowns, across temperature models, traps, evolving densities, chemical potential and surface kinetics",
     ONE + "no test makes a solve fail inside a coupled model and looks at what was accepted afterwards.",
     ["festim/h_transport_problem.py", "festim/stepsize.py", "festim/generic_simulation.py", "festim/temperature/temperature_solver.py",
      "festim/concentration/traps/extrinsic_trap.py"],
     [("retry loop", "festim/h_transport_problem.py update"), ("minimum stepsize", "festim/stepsize.py adapt"),
      ("steady failure", "festim/generic_simulation.py run_steady")],
     [("unknowns", "current and previous solutions"), ("stepsize", "reduced at each failure")],
     technique="fault injection into the nonlinear solver, trace monitor + replay of accepted steps through reference physics",
     observe=["user-supplied Newton solver (every solve call)", "fields recorded at each accepted step"],
     note="Failures are injected at scripted calls; every accepted step is replayed. Held on the fault sequences run.")

prop("C04", "Every accepted step satisfies the mobile hydrogen transport equation",
     "At every accepted step the mobile concentration satisfies the documented balance in every material and coordinate system: "
     "rate of change, Arrhenius diffusion with that material's own properties at the local temperature, thermally driven (Soret) "
     "flux when enabled, and exchange with every trap. This holds in 1-D, 2-D and 3-D, with any numbering or ordering of "
     "materials, transient or steady.",
     ["inputs", "configurations", "histories"],
     "all materials layouts, meshes, coordinate systems, temperature fields, traps and stepping histories",
     ONE + "combinations of material layout, coordinates, Soret, traps and varying stepsize are not run at all.",
     ["festim/concentration/mobile.py", "festim/concentration/traps/trap.py", "festim/materials/materials.py", "festim/meshing"],
     [("diffusion and Soret form", "festim/concentration/mobile.py create_diffusion_form"),
      ("property selection per subdomain", "festim/materials/materials.py create_properties"),
      ("exchange with traps", "festim/concentration/traps/trap.py create_trapping_form")],
     [("solution", "mobile concentration"), ("previous solution", "value at the previous accepted step")],
     technique="recorded-history replay against an independent reference discretisation (row-wise residual oracle)")

prop("C05", "Trapped hydrogen follows the trapping and detrapping rates of its own materials",
     "At every accepted step each trap's occupation changes exactly by trapping (rate coefficient times mobile concentration "
     "times free sites) minus detrapping, with the coefficients and density the user gave for the material at that point and the "
     "local temperature. In a steady simulation the two rates balance inside the trap's materials and the occupation is zero "
     "outside; traps are addressed by their identifiers and never influence one another directly.",
     ["inputs", "configurations", "histories"],
     "all numbers of traps, material lists (by object or name, shared or per-material parameters), densities in space and time, "
     "element types and identifiers",
     ONE + "traps with per-material parameters, permuted ids, DG elements and time-dependent densities are never combined in a run.",
     ["festim/concentration/traps/trap.py", "festim/concentration/traps/traps.py"],
     [("trap form", "festim/concentration/traps/trap.py create_trapping_form"), ("ids", "festim/concentration/traps/traps.py assign_traps_ids")],
     [("trap solution", "trapped concentration per trap")],
     technique="recorded-history replay against reference trap kinetics (row-wise residual oracle)")

prop("C06", "Imposed boundary concentrations and temperatures hold at the current time",
     "On every surface with an imposed value (fixed value, Sieverts or Henry law, implantation approximation or user law, on the "
     "mobile field, a trap or the temperature) the reported field equals that law evaluated at the current time and the local "
     "temperature, at every accepted step. No other boundary or node is constrained, and the rest of the domain still satisfies "
     "the transport equation.",
     ["inputs", "configurations", "histories"],
     "all laws, parameters in space and time, surface lists, dimensions, with or without chemical potential, and stepping histories",
     ONE + "each law is evaluated once for one time and one temperature.",
     ["festim/boundary_conditions/dirichlets", "festim/h_transport_problem.py"],
     [("Dirichlet creation", "festim/boundary_conditions/dirichlets/dirichlet_bc.py create_dirichletbc"),
      ("law expressions", "festim/boundary_conditions/dirichlets/*.py"), ("time update", "festim/helpers.py update_expressions")],
     [("expressions", "time-dependent boundary data")],
     technique="online value monitor on boundary nodes plus row-wise residual oracle elsewhere")

prop("C07", "Flux boundary conditions exchange exactly the amount of their law",
     "On every surface with a flux condition (prescribed, recombination, dissociation, mass transfer, convective or user law) the "
     "amount of hydrogen or heat entering equals the law evaluated at the current time, local temperature and local surface "
     "concentration. Several conditions on one surface add up, a condition on several surfaces acts on each of them, and surfaces "
     "without a condition are insulated.",
     ["inputs", "configurations", "histories"],
     "all flux laws, orders, parameters in space and time, surface lists, dimensions, coordinate systems and stepping histories, with "
     "or without chemical potential",
     ONE + "forms are compared as text for one surface; sums over surfaces, coordinates and time dependence are not executed.",
     ["festim/boundary_conditions/fluxes", "festim/concentration/mobile.py", "festim/temperature/temperature_solver.py"],
     [("flux laws", "festim/boundary_conditions/fluxes/*.py"), ("assembly of fluxes", "festim/concentration/mobile.py create_fluxes_form")],
     technique="recorded-history replay against reference boundary balance (row-wise residual oracle)")

prop("C08", "Chemical potential is continuous across materials; concentration follows it",
     "With conservation of chemical potential, the potential implied by the reported concentration, solubility and solubility law "
     "of each material is the same on both sides of every interface at every step. The reported concentration everywhere equals "
     "what the potential, the material's own solubility at the current local temperature and its law (Sieverts or Henry) give, and "
     "the transport and trapping balances hold for that concentration, also while the temperature changes.",
     ["inputs", "configurations", "histories"],
     "all pairs of solubility laws, materials, temperature histories, traps and boundary conditions compatible with them",
     ONE + "interface continuity is checked for a steady temperature on one pair of materials.",
     ["festim/concentration/theta.py", "festim/materials/materials.py", "festim/boundary_conditions/dirichlets/dirichlet_bc.py"],
     [("potential to concentration", "festim/concentration/theta.py"), ("solubility law markers", "festim/materials/materials.py create_solubility_law_markers")],
     technique="recorded-history replay: potential continuity monitor and residual oracle")

prop("C09", "Temperature follows its prescription or the heat equation at every step",
     "A prescribed temperature takes its expression's value at the current time everywhere; a temperature read from a file takes "
     "the stored values; a heat-transfer problem satisfies the heat balance of each material (its own conductivity, density and "
     "heat capacity at the local temperature) with its sources and boundary conditions at every accepted step, starting from its "
     "initial condition. A steady heat problem is solved once and stays unchanged while hydrogen evolves.",
     ["inputs", "configurations", "histories"],
     "all temperature kinds, property laws, sources, boundary conditions, geometries, coordinate systems and stepping histories",
     ONE + "transient heat is run with one material and constant properties only.",
     ["festim/temperature"],
     [("prescribed", "festim/temperature/temperature.py update"), ("heat form", "festim/temperature/temperature_solver.py define_variational_problem"),
      ("from file", "festim/temperature/temperature_from_xdmf.py")],
     technique="recorded-history replay against reference heat balance and online value monitor")

prop("C10", "Evolving trap densities follow their creation and annealing law step by step",
     "A trap whose density evolves (implantation-induced or neutron-induced) starts from zero and changes at every accepted step "
     "exactly by its creation terms with saturation and its annealing at the local temperature, over the step actually taken and "
     "with parameters at the current time. The density used by trapping is the one so obtained.",
     ["inputs", "configurations", "histories"],
     "all parameter values in space and time, temperatures, numbers of such traps, and varying stepsizes",
     ONE + "the law is checked on one constant stepsize with constant parameters.",
     ["festim/concentration/traps/extrinsic_trap.py", "festim/concentration/traps/neutron_induced_trap.py", "festim/h_transport_problem.py"],
     [("density form", "festim/concentration/traps/extrinsic_trap.py create_form_density"), ("update order", "festim/h_transport_problem.py update")],
     [("density", "trap density function and its previous value")],
     technique="recorded-history replay against the reference density law (row-wise residual oracle)")

prop("C11", "Adsorbed hydrogen and the subsurface obey the kinetic surface model",
     "On each surface with the kinetic surface model the adsorbed amount changes at every accepted step by the net flux from "
     "vacuum plus arrival from the subsurface minus absorption, with the user's rates evaluated at the current time, local "
     "temperature and concentrations; the mobile field receives exactly the opposite exchange, including the subsurface inventory "
     "term. Each surface keeps its own adsorbed amount, starting from its initial condition.",
     ["inputs", "configurations", "histories"],
     "all rate laws, one or several surfaces and conditions, traps, chemical potential and stepping histories in 1-D",
     ONE + "rate laws are run with one surface and one stepsize.",
     ["festim/boundary_conditions/fluxes/surface_kinetics.py", "festim/concentration/mobile.py", "festim/h_transport_problem.py"],
     [("surface form", "festim/boundary_conditions/fluxes/surface_kinetics.py create_form"), ("bookkeeping of adsorbed unknowns", "festim/h_transport_problem.py")],
     [("adsorbed", "surface concentrations, current and previous")],
     technique="recorded-history replay against reference surface balance (row-wise residual oracle)")

prop("C19", "Volumetric sources and decay act on exactly the fields and volumes named",
     "Each volumetric source, implantation profile or radioactive decay contributes its stated density at the current time to the "
     "field it names (mobile hydrogen, a trap by its identifier, temperature, or every concentration for unrestricted decay) and "
     "only inside the volumes it names. Several sources add up, and each decays or fills only its own field's concentration.",
     ["inputs", "configurations", "histories"],
     "all fields, identifiers, volume lists, shapes in space and time, geometries and numbers of simultaneous sources",
     ONE + "sources on traps, on several volumes and with permuted ids are not run.",
     ["festim/sources", "festim/generic_simulation.py", "festim/concentration/mobile.py", "festim/concentration/traps/trap.py"],
     [("routing", "festim/generic_simulation.py attribute_source_terms"), ("source forms", "festim/concentration/*/create_source_form")],
     technique="recorded-history replay against reference source terms (row-wise residual oracle)")

prop("C03", "No hydrogen is created or lost",
     "In a run without imposed concentrations, the total hydrogen reported by FESTIM's own derived quantities (retention over "
     "all volumes plus adsorbed hydrogen) changes at every accepted step by exactly what the declared sources and decay added and "
     "what crossed the surfaces according to the declared fluxes; with none of them it stays constant, whatever diffusion, "
     "trapping, interfaces, evolving trap densities and stepsizes do. Retention is the sum of mobile and trapped hydrogen.",
     ["inputs", "configurations", "histories"],
     "all materials, traps, temperatures, sources, fluxes, surface kinetics and stepsize histories (cartesian, cylindrical)",
     ONE + "the only conservation test is one surface kinetics case.",
     ["festim/h_transport_problem.py", "festim/concentration", "festim/exports/derived_quantities"],
     [("retention", "festim/h_transport_problem.py / exports label 'retention'"), ("totals", "festim/exports/derived_quantities/total_volume.py"),
      ("adsorbed", "festim/exports/derived_quantities/adsorbed_hydrogen.py")],
     [("inventory", "mobile + trapped + adsorbed hydrogen")],
     technique="online conservation monitor over FESTIM's own reported totals, balanced step by step")

prop("C12", "Derived quantities equal their stated functional of the current fields",
     "At every step at which it is computed, each derived quantity equals its documented functional of the fields of that step: "
     "totals, averages, extrema and fluxes over exactly the named volume or surface, point values at the named point, with the "
     "metric and angular ranges of cylindrical and spherical coordinates, the thermo-diffusion part of hydrogen fluxes and the "
     "current local material properties. Titles and units name the quantity, field and subdomain they belong to, and selecting "
     "quantities by surface, volume, field or type finds exactly those.",
     ["inputs", "configurations", "histories"],
     "all quantities, fields, subdomains, coordinate systems, dimensions, angular ranges and steps",
     ONE + "each quantity is tested on one fabricated field, outside a simulation.",
     ["festim/exports/derived_quantities"],
     [("functionals", "festim/exports/derived_quantities/*.py compute"), ("measures and properties", "festim/exports/derived_quantities/derived_quantities.py assign_*"),
      ("fields handed over", "festim/exports/exports.py write")],
     technique="online monitor comparing each reported value with an independent quadrature of the recorded fields")

prop("C13", "Files hold exactly the requested fields and quantities at the requested times",
     "Every export file contains, at every moment of a run, exactly the rows, columns or steps due so far by its own schedule "
     "(every n steps, last, listed times, once at the end), each with the right time and label, holding the values of the field "
     "or quantity it names (by name or trap identifier) at that step; nothing is lost, duplicated, or mixed between fields, and "
     "fields read back from checkpoint files equal the fields of the simulation.",
     ["inputs", "configurations", "histories"],
     "all combinations of exports, schedules, labels, folders, fields, trap ids, elements, transient and steady runs",
     ONE + "each export class is tested alone for one schedule.",
     ["festim/exports"],
     [("CSV", "festim/exports/derived_quantities/derived_quantities.py"), ("TXT", "festim/exports/txt_export.py"),
      ("XDMF", "festim/exports/xdmf_export.py, festim/exports/trap_density_xdmf.py"), ("dispatch", "festim/exports/exports.py")],
     [("files", "bytes on disk after every step")],
     technique="offline checker over the history of file snapshots taken after every accepted step")

prop("C14", "A run resumed from its exported checkpoint continues the original run",
     "A model started from checkpoint files written by an earlier run (mobile, trap and temperature fields at any stored step) "
     "and given the remaining inputs produces the same fields at every later time as the uninterrupted run. A temperature "
     "exported by one run and read back as another run's temperature is the same field.",
     ["histories", "crash_points", "configurations"],
     "all restart steps, materials, traps, elements, chemical potential, heat transfer, boundary conditions and sources",
     ONE + "reading of an initial condition is tested for a single fabricated field.",
     ["festim/initial_condition.py", "festim/concentration", "festim/exports/xdmf_export.py", "festim/temperature"],
     [("initial state from file", "festim/concentration/concentration.py get_comp, festim/h_transport_problem.py initialise_concentrations"),
      ("checkpoint writing", "festim/exports/xdmf_export.py")],
     technique="recorded-history comparison: interrupted and uninterrupted runs of the real code")

prop("C15", "A run depends only on its current inputs, not on earlier or neighbouring runs",
     "Initialising and running a model again, editing its parts between runs (mesh, materials, traps, boundary conditions, "
     "temperature, stepsize, settings, sources), interleaving two models in one process, or reusing objects of an earlier model, "
     "gives the same steps, fields and files as a model freshly built from the same inputs.",
     ["histories", "schedules", "configurations"],
     "all sequences of initialise/edit/run on one or more models and all ways of sharing their objects",
     ONE + "a model is almost always built, initialised and run once.",
     ["festim/generic_simulation.py", "festim/h_transport_problem.py", "festim/stepsize.py", "festim/exports", "festim/temperature"],
     [("initialise", "festim/generic_simulation.py initialise"), ("per-object state", "festim/stepsize.py, festim/exports/*, festim/concentration/traps/*, festim/temperature/*")],
     [("model", "every object reachable from a Simulation")],
     technique="history exploration with differential monitor against fresh models (steps, fields, files)")

prop("C17", "Contradictory or incomplete input is refused, valid input is accepted",
     "Input that contradicts itself or lacks something needed is refused with an error no later than initialisation, wherever it "
     "occurs in the model and however it is written: two conditions imposed on one field and surface (fields as numbers or "
     "strings), conditions or sources on fields that do not exist, duplicate material ids, properties given for only some "
     "materials, borders with gaps, overlaps or wrong ends, missing temperature, stepsize or final time, unknown materials in "
     "traps, unsupported combinations, wrong types, file names and angular ranges. Valid models and objects are accepted.",
     ["inputs", "configurations"],
     "all models and all positions, orders and spellings of each contradiction",
     ONE + "each refusal is tested for one hand-made model and one spelling.",
     ["festim/generic_simulation.py", "festim/materials/materials.py", "festim/concentration/traps/trap.py", "festim/exports"],
     [("boundary condition checks", "festim/generic_simulation.py check_boundary_conditions"),
      ("material checks", "festim/materials/materials.py check_materials, check_borders"),
      ("missing input", "festim/generic_simulation.py initialise"), ("types", "setters across festim")],
     technique="fault injection into generated valid models (one contradiction each), monitor of acceptance and refusal",
     note="Only contradictions the code or user guide declares invalid are judged.")

prop("C18", "Volumes and surfaces are where the user put them",
     "Every cell belongs to the volume the user described: in 1-D the material interval containing it, for any order of materials, "
     "several intervals per material, single or listed ids, unsorted or repeated vertices and any length scale (the mesh has exactly the vertices given), with surface 1 at "
     "the left end and surface 2 at the right end; with meshes given in memory or read from XDMF files, exactly the given volume "
     "and surface markers. Properties, imposed values and reported volume and surface quantities apply to exactly those cells "
     "and facets.",
     ["inputs", "configurations"],
     "all layouts, numberings, orders, meshes and ways of giving them",
     ONE + "markers are tested on two or three fixed layouts.",
     ["festim/meshing", "festim/materials/materials.py"],
     [("1-D markers", "festim/meshing/mesh_1d.py define_markers, festim/materials/materials.py find_subdomain_from_x_coordinate"),
      ("mesh from vertices", "festim/meshing/mesh_from_vertices.py"), ("mesh from files", "festim/meshing/mesh_from_xdmf.py")],
     technique="geometric monitor: markers, imposed values and reported integrals/extrema of a known field against the described layout")

prop("C16", "The same model written in another way gives the same results",
     "Results depend on the model, not on how it is written: the order of materials, traps, conditions, sources and exports; the "
     "numbering of volumes, surfaces and traps; numbers or expressions, single values or lists, fields given as numbers or "
     "names, materials given by name or object, FEniCS expressions where accepted, lists filled at once or piece by piece; one entry split into several that add up to it; one material or trap split into "
     "identical parts; unsorted vertices or a mesh file; keyword arguments or attributes; entries that add nothing; exports "
     "that only look at the run; the linear solver; and the units of length, time and amount (a model posed in micrometres, seconds and atoms gives the "
     "rescaled results of the same model posed in metres, hours and moles, solver tolerances rescaled alike).",
     ["programs", "configurations", "inputs"],
     "all models and all ways of writing them",
     ONE + "no test compares two spellings of a coupled model.",
     ["festim"],
     [("assembly from lists", "festim/generic_simulation.py, festim/h_transport_problem.py"),
      ("lookup by id, name, field", "festim/materials/materials.py, festim/concentration/traps, festim/exports/exports.py")],
     technique="differential (metamorphic) monitor: two spellings of one model run side by side, all recorded fields compared")

prop("C20", "Running on several processes gives what one process gives",
     "A model run with mpirun on several processes takes the same steps and gives the same fields, derived quantities (totals, "
     "averages, extrema, fluxes, adsorbed hydrogen), CSV and TXT files and XDMF checkpoints as the same model run on one process, "
     "whatever the number of processes and however the mesh falls onto them.",
     ["schedules", "configurations", "inputs"],
     "all models and all distributions of the mesh over processes",
     "The repository's tests all run on a single process.",
     ["festim/exports", "festim/generic_simulation.py", "festim/stepsize.py"],
     [("extrema", "festim/exports/derived_quantities (minimum/maximum of volumes and surfaces)"),
      ("profiles", "festim/exports/txt_export.py"), ("files", "festim/exports/derived_quantities/derived_quantities.py write")],
     technique="differential monitor: mpirun on 2-4 processes against one process, quantities, files and checkpoints compared",
     note="PointValue stops with an error in parallel unless every process holds the point, and is not used here. The rows of TXT "
          "files of discontinuous fields are compared by position only.")
