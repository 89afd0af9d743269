ROWS = ("Generated models covering {what} are run; every accepted step is recorded by user-level derived quantities and "
        "replayed row by row through the reference implementation. ")
HOW = {
"C01": "A spying Newton solver scripts iteration counts; the sequence of solver calls and recorded times is checked online "
       "against a reference step controller (allowed stepsizes at each try, limits, milestones, end). Workload: 180 core "
       "histories (dense, coincident, out-of-range milestones, TXT times, time-dependent caps, deprecated t_stop, scales 1e-6 to "
       "1e8) plus ~700 random ones per quick run. Cost 40 s. Reaches whole histories; tests call the controller once.",
"C02": "Fault injection: scripted solver failures (first, single, runs, scattered, for ever) that leave noise or NaN in the "
       "unknowns, in 20 model structures (traps, evolving densities, heat, chemical potential, surface kinetics). The trace is "
       "checked against the reference controller and every accepted step is replayed through the reference physics, so any state "
       "leaking from a failed attempt shows up as a row that does not balance. Natural failures (too few iterations) must stop "
       "the run. 40 s.",
"C04": ROWS.format(what="layouts, coordinate systems, 1-3 dimensions, Soret, traps, T fields and stepping") + "Rows not on imposed boundaries must balance.",
"C05": ROWS.format(what="1-4 traps, per-material parameter lists, names, permuted ids, CG/DG, x- and t-dependent densities") + "Trap rows must balance for every trap.",
"C06": "Every node of every surface with an imposed value is compared with the law evaluated independently at the recorded time and "
       "local recorded temperature; unconstrained rows must satisfy the transport balance (so an extra constraint is seen too).",
"C07": ROWS.format(what="all flux laws, sums of several conditions, surface lists, coordinates, hydrogen and heat") + "Boundary rows must balance with the law evaluated independently.",
"C08": "With chemical potential conservation the reported concentration of every cell is compared with potential x solubility "
       "(own projection), potentials implied on both sides of an interface are compared, and transport/trap rows are replayed, "
       "with changing temperature, Henry/Sieverts mixes, list ids and concentration-dependent fluxes.",
"C09": "Prescribed and file temperatures are compared node by node with an independent evaluation; heat rows (own properties of each "
       "material at the local T) are replayed at every step, for 1-3 D, coordinates, sources, and boundary conditions.",
"C10": ROWS.format(what="extrinsic and neutron-induced traps with x/t parameters and varying stepsizes") + "Density rows must balance, and the trap rows use the recorded density.",
"C11": ROWS.format(what="one or several kinetic surfaces with callable rates, traps, chemical potential") + "The adsorbed balance of each surface and the mobile boundary rows must both balance.",
"C19": ROWS.format(what="sources, implantation profiles and decay on every kind of field, volume list and id") + "Rows of all fields must balance.",
"C03": "Generated models with sources, fluxes and surface kinetics but no imposed concentrations run with FESTIM's own totals (retention per "
       "volume, cylindrical totals, adsorbed hydrogen) attached; a monitor balances the reported inventory at every accepted step "
       "against initial content, sources and fluxes evaluated independently, and checks retention = mobile + traps. Worst error "
       "seen is 1e-9, the tolerance 3e-7.",
"C12": "Every class of derived quantity is attached to generated runs on all geometries; each reported value is compared with an "
       "independent quadrature of the fields recorded in the same step; titles and units are compared with the documented form, "
       "and filter() must find exactly the quantities asked for; adsorbed amounts must obey the balance of the surface they are reported for.",
"C13": "Runs with several simultaneous CSV/TXT/XDMF/trap density exports; after every accepted step the files are photographed and the "
       "sequence of photographs is checked against a reference schedule and the recorded fields; checkpoint files are read back, also with FESTIM's own helpers.",
"C14": "A run exporting checkpoints is repeated from a randomly chosen stored step with time-shifted inputs; all later fields are "
       "compared with those of the uninterrupted run. A temperature exported by one run is the input of another.",
"C15": "Histories of initialise/edit/run/share operations (also switching between steady and transient, and turning switches of the settings) on one or two live models; after each run the steps, all fields and all files "
       "are compared with those of a model freshly built from the same inputs (differences seen on the tree: none at all).",
"C17": "Generated valid models must be accepted; each is then spoiled in one of 44 named ways (random place, order, spelling) and must be "
       "refused with the documented error by the end of initialise(). Every way of spoiling must have been seen refused at least once.",
"C18": "Random layouts (1-D intervals, 2-D/3-D grids, ids, orders, vertex lists, XDMF files) run as steady models with a known linear "
       "temperature: cell markers, all volume and surface integrals/extrema, imposed values and the piecewise slope of the solution are "
       "compared with the described layout. Worst error seen is 1e-5 of the 1e-9 tolerance.",
"C16": "Generated coupled models are rewritten by random combinations of fourteen rewritings (order, numbering, spelling, splitting entries, "
       "materials or traps, mesh input, constructor, lists filled piece by piece, FEniCS objects instead of expressions, idle entries, observers, linear solver, units of length, time, amount and heat) and both versions run; every field of every step must agree "
       "(tolerance 1e-7, worst seen 1e-9; 1e-5 across units).",
"C20": "Generated models (1-3 D, traps, heat, chemical potential, surface kinetics, adaptive steps) run once in-process and once under "
       "mpirun -n 2..4; every process records its reported quantities, and quantities, CSV/TXT files and checkpointed fields are "
       "compared (tolerance 1e-6). A process that stops or hangs is a violation too. Worst difference seen is 4e-13.",
}
