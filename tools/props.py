#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py). Kept as a script so that the long lines stay readable."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update({k: v for k, v in kw.items()})
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


B, PR, SP = "core/src/base/", "core/src/processes/", "core/src/spatial/"
PY = "python/src/hydrobricks/"
BR, CO, FL, AC = "core/src/bricks/", "core/src/containers/", "core/src/fluxes/", "core/src/actions/"

p("C01", "The water balance closes for every structure, solver and forcing",
  "At every time step and over the whole period, precipitation equals outlet discharge plus evaporation (evapotranspiration, interception and sublimation) plus the change of all stored water, snow and ice, area-weighted over hydro units and land covers, for every model structure, solver, parameter set and forcing. The only declared exceptions are the GR groundwater exchange and ice melted from glaciers with infinite storage. The totals the model reports (discharge, evapotranspiration, water, snow and glacier storage changes) equal those computed from the recorded series.",
  ["inputs", "configurations"], "all structures (Socont, HBV-96, GR4J, GR6J, free storage networks), the seven solvers, 1-4 units, several land covers, parameters, forcings, daily and sub-daily steps",
  "The tests close the balance on about ten fixed forcings and structures, over the total only; the guarantee is over every combination and every step.",
  [B + "Processor.cpp", B + "SolverSequential.cpp", CO + "WaterContainer.cpp", B + "Logger.cpp", B + "ModelBuilder.cpp"],
  [("constraints applied to rates before fluxes are moved", CO + "WaterContainer.cpp ApplyConstraints"),
   ("each flux is subtracted from its source and added to its target", PR + "Process.cpp ApplyChange"),
   ("totals", B + "Logger.cpp GetTotal*")],
  observe_at=["recorded series of every store and flux", "model totals"])
p("C02", "Stores and fluxes stay physically meaningful",
  "In every simulation all recorded values are finite, every store content and every flux is non-negative (except the content of GR6J's routing, whose exponential store may be negative), and no store exceeds its capacity. Evapotranspiration from one unit never exceeds the (corrected) potential demand of the step when a single process draws on it. These hold for extreme but valid forcings and parameters, for every solver.",
  ["inputs", "configurations"], "extreme rain, long droughts, capacities near zero or large, response factors up to instability of the explicit schemes, all solvers",
  "Unit tests sample gentle parameters; bounds must survive over-draining, overflow and stiff parameters in all solvers.",
  [CO + "WaterContainer.cpp", B + "Solver.cpp", B + "SolverRK4.cpp", B + "SolverHeunExplicit.cpp", B + "SolverSequential.cpp"],
  [("proportional limiting of outflows, overflow", CO + "WaterContainer.cpp ApplyConstraints")],
  observe_at=["recorded series"])
p("C03", "GR4J reproduces the published GR4J equations",
  "For every parameter set X1-X4, rainfall and potential evapotranspiration series, the daily GR4J model gives the discharge, actual evapotranspiration, production store level and routed water of the published equations, starting from empty stores. With several hydro units, the outlet is the area-weighted sum of the units, each run on its own forcing.",
  ["inputs"], "random X1-X4 (unit hydrograph base from below one day to several days, integer and not), rain/PET series, 1-4 units",
  "The tests compare a handful of points for one parameter set and one forcing.",
  [PR + "ProcessProductionGR4J.cpp", PR + "ProcessRoutingGR4J.cpp", PR + "ProcessInterceptionGR4J.cpp", PR + "ProcessETGR4J.cpp", PR + "helpers/GR4JFormulas.h"],
  [("production store", PR + "ProcessProductionGR4J.cpp"), ("unit hydrographs, exchange, routing store", PR + "ProcessRoutingGR4J.cpp")],
  observe_at=["outlet", "production store", "routing storage", "ET"])
p("C04", "GR6J reproduces the published GR6J equations",
  "For every parameter set X1-X6, rainfall and potential evapotranspiration series, the daily GR6J model gives the discharge, actual evapotranspiration, production store level and routed water (routing store, exponential store, unit hydrographs) of the published equations, starting from empty stores. With several hydro units the outlet is the area-weighted sum of the units.",
  ["inputs"], "random X1-X6, rain/PET series, 1-4 units",
  "The tests compare a handful of points for one parameter set and one forcing.",
  [PR + "ProcessRoutingGR6J.cpp", PR + "helpers/GR6JFormulas.h", PR + "helpers/GRUnitHydrograph.h"],
  [("threshold exchange, 60/40 split, exponential store", PR + "ProcessRoutingGR6J.cpp")],
  observe_at=["outlet", "production store", "routing storage", "ET"])
p("C05", "HBV-96 follows its documented equations",
  "With the explicit Euler solver, every HBV-96 simulation follows the model's equations: beta-function recharge, ET limited below LP*FC, capillary transport proportional to the soil moisture deficit, percolation limited to the available water, response K*UZ^(1+alpha), linear lower zone and triangular MAXBAS transformation. The snow routine (linear rain/snow transition, degree-day melt, retention up to CWH, refreezing with CFR) does too, step by step for every store and flux.",
  ["inputs", "configurations"], "random parameters of all routines, forcings crossing the freezing interval, with and without snow routine and rain-on-snowpack",
  "The tests check qualitative behaviour and totals for one forcing.",
  [PR + "ProcessInfiltrationHBV.cpp", PR + "ProcessRunoffHBV.cpp", PR + "ProcessCapillaryHBV.cpp", PR + "ProcessETHBV.cpp", PR + "ProcessRoutingHBV.cpp", PR + "ProcessOutflowSnowHolding.cpp", PR + "ProcessRefreezeDegreeDay.cpp"],
  [("process laws", PR), ("explicit solution", B + "SolverEulerExplicit.cpp")], observe_at=["all stores and fluxes"])
p("C06", "GSM-SOCONT follows its documented equations",
  "With the explicit Euler solver, every SOCONT simulation follows the model's equations: infiltration P*(1-(S/A)^2), ET PET*(S/A)^0.5, linear slow reservoir(s) with percolation and overflow, quick runoff of the sloped plane (or linear storage), and for glacierized units degree-day ice melt only where the snow is gone and separate linear reservoirs for ice melt and for rain plus snow melt of the glacierized area. This holds step by step for every store and flux, weighted by land cover fractions and unit areas.",
  ["inputs", "configurations"], "random parameters, slopes, 1-3 units, 0-2 glacier covers, both surface runoff options, one or two soil stores",
  "The tests check a few totals for fixed forcings.",
  [PR + "ProcessInfiltrationSocont.cpp", PR + "ProcessRunoffSocont.cpp", PR + "ProcessETSocont.cpp", BR + "Glacier.cpp", B + "SettingsModel.cpp"],
  [("process laws", PR), ("land cover weighting", B + "ModelBuilder.cpp")], observe_at=["all stores and fluxes"])
p("C07", "Each solver computes its documented numerical scheme",
  "On any network of storages with linear outflows, percolation, evapotranspiration and overflow, each solver gives the result of its scheme: explicit Euler, Heun and fourth-order Runge-Kutta the corresponding explicit update, implicit Euler and Crank-Nicolson the solution of their implicit equation, the analytic solver the exact solution of linear reservoirs, and the exponential Euler the exact solution of the linearised store. All solvers converge to the exact solution when the time step is refined.",
  ["inputs", "configurations"], "random cascades and trees of reservoirs, response factors, inflows and time steps (day to minutes), all seven solvers",
  "The tests compare the solvers on two or three fixed cascades with a few expected values.",
  [B + "Solver.cpp", B + "SolverEulerExplicit.cpp", B + "SolverHeunExplicit.cpp", B + "SolverRK4.cpp", B + "SolverSequential.cpp", B + "SolverImplicitEuler.cpp", B + "SolverCrankNicolson.cpp", B + "SolverAnalyticLinear.cpp", B + "SolverExponentialEuler.cpp"],
  [("numerical schemes", B + "Solver*.cpp")], observe_at=["store contents and outflows per step"])
p("C08", "Rain/snow separation and snowpack processes follow their laws",
  "Precipitation is split into rain and snow by the configured law (linear transition, threshold, or elevation-band min/max temperature law) without loss, and the snowpack accumulates snow and melts by the configured law (degree-day, aspect-dependent degree-day, temperature index with radiation, CemaNeige with cold content), never more than is available. Liquid water retention, refreezing and sublimation follow their laws. This holds at every step of any temperature and precipitation history.",
  ["inputs", "histories"], "random temperature/precipitation/radiation histories and parameters, all splitters and melt laws, optional retention/refreezing/sublimation, several units and aspects",
  "The tests run two or three short fixed histories per process.",
  [FL + "SplitterSnowRainLinear.cpp", FL + "SplitterSnowRainThreshold.cpp", FL + "SplitterSnowRainCemaNeige.cpp", PR + "ProcessMeltDegreeDay.cpp", PR + "ProcessMeltDegreeDayAspect.cpp", PR + "ProcessMeltTemperatureIndex.cpp", PR + "ProcessMeltCemaNeige.cpp", PR + "ProcessSublimationConstant.cpp", PR + "ProcessSublimationPET.cpp", BR + "Snowpack.cpp"],
  [("splitters", FL), ("melt laws", PR)], observe_at=["snow content, melt, rain/snow fluxes"])
p("C09", "Glacier ice melts by its law and only when uncovered",
  "Ice of a glacier melts by the configured law with the temperature of its unit; when melt is configured to need a snow-free surface, no ice melts while snow lies on the glacier. A finite glacier never releases more ice than it holds and its ice store decreases by exactly the melt; an infinite one keeps its store and is counted as a water source. Rain and snow melt on the glacier leave by their own outflow, unmixed with ice melt.",
  ["inputs", "histories"], "random temperature and snowfall histories, finite and infinite ice, several glaciers and units",
  "The tests run a few fixed histories.",
  [BR + "Glacier.cpp", CO + "IceContainer.cpp", PR + "ProcessMeltDegreeDay.cpp"],
  [("melt gating", CO + "IceContainer.cpp ContentAccessible"), ("infinite storage", BR + "Glacier.cpp")], observe_at=["ice content, melt output"])
p("C10", "Canopy interception conserves water and respects its capacity",
  "A canopy intercepts rain falling on its land cover up to its capacity, passes the excess on as throughfall to the configured target, and evaporates intercepted water at no more than the potential rate and the water available. Nothing is intercepted on covers without canopy, and rain = throughfall + interception evaporation + change of canopy storage at every step.",
  ["inputs", "histories"], "random canopy capacities, cover fractions, rain/PET histories, solvers",
  "The tests check one fixed configuration.",
  [BR + "InterceptionStorage.cpp", B + "SettingsModel.cpp", PR + "ProcessETOpenWater.cpp", PR + "ProcessOutflowThreshold.cpp"],
  [("canopy generation", B + "SettingsModel.cpp GenerateCanopyInterception")], observe_at=["canopy content, throughfall, ET"])
p("C11", "Results do not depend on how the basin is cut into equal units",
  "Splitting a hydro unit (or a land cover) into parts with the same properties, forcing and cover fractions, reordering hydro units, renumbering their identifiers or scaling all areas by a constant leaves the outlet discharge, the totals and each corresponding unit's states unchanged. The outlet of a basin is the area-weighted mean of what each of its units gives when simulated alone. (Not claimed: reordering or splitting units connected by lateral redistribution, which is computed unit after unit, and splitting or scaling with the inclined-plane runoff of SOCONT, whose law depends on the unit's area.)",
  ["inputs", "configurations"], "random structures, units, areas, cover fractions, forcings; splits, permutations, renumberings, scalings",
  "A metamorphic relation between runs; the tests only run single configurations.",
  [SP + "SubBasin.cpp", SP + "HydroUnit.cpp", FL + "FluxToBrick.cpp", FL + "FluxToOutlet.cpp", B + "ModelBuilder.cpp"],
  [("area weighting of fluxes", FL + " / " + B + "ModelBuilder.cpp")], observe_at=["outlet, totals, unit states"])
p("C12", "Runs are reproducible: rerun, reset, saved initial state, spin-up",
  "Running the same model again after a reset and running a second model built from the same settings give identical results, whatever was run before (including parameter changes that were reverted, replaced forcing, land cover or glacier changes, and spin-up). A spin-up of N days gives the states of a run over these N days as initial condition. A saved initial state is the one from which every following run starts, and continuing from it equals an uninterrupted run.",
  ["histories", "configurations"], "sequences of run / reset / save initial state / change parameters / rerun on all structures, with actions and spin-up",
  "State leaks need a particular history of calls; tests use one or two.",
  [B + "ModelHydro.cpp", SP + "SubBasin.cpp", SP + "HydroUnit.cpp", BR + "Snowpack.cpp", CO + "WaterContainer.cpp", PR + "Process.cpp", B + "TimeMachine.cpp"],
  [("reset chain", B + "ModelHydro.cpp Reset"), ("spin-up", B + "ModelHydro.cpp RunSpinup")], observe_at=["all recorded series of successive runs"])
p("C13", "Land cover changes conserve water and keep the fractions consistent",
  "After any sequence of land cover change actions, each change takes effect from its date in its unit only, the cover takes the requested share of the unit, the generic cover takes the complement, and the fractions stay within 0-1 and sum to one. Water, snow and ice stored on the exchanged area are carried over so that the stored amount (depth times fraction) over the unit is unchanged, except the ice under the area given up by a glacier, which is left to the glacier evolution. A change larger than the generic cover can absorb, out of range or for an unknown cover is refused and changes nothing. (Changes of one unit at the same date are not ordered.)",
  ["histories", "inputs"], "random sequences of changes (dates, units, areas including 0 and the full unit), several covers and snowpacks",
  "The tests apply two or three scripted changes.",
  [AC + "ActionLandCoverChange.cpp", AC + "ActionsManager.cpp", SP + "HydroUnit.cpp"],
  [("transfer of the stores of the exchanged strip", SP + "HydroUnit.cpp TransferLandCoverContent")], observe_at=["fractions, contents per cover"])
p("C14", "Glacier evolution follows its lookup tables and conserves ice",
  "Delta-h evolution sets the glacier areas of all units to the lookup row of the total ice loss (the increment of the loss over the number of rows, rounded down) and redistributes the remaining ice in proportion to the volumes of that row, on the first day of the configured month, without creating or losing ice. Area scaling sets each unit's glacier area from its own row for its own ice loss and keeps the ice amount. Areas never become negative or larger than the unit, the initial areas and ice are those of the first row, tables that do not match the model are refused, and everything is restored when the model is rerun. (Tables have positive areas wherever they have ice.)",
  ["histories", "inputs"], "random tables, number of rows, units, melt histories over several years, both actions",
  "The tests run one table over a few steps.",
  [AC + "ActionGlacierEvolutionDeltaH.cpp", AC + "ActionGlacierEvolutionAreaScaling.cpp", AC + "ActionsManager.cpp"],
  [("table row selection and application", AC)], observe_at=["glacier fraction and ice content per unit"])
p("C15", "Snow turned into ice is moved, not created",
  "Snow-to-ice transformation, whether continuous (constant rate or seasonal law) or as an action at a given date, removes from the glacier's snowpack exactly what it adds to the glacier's ice, never more than the snow present, at the configured rate. The action happens on its configured month and day only, in every glacier of the given cover, and leaves other covers unchanged.",
  ["histories", "inputs"], "random snow histories, rates, dates over the year, several glaciers and units",
  "The tests use one or two dates and rates.",
  [PR + "ProcessTransformSnowToIceConstant.cpp", PR + "ProcessTransformSnowToIceSwat.cpp", AC + "ActionGlacierSnowToIceTransformation.cpp"],
  [("transformation", PR + "ProcessTransformSnowToIce*.cpp")], observe_at=["snow and ice contents"])
p("C16", "Lateral snow redistribution conserves snow and follows its rule",
  "Snow redistribution moves snow only along the declared lateral connections, in proportion to their fractions, from units holding more than the slope-dependent holding capacity; the area-weighted amount of snow over the basin is unchanged by it. No more snow leaves than the excess over the retained depth, flat or small packs keep their snow, and units without connections keep all of it.",
  ["inputs", "configurations"], "random connection graphs, slopes, areas, snow amounts, land covers, both redistribution methods",
  "The tests use two or three units and one slope set.",
  [PR + "ProcessLateral.cpp", PR + "ProcessLateralSnowSlide.cpp", PR + "ProcessLateralSnowRedistributionFrey.cpp", SP + "HydroUnitLateralConnection.cpp"],
  [("holding capacity and excess", PR + "ProcessLateralSnow*.cpp")], observe_at=["snow contents per unit and cover"])
p("C17", "Dates convert exactly between calendar, text and day number",
  "For every date and time between 1900 and 2100, conversion from calendar to modified Julian day and back is exact to the second, agrees with the proleptic Gregorian calendar, day-of-year included, and every text format listed in UtilsDateTime (ISO, year first, day first, with -, ., / or compact, with or without time) parses to the date it writes, explicitly or (for the layouts that the guess lists) when guessed, and never to another date. Adding increments in any unit gives the calendar-correct date, and malformed, impossible or out-of-range dates are refused.",
  ["inputs"], "all days 1900-2100 and random times of day; all text formats; malformed strings",
  "The tests check a few dozen dates.",
  [B + "UtilsDateTime.cpp", B + "UtilsDateTime.h"], [("calendar arithmetic", B + "UtilsDateTime.cpp")], observe_at=["returned dates"])
p("C18", "The simulation clock visits every step exactly once",
  "For every start, end, step length and unit (days, hours, minutes), the model simulates exactly the steps start, start+dt, ... up to the end, and records one value per step with its date, without drift, skipped or repeated steps over long periods. The day of year follows the calendar, leap years included.",
  ["inputs", "configurations"], "random starts, lengths (to years of hourly steps), step lengths and units",
  "The tests check daily steps over weeks.",
  [B + "TimeMachine.cpp", B + "ModelHydro.cpp", B + "Logger.cpp"], [("date increments and end test", B + "TimeMachine.cpp")], observe_at=["recorded dates, number of steps"])
p("C19", "Each unit gets the forcing value of its own date",
  "At every step every hydro unit sees the value of its own forcing series at the date of the step, whatever the order of the series, units or variables, whether the series starts before the simulation or ends after it, whether it is given in memory or in a NetCDF file, uniform or distributed, daily or sub-daily. A forcing that does not cover the simulated period or lacks a unit is refused rather than silently misread.",
  ["inputs", "configurations"], "random periods, leads and tails, unit orders and identifiers, steps and variables; files and memory",
  "The tests read fixed files and one in-memory series.",
  [B + "TimeSeriesData.cpp", B + "TimeSeries.cpp", B + "TimeSeriesDistributed.cpp", B + "TimeSeriesUniform.cpp", B + "Forcing.cpp", B + "ModelHydro.cpp"],
  [("cursor positioning", B + "TimeSeriesData.cpp SetCursorToDate"), ("unit lookup", B + "TimeSeriesDistributed.cpp")], observe_at=["flux through the model"])
p("C20", "Parameters reach exactly the components they name, when they should",
  "Setting a parameter changes every component it names and no other, and updating the parameters of a built model gives the results of a model built with them, any number of times and in any order. A parameter with values by year, month or date takes, from the second step on, the value of the step's date and keeps its value when the date is not listed. A setting that names no component, or a parameter the component does not have, is refused and changes nothing.",
  ["histories", "configurations"], "random sequences of parameter changes on all structures; random modifier tables",
  "The tests set a handful of parameters once.",
  [B + "SettingsModel.cpp", B + "ModelBuilder.cpp", B + "Parameter.cpp", B + "ParameterModifier.cpp", B + "ParametersUpdater.cpp"],
  [("scoping", B + "SettingsModel.cpp SetParameterValue"), ("update in place", B + "ModelBuilder.cpp UpdateParameters")], observe_at=["recorded series"])
p("C21", "What is written is what was simulated",
  "The values written to the results file equal the values held in memory for every component, unit and step, under the right names, dates, unit identifiers and areas, and reading them back gives the same numbers. Choosing what is recorded does not change the simulation, and accessors by label return the series of that label.",
  ["inputs", "configurations"], "random structures, units, logging choices, time steps",
  "The tests check that the file exists and a few values.",
  [B + "Logger.cpp", B + "ResultWriter.cpp", B + "FileNetcdf.cpp", B + "ModelHydro.cpp"], [("writer", B + "ResultWriter.cpp")], observe_at=["results file"])
p("C22", "Basin files and NetCDF data survive a round trip",
  "Whatever dimensions, variables, attributes and values are written through the NetCDF layer are read back identically. A basin file gives the same basin (unit ids, areas, elevations, properties with units, land cover fractions) as the same description given in memory.",
  ["inputs"], "random variables, shapes, types, attributes; random basins",
  "The tests read two or three fixed files.",
  [B + "FileNetcdf.cpp", B + "SettingsBasin.cpp"], [("NetCDF wrapper", B + "FileNetcdf.cpp"), ("basin parsing", B + "SettingsBasin.cpp Parse")], observe_at=["values read back"])
p("C23", "Units with different structures behave as if modelled separately",
  "When hydro units use different model structures in one model, each unit gives what it gives in a model holding only its structure, the outlet is the area-weighted sum, and components a unit does not have are reported as missing (NaN), not as values. Totals ignore the missing entries. The structure of a unit is the smallest one holding all the land covers it has (the first in case of ties), and units without a cover behave as in a structure with this cover at a zero fraction; a basin with a unit that no structure can hold is refused.",
  ["configurations"], "random assignments of 1-5 structures to 1-6 units, forcings, parameters, parameter updates, scheduled actions",
  "The tests run one pair of structures.",
  [B + "ModelBuilder.cpp", B + "Logger.cpp", B + "SettingsModel.cpp"], [("per-unit structure", B + "ModelBuilder.cpp")], observe_at=["all recorded series"])
p("C24", "Invalid configurations and inputs are refused",
  "A configuration or input that cannot be simulated is refused, with an exception, an error or a false result, before any result is produced, and the process stays alive: unknown solver, brick, process, splitter, target, forcing variable, parameter, component or item to record, components or processes defined twice; impossible or inverted dates, time steps or spin-up; no unit, areas, fractions or connections that are undefined, out of range or do not sum to one, unknown land covers, missing or unusable unit properties; forcing that is missing, too short, irregular, repeated or of another size or step; actions on unknown units or covers, areas out of range, inconsistent lookup tables. A refused forcing or action leaves no trace: the same model, given the right ones, gives what a new model gives. Valid configurations are accepted.",
  ["inputs", "configurations", "fault_sequences"], "one fault of about 50 kinds in random valid configurations; sequences of refused and valid inputs on one model; valid configurations",
  "The tests check a few invalid inputs, each once, on one model.",
  [B + "SettingsModel.cpp", B + "ModelHydro.cpp", B + "ModelBuilder.cpp", SP + "SubBasin.cpp", SP + "HydroUnit.cpp", PR + "Process.cpp", AC + "ActionGlacierEvolutionDeltaH.cpp"],
  [("validation", B + "ModelHydro.cpp Initialize / InitializeTimeSeries / AddTimeSeries")], observe_at=["returned results and exceptions", "results after the recovery"])
p("C25", "No memory error or undefined behaviour in any simulation or API sequence",
  "Building, running, resetting, changing, dumping and destroying models, calling their functions in any order, giving them refused configurations, malformed forcing or basin NetCDF files, arbitrary dates, texts, settings and look-ups, never reads or writes outside the data, uses freed objects, overflows integers or triggers undefined behaviour: the process answers with a result, a refusal or an exception.",
  ["histories", "inputs", "configurations"], "random models, random sequences of calls in any order, faults of C24, random and malformed NetCDF files, random texts, under address and undefined-behaviour sanitizers with library assertions",
  "Release-mode tests do not see memory errors, and need the right sequence.",
  ["core/src"], [("ownership and index discipline", "core/src")], observe_at=["sanitizer reports"])
p("C26", "Lookups and unit conversions are correct",
  "Searching a value in any sorted array (ascending or descending, with or without tolerance, duplicates included) returns a position holding it, or the documented not-found or out-of-range code. Slopes and angles given in degrees, radians, percent or as ratios convert to each other consistently, whatever the accepted spelling of the unit, and so do areas (m2 to ha and km2); other conversions give no value (NaN) rather than a wrong one. A unit returns each property it was given, under its name only. Snow redistribution gives the same results whatever the unit in which the slopes are given.",
  ["inputs", "configurations"], "random arrays, targets, tolerances; all unit spellings and values; random models with redistribution",
  "The tests check fixed arrays and a few conversions.",
  [B + "Utils.cpp", SP + "HydroUnitProperty.cpp"], [("binary search", B + "Utils.cpp Find"), ("conversion", SP + "HydroUnitProperty.cpp")], observe_at=["returned values", "all recorded series"])
p("C27", "Storage processes and fluxes follow their laws",
  "In any storage network each process moves water by its law: linear, power-law and threshold outflow, constant percolation, complement ('rest') and direct outflow, overflow above capacity, and the evapotranspiration laws (linear, square-root, power, exponential, open water), from its store to its target only. Water entering a store from units or covers arrives in proportion to their area fraction.",
  ["inputs", "configurations"], "random networks, capacities, parameters, cover fractions and contents, explicit solvers and direct computation",
  "The tests check each law at one or two contents.",
  [PR + "ProcessOutflowLinear.cpp", PR + "ProcessOutflowThreshold.cpp", PR + "ProcessPercolationConstant.cpp", PR + "ProcessOutflowRest.cpp", PR + "ProcessOutflowDirect.cpp", PR + "ProcessOutflowOverflow.cpp", PR + "ProcessETLinear.cpp", PR + "ProcessETPowerLaw.cpp", PR + "ProcessETExponential.cpp", PR + "ProcessETOpenWater.cpp"],
  [("laws", PR)], observe_at=["outputs and contents"])
p("C28", "Scheduled actions happen on their dates, in order, once",
  "Every scheduled action (one-off or yearly) is executed exactly once for each of its dates after the first day and up to the last step of the simulation, at the first time step on or after the date, in date order among one-off and among yearly actions, for sub-daily, daily and longer steps, whatever the order in which actions and dates were registered, never during the spin-up, and again identically when the model is rerun. One-off dates before the simulation are applied after its first step, dates after it never. (The order of actions with the same date is not defined; February 29 is taken as February 28.)",
  ["histories", "configurations"], "random sets of actions and dates, registration orders, periods and steps, reruns",
  "The tests register two or three actions.",
  [AC + "ActionsManager.cpp", AC + "Action.cpp", B + "TimeMachine.cpp"], [("date queue", AC + "ActionsManager.cpp")], observe_at=["effects of the actions on the recorded series"])

p("C29", "The ready-made models of the Python package build the documented structures",
  "For every accepted combination of options and land covers, the ready-made models of the Python package (Socont, HBV-96, GR4J, GR6J) and the custom model builder hand the core the structure they document: with parameters set under their documented names or any of their aliases, in real or transformed values, a model simulates the stores and the outlet discharge of that structure with exactly these parameters on every land cover they belong to. Parameter sets report as documented whether the values are valid (range and constraints), which parameters may change, and give back the values they were given, whatever the name used. Invalid options, unknown or duplicated land covers, and malformed custom definitions are refused.",
  ["inputs", "configurations"], "random options, 1-4 land covers of any type and name, parameters by name, alias or transformed value, random custom definitions, units and forcings",
  "The Python tests compare a handful of option sets with fixed discharges.",
  [PY + "models/model.py", PY + "models/socont.py", PY + "models/hbv.py", PY + "models/gr4j.py", PY + "models/gr6j.py", PY + "models/custom.py", PY + "modules/glacier.py", PY + "parameters.py"],
  [("structure definitions", PY + "models"), ("parameter names, aliases, transforms, ranges and constraints", PY + "parameters.py")], observe_at=["calls made to the core by the Python package", "simulated stores and outlet"])

p("C30", "The forcing handed to the core is the station or gridded data, corrected and spatialised as declared",
  "The Python forcing applies what was declared, in the declared order: data are loaded for the variable named (any of its aliases), corrected by adding to or multiplying the station values, spatialised to each hydro unit from its elevation by the documented methods (constant, additive, multiplicative and thresholded gradients, one value or one per month, and the default method of the variable), negative results of variables that cannot be negative set to zero, and potential evapotranspiration computed by pyet with the latitude in radians, the named data and options. `param:` references take the current values of the parameters. Applying again, everything or only the operations depending on changed parameters, equals a single application with the last values. The area-weighted total precipitation follows. Saving then loading gives the same forcing, and files made for other units are refused. The core receives each known variable once, with the dates, unit ids and values prepared. Invalid declarations or applications are refused, and a refused declaration leaves no trace.",
  ["inputs", "configurations", "histories"], "random data, variables, units, declarations in any order, parameter values changed between applications, files of other units, invalid declarations",
  "The Python tests prepare a handful of forcings with fixed parameters.",
  [PY + "forcing.py", PY + "time_series.py", PY + "models/model.py"],
  [("operations and their re-application", PY + "forcing.py"), ("2D time series and files", PY + "time_series.py"), ("hand-over to the core", PY + "models/model.py set_forcing")], observe_at=["prepared 2D data", "saved files", "calls made to the core by the Python package"])

p("C31", "A parameter set behaves as a table of named values with ranges, transforms and constraints",
  "Whatever the history of definitions, aliases, ranges, transforms, constraints, values and random draws, a Python ParameterSet behaves as a table: names and aliases are unique and found whatever their case; a value set under any of its names, real or transformed, is the one given back; values out of range are refused or, on demand, adapted to the range; the validity, the undefined values, the constraints, the transformed values, the model and data parameters, and the parameters allowed to change are those declared; random values stay within the ranges and satisfy the constraints; spotpy is given the bounds in transformed space; saved files hold the values; unknown names and invalid declarations are refused.",
  ["inputs", "histories"], "random histories of definitions, aliases, ranges, transforms, constraints, values (real or transformed, lists, out of range), random draws and saved files",
  "The Python tests check fixed examples.",
  [PY + "parameters.py"],
  [("parameter table", PY + "parameters.py")], observe_at=["Python ParameterSet methods", "saved files", "spotpy parameters"])

p("C32", "The basin and the scheduled changes read by the Python package reach the core as written",
  "Whatever the files (columns in any order, units and names of the columns, areas as a total or per land cover) or the table of hydro units given, the hydro units handed over to the core by the Python package are those given, by decreasing elevation: identifiers, areas (m2), elevations, properties and their units, land covers, types and fractions; lateral connections, extents set from a land cover change, added land covers and properties are found in the core whatever the order of the calls, and areas are kept; scheduled land cover changes, glacier tables and their dates reach the core as written, and are given back; conversions between units are exact or refused; saved basins hold the same units; what is inconsistent or unknown (columns, units, land covers, connectivity, extents, tables, dates) is refused.",
  ["inputs", "histories"], "random basin files (columns, units, areas, properties), histories of connections, extents and land covers, scheduled changes, glacier tables, unit texts; one fault in a valid definition",
  "The Python tests check fixed files.",
  [PY + "hydro_units.py", PY + "_units.py", PY + "actions/"],
  [("hydro units", PY + "hydro_units.py"), ("units", PY + "_units.py"), ("land cover changes", PY + "actions/action_land_cover_change.py"), ("glacier actions", PY + "actions/action_glacier_evolution_delta_h.py, action_glacier_evolution_area_scaling.py, action_glacier_snow_to_ice_transformation.py")], observe_at=["calls made to the core by the Python package", "saved files", "Python HydroUnits and actions methods"])

p("C33", "Simulations are evaluated on the days asked, and the calibration seeks the best of them",
  "Whatever the periods, warmup, spin-up and dates of the observations, the Python package compares each simulated day with the observation of the same day, on exactly the days asked: a period is its inclusive span of days, the simulation span covers the others, spin-ups are the days or calendar years given, limited to the period; Model.eval and evaluate_periods use the days of the period (or those after the warmup) only; a calibration evaluates the days after the warmup (365 by default), or the whole calibration period, on observations trimmed to the simulation by date (the last of repeated days). The score given to the optimizer is a skill to be maximized, the opposite for algorithms that minimize: metrics that are errors are reversed, models are averaged, auxiliary observations (restricted to the days evaluated, undefined values left out) are weighted, on a scale where 1 is perfect and 0 the mean of the observations when normalized, given one by one (pareto), or reject the run beyond their tolerance; a run that violates the ranges or constraints, fails or gives nothing gets a worse score than any other. The results and the best run give back the skills and the real parameter values, in one process or rebuilt from a factory. Periods, observations and options that do not allow it are refused.",
  ["inputs", "configurations"], "random periods, spin-ups, simulations, observations (shuffled, repeated, missing, short), metrics, warmups, ensembles, auxiliary observations, rejected runs, algorithms; one fault in a valid calibration",
  "The Python tests check fixed examples.",
  [PY + "periods.py", PY + "trainer.py", PY + "evaluation/metrics.py", PY + "models/model.py"],
  [("periods", PY + "periods.py"), ("calibration", PY + "trainer.py"), ("metrics", PY + "evaluation/metrics.py"), ("evaluation of a model", PY + "models/model.py")], observe_at=["Python Period, Periods, evaluate_periods and Model.eval", "scores and series given to the optimizer", "get_best, get_results"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    # MANIFEST: one check per property with a harness file; the rest is listed as not (yet) claimed.
    have = {f[:-4] for f in os.listdir(os.path.join(root, "harness", "props")) if f.endswith(".cpp")}
    have |= {f[:-3] for f in os.listdir(os.path.join(root, "pyside", "props")) if f.startswith("C") and f.endswith(".py")}
    meta = json.load(open(os.path.join(root, "harness", "meta.json")))
    checks, na = [], []
    for x in P:
        i = x["id"]
        m = meta.get(i, {})
        if i in have:
            checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
                           "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                           "technique": m.get("technique", "property-based testing (random generation with shrinking)"),
                           "level": "exploration",
                           "level_note": m.get("note", "Generated-input search; no proof. Trusts the reference oracle in /verif/harness and the gcc build.")})
        else:
            na.append({"property": i, "reason": m.get("na", "check not built yet")})
    man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "C01-C29 drive the C++ core (/repo/core/src) compiled from the working tree into /verif/build (content-hash cache) through its public API; C29 also runs the Python package (python/src/hydrobricks) with stand-ins for the compiled module and the missing libraries. C30 to C33 are Python only (pyside/engine.py). See DESIGN.md."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
