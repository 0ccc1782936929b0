"""Property texts.  `python3 -m props.meta` regenerates properties.jsonl and
MANIFEST.json from them."""
import importlib
import json
import os

TECH = ('static analysis: gated value-graph (global value numbering) of the '
        'source, compared with a required-behaviour text')

P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note,
         technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech, note=note,
                  technique=technique))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over,
                   qtext=qtext, why=why, files=files, mech=mech,
                   reason=reason))


T = 'multisim/'
PRE = T + 'precomp_funs.py'
ALLT = ('for every temperature field, flow rate and direction, geometry and '
        'port state')
WHY = ('the tests compare the end temperatures of a few short simulations of '
       'one pipe; they never reach the other parts, reversed flow or the '
       'branch, sign and index combinations a sampled state does not hit')

prop('C01', 'Heat balance of pipe-like parts',
     'In every pipe-like part (plain pipe, pipe with pump, branched pipe, pipe '
     'with three-way valve, heated pipe) the temperature change of each cell '
     'is the sum of axial conduction to both neighbours, loss through wall and '
     'insulation to ambient, upwind advection from the cells the flow comes '
     'from, exchange with the connected ports and the injected heat, divided by '
     'the heat capacity of that cell. Fluid properties, heat transfer '
     'coefficients and port temperatures used for it are those of the current '
     'temperatures and flows, and the evaluation leaves the temperatures, flows '
     'and port temperatures it reads unchanged.',
     ['inputs', 'configurations'], ALLT, WHY,
     [T + 'parts/pipe.py', T + 'parts/pipe_with_pump.py',
      T + 'parts/pipe_branched.py', T + 'parts/pipe_with_valve.py',
      T + 'parts/heated_pipe.py', PRE, T + 'utility_functions.py'],
     [('differential of the pipe family', 'get_diff of the part classes'),
      ('compiled kernels', 'pipe1D_diff and the pipe1D_branched kernel')],
     'equality of real-valued value graphs for all inputs; floating-point '
     'rounding is abstracted away')

prop('C02', 'Heat balance of the thermal energy storage',
     'The temperature change of each storage layer is the sum of conduction to '
     'the layers above and below (raised by buoyancy mixing exactly where the '
     'lower layer is warmer than the upper one), loss through shell and, for '
     'the top and bottom layer only, through the lids, upwind advection along '
     'the internal flow and exchange with the connected ports, divided by the '
     'heat capacity of that layer. The evaluation leaves the temperatures, '
     'flows and port temperatures it reads unchanged.',
     ['inputs', 'configurations'], ALLT, WHY, [T + 'parts/tes.py', PRE],
     [('storage differential', 'Tes.get_diff')],
     'equality of real-valued value graphs for all inputs')

prop('C03', 'Heat balance of the discretised plate heat exchanger',
     'In the numerically solved plate heat exchanger the temperature change of '
     'every cell of the two fluid columns and of the wall column is the sum of '
     'conduction along the column, heat transfer to the adjacent columns, '
     'upwind advection of its own fluid and exchange with its own ports, '
     'divided by its heat capacity. Both sides use the flow direction and '
     'channel count of their own side.',
     ['inputs', 'configurations'], ALLT, WHY, [T + 'parts/hex_num.py', PRE],
     [('heat exchanger differential', 'HexNum.get_diff, hexnum_diff')],
     'equality of real-valued value graphs for all inputs')

prop('C04', 'Explicit stability limit of numerically solved parts',
     'Each evaluation of a numerically solved part (pipes, storage, discretised '
     'heat exchanger) computes the largest diffusion number of axial, radial '
     'and port conduction and the largest advection number of its cells for the '
     'step in use. Exactly when such a number exceeds its bound, the step is '
     'marked unstable, the breach is counted, and the admissible step size is '
     'lowered to the value at which the bound is met.',
     ['inputs', 'configurations'], ALLT, WHY,
     [T + 'parts/pipe.py', T + 'parts/tes.py', T + 'parts/hex_num.py', PRE],
     [('von Neumann limits', '_vonNeumann_stability_* kernels')],
     'equality of real-valued value graphs for all inputs')

prop('C05', 'Internal flow distribution of numerically solved parts',
     'In pipes, branched pipes, storages and the discretised heat exchanger the '
     'mass flow over every cell border and through every port follows from the '
     'port flows by mass balance: a positive flow enters at the first port and '
     'moves downwards, a negative one upwards, and each cell passes on the sum '
     'of all flows that entered before it. Upwind flows are never negative, are '
     'recomputed once per step when new flows arrive, and the flows of a step '
     'are recorded in the result row of that step.',
     ['inputs', 'configurations', 'histories'], ALLT, WHY,
     [T + 'parts/pipe.py', T + 'parts/pipe_branched.py', T + 'parts/tes.py',
      T + 'parts/hex_num.py', PRE],
     [('flow distribution', '_process_flow kernels')],
     'equality of real-valued value graphs for all inputs')

prop('C06', 'Mixing, splitting and pumping in volume-free parts',
     'A three-way connector, a mixing or splitting valve and a pump have no '
     'volume. Where two flows meet, the outlet temperature is the enthalpy '
     '(flow times heat capacity times temperature) of both inlets divided by '
     'the outgoing capacity flow; where a flow is split or pumped, every outlet '
     'takes the inlet temperature; ports with no flow, and the upstream side, '
     'show the mean of the neighbouring ports. Each evaluation starts from the '
     'temperatures at the connected ports, leaves flows and foreign ports '
     'untouched and records temperatures (and, for pump and valve, mass flows) '
     'in the row of the current step.',
     ['inputs', 'configurations'], ALLT, WHY,
     [T + 'parts/connector_3w.py', T + 'parts/mixingvalve.py',
      T + 'parts/pump.py', PRE],
     [('volume-free parts', 'solve of Connector3w, MixingValve, Pump')],
     'equality of real-valued value graphs for all inputs')

prop('C07', 'Stationary plate heat exchanger follows the counter-flow NTU law',
     'For every combination of flow directions on the supply and demand side '
     'the stationary plate heat exchanger computes both outlet temperatures '
     'from the counter-flow effectiveness: mean fluid properties and heat '
     'transfer coefficients of each side come from its own temperatures and '
     'channel flow, the overall UA is the series connection of both sides times '
     'the number of plates, and the heat one side gives is the heat the other '
     'receives. A capacity ratio of exactly one and very large arguments of the '
     'exponential use their limit formulas. With one flow at zero, the flowing '
     'side is passed through unchanged and the idle side keeps the port '
     'temperatures. Temperatures are written to the ports the flow leaves '
     'through and recorded in the row of the current step.',
     ['inputs', 'configurations'], ALLT, WHY,
     [T + 'parts/heatexchanger.py', PRE],
     [('plate heat exchanger', 'HeatExchanger.solve, solve_platehex')],
     'nine flow-sign cases; equality of real-valued value graphs in each')

CW = ('the tests contain no controller at all; a simulation with one samples '
      'only the few sign, limit and mode combinations it happens to visit')
CTL = [T + 'controls.py', T + 'parts/controllers.py', PRE]

prop('C12', 'Actuators never leave their limits and valve splits stay '
     'complementary',
     'Whatever value a controller hands over, the mass flow of a pump or of a '
     'pipe with pump (after scaling with its flow at full speed), the opening '
     'of a valve and every directly set actuator value is that value clipped '
     'to the lower and upper limit of the actuator; the second branch of a '
     'valve gets exactly one minus the first. The controller output itself is '
     'clipped to its saturation limits. Clipping changes neither limits nor '
     'the incoming control value.',
     ['inputs', 'configurations'], 'for every control value and every pair of '
     'limits with lower < upper', CW,
     [T + 'controls.py', T + 'parts/pump.py', T + 'parts/mixingvalve.py',
      T + 'parts/pipe_with_pump.py', T + 'parts/pipe_with_valve.py'],
     [('part specific hand-over', '_process_cv'),
      ('direct hand-over and saturation', '_process_cv_direct, '
       '_clip_cv_to_saturation')],
     'equality of real-valued value graphs for all inputs')

prop('C13', 'Every control step follows the same pipeline',
     'In each control step of every controller type the output and error of '
     'the last step are remembered, the set point is the reference value plus '
     'the given offset (or the fixed set point), the control error is set '
     'point minus process value (delayed by the dead time if there is one), '
     'the controller law runs once, the change of the output per second is '
     'limited to the slope range, and only then the output is handed to the '
     'actuator. A linked controller does none of this. The process value, '
     'reference value, actuator value and master actuator value a controller '
     'works with are live views of the cells selected by part and port name '
     'or index (negative indices count from the end), and limits, offset, '
     'slope, inversion, time domain and dependency kind are those given when '
     'the controller was added.',
     ['inputs', 'configurations', 'histories'], 'for every controller type, '
     'mode, limit, error and step size', CW, CTL,
     [('control step', 'Controls.ctrl'), ('setup', 'Controls.__init__')],
     'value-graph and call-trace equality; the dead-time interpolation itself '
     'is not covered')

prop('C14', 'PID controllers follow the PID law',
     'A continuous PID controller outputs (Kp*e + Ki*I + Kd*de/dt) and a '
     'discrete one with integral term its velocity form, both with the sign '
     'of the configured action; the integral (or the previous output in the '
     'velocity form) is kept within the anti-windup bound, the derivative is '
     'low-pass filtered when requested, the output is clipped to saturation, '
     'and a sub-controller whose master state forbids action is set to its '
     'off state with its integral cleared. Gains are those given by the user '
     'or those of the selected Ziegler-Nichols rule, times the multipliers; '
     'an automatic anti-windup bound scales with 1/Ki.',
     ['inputs', 'configurations', 'histories'], 'for every error history, '
     'step size, gain set, tuning rule and saturation range', CW,
     [T + 'parts/controllers.py', T + 'controls.py'],
     [('law', 'PID.run_controller'), ('gains', 'PID.__init__')],
     'equality of real-valued value graphs, one run per combination of terms, '
     'tuning and filtering')

prop('C15', 'On/off controllers switch exactly at their thresholds',
     'A bang-bang controller switches to its upper saturation limit when the '
     'process value falls below set point minus half the hysteresis and to '
     'its off state when it rises above set point plus half the hysteresis (a '
     'negative hysteresis reverses both); a two-sensor controller switches on '
     'by comparing the on-sensor with the activation value and off by '
     'comparing the process value with the set point, switching off taking '
     'precedence. Otherwise the output is held. With inverted action the '
     'switched values change sign and are still held. A sub-controller whose '
     'master state forbids action is in its off state.',
     ['inputs', 'configurations', 'histories'], 'for every process value, '
     'previous output and parameter set', CW,
     [T + 'parts/controllers.py', T + 'controls.py'],
     [('laws', 'BangBang.run_controller, TwoSensors.run_controller'),
      ('setup', 'BangBang.__init__, TwoSensors.__init__')],
     'equality of real-valued value graphs for all inputs')

WS = ('the tests run a handful of systems for a few steps; which attempts are '
      'rejected, and what happens then, depends on states they never reach')
SIM = [T + 'simenv.py', PRE]

prop('C16', 'A step is kept only if it was stable and accurate',
     'The adaptive solver starts a step with the proposed step size and the '
     'ports saved. An attempt that is von-Neumann unstable is never kept: the '
     'ports are restored, the failure counted, the recovery counter reset and '
     'the step repeated with 0.9 times the largest stable step (100 unstable '
     'attempts raise ValueError). A stable attempt is kept if its RMS error '
     '(over all explicitly solved cells) is below 1, or if the step is '
     'already the minimum step; otherwise ports are restored, the failure is '
     'counted and the step repeated with a step reduced by the error estimate '
     'but by no less than the minimum factor and never below the minimum '
     'step. Every attempt starts from the last kept state. A kept step is '
     'stored as the time step, the next proposal never exceeds the maximum '
     'step or the maximum growth factor, and solver state and error are '
     'recorded for that step.',
     ['inputs', 'histories', 'configurations'], 'for every sequence of '
     'unstable, inaccurate and accurate attempts, every set of parts and '
     'every tolerance and step limit', WS, SIM,
     [('step loop', 'SimEnv._heun_adaptive')],
     'value-graph and call-trace equality; part solvers are abstract; '
     'convergence of the method is not covered')

prop('C17', 'Parts advance by Heun\'s method and exchange exactly their port '
     'cells',
     'A kept result is the previous result plus half a step times the sum of '
     'the derivatives at the start and at the predicted state; the error '
     'added for a part is the sum of squared cell differences between '
     'corrector and predictor, weighted and scaled by rtol times the larger '
     'of old and new value plus atol. After predictor and corrector every '
     'port receives the value of its own cell of the part it belongs to (of '
     'the current step). All parts share the simulation\'s port array, step '
     'counter, stability flag and step limits, and get result arrays with one '
     'row per possible step plus the initial row, which holds the initial '
     'temperatures and flows.',
     ['inputs', 'configurations'], 'for every number and kind of parts, '
     'ports and cells', WS, SIM,
     [('corrector', '_heun_corrector_adapt'),
      ('ports', '_upddate_ports_interm, _upddate_ports_result, upd_p_arr, '
       'SimEnv._create_port_updater'),
      ('storage', 'SimEnv._initialize_arrays, SimEnv._create_diff_inputs')],
     'equality of real-valued value graphs; shared storage by identity')

prop('C18', 'The simulation loop keeps its order and its clock',
     'A simulation only starts when initialised (and, with disk saving, with '
     'a start date). Until the time frame is reached every pass updates the '
     'flow network, solves one step, runs every controller once in order '
     'with the solved step size, updates the dynamic boundary conditions, '
     'advances the clock by the solved step and stores it under the step '
     'number; memory is freed only when the arrays are full and the time '
     'frame is not reached; afterwards the results are finalised once. A '
     'dynamic boundary condition follows its time series: interpolated at '
     'the end of a step that is not longer than the sampling interval, '
     'averaged over longer steps. Initialising builds and resets (if asked), '
     'then creates result arrays and solver inputs; a reset restores '
     'time frame, parts, controllers and boundary conditions.',
     ['inputs', 'histories', 'configurations'], 'for every number of steps, '
     'step size sequence, array length and boundary condition', WS,
     [T + 'simenv.py'],
     [('loop', 'SimEnv.start_sim'), ('initialisation',
       'SimEnv.initialize_sim, SimEnv._reset_simenv'),
      ('boundary conditions', 'SimEnv._update_dyn_BC')],
     'value-graph and call-trace equality; callees of one pass are abstract')

prop('C19', 'Every computed row is stored exactly once, in order',
     'When the result arrays are full they are enlarged (or, with disk '
     'saving, written to the store under the time stamps of their own rows '
     'and restarted from the last row) without losing, repeating or '
     'reordering any row, for every result array of every part; parts and '
     'solver keep using the new arrays. At the end stored and in-memory rows '
     'are joined, stored first, and time, error, failed steps, solver state '
     'and all results are cut to the number of steps done.',
     ['inputs', 'histories', 'configurations'], 'for every array length, '
     'number of flushes, set of parts and result dimensions', WS,
     [T + 'simenv.py', T + 'parts/heated_pipe.py',
      T + 'parts/chp_plant.py'],
     [('flush', 'SimEnv._free_memory, _special_free_memory'),
      ('assembly', 'SimEnv._finalize_sim, _final_datastore_backcalc'),
      ('cropping', 'SimEnv._crop_results, _special_crop_results')],
     'value-graph and call-trace equality; the HDF5 store itself is trusted')

prop('C11', 'The flow network conserves mass and follows the topology',
     'Each port flow is obtained from already known flows by exactly one '
     'operation: the flow of the connected port (same value if one of the two '
     'counts inwards and the other outwards, negated if both count alike), '
     'the negative sum of the other ports of a junction or storage once all '
     'but one are known, or the valve split by its port factors; so in- and '
     'outflow of every part balance. A second pump in one net, a mixing '
     'valve on the wrong side of a pump or next to a non-numeric part is '
     'rejected. The search starts at every pump, goes on from every part '
     'with a single undetermined port (hydraulic compensators last), visits '
     'each connected port once on the channel it belongs to, refuses '
     'operations that divide by a valve limit of zero, and reports parts '
     'whose flows stay undetermined. Every update evaluates each operation '
     'of the net once, in '
     'order, and marks all parts as having new flows.',
     ['inputs', 'histories', 'configurations'], 'for every topology, order '
     'in which ports are solved, flow direction and valve position', WS,
     [T + 'simenv.py', T + 'parts/'],
     [('operations', 'SimEnv._update_FlowNet'),
      ('signs', 'SimEnv._get_topo_cond'),
      ('search', 'SimEnv._get_topology, SimEnv._recursive_topology'),
      ('per part', '_get_flow_routine of Pipe, PipeWithPump, PipeBranched, '
       'PipeWith3wValve, Connector3w, MixingValve, Pump, Tes, HexNum, '
       'HEXCondPoly')],
     'value-graph equality; that the search visits every port is covered '
     'only by its own steps, not as termination proof')

prop('C23', 'Meters report what the simulation computed',
     'A temperature, mass flow, volume flow or heat meter reports exactly the '
     'stored result column of the part and cell it was placed on; the mass '
     'flow column is the one belonging to the temperature cell (column 0 for '
     'parts with one flow throughout). Heat meters report warm minus cold '
     'temperature, flow times mean heat capacity times difference, and '
     'integrals over the actual step sizes in consistent units; totals of '
     'positive flow contain no negative contribution. Each meter is filed '
     'under its own type and name; unknown parts, cells outside the part and '
     'names already used for that type are rejected.',
     ['inputs', 'configurations'], 'for every part, cell, flow history and '
     'step size history', WHY,
     [T + '_utility/meters.py', T + 'utility_functions.py', T + 'simenv.py'],
     [('meters', 'Meters.heat_meter, temperature, massflow, volumeflow, '
       '_resample_meter'),
      ('addressing', 'SimEnv._check_isinrange, _massflow_idx_from_temp_idx, '
       '_check_ispart, _check_isport')],
     'value-graph and call-trace equality; pandas is trusted')

prop('C24', 'Error measures are the textbook statistics, column by column',
     'rmse, cv_rmse, mean bias, normalised errors, coefficient of '
     'determination (plain and adjusted) and the other error measures are '
     'computed by their defining formulas, each data column related to its '
     'own mean and total sum of squares only, identically in the two places '
     'where the package offers them.',
     ['inputs'], 'for every data set, number of columns and sample size',
     WHY, [T + '_utility/stat_error_measures.py', T + 'utility_functions.py'],
     [('measures', 'functions of stat_error_measures and their copies in '
       'utility_functions')],
     'value-graph equality with the defining formulas; numpy and pandas '
     'reductions are trusted')

prop('C09', 'A CHP plant respects its operating limits and energy ratios',
     'In every step: the plant runs only at or above its lower modulation; it '
     'is not switched off before its minimum on time (held at lower '
     'modulation instead) unless too hot, nor on before its minimum off time '
     'or while the water is too hot; modulation never moves faster than the '
     'allowed ramp; above the emergency temperature it stops at once and '
     'after two minutes above the inlet limit. Electrical, thermal and gas '
     'power are the rated power scaled by modulation, run state and start-up '
     'factors clipped to 0..1, and match eta_el and p2h_ratio at full load; '
     'after a stop the remaining heat decays from the last output and '
     'shortens the next start; flue gas follows gas power. State and powers '
     'of a step are recorded once per step. Parameters outside their '
     'documented ranges are rejected.',
     ['inputs', 'histories', 'configurations'], 'for every control signal, '
     'temperature, step size and history of starts and stops', WHY,
     [T + 'parts/chp_plant.py', PRE],
     [('state machine', 'CHPPlant.get_diff'),
      ('ratios and limits', 'CHPPlant.__init__, init_part')],
     'value-graph equality over all paths of the state machine; the fitted '
     'curves are taken as given')

prop('C10', 'Injected heat is spread completely and only on the chosen cells',
     'For every heat spread setting the shares of the heated cells add up to '
     'one: the heated slices are live views of exactly the chosen cells '
     '(all, one, or a half-open range), each getting 1/number of cells. Cells '
     'outside the part, empty ranges, non-integers and limits that are '
     'negative or not increasing are rejected.',
     ['inputs', 'configurations'], 'for every grid size, cell selection and '
     'limit', WHY, [T + 'parts/heated_pipe.py', T + 'parts/chp_plant.py'],
     [('selection', 'HeatedPipe.__init__, CHPPlant.__init__'),
      ('use', 'heatedpipe1D_diff, CHPPlant.get_diff')],
     'value-graph equality, guards and view analysis')


prop('C27', 'Geometry and initial state of parts follow from the given '
     'dimensions',
     'A pipe or storage built from a length or volume, a number of grid '
     'points, a pipe specification and insulation data has exactly the cell '
     'spacing, cell volumes, shell and cross section areas, wall masses, '
     'flow lengths and thermal resistances that geometry prescribes; its '
     'state arrays have one entry per cell (plus ghost cells), with the '
     'neighbour arrays being live views of the same memory; the initial '
     'temperature is applied to every cell; and non-positive, non-numeric or '
     'inconsistent dimensions are rejected at construction.',
     ['inputs', 'configurations'], 'for every length, volume, grid size, '
     'pipe specification, insulation and initial temperature', WHY,
     [T + 'parts/pipe.py', T + 'parts/pipe_branched.py', T + 'parts/tes.py',
      T + 'simenv.py'],
     [('construction', 'Pipe.__init__, PipeBranched.__init__, Tes.__init__'),
      ('initialization', 'Pipe.init_part, Tes.init_part'),
      ('flow length', 'calc_flow_length')],
     'value-graph equality, guards and view analysis over all paths of the '
     'constructors')


prop('C25', 'Resetting restores the initial conditions',
     'Whatever a run left behind, a reset puts every part and controller back '
     'into the state it had right after it was initialized: temperatures at '
     'their initial values, the massflow of pumps and the opening of valves '
     'at their start or constant values, heating rates at zero, the operating '
     'state, start/stop times and modulation of CHP plants, the control '
     'values, errors, integrals and delayed process values of controllers; the '
     'predictive CHP controller starts planning anew. '
     'Parts which do not define a massflow leave the massflow memory they '
     'share with their pump alone.',
     ['histories'], 'for every history of a run: the values left behind are '
     'arbitrary', WHY,
     [T + 'parts/' + x + '.py' for x in (
         'pipe', 'tes', 'pipe_branched', 'hex_num', 'hex_condensing_polynome',
         'pump', 'mixingvalve', 'pipe_with_pump', 'pipe_with_valve',
         'heated_pipe', 'chp_plant', 'controllers')],
     [('reset', '_reset_to_init_cond of every class'),
      ('initial values', 'init_part of every class')],
     'history analysis on value graphs: init, arbitrary run, reset')


prop('C29', 'Actuators start in the given state and control what they drive',
     'A pump or mixing valve starts with exactly the mass flow or port '
     'opening it was given and with the given limits; the quantity a '
     'controller writes is the very memory the flow calculation of that '
     'actuator reads; the openings of the two inlets of a valve always add '
     'up to one; a constant or time series drive takes effect and frees the '
     'actuator from needing a controller; and openings outside 0..1, '
     'negative start flows, missing or inverted limits and malformed time '
     'series are rejected.',
     ['inputs', 'configurations'], 'for every start value, limit, constant '
     'and time series', WHY,
     [T + 'parts/pump.py', T + 'parts/mixingvalve.py',
      T + 'parts/pipe_with_pump.py', T + 'parts/pipe_with_valve.py',
      T + 'parts/connector_3w.py', T + 'simenv.py'],
     [('actuator set-up', 'SimEnv._initialize_actuator'),
      ('pumps', 'Pump.init_part, PipeWithPump.init_part'),
      ('valves', 'MixingValve.init_part, PipeWith3wValve.init_part')],
     'value-graph equality, guards and view analysis over all paths of the '
     'constructors and of the initialization')


prop('C28', 'Connected ports exchange heat symmetrically and at the right '
     'cell',
     'When two parts are connected, each takes over wall area, fluid area, '
     'cell spacing and wall conductivity of exactly the cell the other end '
     'of the connection leads to; the conductance used at the connection is '
     'the mean wall area over the two half cell resistances, so it is the '
     'same seen from both sides; ports without heat conduction couple with '
     'zero conductance; volume-free parts pass on the data of their other '
     'ports; and a port always maps to the same array position for '
     'temperatures, mass flows and specifications.',
     ['configurations', 'inputs'], 'for every set of connected parts, port '
     'and specification', WHY,
     [T + 'simenv.py'],
     [('conductance', 'SimEnv._calc_UAwll_port'),
      ('port data', 'SimEnv._get_port_connections'),
      ('port position', 'SimEnv._get_arr_idx, SimEnv._get_conn_port')],
     'value-graph equality over all paths; symmetry by evaluating the '
     'coefficient with both sides exchanged')


prop('C22', 'Boundary conditions act where and when they were given',
     'An open port carries exactly the constant temperature it was given, '
     'under its own port id; a time series given for an open port, a '
     'variable of a part or a setpoint drives the very memory of that '
     'target, starting with the first value of the series; all series share '
     'one evenly spaced time index that covers the simulated time; and '
     'series with NaN values, another index, another start date than the '
     'disk store, or for unknown targets are rejected.',
     ['inputs', 'configurations'], 'for every constant, time series and '
     'target', WHY,
     [T + 'simenv.py'],
     [('time series', 'SimEnv.assign_boundary_cond'),
      ('open ports', 'SimEnv._add_open_port, SimEnv.add_open_port'),
      ('start', 'SimEnv._initialize_dynamic_BC')],
     'value-graph equality, guards and view analysis over all paths')

prop('C30', 'The report and the stored data tell what happened',
     'The report of a run saved to disk says that the simulation succeeded '
     'exactly if no step ended with invalid values and no step was rejected at '
     'the minimum step size, names the reason otherwise, and states the '
     'numbers of steps per step size state, repeated steps, the simulated time '
     'and the statistics of the step sizes of that run. From the results of '
     'each part exactly the cells selected with `store_results` are stored '
     '(all of them if it is True or if the table has one column, none if '
     'False), resampled only if asked to; nothing selected is lost when the '
     'temporary file is compressed or renamed, and `return_stored_data` '
     'returns what was stored. An invalid selection is rejected when the part '
     'is added.',
     ['inputs', 'configurations'],
     'for every outcome of a run, every part, selection, compression and '
     'resampling setting',
     'no test saves results to disk or produces a failing run',
     [T + 'simenv.py'],
     [('report', 'SimEnv._write_report'),
      ('compression', 'SimEnv._compress_store'),
      ('retrieval', 'SimEnv.return_stored_data'),
      ('selection', 'SimEnv.add_part')],
     'pandas, numpy and the HDF5 library are trusted; the file content itself '
     'is out of reach of a source analysis')

prop('C31', 'Pre-assembled modules build complete and consistent systems',
     'The pre-assembled modules (CHP with flue gas heat exchanger in all '
     'return port variants, gas boiler, drinking water with circulation, '
     'storage charging system, space heating) add, for every segment name, '
     'exactly the parts, connections, open ports and controllers of their '
     'system: every port of every part, every open port and every connection '
     'passed by the caller is connected exactly once along the required '
     'topology, all names carry the segment name, every actuator has exactly '
     'one controller or given values, controllers refer to existing parts and '
     'cells, pipe sizes and pump limits follow from the given powers and '
     'flows, ambient temperature, setpoints and sensors are those passed, and '
     'the dicts passed by the caller are left unchanged.',
     ['configurations', 'inputs'],
     'for every segment name, power, flow, setpoint and connection, and every '
     'configuration of return ports, modes and controllers',
     'no test uses a pre-assembled module',
     [T + 'parts/part_modules/suppliers.py',
      T + 'parts/part_modules/consumers.py',
      T + 'parts/part_modules/chp_with_fluegas_hex.py'],
     [('suppliers', 'chp_with_fghex, gasboiler'),
      ('consumers', 'lowex_phwrc, speicherladesys, space_heating'),
      ('older module', 'add_chp_with_fghex')],
     'the controller gains and pipe lengths are design choices and taken as '
     'given')

prop('C32', 'Error measures and time series preparation follow their definition',
     'The error measures offered for comparing predictions with measurements '
     '(R2, adjusted R2, MAE, MSD, MSE, RMSE, CV(RMSE), normalized errors and '
     'the indicators of ts_performance_indicators) equal their textbook '
     'definition for every pair of series: column wise for two-dimensional '
     'data, centered rolling means where requested, prediction minus '
     'measurement as sign of deviations, R2 from the total sum of squares '
     'about the mean of the measurement; series are resampled to the '
     'requested frequency with the requested method only where they differ, '
     'boundary condition series are cut or stacked to the requested duration '
     'and resampled, outlier filters mark exactly the values farther than the '
     'given threshold from the (rolling) mean or median, and unusable '
     'arguments are rejected.',
     ['inputs'],
     'for every pair of series, frequency, window, threshold and method',
     'no test calls an error measure or a time series function',
     [T + '_utility/stat_error_measures.py', T + 'utility_functions.py'],
     [('measures', 'stat_err_meas.*'), ('old measures', 'utility_functions.*'),
      ('boundary', 'make_boundarycond_timeseries'),
      ('prepare', 'fit_time_series'),
      ('indicators', 'ts_performance_indicators'),
      ('outliers', 'remove_outliers_*')],
     'numpy and pandas reductions and resampling are assumed correct')

prop('C33', 'Stored results, databases and pipe tables are found and returned whole',
     'The loaders return exactly the stored tables asked for, under the name '
     'they were stored with: load_sim_results and load_results_by_name return '
     'every selected result of every part and nothing else for every path '
     'and key selection, databases are read from the standard or given '
     'folder under their file name, results are packaged only if the '
     'simulation finished, report, boundary conditions and log move along '
     'and existing folders are left alone, and pipe specifications scaled by '
     'an area factor are the table values where the table has them and '
     'geometrically consistent (inner and outer diameter, wall thickness and '
     'wall area) everywhere else.',
     ['inputs', 'configurations'],
     'for every path, selection of keys, set of files, pipe and factor',
     'no test loads stored results, databases or adjusted pipes',
     [T + 'utility_functions.py'],
     [('results', 'load_sim_results, load_results_by_name'),
      ('package', 'package_results'),
      ('databases', 'database_import, update_databases'),
      ('pipes', 'interp_pipe_specs, adjust_pipes')],
     'the file system, HDF5 store and cubic interpolation are external')

prop('C34', 'Implicit steps of the heat exchanger solve the heat balance',
     'When the discretised heat exchanger is solved implicitly, the residual '
     'given to the root finder is zero exactly for the temperatures which '
     'satisfy the backward Euler step of the same heat balance that governs '
     'the explicit part - evaluated with the argument list the part itself '
     'assembles - for every state, mass flow and step size; the fixed point '
     'forms describe the same step, and implicit solving is used only if the '
     'solver allows it, the part asks for it and a residual function is '
     'given.',
     ['inputs', 'histories'],
     'for every temperature field, flow, previous state and step size',
     'no test solves a part implicitly',
     [T + 'precomp_funs.py', T + 'parts/hex_num.py', T + 'simenv.py'],
     [('residual', 'hexnum_imp_root_diff, hexnum_diff_impl'),
      ('fixed point', 'hexnum_imp_fixedpoint, hexnum_imp_fixedp_diff'),
      ('set-up', 'HexNum.__init__, HexNum.init_part')],
     'that the root finder converges is numerical and not decided')

prop('C35', 'A plate heat exchanger has the channels, areas and masses of its plates',
     'A discretised or stationary plate heat exchanger built from numbers of '
     'plates and passes and from lengths, areas, volumes or masses has the '
     'channel numbers of each side, the channel and plate areas, cell '
     'volumes, hydraulic diameter, outer surfaces, wall heat capacities and '
     'wall conductances geometry prescribes, whichever of the alternative '
     'dimensions were given; its state arrays have a column for each fluid '
     'and the wall (discretised) or one value per port (stationary), its '
     'ports sit at the first and last cell of their own fluid, neighbour '
     'arrays are live views, the initial temperature fills every cell, and '
     'missing or impossible dimensions are rejected.',
     ['inputs', 'configurations'],
     'for every number of plates, passes and cells and every set of given '
     'dimensions',
     'no test builds a heat exchanger from alternative dimensions',
     [T + 'parts/hex_num.py', T + 'parts/heatexchanger.py'],
     [('construction', 'HexNum.__init__, HeatExchanger.__init__'),
      ('geometry', 'get_plate_hex_geometry of both'),
      ('initialization', 'init_part of both'),
      ('correction', 'HexNum.find_reynolds_correction')],
     'value-graph equality, guards and view analysis over all paths')

prop('C36', 'Parts use the material and cross sections that were selected',
     'Density, heat capacity and heat conductivity of the wall of a part are '
     'those of the selected material of the data base; wall and fluid cross '
     'section of each port are those of the pipe type and nominal diameter '
     'given for that port, or the self defined areas, the same for all ports '
     'if given once for all, and the pipe data the part reads its diameters '
     'from is that of the same selection; unknown materials, pipe types or '
     'diameters, missing areas, and specifications that do not cover every '
     'port are rejected.',
     ['inputs', 'configurations'],
     'for every material, pipe type, diameter and set of port specifications',
     'tests use one or two entries of the tables and only common '
     'specifications', [T + 'simenv.py'],
     [('data', 'SimEnv._get_specs_n_props')],
     'value-graph equality, guards and the sequence of dictionary updates')

prop('C37', 'Simulations are independent of each other and leave inputs alone',
     'Building, running or evaluating one simulation environment changes '
     'nothing another one sees: no function writes to module level or class '
     'level objects, to settings of the whole process, or to default values '
     'of parameters, directly, through aliases or through what it keeps as '
     'an attribute; and dictionaries, arrays and tables a user hands to the '
     'package (port and pipe specifications, controller and boundary '
     'settings, series, measured data) are not altered by it, so they can be '
     'used again for the next part or simulation.',
     ['histories', 'inputs'],
     'for every sequence of simulations built in one process and every '
     'argument handed over', 'each test builds its own environment with its '
     'own literal arguments',
     [T + 'simenv.py', T + 'parts/', T + 'controls.py',
      T + 'utility_functions.py', T + '_utility/'],
     [('shared state', 'every function of the package'),
      ('defaults', 'parameters with mutable default values'),
      ('arguments', 'functions called by users')],
     'interprocedural alias and effect analysis')

prop('C38', 'Thermal building blocks and series helpers compute their formula',
     'The helper functions offered for own parts and post processing compute '
     'the textbook quantity for every input: heat transfer through layers of '
     'cylinders and plates (resistances in series, related to the stated '
     'surface), series and parallel circuits of any number of UA values, '
     'steady state surface temperature, logarithmic mean temperature '
     'difference, heat transfer coefficient of a pipe wall, pipe Reynolds '
     'number, mean conductivity and properties of '
     'cells, forward Euler step, moving averages (plain, centered, weighted, '
     'with filled edges, keeping the length) and the roots of a polynomial for every '
     'value asked for - also when computed in parallel - in the module and in '
     'its precompiled copy.',
     ['inputs', 'schedules'],
     'for every input and every split of a parallel loop between threads',
     'no test calls most of them; a race shows on several cores only',
     [PRE, T + '_precompiled/precomp_funs.py', T + 'utility_functions.py'],
     [('layers', 'UA_*, series_circuit_UA, parallel_circuit_UA, '
                 'surface_temp_steady_state*, log_mean_temp_diff'),
      ('series', 'moving_avg, fill_edges, weighted_moving_avg, root_finder')],
     'value graphs equal the formulas; parallel iterations write their own '
     'index only')


prop('C39', 'The predictive CHP controller keeps its limits and its costs',
     'Whatever its optimizers return, the predictive CHP controller '
     'switches the plant on below (above) the activation threshold of the '
     'emergency sensor - at full power beyond the second one - and off beyond '
     'the set point of the other, with the hysteresis only while an emergency '
     'lasts; the long-term optimization sees the storage content between its '
     'lower and upper bound (current content plus what the plant makes minus '
     'the demand up to each time); the bound an emergency has shown to be '
     'wrong is moved to the current content, once per emergency, and led back '
     'linearly over the restore time to exactly the given value; the planned '
     'modulation is zero or within the modulation range; every planning '
     'period is planned exactly once, without a solution from the electricity '
     'demand; the output of a step is the weighted mean '
     'of planned and short-term modulation, or off. The cost it minimizes '
     'splits the produced electricity into base load, users and feed-in '
     'without loss and adds fuel, tax refund, maintenance, levy, surcharge '
     '(by the power ranges of the act), purchase and sale, alike for a '
     'profile and a single value. Profiles which are incomplete, too coarse '
     'or too short are rejected, others brought to the planning period with '
     'the heat demand summed up.',
     ['inputs', 'histories'],
     'for every storage state, sensor value, profile and optimizer result',
     'no test builds this controller',
     [T + 'parts/controllers.py'],
     [('supervision', 'ModelPredCHP.run_controller, _emergency_control, '
                      '_adapt_cap, _restore_adptd_caps'),
      ('planning', 'ModelPredCHP.tes_cap_before_*, _longterm_*, '
                   '_shortterm_opt, _process_profiles'),
      ('cost', 'ModelPredCHP._minimizer_input*, _kwk_zuschlag, _eeg_umlage, '
               '_instandh_chp_nonflat')],
     'value graphs of the state after each method equal the requirement')


prop('C20', 'Settings of a simulation are validated and applied',
     'set_timeframe, set_solver and set_disksaving accept exactly the '
     'documented values, reject everything else, and put every given setting - '
     'or else its documented default - into force: tolerances, step size '
     'limits, step size factors, stability check, recovery period, solver '
     'order, number of steps, file name, compression and resampling of stored '
     'results. A simulation starts only if solver, timeframe and disk saving '
     'are set, every part and controller is initialised and every part which '
     'needs a controller has one. Unknown parts and ports, names used twice '
     'and indices beyond the cells of a part are rejected. A new simulation '
     'environment starts empty, with nothing set and its clock at zero.',
     ['inputs', 'configurations'],
     'for every combination of arguments of the set-up calls',
     'the tests use one valid combination of settings',
     [T + 'simenv.py'],
     [('settings', 'SimEnv.set_timeframe, set_solver, set_disksaving'),
      ('completeness', 'SimEnv._build_simenv'),
      ('guards', 'SimEnv._check_isadded, _check_ispart, _check_isport, '
                 '_check_isinrange')],
     'equality of value graphs for all inputs; pandas and os are trusted')

prop('C21', 'Parts, ports, connections and controllers are registered exactly once',
     'Set-up calls take effect in the order parts, open ports, boundary '
     'conditions, connections, controllers, and an added part, connection or '
     'controller is known under its own name: names used twice and unknown '
     'names are rejected. Every port of a part gets the next free port number '
     'and the cell it sits at; a port added by index, volume or distance goes '
     'to the cell which covers that position, keeps the ports sorted by cell, '
     'and positions outside the part are rejected. A connection links exactly '
     'the two given ports in both directions, an already connected port is '
     'refused, and the simulation cannot start while a port is left '
     'unconnected. A part is put into exactly one solver group (explicit, '
     'implicit, not numeric) with its cell count.',
     ['inputs', 'configurations', 'histories'],
     'for every set of parts, port positions, connections and controllers and '
     'every order of adding them',
     'the tests build three fixed networks',
     [T + 'simenv.py', T + 'parts/tes.py'],
     [('registration', 'SimEnv._add_part, _add_control'),
      ('port insertion', 'SimEnv._add_ports, Tes.__add_ports'),
      ('connections', 'SimEnv.connect_ports, _connect_ports, '
                      '_check_unconnected_ports'),
      ('order', 'SimEnv._call_postponed')],
     'equality of value graphs and call traces for all inputs; constructors '
     'of parts and controllers are abstract')

prop('C08', 'Condensing heat exchanger',
     'The condensing heat exchanger scales water and flue gas flow with the '
     'given nominal flows, rounds a flow below the valid range to zero or the '
     'lower limit, sends water above the valid range past the exchanger and '
     'mixes it back at the outlet so that the heat of both streams is kept, '
     'and refuses more flue gas than valid. The outlet temperatures are those '
     'the regression pipeline predicts for inlet temperatures and scaled '
     'flows; below the lowest water flow the model was fitted for they follow '
     'the parabola which meets the prediction at that flow and the flue gas '
     'inlet temperature at no flow; without flow on one side both sides pass '
     'through. Wrong arguments are rejected.',
     ['inputs'],
     'for every regression pipeline, inlet temperature and flow',
     'no test uses the part',
     [T + 'parts/hex_condensing_polynome.py', PRE],
     [('solver', 'HEXCondPoly.solve, condensing_hex_solve'),
      ('model', 'transform_to_poly_nb, transform_pca_nb, poly_tranfs_pred, '
                'condensing_hex_quad_poly, make_poly_transf_combs_for_nb'),
      ('set-up', 'HEXCondPoly.__init__')],
     'equality of value graphs for all inputs')

prop('C26', 'Fluid properties and dimensionless numbers',
     'Every copy of a material property function (returning and filling, in '
     'all three modules) gives the same value; between 0 and 100 degC (viscosity '
     'and Prandtl number: monotonic to 90 degC, Prandtl number to 90 degC; '
     'expansion from 20 degC; humid air to 80 degC) density, heat capacity, '
     'conductivity, viscosity, Prandtl number and expansion coefficient of '
     'water, the properties of dry air and saturation pressure and water load '
     'of humid air stay within a few percent of the tabulated values '
     'everywhere between the table points, are positive and monotonic, and '
     'Pr = ny rho cp / lambda holds within the accuracy of the fits. Reynolds '
     'and Rayleigh number follow their definition.',
     ['inputs'],
     'for every temperature in the range of validity',
     'a test compares one or two temperatures; nothing compares the copies',
     [PRE, T + '_precompiled/material_properties.py',
      T + '_precompiled/dimensionless_numbers.py'],
     [('properties', 'rho_water, cp_water, lambda_water, ny_water, '
                     'Pr_water_return, beta_water_return, get_*'),
      ('numbers', 'Re_water_return, get_Re_water, rayleigh_number')],
     'exact interval analysis of the polynomials read from the source; table '
     'values are part of the check')


WN = ('a test samples a few runs; no test and no static argument bounds the '
      'numbers of a simulation')

na('N01', 'The solution converges to the true one',
   'Simulated temperatures approach the exact solution of the underlying '
   'equations as tolerances and cell sizes shrink, and stay within the '
   'requested tolerance of it.',
   ['inputs', 'configurations'], 'for every system, tolerance and grid', WN,
   [T + 'simenv.py', PRE], [('solver', 'SimEnv._heun_adaptive')],
   'a statement about the size of accumulated errors over a run; no sound '
   'static bound is in reach (its structural preconditions are C01-C05, C16 '
   'and C17)')

na('N02', 'No invalid numbers in a result',
   'A simulation of a physically sensible system never stores NaN or infinite '
   'temperatures or flows.',
   ['inputs', 'histories'], 'for every system, boundary condition and run', WN,
   [PRE, T + 'simenv.py'], [('kernels', 'all')],
   'needs bounds of run-time quantities (temperatures, flows, divisors) over '
   'unbounded histories; an interval analysis of the fits and kernels diverges '
   'without assuming the result. That an invalid result is reported is C30')

na('N03', 'Results survive the round trip through the file',
   'Results saved to disk and loaded again are equal to those in memory.',
   ['inputs', 'histories'], 'for every run and compression setting', WN,
   [T + 'simenv.py', T + 'utility_functions.py'],
   [('store', 'SimEnv._free_memory, _finalize_sim')],
   'decided by pandas/HDF5 outside this source; which rows are handed to the '
   'store under which time stamps is decided in C19')

na('N04', 'The predictive CHP controller schedules optimally',
   'The schedule found by the model predictive CHP controller is the cheapest '
   'feasible one for the predicted loads and prices.',
   ['inputs'], 'for every load and price profile', WN,
   [T + 'controllers.py'], [('optimiser', 'ModelPredCHP._minimizer_input')],
   'global optimality of a stochastic/numerical minimiser is a run-time '
   'quantity; its bookkeeping is structural')

na('N05', 'The condensing heat exchanger regression is accurate',
   'The fitted model of the condensing heat exchanger deviates from the '
   'measured data by no more than its stated error.',
   ['inputs'], 'for every operating point in the range of the fit', WN,
   [T + 'flownet.py'], [('fit', 'pickled model file')],
   'the coefficients live in a binary data file and the data is not in the '
   'repository; use of the model is decided in C08')

na('N06', 'Simulations finish in reasonable time and memory',
   'The run time per simulated hour and the memory stay within bounds given by '
   'the number of cells and the disk saving limits.',
   ['inputs', 'configurations'], 'for every system', WN,
   [T + 'simenv.py'], [('loop', 'SimEnv.start_sim')],
   'the number of steps depends on the simulated dynamics; only its lower step '
   'bound (C16) and array handling (C19) are structural')

na('N07', 'The counter-flow and mixing iterations converge',
   'The network temperatures of connected volume-free parts settle to the same '
   'values whatever the order of the parts.',
   ['inputs', 'configurations'], 'for every topology', WN,
   [T + 'simenv.py'], [('ports', 'SimEnv._create_port_updater')],
   'a fixed point property over run-time values and user topologies')


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    have = {f[:-3].upper() for f in os.listdir(os.path.join(here, 'props'))
            if f[0] == 'c' and f[1:3].isdigit()}
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in sorted(P + NA, key=lambda p: p['id']):
            if p in P and p['id'] not in have:
                continue
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [
                    {'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    checks = []
    for p in P:
        if p['id'] not in have:
            continue
        mod = importlib.import_module('props.' + p['id'].lower())
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py {} --tier quick'.format(p['id']),
            'thorough_cmd': 'python3 check.py {} --tier thorough'.format(
                p['id']),
            'evidence_file': 'evidence/{}.json'.format(p['id']),
            'technique': p['technique'], 'level': mod.LEVEL,
            'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest',
         'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                            for p in NA],
         'notes': 'Pure Python analysis of /repo source; nothing of the '
                  'analysed package is imported or run.'}
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
