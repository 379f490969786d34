"""Generates /verif/properties.jsonl (kept as code so that the wording stays reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))


M = 'oneka/model.py'
CZ = 'oneka/capturezone.py'
PF = 'oneka/probabilityfield.py'
ST = 'oneka/stochastic.py'
DT = 'oneka/deterministic.py'
UT = 'oneka/utilities.py'
VZ = 'oneka/visualize.py'
ON = 'oneka/oneka.py'
AR = 'oneka/archive.py'
RM = 'runme.py'
DATA = 'data'

prop('C01', 'Discharge is minus the gradient of the discharge potential',
     'At every point that is not a well location, the two components of the vertically integrated discharge equal '
     'minus the partial derivatives of the discharge potential with respect to x and y. This holds for every set of '
     'pumping or injecting wells, every local origin and every set of six regional-flow coefficients, as they stand when '
     'the question is asked: attributes of the model that are set anew count at once.',
     ['inputs', 'configurations', 'histories'], 'all models (wells, origin, coefficients) and all points away from the wells',
     'One fixed model with origin (0,0) and A=B=C=D=E=1 is evaluated at one point; mixed-up coefficients, a lost '
     'origin or a sign that depends on the data are invisible there.',
     [M], [('compute_potential', M), ('compute_discharge', M)], observe=['Model.compute_discharge', 'Model.compute_potential'])

prop('C02', 'Potential superposes regional flow and wells; water is conserved',
     'The discharge potential is the sum of the quadratic A(x-xo)^2+B(y-yo)^2+C(x-xo)(y-yo)+D(x-xo)+E(y-yo)+F and, for '
     'each well, its discharge times ln(distance)/(2 pi); the wells-only potential is that second part alone. '
     'Consequently the net outflow through any closed curve is minus the discharge of exactly the wells inside it, minus '
     '2(A+B) times the enclosed area. Attributes of the model that are set anew count at once.',
     ['inputs', 'configurations', 'histories'], 'all models, all points away from the wells and all closed boxes that avoid the wells',
     'Tests evaluate one two-well model with equal discharges at one point; conservation over arbitrary curves and well sets is never examined.',
     [M], [('compute_potential', M), ('compute_potential_wells_only', M), ('compute_discharge', M)],
     observe=['Model.compute_potential', 'Model.compute_potential_wells_only', 'Model.compute_discharge'])

prop('C03', 'Head inverts the discharge potential across dry, unconfined, confined',
     'For a positive potential the reported head h is positive and reproduces the potential: K h^2/2 while h is at most the '
     'aquifer thickness H, and K H h - K H^2/2 above it, so head is continuous and strictly increasing in the potential. '
     'For a zero or negative potential the head (and the velocity, which needs it) raises the dry-aquifer error instead of returning a number.',
     ['inputs', 'configurations'], 'all conductivities, thicknesses and potentials, including the confined/unconfined transition and the dry limit',
     'One confined point is tested; the unconfined branch, the transition and the dry aquifer are never executed by a test.',
     [M], [('compute_head', M), ('AquiferError', M)], observe=['Model.compute_head', 'Model.compute_velocity'])

prop('C04', 'Velocity is discharge over porosity times saturated thickness',
     'The seepage velocity times porosity times the saturated thickness (the smaller of head and aquifer thickness) equals the '
     'discharge vector at every non-dry point, in the confined, unconfined and mixed aquifer. '
     'The fast confined-only velocity always divides by the full thickness, and so agrees with the general velocity exactly where the aquifer is confined. Attributes of the model that are set anew count at once.',
     ['inputs', 'configurations', 'histories'], 'all models and all points, confined and unconfined',
     'Tests call the general velocity at two confined points with one porosity and thickness, and never the fast variant, which is the one the capture zones use by default.',
     [M], [('compute_velocity', M), ('compute_velocity_confined', M)], observe=['Model.compute_velocity', 'Model.compute_velocity_confined'])

prop('C05', 'The fit is the weighted least-squares optimum with its covariance',
     'For any well-posed set of observations, the fitted regional coefficients minimise the sum of squared differences between '
     'model potential (wells included) and observed potential, each divided by the standard deviation of the observed potential, '
     'and the returned covariance is the inverse of the weighted normal matrix. Observed potentials come from head above base by first-order second-moment '
     'propagation: mean K H (h - H/2) and deviation K H s when confined (h at least H), mean K (h^2 + s^2)/2 and deviation K h s when unconfined.',
     ['inputs', 'configurations'], 'all observation sets (at least six, not on a common conic), wells, aquifers and origins',
     'One 25-point all-confined observation set with one common standard deviation and a tolerance of 1e-3 is tested, so unequal weights and the unconfined branch are never exercised.',
     [M], [('construct_fit', M), ('compute_fit', M), ('fit_regional_flow', M)], observe=['Model.fit_regional_flow'])

prop('C06', 'Fit recovers exact data and does not depend on bookkeeping',
     'If the observed potentials were produced by a model of the fitted family, the fit recovers that model at every point and the fitted model keeps the '
     'origin and coefficients it reports. The fitted potential field does not depend on the order of the observations, on where the local origin is put, or on a common shift of all '
     'coordinates; multiplying all standard deviations of confined observations by a factor leaves the coefficients unchanged and multiplies the covariance by its square.',
     ['inputs', 'configurations'], 'all generating models, observation layouts, permutations, origins and shifts',
     'One data set with a fixed origin is tested; no metamorphic relation is.',
     [M], [('fit_regional_flow', M), ('compute_potential', M)], observe=['Model.fit_regional_flow', 'Model.compute_potential'])

prop('C07', 'A refused fit changes nothing, and models are independent',
     'If any observed water level is at or below the aquifer base, the fit raises the range error wherever that observation stands in the list, and the model keeps the origin, coefficients and behaviour it had before; levels above the base are not refused, however little above. '
     'A fit that fails for another reason (degenerate or malformed observations) changes nothing either. '
     'Models never share state: fitting, re-assigning or editing in place the coefficients of one model changes no other model, existing or created later, nor any array the caller passed in.',
     ['inputs', 'histories'], 'all observation lists with a bad entry at any place, and all histories of operations on several models',
     'No test makes a fit fail or holds two models at once.',
     [M], [('construct_fit raises RangeError before any assignment', M), ('coef property setter', M)],
     state=[('coef', 'regional-flow coefficients', M), ('xo, yo', 'local origin', M)], observe=['Model.fit_regional_flow', 'Model.coef'])

prop('C08', 'A trace follows the velocity field for exactly the duration',
     'For a smooth velocity field the last vertex of a trace is the exact solution of dx/dt = v(x) at the requested duration, and every vertex lies on the exact trajectory in order, within an error governed by the tolerance argument. '
     'A negative duration follows the field backwards in time, so tracing forth and back returns to the start, and tracing two durations in succession equals tracing their sum.',
     ['inputs', 'configurations'], 'all smooth velocity fields, starting points, durations of both signs, tolerances and step limits',
     'There is no test of the tracking code at all.',
     [CZ], [('compute_backtrace (Dormand-Prince, adaptive step)', CZ)], observe=['compute_backtrace'])

prop('C09', 'Trace vertices honour the start, the step limit and the local error',
     'The first vertex of a trace is the given starting point and no two consecutive vertices are further apart than the maximum space step. '
     'The local error of each single step, as the embedded fourth- and fifth-order Dormand-Prince pair estimates it, stays within the tolerance, whatever the tolerance, step limit, speed and duration, each step is a fifth-order step, and a trace in still water stays where it started and ends.',
     ['inputs', 'configurations'], 'all velocity fields and all tolerances, step limits and durations, including stagnant and very fast flow',
     'There is no test of the tracking code; step control only shows at combinations of tolerance, step limit and speed.',
     [CZ], [('accept/reject test and step-size update in compute_backtrace', CZ)], observe=['compute_backtrace'])

prop('C10', 'A failing velocity ends a trace early, cleanly and visibly',
     'If the velocity evaluation fails (for example in a dry aquifer) or yields a non-finite value at any evaluation of a trace, the trace ends there: the call returns normally with the vertices accepted so far, which are exactly a prefix of the trace without '
     'the failure and contain at least the starting point, and logs a warning. A trace whose whole path stays several step lengths clear of every place where the velocity fails is completed, whatever its speed. An interruption by the user (Ctrl-C) is never swallowed: it propagates instead of yielding a truncated trace.',
     ['fault_sequences', 'inputs'], 'a failure, non-finite value or interrupt injected at any evaluation of any trace',
     'No test traces a particle; failures at a particular evaluation need fault injection.',
     [CZ], [('exception handling in compute_backtrace', CZ)], observe=['compute_backtrace', "log 'oneka.capturezone'"])

prop('C11', 'The capture zone conserves water',
     'In a confined aquifer, the region enclosed by the ends of the backtraces of a pumping well that captures water from all sides has, besides the starting disc, the volume that the well pumped in that time corrected for areal recharge: '
     'pore volume equals pumped volume when there is no recharge, whatever the uniform flow. The same holds with the roles of time reversed for an injecting well traced forward.',
     ['inputs', 'configurations'], 'all pumping rates, aquifers, durations, uniform flows and recharge rates for which the well captures from all sides',
     'No test computes a capture zone.',
     [CZ, M, DT], [('compute_backtrace', CZ), ('compute_velocity_confined', M)], observe=['compute_backtrace over Model velocities'])

prop('C12', 'A grid node is marked exactly when it lies within the umbra of the track',
     'After a track is rasterised, a node of the grid is marked if and only if it was marked before or lies closer than the umbra to the track polyline, and the grid reaches far enough that no node of the lattice within the umbra is left out. '
     'This holds for every track of at least two vertices, wherever it runs relative to the grid as it was before, for any spacings in x and y, any umbra, and repeated vertices.',
     ['inputs', 'histories'], 'all tracks (turns, repeated vertices, any direction), spacings, umbras and previous grid states',
     'Inserting and rasterising are untested (the test file has a TODO for them).',
     [PF], [('rasterize', PF), ('insert', PF), ('expand', PF)], state=[('rgrid', 'nodes visited in the current realization', PF)],
     observe=['ProbabilityField.rgrid', 'ProbabilityField.pgrid after register'])

prop('C13', 'Growing the grid keeps every node, its place and its content',
     'When the field grows to include a box, the box ends up strictly inside the grid, all earlier nodes stay at the same coordinates with the same registered probability and marks, new nodes are empty, and the extent, spacing and row and column counts remain consistent. '
     'The grid never shrinks, a box already strictly inside changes nothing, and an inverted box is refused with the range error leaving the field as it was, as are spacings that are not positive when a field is made.',
     ['inputs', 'histories'], 'all sequences of growth requests in any direction, with any spacings, with or without an initial centre',
     'One growth request on an empty field and one no-op are tested; growth of a field that has content never is.',
     [PF], [('expand', PF)], state=[('xmin, xmax, ymin, ymax, nrows, ncols', 'geometry', PF), ('pgrid, rgrid', 'content', PF)],
     observe=['ProbabilityField attributes'])

prop('C14', 'Probability is the weight of the realizations that visited a node',
     'After any sequence of rasterising, registering, discarding and growing, the accumulated value at a node equals the sum of the weights of the registered realizations with at least one track within the umbra of the node (each realization counts once, discarded ones never), and the total weight is the sum of all registered weights. '
     'Hence the capture probability at every node lies between 0 and 1, and does not depend on the order of the realizations; discarding or registering is also possible on a field that has no grid yet.',
     ['histories', 'inputs'], 'all operation sequences on a field',
     'No test registers anything.',
     [PF], [('register', PF), ('reset', PF), ('rasterize', PF)], state=[('total_weight', 'normaliser', PF), ('pgrid', 'accumulated weight', PF)],
     observe=['ProbabilityField.pgrid', 'ProbabilityField.total_weight'])

prop('C15', 'Point-to-segment distance is exact for every segment',
     'The squared distance between a point and a line segment is the minimum over the segment, for points before, beside and beyond it and on it, and for a segment of zero length it is the squared distance to that point. '
     'It does not depend on the direction of the segment, and is unchanged by shifting, rotating or mirroring all points.',
     ['inputs'], 'all segments, including degenerate ones, and all points',
     'One point beside one segment is tested.',
     [PF], [('distancesquared', PF)], observe=['ProbabilityField.distancesquared'])

prop('C16', 'A capture zone is the union of its traces, registered once',
     'A capture zone starts the requested number of traces, evenly spaced on the circle of well radius plus one metre around the target, and marks the union of their umbras. '
     'Each node of that union gains the given weight exactly once however many traces pass it, all other nodes gain nothing, the total weight grows by the same weight once, and what the field held before is kept.',
     ['inputs', 'histories'], 'all targets, path counts, velocity fields, weights and previous contents of the field',
     'No test computes a capture zone.',
     [CZ, PF], [('compute_capturezone', CZ), ('register', PF)], observe=['velocity callback', 'ProbabilityField.pgrid'])

prop('C17', 'The deterministic capture zone is that of the mean problem',
     'The deterministic capture zone is the capture zone of the model with the mean conductivity, porosity, thickness and well discharges and the regional flow fitted to the observations: '
     'a node has probability one if the exact trajectory of some starting point around the target passes within the umbra, and zero otherwise, up to the integration error. This holds for the confined assumption and the general aquifer, for backward and forward durations, and for whichever well is the target.',
     ['inputs', 'configurations'], 'all projects (wells, distributions, observations, aquifer, options)',
     'No test runs a capture zone from project data.',
     [DT, CZ, M, PF, ST], [('create_deterministic_capturezone', DT), ('compute_variate_mean', ST)], observe=['returned ProbabilityField'])

prop('C18', 'Every realization draws its own parameters inside their distributions',
     'Each realization of a stochastic capture zone uses wells at the given places with discharges, and a conductivity, porosity and thickness, drawn anew and independently from their distributions and never outside their limits; constants stay exact. '
     'Exactly the requested number of realizations is registered, each with the same weight, so every probability is a multiple of one over that number.',
     ['inputs', 'configurations'], 'all projects and numbers of realizations, all random streams',
     'No test runs a stochastic capture zone.',
     [ST, M, PF], [('create_stochastic_capturezone', ST), ('generate_random_variate', ST)], observe=['Model instances in use during tracing', 'returned ProbabilityField'])

prop('C19', 'Regional flow of a realization is drawn from its own fit',
     'In each realization the six regional-flow coefficients are a fresh draw from the multivariate normal distribution whose mean and covariance come from the fit of the observations under the parameters of that very realization. '
     'Over many realizations the standardised draws have mean zero, unit variance, no correlation between coefficients and none between realizations, and the log reports the coefficients and the areal recharge that the realization used.',
     ['inputs', 'configurations'], 'all projects, over the random streams',
     'No test runs a stochastic capture zone; a wrong covariance or a reused draw gives plausible maps.',
     [ST, M], [('fit_regional_flow then multivariate_normal in create_stochastic_capturezone', ST)], observe=['Model.coef during tracing', "log 'Oneka'"])

prop('C20', 'Valid distributions can be sampled and averaged; malformed ones are refused',
     'Whatever the distribution check accepts (a number, or a pair or triple in ascending order within the bounds, as tuple or list, including ones of zero width) can be sampled and averaged: samples lie between the first and last entry, follow the uniform or (min, mode, max) triangular law, and the mean is that law\'s mean. '
     'The check refuses everything out of order or bounds, of other lengths, or of other types (all numbers being finite), and sampling or averaging a sequence of another length raises the distribution error.',
     ['inputs'], 'all numbers, tuples, lists and other values, all bounds',
     'No test touches distributions.',
     [ST], [('isdistribution', ST), ('generate_random_variate', ST), ('compute_variate_mean', ST)], observe=['the three functions'])

prop('C21', 'Only observations beyond the buffer of every well are retained',
     'An observation takes part in the fit if and only if it is further than the buffer distance from every well; one within (or exactly at) the buffer of any well, first, last or in between, has no influence on the result. '
     'Observations that are kept and have no duplicate pass through with their values and relative order unchanged, and the input lists are not modified.',
     ['inputs'], 'all observation lists, well fields and buffers',
     'No test filters observations.',
     [UT], [('filter_obs', UT)], observe=['filter_obs'])

prop('C22', 'Duplicate observations merge into one minimum-variance average',
     'Observations at the same place are replaced by one observation there with the inverse-variance weighted mean level and the standard deviation of that mean, wherever the duplicates stand in the list. '
     'No two retained observations are closer together than the one metre uniqueness distance, total inverse variance and inverse-variance weighted level are conserved, and permuting the list yields the same averaged observations. An observation that is a metre or more from every other is retained as it is.',
     ['inputs'], 'all observation lists with duplicates in any arrangement',
     'No test filters observations.',
     [UT], [('filter_obs', UT)], observe=['filter_obs'])

prop('C23', 'The summary table states the true statistics of every column',
     'For any table of values, the summary shows in each column the count, minimum, median, maximum, mean and (population) standard deviation of that column, ignoring missing values, in the requested format under the right name. '
     'Each line has one entry per variable in the order given.',
     ['inputs'], 'all value tables, names and number formats',
     'No test builds a summary.',
     [UT], [('summary_statistics', UT)], observe=['summary_statistics'])

prop('C24', 'An archived run is restored exactly and never overwritten',
     'Archiving a run creates one new file in the logs folder of the working directory, and loading it gives back every argument under its own name with an equal value, and a probability field with equal geometry, content, marks and weight that continues to work. '
     'Archiving never alters or replaces an earlier archive or one that another process makes at the same moment, even within the same second, and creates the folder if it is missing.',
     ['inputs', 'histories', 'schedules'], 'all run arguments and fields, all sequences of archiving, other runs at any moment',
     'No test archives anything.',
     [AR], [('dump_oneka', AR), ('load_oneka', AR)], observe=['files in the working directory', 'load_oneka'])

prop('C25', 'Reported areas match the probability field',
     'The impact table lists every node probability in descending order with a cumulated area that lies between the area of the nodes of strictly higher probability and that of the nodes of at least that probability, and the impact curve shows these pairs in acres. '
     'The deterministic plot reports as area the number of captured nodes times the cell area and fills exactly those cells, and an empty field raises the capture-zone error in each of these reports.',
     ['inputs', 'histories'], 'all probability fields',
     'No test uses the visualisation module.',
     [VZ], [('create_impact_plot', VZ), ('create_deterministic_plot', VZ)], observe=['return values', 'matplotlib axes'])

prop('C26', 'The entry point validates, runs, reports, returns and archives a project',
     'A project run refuses (raises, before sampling, tracing, drawing or writing an archive) every argument of wrong type or outside its documented range and every project left with fewer than seven observations, and accepts every documented one including the documented defaults. '
     'An accepted run returns the probability field computed for its own arguments from the observations retained by the buffer, stochastic for more than one realization and deterministic otherwise, draws and logs its map and areas, leaves the caller\'s data unmodified and archives exactly these arguments and this field.',
     ['inputs', 'configurations'], 'all valid projects and all single corruptions of them',
     'No test calls the entry point.',
     [ON, DT, ST, AR, UT], [('oneka: assertions, dispatch, archive', ON)], observe=['oneka()', 'the archive it writes'])

prop('C27', 'Maps show the model and the field at the right places',
     'The head and potential maps show, at each grid position, the head or potential of the model there, with dry places blank rather than failing; the probability map shows the probability of each node at the node\'s coordinates with the target, wells and retained observations at theirs. '
     'Smoothing of zero shows the field itself and any other smoothing the Gaussian average of the field over that many grid spacings, which keeps values between 0 and 1.',
     ['inputs', 'configurations'], 'all models (also partly dry), windows, fields and smoothing widths',
     'No test uses the visualisation module.',
     [VZ], [('contour_head', VZ), ('contour_potential', VZ), ('create_probability_plot', VZ)], observe=['data handed to matplotlib'])

prop('C28', 'Capture zones move, turn and mirror with the problem',
     'Shifting all well and observation coordinates shifts the deterministic capture zone, and turning them by quarter turns or mirroring them about the target turns or mirrors it (up to integration error at the umbra edge). '
     'Neither the order of the neighbouring wells, the order of the observations, splitting a well into co-located parts of the same total discharge, nor adding a well of zero discharge changes it.',
     ['inputs', 'configurations'], 'all projects, shifts, quarter turns, reflections, permutations and splits',
     'No test runs a capture zone, much less two related ones.',
     [DT, CZ, M, PF], [('create_deterministic_capturezone', DT)], observe=['returned ProbabilityField'])

prop('C29', 'Without uncertainty the stochastic zone is the deterministic zone',
     'When every distribution is constant and the observations are (nearly) error-free, a stochastic run with any number of realizations gives probability one on the deterministic capture zone and zero elsewhere, up to nodes on the edge of the umbra. '
     'The same holds in the confined and in the general aquifer.',
     ['inputs', 'configurations'], 'all projects with degenerate distributions, all numbers of realizations',
     'No test runs either pipeline.',
     [ST, DT], [('create_stochastic_capturezone', ST), ('create_deterministic_capturezone', DT)], observe=['returned ProbabilityFields'])

prop('C30', 'Results depend on the inputs alone, not on what ran before',
     'Deterministic computations (fits, traces, fields, deterministic capture zones) give identical results when repeated in the same process after any other computations, and independently of the random state. '
     'No computation modifies the wells, observations, distributions or arrays the caller supplied, and fields made by separate runs share nothing.',
     ['histories', 'inputs'], 'all interleavings of runs and primitive operations in one process',
     'Each test makes one call on fresh objects.',
     [M, CZ, PF, ST, DT, UT], [('no module-level state', M), ('fresh ProbabilityField and Model per run', DT)], observe=['repeated calls'])

prop('C31', 'The driver runs a project module exactly as it is written',
     'Running a project by module name passes every setting of the module to the matching argument of the run, so the archive holds exactly the module\'s settings, and writes one log in the logs folder that states them and is not mixed with that of another run, be it earlier, later or at the same time. '
     'An unknown module name is reported without writing anything.',
     ['configurations', 'histories', 'schedules'], 'all project modules, sequences of runs in one process, and processes at once',
     'No test runs the driver.',
     [RM, ON, AR], [('main', RM), ('log_the_run', ON)], observe=['files in the working directory', 'stdout'])

prop('C32', 'The quick capture-zone plot works for any model and well',
     'The quick capture-zone plot draws one backtrace per ray from around the given well of the given model for the given number of years. '
     'Rays that meet a dry aquifer are reported and skipped, the others are still drawn.',
     ['inputs'], 'all models and wells',
     'No test uses the visualisation module.',
     [VZ], [('quick_capture_zone', VZ)], observe=['matplotlib axes'])

prop('C33', 'A stochastic probability is the fraction of realizations that capture',
     'After a stochastic run, the probability at every grid node is the number of realizations whose capture zone contains that node, divided by the number of realizations. '
     'The capture zone of a realization is that of the conductivity, porosity, thickness, discharges and flow drawn for it; every realization counts exactly once and alike.',
     ['inputs', 'configurations'], 'all projects, distributions and numbers of realizations',
     'No test runs the stochastic pipeline.',
     [ST, CZ, PF], [('realization loop', ST), ('register', PF)], observe=['returned ProbabilityField', 'model states used while tracing'])

prop('C34', 'Capture zones only grow with duration, umbra and number of paths',
     'A deterministic capture zone with a longer duration, a wider umbra, or a whole multiple of the number of paths contains the former zone (up to integration error at the umbra edge). '
     'In a stochastic run of the same realizations with a wider umbra no probability falls.',
     ['inputs', 'configurations'], 'all projects and all such pairs of runs',
     'No test runs two related capture zones.',
     [DT, ST, CZ, PF], [('rasterize', PF), ('compute_backtrace', CZ)], observe=['returned ProbabilityFields'])

prop('C35', 'Capture zones do not depend on datum or time unit',
     'The deterministic capture zone is unchanged when base and water levels are measured from another datum, when conductivity and discharges are stated in another time unit with the duration converted, and when porosity and duration are multiplied by the same factor (up to integration error at the umbra edge). '
     'In a confined aquifer it is also unchanged when all standard deviations of the observations are multiplied by one factor.',
     ['inputs', 'configurations'], 'all projects, datums, time units and factors',
     'No test runs two related capture zones.',
     [DT, M, CZ], [('fit_coefficients', M), ('compute_velocity', M)], observe=['returned ProbabilityFields'])

prop('C36', 'Traces in real models follow the water, at its pace',
     'The trace of a model keeps to one value of the stream function of the model when there is no recharge, head rises along a backward trace and falls along a forward one, and it covers in the stated duration the path that the pore water velocity of the model (discharge over porosity and saturated thickness) covers in that time.',
     ['inputs', 'configurations'], 'all models, starting points, durations of either sign, states of the aquifer',
     'The test of the trace uses one velocity field, not that of a model.',
     [CZ, M], [('compute_backtrace', CZ), ('compute_velocity', M)], observe=['vertices returned by compute_backtrace'])

prop('C37', 'The log of the buffer accounts for every observation',
     'The log of the preparation of observations states each removed observation together with a well that is near it, each group of observations merged into an average together with that average, and the retained observations in a numbered list, so that every observation supplied is accounted for exactly once and nothing else is stated.',
     ['inputs'], 'all lists of observations and wells',
     'No test reads the log.',
     [UT], [('filter_obs', UT)], observe=['log records'])

prop('C38', 'The log of a deterministic run states the model that was used',
     'The log of a deterministic run states the base, the mean conductivity and porosity, the coefficients fitted about the target well and the recharge they imply, and these are the values with which the traces were computed.',
     ['inputs', 'configurations'], 'all deterministic runs',
     'No test runs the deterministic pipeline or reads the log.',
     [DT, M], [('create_deterministic_capturezone', DT)], observe=['log records', 'model state used while tracing'])

prop('C39', 'The shipped projects give the right capture zones from data to result',
     'Every project shipped in the data folder is accepted as it stands. With any of its wells as the target and with any duration, number of paths, part of its observations, repeated observations and either assumption about confinement, a deterministic run returns the capture zone of the mean parameters and of the flow fitted to the observations beyond the buffer with duplicates averaged, and a stochastic run the fraction of its realizations that capture.',
     ['inputs', 'configurations'], 'all shipped projects and variations of their settings',
     'No test runs a project.',
     [DATA, ON, UT, M, DT, ST, CZ, PF], [('oneka', ON)], observe=['returned ProbabilityFields', 'archive'])

prop('C40', 'The log of a stochastic run states every realization that was used',
     'The log of a stochastic run states, for each realization in turn and numbered in order, its base, conductivity, porosity, thickness and recharge, the coefficients fitted under its own parameters and the coefficients drawn for it, and these are the ones with which its traces were computed.',
     ['inputs', 'configurations'], 'all stochastic runs',
     'No test runs the stochastic pipeline or reads the log.',
     [ST, M], [('create_stochastic_capturezone', ST)], observe=['log records', 'model state used while tracing'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fp:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fp.write(json.dumps(p) + '\n')
print(len(P))
