"""Writes properties.jsonl (kept as code so that statements, anchors and ids stay in one reviewed place)."""
import json
import os

MMS = 'src/nempy/historical_inputs/mms_db.py'
XML = 'src/nempy/historical_inputs/xml_cache.py'
LOAD = 'src/nempy/historical_inputs/loaders.py'
UNITS = 'src/nempy/historical_inputs/units.py'
CONS = 'src/nempy/historical_inputs/constraints.py'
INTER = 'src/nempy/historical_inputs/interconnectors.py'
DEM = 'src/nempy/historical_inputs/demand.py'
RHS = 'src/nempy/historical_inputs/rhs_calculator.py'

P = []


def add(pid, title, statement, over, text, why, files, mechanism, **kw):
    m = {'crash points': 'crash_points', 'I/O faults': 'fault_sequences', 'network faults': 'fault_sequences',
         'solver faults': 'fault_sequences', 'clock': 'fault_sequences', 'interleavings': 'schedules'}
    over = list(dict.fromkeys(m.get(o, o) for o in over))
    mechanism = [{'name': mechanism, 'where': files[0]}]
    if 'state' in kw:
        kw['state'] = [{'name': kw['state'], 'meaning': kw['state'], 'where': files[0]}]
    if 'observe_at' in kw:
        kw['observe_at'] = [kw['observe_at']]
    kw.pop('hook_needed', None)
    d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why, 'anchors': dict({'files': files, 'mechanism': mechanism}, **kw)}
    P.append(d)


M = 'src/nempy/markets.py'
B = 'src/nempy/spot_market_backend/'
SOLVER = B + 'solver_interface.py'
FCAS = B + 'fcas_constraints.py'
UC = B + 'unit_constraints.py'
IC = B + 'interconnectors.py'
OBJ = B + 'objective_function.py'
VID = B + 'variable_ids.py'
FS = B + 'ramp_rate_processing.py'
ME = B + 'market_constraints.py'
EL = B + 'elastic_constraints.py'

add('P01', 'Loading a table into the historical database is all-or-nothing',
    'A load of one table into the historical database either completes and the table holds exactly the published rows '
    'it promises, or it fails and the table holds exactly what it held before. This is true whatever statement, row or '
    'download the load fails or the process dies at, and any other process reading the database during the load sees '
    'only the old or the new contents. No load changes any other table.',
    ['crash points', 'I/O faults', 'interleavings', 'histories'],
    'for every table, every history of loads, every failing or fatal point inside a load and every instant at which '
    'another connection reads',
    'tests load a table once, successfully, and never interrupt a load or read while one is running',
    [MMS], 'set_data/add_data of the table classes: download, then write through pandas/sqlite in a staging table and '
           'swap it in within one transaction, or append in one transaction',
    state='sqlite tables', observe_at='table contents through a second connection between statements and after restart')

add('P02', 'Repeating an interrupted database population converges',
    'However often and wherever populating the historical database for a range of months is interrupted by a failed '
    'download, a database error or the death of the process, running the same population again without faults '
    'completes and leaves every table with exactly the contents an undisturbed population would have produced: every '
    'month of the range and the one before it once for interval tables, the latest month for the others.',
    ['crash points', 'I/O faults', 'histories'],
    'for every month range and every sequence of interrupted attempts',
    'populating needs the network and hours, tests do not run it, let alone interrupt it',
    [MMS], 'DBManager.populate -> create_tables, add_data per month, set_data for the last month',
    state='all sqlite tables')

add('P03', 'Historical database reads return exactly the records in force',
    'A read for a dispatch interval returns exactly the records the loaded data declares in force for it: the rows of '
    'that interval, of its trading day, or per item the latest effective date not after the interval and the highest '
    'version for that date, limited to the interconnectors or constraints in use in that interval. The answer depends '
    'only on what has been loaded, not on earlier reads, failed loads or restarts.',
    ['histories', 'inputs', 'I/O faults'],
    'for every sequence of loads, failures, restarts and reads and every interval time',
    'tests query tables of a few hand written rows right after filling them',
    [MMS], 'get_data of the Inputs* classes (temporary tables temp..temp4, joins with DISPATCHCONSTRAINT and '
           'DISPATCHINTERCONNECTORRES)',
    state='sqlite tables and temporary tables of the connection')

add('P04', 'A failed download is never silently treated as absent data',
    'When the data server refuses, breaks off or garbles a download, the load that needed it reports an error and '
    'leaves the database unchanged. Only a definite answer that a month of a full-history table does not exist may be '
    'skipped, and then all other months of that table are still loaded, with the most recent publication of a record '
    'winning.',
    ['network faults', 'histories'],
    'for every table, month, position of the failing request and kind of network failure',
    'tests have no network and check one missing month',
    [MMS], '_download_to_df and the month loop of _AllHistDataSource.set_data', observe_at='outcome of set_data/add_data '
    'and table contents')

add('P05', 'The interval file cache never serves a damaged or wrong file',
    'Whatever download, extraction, disk error or process death came before, loading an interval from the cache either '
    'yields exactly the contents the data server publishes for that interval or fails. Once faults stop, loading an '
    'interval that the server publishes succeeds without manual cleaning of the cache.',
    ['crash points', 'I/O faults', 'network faults', 'histories'],
    'for every sequence of loads with faults or deaths at any file operation or request',
    'tests load intact files only; a torn or partly extracted cache file needs a crash at the right instant',
    [XML], 'XMLCacheManager.load_interval/_download_xml: download of the day archive, extraction into the cache folder, '
           'reading of the interval file',
    state='cache folder')

add('P06', 'A failed interval load never leaves another interval\'s data in place',
    'After an attempt to select a dispatch interval has failed, reads of interval data fail or return data of the '
    'requested interval, never data of a previously selected one. After any successful selection all interval data, '
    'from the case file and from the database, belongs to that one interval.',
    ['histories', 'network faults', 'I/O faults'],
    'for every sequence of successful and failed interval selections and reads',
    'tests select intervals that exist and do not continue after a failure',
    [XML, LOAD], 'XMLCacheManager.load_interval keeps the parsed file as state; RawInputsLoader.set_interval sets both '
                 'sources')

add('P07', 'A populated cache serves every interval of its date range offline',
    'After populating the case file cache for a range of days or months has completed, every five minute interval of '
    'the range loads without any network access. Populating downloads only what is missing, so repeating or resuming '
    'it after an interruption completes the range without fetching what is already complete.',
    ['histories', 'network faults', 'crash points'],
    'for every date range and every history of interrupted populations',
    'populating needs the network, tests never run it',
    [XML], 'XMLCacheManager.populate, populate_by_day, interval_inputs_in_cache',
    state='cache folder', observe_at='requests made')

add('P08', 'Unobtainable intervals end in the documented error after bounded retrying',
    'Loading an interval whose case file cannot be obtained ends in the documented missing data error after at most '
    'one retry and a bounded simulated wait, whatever way the server fails, while an answer that is damaged once is '
    'fetched again and used. Scans over many intervals skip such '
    'intervals and still report every other interval that matches.',
    ['network faults', 'clock', 'histories'],
    'for every pattern of server failures over the intervals of a load or scan',
    'tests have no failing server and cannot wait 200 seconds',
    [XML], 'XMLCacheManager._download_xml/_get_file_path/load_interval retry with time.sleep, MissingDataError; '
           'find_intervals_with_violations, find_intervals_constraints_violated')

add('P09', 'Interval data reported is what the loaded case file states',
    'After an interval is loaded, the volume bids, price bids, initial conditions, fast start profiles, availabilities, '
    'constraint values, violations, violation prices and other data reported for it equal what the case file of that '
    'interval states, item by item. Neither previously loaded intervals, nor the order or repetition of the reads, nor '
    'the mutation of returned data by the caller alters what is reported.',
    ['histories', 'inputs', 'interleavings'],
    'for every case file and every order of loads and reads, with returned tables modified by the caller',
    'tests need downloaded case files and read each item once from a fresh load',
    [XML], 'get_* methods of XMLCacheManager over the parsed case file held in memory')

add('P10', 'Prepared market inputs depend only on the selected interval',
    'The bids, limits, ramp rates, trapeziums, fast start profiles, constraints, interconnector models and demand an object '
    'prepares are those of the recorded data of the interval selected when the object was created (demand: when asked). '
    'They do not depend on which intervals were processed before or selected since, on the order or number of times they '
    'are requested, on failed requests in between, on what callers do to tables they were given, or on other clients '
    'preparing other intervals at the same time.',
    ['histories', 'interleavings', 'I/O faults'],
    'for every order of preparation calls, selections of intervals and interleaving of two clients',
    'tests prepare one interval in one fixed order',
    [UNITS, CONS, INTER, DEM, LOAD], 'UnitData, ConstraintData, InterconnectorData, DemandData cache derived tables as '
                                     'state and add to them between calls')

add('P11', 'Every reported dispatch respects all limits in force',
    'Whatever history of set, replaced, rejected and failed operations led to it, a dispatch the market reports meets '
    'every hard limit currently in force: bid volumes, capacities, ramp rates, fast start profiles, interconnector '
    'limits, generic constraints, FCAS requirements and the supply and demand balance of every region including '
    'interconnector losses.',
    ['histories', 'inputs', 'solver faults'],
    'for every market and every history of operations and solver failures',
    'tests solve a handful of markets once, each from a fresh object',
    [M, SOLVER, UC, ME, IC], 'SpotMarket.set_* build constraint tables; dispatch() assembles and solves them')

add('P12', 'Dispatch is least cost for the bids and limits in force',
    'The reported dispatch has the lowest total cost, bid prices adjusted for losses plus violation penalties, among '
    'all dispatches allowed by the inputs currently in force, whatever history of set, replaced, rejected and failed '
    'operations preceded it.',
    ['histories', 'inputs', 'solver faults'],
    'for every market and every history of operations and solver failures',
    'optimality against all alternatives cannot be sampled by fixed examples, and stale inputs appear only after '
    'particular histories',
    [M, SOLVER, OBJ], 'objective function and constraint assembly in SpotMarket.dispatch')

add('P13', 'Prices are the marginal cost of one more unit of demand or requirement',
    'The energy price of a region and the price of an FCAS requirement equal the change in least total cost per unit '
    'change of that region\'s demand or that requirement, with interconnector losses linearised at the solution, and '
    'for degenerate solutions lie between the costs of a small decrease and a small increase. This holds after any '
    'history of operations on the market.',
    ['histories', 'inputs', 'solver faults'],
    'for every market and every history of operations and solver failures',
    'tests compare prices of single examples; which price results after replacements or failed solves is not sampled',
    [M, SOLVER], 'linear re-solve with fixed loss interpolation weights, duals of the demand and FCAS constraints')

add('P14', 'A failed solve is reported and never turned into results',
    'When the problem is infeasible or the solver stops without an optimal solution, at the first solve or at any '
    're-solve made for prices, dispatching raises an error. It never returns as if it had succeeded, and once the '
    'cause is removed the same market dispatches correctly.',
    ['solver faults', 'histories'],
    'for every market and every solve of a dispatch at which the solver fails in any way',
    'tests meet a solver failure in one infeasible example only',
    [SOLVER, M], 'status handling around each optimise call of a dispatch')

add('P15', 'Rejected inputs leave the market unchanged',
    'Input the documentation declares malformed is rejected with an error, and an operation on a market that is rejected '
    'has no effect: what the market then dispatches, and at what prices, is what it would have been without the attempt.',
    ['histories', 'inputs'],
    'for every operation, kind of malformed input and point in the history of a market',
    'tests check that the right error is raised and throw the market away',
    [M], 'validation at the start of the SpotMarket.set_* methods', hook_needed=False)

add('P16', 'Callers\' data is never modified and markets do not affect each other',
    'No operation of a market modifies the tables or values passed to it. Two markets built from the same tables, with '
    'their operations interleaved in any order, give the same results as each would alone, and later changes the '
    'caller makes to tables already handed over or returned do not change later results.',
    ['interleavings', 'histories', 'inputs'],
    'for every interleaving of two clients\' operations and every sharing of input tables',
    'tests build one market at a time from tables made for it',
    [M, SOLVER, FCAS, UC], 'SpotMarket.set_* and the backend work on the frames they are given')

add('P17', 'Soft constraints are violated only when that is unavoidable or cheaper',
    'A constraint with a violation price is violated by the reported dispatch only to the extent the least cost '
    'solution requires at that price, and the violation reported for it is the true shortfall or excess. A constraint '
    'made hard again, or never made soft, is not violated.',
    ['histories', 'inputs', 'solver faults'],
    'for every market, violation price and history of hardening, softening and replacing constraints',
    'tests use a few examples with one violated set each',
    [M, EL, SOLVER], 'make_constraints_elastic, deficit variables and their costs, get_elastic_constraints_violation_degree')

add('P18', 'Interconnector flows, losses and region summaries are consistent',
    'For every interconnector the reported losses are those of its loss function at the reported flow, to within the '
    'interpolation between its break points. Losses are attributed to the two regions by their share, and each '
    'region\'s reported dispatch, inflow and losses balance its demand.',
    ['histories', 'inputs', 'solver faults'],
    'for every market with interconnectors and history of operations on it',
    'tests check few flows; consistency after replacement of losses or limits is not sampled',
    [M, IC], 'set_interconnectors, set_interconnector_losses, get_interconnector_flows, get_region_dispatch_summary')

add('P19', 'Replaced inputs leave no residue',
    'After any sequence of replacements of its inputs a market dispatches, prices and reports violations exactly as a '
    'new market given only the inputs last set would, where inputs defined on top of others (prices, tie breaks and joint '
    'ramping on volume bids, losses on interconnectors) are set again after those.',
    ['histories', 'inputs'],
    'for every sequence in which inputs are set, replaced and dispatched',
    'tests set every input once',
    [M], 'SpotMarket keeps per set tables in dictionaries that repeated set_* calls replace')

add('P20', 'Sequential dispatch carries state exactly and survives restarts',
    'Over a chain of intervals in which each interval starts from the previous dispatch, every unit stays within its '
    'ramp rates, and fast start units follow their profile, from one interval to the next. A process that dies and is '
    'restarted from the last stored dispatch produces the same remaining dispatch as one that never died.',
    ['histories', 'crash points', 'solver faults'],
    'for every chain of intervals and every interval at which the process dies or the solver fails',
    'tests dispatch single intervals',
    [M, UC, FS, 'src/nempy/time_sequential.py'], 'initial outputs derived from earlier dispatch, ramp rate and fast '
    'start constraints')

add('P21', 'Right hand sides are recomputed from current values only',
    'A constraint\'s computed right hand side is what its published terms and operations, directly or through generic '
    'equations, make of exactly the recorded values of the selected interval as last updated by the user. Updates to one calculator, earlier intervals and earlier computations have no other effect, '
    'and computing never changes the recorded values.',
    ['histories', 'interleavings'],
    'for every sequence of value updates, computations and interval changes on two calculators',
    'tests compute a few constraints once from one case file',
    [RHS, XML], 'RHSCalc.update_spd_id_value mutates the parsed file that compute_constraint_rhs reads')

add('P22', 'Dependency queries name every constraint a value influences',
    'The constraints reported to depend on a value are exactly those whose computed right hand side can be reached '
    'from it through their terms, directly or through any chain of generic equations, each named once. The answer is '
    'the same after any history of updates and computations.',
    ['histories', 'inputs'],
    'for every graph of equations and history of updates',
    'tests query one case file',
    [RHS], 'get_rhs_constraint_equations_that_depend_value')

add('P23', 'FCAS enablement is jointly deliverable with energy',
    'In every reported dispatch each unit\'s FCAS enablement lies within its availability and inside its trapezium at '
    'the dispatched energy level, energy together with regulation enablement lies within the regulation trapezium, and '
    'energy with regulation is reachable within ramp rates, for generators, loads and bidirectional units, after any '
    'history of operations.',
    ['histories', 'inputs', 'solver faults'],
    'for every market with FCAS bids and history of operations',
    'tests check some single unit examples',
    [FCAS, M], 'set_joint_capacity_constraints, set_energy_and_regulation_capacity_constraints, '
               'set_joint_ramping_constraints_reg, set_fcas_max_availability')

add('P24', 'Re-solving for over-constrained prices changes prices only',
    'Allowing over-constrained dispatch to be re-run for prices changes no reported dispatch, flow or violation. '
    'Without violated constraints it changes no price either, and with them the prices are those of the problem in '
    'which each violated constraint is relaxed just beyond its violation.',
    ['histories', 'inputs', 'solver faults'],
    'for every market, set of violated constraints and failure of the re-solve',
    'tests have one over-constrained example',
    [SOLVER, M], 'dispatch(allow_over_constrained_dispatch_re_run=True)')

add('P25', 'Reported FCAS availability is what the constraints leave',
    'The availability reported for a unit\'s FCAS service is what the unit is enabled for plus the most by which that could '
    'be raised, with everything else as dispatched, before one of the unit\'s FCAS constraints in force (maximum '
    'availability, trapezium slopes shared with energy and regulation, joint ramping) is reached. This holds for '
    'generators, loads and each side of bidirectional units, after any history of operations, and for the last successful '
    'dispatch also after a failed one.',
    ['histories', 'inputs', 'solver faults'],
    'for every market with FCAS bids and history of operations',
    'tests print the availability of one two unit example',
    [M], 'get_fcas_availability combines the slack of constraints kept from the last solve with reported dispatch')

add('P26', 'Prepared bids and trapeziums follow the market operator\'s rules',
    'The bids, FCAS trapeziums, fast start profiles, loss models and constraints prepared for an interval are what the '
    'documented rules make of the interval\'s records: trapeziums scaled for control limits, telemetered ramp rates and '
    'generation forecasts; FCAS of units that fail a precondition for enablement left out; energy prices referred to the '
    'regional reference node by the loss factor of the unit\'s side; the records in force and of the selected interval used.',
    ['histories', 'inputs', 'I/O faults'],
    'for every recorded interval, order of requests and failed request before it',
    'tests sample a few trapeziums and need downloads for whole intervals',
    [UNITS, CONS, INTER, DEM], 'UnitData.get_processed_bids, add_fcas_trapezium_constraints and the get_* methods')

add('N03', 'Historical dispatch prices are reproduced',
    'Running a historical interval from its recorded inputs reproduces the recorded prices to within published '
    'accuracy.', ['inputs'], 'for every historical interval', 'needs recorded data', [M], 'the whole pipeline')

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    for d in P:
        assert len(d['title']) <= 80, d['id']
        for fn in d['anchors']['files']:
            assert os.path.exists(os.path.join('/repo', fn)), fn
