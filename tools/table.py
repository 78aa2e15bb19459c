prop('P01', 'Excess temperature measures the worst violation of the EFT limits',
     '''The excess temperature of a design is the larger of (hottest entering
     fluid temperature minus the allowed maximum) and (allowed minimum minus
     coldest), so it is positive exactly when some simulated temperature leaves
     the allowed band. The hottest and coldest temperature a simulation reports
     are the extremes of the whole simulated series. A candidate field is judged
     by a simulation of that field at the height asked for.''',
     ['inputs', 'configurations'],
     'every limit pair, load history, field and height, both simulation methods',
     '''tests pin a handful of simulated numbers of one building; the maximum of
     two margins and of a whole series has to be right for heating-dominated,
     cooling-dominated and mixed histories alike.''',
     [G, S], [('cost', G), ('simulate', G), ('calculate_excess', S)])

prop('P02', 'Sizing returns a height within the limits that just meets them',
     '''Sizing looks for the height in the allowed range at which the excess
     temperature is zero, for the simulation method asked for; a field that
     already meets the limits at the minimum height gets the minimum height, one
     that fails at the maximum gets the maximum, and a binding limit is warned
     about. The results left behind are those of a simulation at the returned
     height. The underlying root search returns a bound only when the objective
     does not change sign in the bracket or is zero at the bound.''',
     ['inputs', 'configurations'],
     'every pair of height limits, initial height, load history and method',
     '''tests size three similar fields that have a root inside the range; the
     one-sided cases and the state left behind are not reached.''',
     [G, EQ], [('size', G), ('solve_root', EQ)])

prop('P03', 'The bisection selects a field of the domain that meets the limits',
     '''The one-dimensional search over candidate fields returns a field of the
     domain whose evaluated excess temperature at the maximum height is not
     positive and is the evaluated one closest to zero, or the smallest field if
     that alone suffices. When even the largest field is insufficient it says so
     instead of returning one. Every evaluated field's excess is recorded under
     its own position in the domain, and the state left behind is that of the
     selected field.''',
     ['inputs', 'configurations'],
     'every ordered domain, load history and iteration limit',
     '''tests run one building through a few domains; the answers for other
     sign patterns, domain sizes and iteration limits are not sampled.''',
     [S], [('search', S), ('check_bracket', UT), ('sign', UT)])

prop('P04', 'Nested searches compare the lists they claim to compare',
     '''The two-dimensional search first picks among the smallest field and the
     largest field of every inner list and then searches the inner list that the
     picked field bounds. The successive zoned search tries the inner lists from
     there on until the total drilling rises, and returns the field with the
     least total drilling among those tried, sized, with its own results.''',
     ['inputs', 'configurations'],
     'every nested domain and every pattern of excess temperatures and heights',
     '''one bi-rectangle and one bi-zoned design of one building are tested;
     ties, first and last lists, lists without a solution and early stops are
     not reached.''',
     [S], [('Bisection2D', S), ('BisectionZD', S), ('search_successive', S)])

prop('P05', 'Field shape generators place exactly the described boreholes',
     '''Each generator of a standard field (rectangle, open rectangle, L, U,
     lopsided U, C and zoned rectangle) returns exactly the grid points of its
     shape, once each, for every number of rows, columns and spacing, and a
     zoned rectangle that would need more interior boreholes than fit is
     refused. Transposing a field swaps the two coordinates of every borehole.
     The first two boreholes are spaced at the nominal spacing.''',
     ['inputs'], 'every number of rows and columns, spacing and interior grid',
     'no test calls a generator directly; designs use a few sizes of two shapes',
     [CO], [('rectangle', CO), ('open_rectangle', CO), ('zoned_rectangle', CO),
            ('U_shape', CO), ('C_shape', CO), ('L_shape', CO)])

prop('P06', 'Rectangular domains keep boreholes inside the land and spacing range',
     '''Every field of a rectangular or near-square domain lies within the given
     land, with its spacing between the given limits, and the domain is ordered
     by increasing number of boreholes without leaving out a candidate of the
     family. A near-square domain runs from the smallest to the largest field
     asked for, never beyond.''',
     ['inputs', 'configurations'], 'every land size and pair of spacing limits',
     'tests build the domains of one lot and compare final designs only',
     [D], [('rectangular', D), ('square_and_near_square', D)])

prop('P07', 'Bi-rectangle and zoned domains cover every spacing pair in order',
     '''A bi-rectangle domain contains, for each number of boreholes along one
     side that respects that side's spacing limits, the rectangles of every
     allowed number along the other side, all inside the land; the zoned domain
     contains for each of those the open rectangles with growing interior grids
     up to the full rectangle. Swapping the two sides of the land gives the
     mirrored fields.''',
     ['inputs', 'configurations'],
     'every land size and every pair of spacing ranges, both orientations',
     'tests use one lot in one orientation',
     [D], [('bi_rectangular', D), ('bi_rectangle_nested', D),
           ('bi_rectangle_zoned_nested', D), ('zoned_rectangle_domain', D)])

prop('P08', 'Fields respect the land boundary and exclude the building',
     '''Every field of a polygonal domain contains exactly the grid points of the
     surrounding rectangle that lie in the land polygon (its edge included) and
     outside the building (its edge excluded); no field is empty and the fields
     of a list are ordered by their number of boreholes. The grid covers the
     whole bounding rectangle of the land. A point is classified by the polygon
     itself, whichever of the four keep or remove options is asked for.''',
     ['inputs', 'configurations'],
     'every land polygon, building polygon and spacing range',
     '''one lot with one building is tested and only the final design compared;
     land without a building and candidates without boreholes are not reached.''',
     [D, FR], [('polygonal_land_constraint', D), ('remove_cutout', FR),
               ('determine_largest_rectangle', FR), ('reorder_domain', D)])

prop('P09', 'Hourly ground loads split into extraction and rejection by sign',
     '''Every hour of ground extraction load appears, converted to kilowatts, on
     the extraction side when it is not negative and otherwise, with its sign
     turned, on the rejection side, the other side being zero; unknown units are
     refused. Both sides are analysed with the same borehole resistance, ground
     conductivity and short time step response. The loads used by an hourly
     simulation are those given by the user.''',
     ['inputs', 'histories'], 'every hourly load history and unit',
     'tests use one building in watts',
     [GL, G], [('split_heat_and_cool', GL), ('HybridLoad', GL), ('GHE', G)])

prop('P10', 'Monthly totals, peaks and peak days are those of the hourly loads',
     '''For each calendar month the total, mean and largest hourly load are those
     of exactly the hours of that month, and the peak day is the day of the
     month (from 1) of the first hour attaining the largest load. The two days
     kept around a peak are the day before the peak day and the peak day,
     wrapping around the year.''',
     ['inputs', 'histories'], 'every hourly load history and calendar year',
     '''tests compare the table of one building; months whose peak is on their
     first or last day, ties and other calendars are not sampled.''',
     [GL], [('split_load_by_month', GL), ('process_two_day_loads', GL)])

prop('P11', 'The hybrid load sequence carries each month\'s energy and peaks',
     '''Over every month of the simulated period the load sequence integrates to
     the month's net energy: in the first and last twelve months each side's peak
     lasts its peak duration around noon of its peak day with the remaining
     energy spread over the remaining hours, and in any other month, or when both
     peaks fall on one day, the month's mean load is used. The hours of the
     sequence are the ends of its load steps in a calendar of 365-day years
     counted from the first simulated month, and the step loads are the
     differences of successive loads.''',
     ['inputs', 'histories'],
     'every set of monthly statistics, first and last month',
     '''tests pin the sequence of one building over whole years starting in
     January; ties of the peak days, missing sides, other starts and the
     boundaries between months with and without peaks are not sampled.''',
     [GL], [('process_monthly_loads', GL), ('peak_hour_range', GL),
            ('firstmonthhour', GL), ('lastmonthhour', GL), ('monthdays', GL)])

prop('P12', 'A peak lasts until it heats the fluid as much as the real two days',
     '''The duration of a month's peak is the time a constant load of the peak
     (above the mean) needs to change the fluid temperature as much as the real
     load of the two days around the peak does at most, both by superposition of
     the short time step response; it is negligible when the load never warms the
     fluid or there is no load. A higher load in the two days than in the month
     replaces the month's peak.''',
     ['inputs', 'histories'], 'every load history, response and resistance',
     'tests pin the durations of one building',
     [GL], [('find_peak_durations', GL), ('simulate_hourly', GL),
            ('perform_current_month_simulation', GL)])

prop('P13', 'Temperatures are the temporal superposition of all load steps',
     '''The mean fluid temperature at the end of every load step is the
     undisturbed ground temperature plus the sum over all earlier load changes of
     the change per metre times the g-function at the elapsed time, plus the
     present load times the borehole resistance; the entering temperature
     subtracts half the temperature drop along the loop. A simulation feeds it
     the loads and times of the method asked for, for the current height.''',
     ['inputs', 'histories'],
     'every load history, g-function, field and simulated period',
     'tests compare a few temperatures of one load history',
     [G], [('_simulate_detailed', G), ('simulate', G)])

prop('P14', 'The specified flow rate reaches every model unchanged',
     '''Whether the flow is given per borehole or for the whole system, every
     candidate field is simulated, its g-function computed and its boreholes
     modelled with the same volumetric flow per borehole, which times the number
     of boreholes is the system flow. The nominal spacing used with a field is
     that of its first two boreholes and never below the borehole radius.''',
     ['inputs', 'configurations'], 'every flow specification, field and fluid',
     'tests use flow per borehole except one system flow for one domain kind',
     [S, G, UT], [('retrieve_flow', S), ('initialize_ghe', S),
                  ('borehole_spacing', UT), ('BaseGHE', G)])

prop('P15', 'A g-function at a height is interpolated between computed curves',
     '''The g-function at a spacing to height ratio is, at every time, the
     interpolation between the curves at the heights they were computed for,
     with a technique the number of curves permits, and likewise for the
     borehole radius and burial depth; outside the computed range it warns and
     extrapolates, and within tolerance of a computed height it does not. The
     answer does not depend on earlier interpolations with the same curves. A
     radius correction subtracts the log of the ratio of the radii and scaled
     coordinates keep the field similar.''',
     ['inputs', 'histories'],
     'one to six curves of any heights, any ratio, each technique, two calls',
     '''tests interpolate a few ratios inside the range with one technique; the
     edges of the range and repeated calls are not reached.''',
     [GFN], [('g_function_interpolation', GFN),
             ('borehole_radius_correction', GFN), ('correct_coordinates', GFN)])

prop('P16', 'Each computed g-function is asked for with the right field and keyed',
     '''The g-function package is asked for the field at the given coordinates
     with the given height, depth and radius, the soil's diffusivity, the given
     times, discretisation and solver; with a mixed inlet boundary it is given a
     pipe model for every borehole and the total flow, and other boundary or
     segment names than the known ones are refused. A live g-function is computed
     for every height at the times of its own characteristic time and is filed
     with its own radius and depth under that height, heights ascending.''',
     ['inputs', 'configurations'],
     '''every field, borehole, fluid, soil; each boundary and segment kind; one to
     five heights in any order''',
     '''tests use the equivalent solver with unequal segments at one height; other
     boundaries, kinds and several heights are not reached.''',
     [GFN], [('calculate_g_function', GFN), ('compute_live_g_function', GFN),
             ('configure_database_file_for_usage', GFN)])

prop('P17', 'A simulation\'s g-function joins short and long time steps',
     '''The g-function a simulation uses is the short time step response up to
     the first time of the long time step curve and that curve from there on,
     every value staying at its own time and the times ascending. The long time
     step curve is the one interpolated at the ratio asked for, corrected from
     the radius it was computed with to the radius of the modelled borehole.''',
     ['inputs'], 'every pair of curves, overlapping or not, field and height',
     '''tests join one pair of curves that overlap; disjoint curves and the
     exact point of change are not sampled.''',
     [G, GFN], [('combine_sts_lts', G), ('grab_g_function', G)])

prop('P18', 'An updated heat exchanger equals one built for the new state',
     '''After a change of flow rate, fluid, height, pipe or grout conductivity,
     updating a borehole heat exchanger leaves the resistances, coefficients
     and effective borehole resistance that a heat exchanger built anew for the
     changed state has. Asking for the effective resistance with a flow or fluid
     updates it, without them it answers for the current state.''',
     ['inputs', 'histories'],
     '''single, one to three U-tubes in series and parallel, coaxial; every
     combination of changes''',
     '''tests update nothing or one value of one kind of heat exchanger and pin
     the result.''',
     [BH], [('update_thermal_resistance', BH),
            ('compute_effective_borehole_resistance', BH)])

prop('P19', 'Heat exchangers carry the resistances of their described geometry',
     '''Convection is evaluated at the flow of one pipe (shared by parallel
     U-tubes, whole in series) and radius of each surface, conduction between
     the two radii of each wall with its own conductivity, and the delta circuit
     is given their sums. U-tube legs are placed evenly around the borehole's
     axis at half the shank spacing plus the pipe radius, and a pipe description
     keeps what it was given.''',
     ['inputs', 'configurations'],
     '''every flow, fluid, pipe, grout, soil and borehole; one to four U-tubes
     in series and parallel, coaxial, one to eight legs placed''',
     '''tests pin the resistance of one example of each kind; swapped radii or
     media coincide or hide in the tolerance.''',
     [BH, PM], [('SingleUTube', BH), ('MultipleUTube', BH),
                ('CoaxialPipe', BH), ('place_pipes', PM)])

prop('P20', 'The equivalent single U-tube keeps volumes and resistances',
     '''The single U-tube standing for another exchanger has its fluid and
     pipe volumes per length and its convective and conductive resistances.
     A conductivity is found inside its bracket and the tube is the exchanger
     itself when that is a single U-tube.''', ['inputs'],
     '''every exchanger of one, two or concentric tubes: volumes, resistances,
     tube radii, spacing and conductivities as functions of the original''',
     '''tests pin the equivalent tube of one example each; a swapped area or
     resistance shows only for other pipes.''',
     [EQ, BH], [('compute_equivalent', EQ), ('u_tube_volumes', EQ),
                ('concentric_tube_volumes', EQ),
                ('equivalent_single_u_tube', EQ)])
prop('P21', 'The short time steps solve the heat balance of the radial grid',
     '''Around a borehole the fluid, convection, pipe, grout and soil cells lie
     at the radii, with the conductivities, heat capacities and volumes, of the
     equivalent one-dimensional model. Every two minutes their temperatures
     solve the implicit balance of a unit heat flux from the ground
     temperature on, and the g-function is that of the core less the borehole
     resistance. The result does not depend on boreholes computed before.''',
     ['inputs', 'histories'],
     '''every single U-tube, its resistances and the final time (up to three
     steps; the default time is a time like any other)''',
     '''no test looks at a short-time g-function; an exchanged radius,
     resistance or neighbouring cell changes the sizing by a few per cent.''',
     [RN], [('RadialNumericalBH.__init__', RN), ('fill_radial_cell', RN),
            ('calc_sts_g_functions', RN)])
prop('P22', 'A design searches the domain its routine names with its own inputs',
     '''Each routine demands exactly the constraints it uses, builds its fields
     from them in their roles and searches them with the loads, exchanger,
     method and flow of the design. An unknown routine or a missing constraint
     is refused.''', ['configurations'],
     '''every routine with each constraint present or missing, both methods,
     silent or talking''',
     '''tests run one routine each with full constraints and compare the
     selected height only.''',
     [DE, ME, D, S], [('Design.find_design', DE),
                      ('GeometricConstraints.check_inputs', ME)])

prop('P23', 'An answer does not depend on what was asked before',
     '''Simulating, sizing or evaluating a field gives what a freshly built
     exchanger in the same state gives, whatever was simulated before and
     whichever of height, flow, spacing, limits or g-function changed since. No
     function keeps shared state or consults clock, chance or environment.''',
     ['histories', 'inputs'], 'every earlier use and change of state',
     'tests use every object once', [G, S, UT, GFN, EQ, PT],
     [('simulate', G), ('grab_g_function', G), ('size', G),
      ('calculate_excess', S)])
prop('P24', 'What an analysis is given comes back as it was',
     '''The loads, ground, grout, pipe, fluid, limits, fields, polygons and
     g-functions handed to a constructor, generator, simulation, search or
     report are not altered by it, so they can be used again for the next one.
     Only the object a method belongs to changes, and the height of the
     borehole that is being sized or the grout of an exchanger being
     matched.''', ['inputs', 'histories'],
     '''every scenario of the other properties, all values of the inputs''',
     '''a test that reuses an input compares one number; an aliasing bug only
     shows in the analysis after the next.''',
     [G, S, D, CO, FR, GL, GFN, PM], [('GHE.__init__', G),
                                      ('remove_cutout', FR),
                                      ('split_heat_and_cool', GL)])
prop('P25', 'An exported result describes the selected design',
     '''The exported file gives the height and number of boreholes of the
     selected field, the equivalent U-tube under its own names, and pairs of
     the combined g-function at the design's ratio of spacing to height. All
     27 long time steps and about thirty of the short ones appear, each time
     with its own value.''', ['inputs'],
     '''every selected design of the three searches, short time step responses
     of 0 to 153 points''',
     '''no test reads the file; a swapped conductivity or a lost point still
     yields a valid file.''',
     [S, UT], [('oak_ridge_export', S), ('js_dump', UT)])
prop('P26', 'What is saved to a file is what is read back',
     '''JSON and object files are written to the given name with its extension,
     hold exactly what was given and reading one returns the content of the
     file asked for. A directory is made only when it is not there.''',
     ['inputs'], 'every name and object, every file system state',
     'tests write one file each and never look at it again',
     [UT], [('js_dump', UT), ('js_load', UT), ('create_input_file', UT),
            ('read_input_file', UT), ('create_if_not', UT)])
prop('P27', 'A printed design shows its own quantities under their labels',
     '''Printing media, heat exchangers, load analyses and designs shows every
     quantity of that object, rounded to four places, once and under its own
     label and unit. The printed g-function has all long and about fifty short
     time steps, each with its own value, and the monthly table has every
     month's totals, peaks, means, peak days and durations of both sides.''',
     ['inputs'],
     '''every medium, exchanger of 1 to 3 U-tubes or coaxial, simulated or not,
     0 to 203 short time steps''',
     'tests print once and look at nothing',
     [PM, BH, GL, G], [('__repr__', PM), ('__repr__', BH), ('__repr__', G),
                       ('create_dataframe_of_peak_analysis', GL)])
prop('P29', 'Geometry helpers agree with each other and with plane geometry',
     '''The area of a land is that of its polygon whichever way it is walked,
     a rectangle has its four corners in order at its origin, and number of
     boreholes, side length and spacing of a row are inverses. The spacing of
     a field is that of its first two boreholes and the mean percentage error
     is that of the predicted values against the actual ones.''', ['inputs'],
     '''every rectangle, length, spacing and count; polygons of 3 to 8 corners;
     1 to 27 values''',
     'tests pin one polygon and one row',
     [UT], [('polygonal_area', UT), ('make_rectangle_perimeter', UT),
            ('number_of_boreholes', UT), ('length_of_side', UT),
            ('spacing_along_length', UT), ('borehole_spacing', UT),
            ('compute_mpe', UT), ('Eskilson_log_times', UT)])
prop('P30', 'Load years built from monthly values carry those values',
     '''A year built from monthly averages and peaks has every hour of a month
     at its average except as many hours as the peak lasts, centred on noon of
     the peak day, at its peak. The doubling profile scales with its units.''',
     ['inputs', 'configurations'], 'every month table, duration and unit',
     'the test pins one profile in one unit', [GL],
     [('synthetic_load_function', GL),
      ('create_synthetic_doubling_load_profile', GL),
      ('hourly_load_representation', GL)])
prop('P31', 'Descriptions keep every value in the role it was given',
     '''Ground, grout, simulation limits and g-function data return each value
     they were built with under its own name, whether given by position or by
     name. Two descriptions never share a value.''', ['inputs'],
     'every value', 'tests set values that coincide',
     [PM, GFN], [('ThermalProperty', PM), ('Soil', PM),
                 ('SimulationParameters', PM), ('GFunction', GFN)])
prop('P32', 'Sizing g-functions span the allowed heights of the field',
     '''The detailed g-functions of a design are computed for the smallest, the
     mean and the largest allowed height, for its own field, spacing, borehole,
     exchanger, flow and times, and replace those used before.''',
     ['configurations'], 'every design and exchanger kind',
     'tests compare the sized height of one field',
     [G, GFN], [('compute_g_functions', G)])
prop('P28', 'Plots show the data of the object they are drawn from',
     '''The field, g-function, land, hourly-load, fluid-temperature and domain
     plots draw every point and curve of their data once, paired as stored,
     under its own label and axis names. A domain plot writes one numbered file
     per field into the given folder.''', ['inputs'],
     'every field, load year and month', 'plots are not tested', [CO, GFN, D, GL],
     [('visualize_coordinates', CO), ('visualize_borefield', GFN),
      ('visualize_g_functions', GFN), ('visualize_area_and_constraints', GFN),
      ('visualize_domain', D), ('visualize_hourly_heat_extraction', GL),
      ('visualize_fluid_simulation_results', GL)])

prop('P90', 'Designs agree with the reference tool within a few percent',
     '''Fluid temperatures and sized heights stay within the stated tolerance of
     GLHEPRO and of detailed hourly simulation.''', ['inputs'],
     'every load profile and field', 'two comparisons are pinned', [G],
     [('size', G)],
     na='''accuracy against an external tool is a statement about numerical
     results on real data; no static argument over the source bounds it''')
prop('P91', 'The selected field is the cheapest feasible one of its domain',
     '''No other field of the domain meets the limits with less total
     drilling.''', ['inputs'], 'every domain and load history',
     'tests pin the selection for one building', [S], [('search', S)],
     na='''bisection assumes that excess temperature falls monotonically along
     the domain, a physical property of the simulated numbers that the source
     does not determine; the selection rule itself is decided by P03 and P04''')
prop('P92', 'Iterative solvers converge within their tolerance',
     '''Root searches and the flow-resistance iterations end with a residual
     below the tolerance for every physical input.''', ['inputs'],
     'every physical input', 'tests sample a few pipes', [EQ, BH],
     [('solve_root', EQ)],
     na='''convergence of Brent's method and the conditioning of the residuals
     are numerical questions; that the right residual is solved in the right
     bracket is decided by P02 and P20''')
prop('P93', 'Computed g-functions are the boundary-condition solution',
     '''The g-function of a field equals the finite line source solution with
     the stated boundary condition.''', ['inputs'], 'every field',
     'tests compare two fields', [GFN], [('calculate_g_function', GFN)],
     na='''the solution is computed by the external package pygfunction, whose
     source is not part of this repository; what is passed to it is decided by
     P16''')
prop('P94', 'A design run finishes in interactive time',
     '''Searching a domain takes a logarithmic number of simulations and
     minutes at most.''', ['configurations'], 'every domain', 'not measured',
     [S], [('search', S)],
     na='running time is not determined by the shape of the source')
