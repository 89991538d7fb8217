prop('C01', 'Rows and sun vector are placed as the array parameters say',
     'Fitting an array puts row k with its centre at k times the row spacing '
     '(width / ground coverage ratio) and at the row height, with the given '
     'width, and orients its front face by the surface tilt and azimuth '
     'relative to the axis azimuth, whatever full turns are added to the '
     'azimuths. All surfaces of a row side carry the outward normal of that '
     'side, front and back opposite. The 2D sun vector is the projection of '
     'the sun direction on the plane normal to the axis.',
     ['inputs', 'configurations'],
     'all axis azimuths, tilts, surface azimuths on either side of the axis, '
     'sun positions, widths, spacings, heights, 1-4 rows',
     'The tests pin a handful of hand-computed layouts; a sign or modulo '
     'error shows only for other azimuth combinations.',
     [GEO + 'base.py', GEO + 'pvarray.py', GEO + 'pvrow.py'],
     [('rotation from tilt and azimuth',
       'geometry/base.py:_get_rotation_from_tilt_azimuth'),
      ('solar 2D vectors', 'geometry/base.py:_get_solar_2d_vectors'),
      ('row coordinates', 'geometry/pvrow.py:TsPVRow._calculate_full_coords')],
     ['row coordinates, normals and rotation of a fitted array'])
prop('C02', 'Segments and shaded/illuminated parts exactly tile each row side',
     'Each side of a row is cut into the requested number of equal segments, '
     'and its surfaces tile it without gap or overlap. The shaded part is one '
     'interval starting at the lower edge of the row whose length is the '
     'shaded length, a flat row has no shaded part, and reported side lengths '
     'add up.',
     ['inputs', 'configurations'],
     'all rotations, centres, widths, shaded lengths of front and back, 1-5 '
     'segments per side',
     'Tests sample a few tilts and shaded lengths, and cuts of one or two '
     'rows; boundary cases between segments are not reachable by sampling.',
     [GEO + 'pvrow.py', GEO + 'timeseries.py'],
     [('segments and shade split', 'geometry/pvrow.py:TsSide.from_raw_inputs')],
     ['surface coordinates and shading flags of a row side'])
prop('C03', 'Direct shading between rows equals ray casting to the sun',
     'On the side of a row that faces the sun, a point is on a shaded surface '
     'exactly when the straight line from it to the sun crosses another row, '
     'including for the first and last rows of the array. Horizontal rows '
     'never shade each other.',
     ['inputs', 'configurations'],
     'all tilts to either side, sun elevations on either side, spacings, '
     'widths, 2-4 rows, every row, every point of the side',
     'Tests compare a few shaded lengths with recorded numbers; they cannot '
     'cover every row, tilt and sun side combination.',
     [GEO + 'pvarray.py', GEO + 'pvrow.py'],
     [('inter-row shading',
       'geometry/pvarray.py:OrderedPVArray._calculate_interrow_shading'),
      ('edge rows',
       'geometry/pvarray.py:OrderedPVArray._calculate_pvrow_elements_coords')],
     ['shaded surfaces of the rows of a fitted array'])
prop('C04', 'Ground surfaces tile the ground exactly, shade where shadows are',
     'The ground surfaces cover the ground extent once, ordered from left to '
     'right, whatever the number and position of shadows and cut points, also '
     'when they overlap or reach outside the extent. A ground point is on a '
     'shaded surface exactly when it lies in some row shadow, and the ground, '
     'shaded and illuminated lengths and surface counts add up.',
     ['inputs', 'configurations'],
     'all ordered shadow intervals and cut points in [-1000, 1000] m, '
     'overlapping or not, 1-4 shadows, 1-4 cut points',
     'Tests use a few fixed layouts inside the extent.',
     [GEO + 'pvground.py', GEO + 'timeseries.py'],
     [('shadow elements', 'geometry/pvground.py:TsGround.'
       '_shadow_elements_from_coords_and_cut_pts'),
      ('illuminated elements', 'geometry/pvground.py:TsGround.'
       '_illum_elements_from_coords_and_cut_pts'),
      ('split at cut points',
       'geometry/pvground.py:TsGroundElement._create_all_ts_surfaces')],
     ['ground surface coordinates'])
prop('C05', 'Ground shadows are the sun projection of the rows',
     'A ground point inside the ground extent is on a shaded ground element '
     'exactly when the straight line from it to the sun crosses a row. Shadow '
     'elements of different rows never overlap, also when the rows shade each '
     'other.',
     ['inputs', 'configurations'],
     'all tilts to either side and flat, sun elevations on either side, '
     'heights, spacings, 1-4 rows, every ground point',
     'Tests compare a few shadow coordinates with recorded numbers.',
     [GEO + 'pvground.py', GEO + 'pvarray.py'],
     [('shadow projection',
       'geometry/pvground.py:TsGround.from_ts_pvrows_and_angles'),
      ('direct shading flag', 'geometry/pvarray.py:OrderedPVArray.'
       '_calculate_interrow_shading')],
     ['shadow elements of the fitted ground'])
prop('C06', 'Cut points split the ground into what each row side can see',
     'The cut point of a tilted row is where the plane of the row meets the '
     'ground. For each cut point every ground surface belongs to exactly one '
     'of its two zones, on the correct side, both zones together cover the '
     'ground, and the shadow parts reported left and right of it are the '
     'shadows clipped at the cut point.',
     ['inputs', 'configurations'],
     'all shadow and cut point positions, 1-3 rows, all tilts',
     'Tests sample a few positions; ordering and clipping errors appear only '
     'in other relative positions.',
     [GEO + 'pvground.py'],
     [('zones', 'geometry/pvground.py:TsGroundElement._create_all_ts_surfaces'),
      ('cut points',
       'geometry/pvground.py:TsGround.from_ts_pvrows_and_angles'),
      ('clipping', 'geometry/pvground.py:TsGroundElement.'
       '_coords_left_of_cut_point')],
     ['ground zones by cut point'])
IRR = 'pvfactors/irradiance/'
prop('C16', 'Direct and circumsolar light reach exactly the surfaces facing the sun',
     'Both sky models put direct light DNI x cos(incidence) on the one side '
     'of the rows that faces the sun and none on the other, DNI x cos(zenith) '
     'on the ground; shaded surfaces get that times the fraction that passes '
     'the rows (spacing + (1 - spacing) x transparency). Circumsolar light '
     'follows the same rule. The irradiance that stands for lit and shaded '
     'rows and ground in fast mode is the plane of array or horizontal '
     'irradiance with or without the blocked part.',
     ['inputs', 'configurations'],
     'all DNI, DHI, sun and surface angles, transparency, spacing, albedo, '
     'with and without given GHI, both models, several time steps',
     'Tests pin totals for a few sun positions; the back-lit, transparent '
     'and circumsolar cases combine freely.',
     [IRR + 'models.py'],
     [('isotropic fit', 'irradiance/models.py:IsotropicOrdered.fit'),
      ('hybrid Perez fit', 'irradiance/models.py:HybridPerezOrdered.fit'),
      ('per surface', 'irradiance/models.py:HybridPerezOrdered.transform')],
     ['direct and circumsolar parameters of all surfaces; gnd_shaded, '
      'gnd_illum, pvrow_shaded, pvrow_illum, sky_luminance'])
prop('C18', 'Horizon band light is shaded by the row the back side looks at',
     'The back of a row loses the share of the horizon band below the top '
     'edge of the neighboring row: the elevation angle of that edge seen from '
     'the middle of the surface divided by the band angle, all of it when '
     'the edge is higher than the band; nothing for the row with no neighbor '
     'on that side. The front of the rows always receives the whole band.',
     ['inputs', 'configurations'],
     'all tilts to either side, spacings, heights, band angles, shaded '
     'lengths, 1-4 rows, 1-3 back segments',
     'Tests pin one or two arrays; left and right tilt, edge rows and '
     'saturation of the band are separate branches.',
     [IRR + 'models.py', IRR + 'utils.py'],
     [('shading percentage', 'irradiance/models.py:HybridPerezOrdered.'
       '_calculate_horizon_shading_pct_ts'),
      ('band', 'irradiance/utils.py:calculate_horizon_band_shading')],
     ['horizon and horizon_shd_pct of the surfaces'])
prop('C20', 'Full mode solves the radiosity balance of every surface',
     'After a full run each surface and time step satisfies: incident = its '
     'own sky components + view of the sky x sky luminance + sum over '
     'surfaces of view factor x radiosity, radiosity = reflectivity x '
     'incident, and the isotropic, reflection and absorbed values are the '
     'matching terms of the same balance.',
     ['inputs', 'configurations'],
     'all view factors, reflectivities, irradiance components, 2 time '
     'steps, 2-4 surfaces, both sky models',
     'Tests check a few outputs against recorded numbers, which cannot show '
     'that the equations hold for each surface.',
     ['pvfactors/engine.py', IRR + 'base.py', IRR + 'models.py'],
     [('system', 'engine.py:PVEngine.run_full_mode'),
      ('modeling vectors',
       'irradiance/models.py:HybridPerezOrdered.get_full_ts_modeling_vectors')],
     ['q0, qinc, isotropic, reflection, qabs of all surfaces'])
prop('C21', 'Fast mode gives the back irradiance of the selected row or segment',
     'In fast mode the irradiance of the selected row (or segment) back is '
     'the weighted sum: ground shaded and lit parts x albedo, front of the '
     'rows behind x their reflectivity, sky x luminance, plus the '
     'length-weighted own components, whichever way the row and segment were '
     'selected.',
     ['inputs', 'configurations'],
     'all view factors, components, reflectivities, albedos, each row and '
     'segment choice, 2 time steps',
     'Tests compare one row with recorded values at a tolerance.',
     ['pvfactors/engine.py'],
     [('fast mode', 'engine.py:PVEngine.run_fast_mode')],
     ['qinc parameter of the selected surfaces'])
VF = 'pvfactors/viewfactors/'
prop('C10', 'View factors are reciprocal',
     'In the view factor matrix of an array, the length of a surface times '
     'its view factor to another one equals the length of the other times '
     'the view factor back, for every pair of ground and row surfaces and '
     'every time step, empty surfaces included.',
     ['inputs', 'configurations'],
     'all tilts (flat included), spacings, heights, shadow and cut point '
     'positions, cuts, 1-3 rows, every pair of surfaces',
     'Tests compare a few matrices with recorded numbers.',
     [VF + 'vfmethods.py', VF + 'calculator.py'],
     [('row to ground', 'viewfactors/vfmethods.py:'
       'VFTsMethods.vf_pvrow_gnd_surf'),
      ('row to row', 'viewfactors/vfmethods.py:'
       'VFTsMethods.vf_pvrow_to_pvrow')],
     ['the matrix returned by build_ts_vf_matrix'])
prop('C11', 'View factors of a surface and the sky add up to one',
     'Every surface that is not empty has view factors to the other surfaces '
     'and the sky that add up to one, an empty surface sees nothing and does '
     'not see the sky, no surface sees itself, and the sky row is zero. View '
     'factors of unobstructed pairs lie between zero and one.',
     ['inputs', 'configurations'],
     'all tilts (flat included), spacings, heights, shadow and cut point '
     'positions, cuts, 1-3 rows, every surface',
     'Tests check the sum for a few arrays; empty surfaces and boundary '
     'layouts are not sampled.',
     [VF + 'calculator.py', VF + 'vfmethods.py'],
     [('matrix', 'viewfactors/calculator.py:VFCalculator.build_ts_vf_matrix')],
     ['the matrix returned by build_ts_vf_matrix'])
prop('C12', 'View factors equal the crossed strings around neighbor rows',
     'The view factor between a row surface and a ground or row surface is '
     'the crossed minus the uncrossed string lengths divided by twice the '
     'length of the surface, where strings to the ground go around the lower '
     'edge of the next row when it is in the way. Ground behind the surface, '
     'sides that do not face each other, rows further than the next one and '
     'ground to ground pairs have view factor zero.',
     ['inputs', 'configurations'],
     'all tilts (flat included), spacings, heights, shadow and cut point '
     'positions, cuts, 1-3 rows, every pair of surfaces',
     'Tests compare recorded matrices of a few arrays; obstruction is a case '
     'distinction over string positions the samples do not cover.',
     [VF + 'vfmethods.py', VF + 'calculator.py'],
     [('obstructed strings', 'viewfactors/vfmethods.py:'
       'VFTsMethods._vf_hottel_gnd_surf'),
      ('obstruction', 'viewfactors/vfmethods.py:'
       'VFTsMethods._hottel_string_length'),
      ('plain strings', 'viewfactors/vfmethods.py:'
       'VFTsMethods._vf_surface_to_surface')],
     ['the matrix returned by build_ts_vf_matrix'])
prop('C13', 'Fast mode view factors are those of the same crossed strings',
     'For a surface or segment of a row back, the fast mode view factors to '
     'each ground shadow, the whole ground, the next row and its shaded part '
     'equal the crossed string values of the full mode geometry; lit parts '
     'and the sky are the remainders, and the values add up to one.',
     ['inputs', 'configurations'],
     'all tilts (flat included), spacings, heights, shadow and cut point '
     'positions, 1-3 rows, each row, cut or not',
     'Tests compare the fast mode of one layout with recorded numbers.',
     [VF + 'calculator.py', VF + 'vfmethods.py'],
     [('element view factors', 'viewfactors/calculator.py:'
       'VFCalculator.get_vf_ts_pvrow_element'),
      ('shadows', 'viewfactors/vfmethods.py:VFTsMethods.'
       'calculate_vf_to_shadow_obstruction_hottel'),
      ('rows', 'viewfactors/vfmethods.py:VFTsMethods.calculate_vf_to_pvrow')],
     ['the dictionary returned by get_vf_ts_pvrow_element'])
prop('C15', 'Average reflectivity is one minus the hemispherical absorption',
     'When absorption functions are given, the reflectivity of a row side is '
     'one minus the absorption of that side averaged over the hemisphere '
     'with the view factor weights of the angle sections; it is a fraction '
     'and lies between the extremes. Given reflectivities win over '
     'calculated ones, those over the default, each side by itself. '
     'Absorption functions from pvlib are evaluated at the angle from the '
     'normal, on both sides of it.',
     ['inputs', 'configurations'],
     'all absorption functions, 1-300 sections, explicit or missing '
     'reflectivities, both models',
     'Tests use one module and compare one number.',
     [VF + 'aoimethods.py', 'pvfactors/engine.py', IRR + 'base.py'],
     [('average', 'viewfactors/aoimethods.py:AOIMethods.rho_from_faoi_fn'),
      ('precedence', 'irradiance/base.py:BaseModel.initialize_rho'),
      ('construction', 'engine.py:PVEngine.with_rho_initialization')],
     ['rho_from_faoi_fn, rho_front and rho_back of the irradiance model'])
prop('C17', 'Absorbed direct components use the incidence angle of that side',
     'With absorption functions, the direct, circumsolar and horizon light '
     'absorbed by a row surface is the incident part times the absorption '
     'of its own side at the angle between the light and the surface plane; '
     'without functions it is the incident part times (1 - reflectivity). '
     'Shaded parts use the same factors.',
     ['inputs', 'configurations'],
     'all irradiance inputs, sun and surface angles, absorption functions, '
     'both models, 1-2 time steps',
     'Tests pin the totals of a few sun positions with one module.',
     [IRR + 'models.py', IRR + 'base.py'],
     [('absorbed components', 'irradiance/models.py:HybridPerezOrdered.fit'),
      ('per surface', 'irradiance/models.py:HybridPerezOrdered.transform'),
      ('absorbed vectors', 'irradiance/models.py:HybridPerezOrdered.'
       'get_full_ts_modeling_vectors')],
     ['absorbed modeling vectors and surface parameters'])
prop('C14', 'Absorbed view factors integrate absorption over the visible wedge',
     'With absorption functions, the absorbed view factor from a row surface '
     'to ground, to the facing row and to the sky is the sum, over the angle '
     'sections that overlap the wedge under which the centroid of the '
     'surface sees it around the next row, of section view factor times '
     'absorption of that row side. Without functions it is (1 - '
     'reflectivity) times the view factor. Entries of the ground, pairs that '
     'do not see each other and the plain view factor matrix stay as they '
     'are.',
     ['inputs', 'configurations'],
     'all tilts (flat included), spacings, heights, shadow and cut point '
     'positions, cuts, 1-3 rows, every pair, all absorption values of 2-6 '
     'sections',
     'Tests compare recorded matrices of a few arrays with one function.',
     [VF + 'aoimethods.py', VF + 'calculator.py'],
     [('to ground', 'viewfactors/aoimethods.py:'
       'AOIMethods.vf_aoi_pvrow_to_gnd'),
      ('to rows', 'viewfactors/aoimethods.py:'
       'AOIMethods.vf_aoi_pvrow_to_pvrow'),
      ('to sky', 'viewfactors/aoimethods.py:AOIMethods.vf_aoi_pvrow_to_sky'),
      ('matrix', 'viewfactors/calculator.py:'
       'VFCalculator.build_ts_vf_aoi_matrix')],
     ['the matrix returned by build_ts_vf_aoi_matrix'])
prop('C22', 'Every time step is calculated as if it were alone',
     'Geometry, view factors, irradiance and full or fast mode results of a '
     'time step in a series are those of a run with that time step only, '
     'whatever the other steps are (other tilt side, flat rows, direct '
     'shading or not).',
     ['inputs', 'configurations', 'histories'],
     'all pairs and triples of time steps: tilts, sun positions, array '
     'dimensions, irradiance, luminances and albedo of each step',
     'Tests compare a few short series; leakage between steps needs a '
     'particular combination of steps.',
     [GEO + 'pvarray.py', GEO + 'pvground.py', 'pvfactors/viewfactors/'
      'vfmethods.py', 'pvfactors/irradiance/models.py',
      'pvfactors/engine.py'],
     [('overlap flags and cut points',
       'geometry/pvground.py:TsGround.from_ordered_shadows_coords'),
      ('time axis of the linear system', 'engine.py:PVEngine.run_full_mode')],
     ['surface coordinates, view factor matrix and surface parameters per '
      'time step'])
prop('C23', 'A parallel run gives the report of a serial run',
     'Running in parallel splits all inputs consistently by time step, passes '
     'the array parameters, models and fast mode selection to every part, and '
     'merges the partial reports in time order, so the report equals the '
     'serial one for any number of processes and time steps.',
     ['inputs', 'configurations', 'schedules'],
     'all input values, 1-5 time steps, 1-4 processes or one per processor '
     '(more processes than steps included), full and fast mode, albedo and '
     'ghi as array, number or missing, any order of completion',
     'Tests run one series on two processes where all folds look alike.',
     ['pvfactors/run.py', 'pvfactors/report.py'],
     [('fold construction', 'run.py:run_parallel_engine'),
      ('merge', 'report.py:ExampleReportBuilder.merge')],
     ['report returned by run_parallel_engine and run_timeseries_engine'])
prop('C24', 'Results depend only on the last inputs, numbers equal arrays',
     'After fitting again, or running again in the same or the other mode, '
     'the results are those of a new engine that only did the last fit and '
     'run; other engines and the input arrays are not affected. Inputs given '
     'as numbers give the results of arrays of length one.',
     ['inputs', 'histories'],
     'all sequences of two fits and runs in full and fast mode over any '
     'irradiance, luminances, albedo and (for the geometry) any sun and row '
     'positions',
     'Tests fit every engine once; stale state shows only for particular '
     'sequences.',
     ['pvfactors/engine.py', 'pvfactors/irradiance/models.py',
      GEO + 'pvarray.py', GEO + 'pvrow.py'],
     [('formatting of inputs', 'engine.py:PVEngine.fit'),
      ('model state', 'irradiance/models.py:HybridPerezOrdered.fit')],
     ['surface parameters after a run'])
prop('C25', 'Reported sides and segments are length-weighted sums of surfaces',
     'For every shade collection, segment, row side, ground element and the '
     'ground, the weighted value of a parameter is the length-weighted sum '
     'over its surfaces, the average is that sum over the total length, and '
     'lengths add up. Updating a part of the array updates exactly its '
     'surfaces, and surfaces are numbered in order.',
     ['inputs', 'configurations'],
     'all surface geometries and parameter values, 1-3 rows, 1-3 segments '
     'per side, shaded and lit parts',
     'Tests aggregate one parameter for one layout; weights matter only when '
     'surface lengths and values differ.',
     [GEO + 'timeseries.py', GEO + 'pvrow.py', GEO + 'pvground.py'],
     [('collection', 'geometry/timeseries.py:TsShadeCollection.get_param_ww'),
      ('side', 'geometry/pvrow.py:TsSide.get_param_ww'),
      ('ground', 'geometry/pvground.py:TsGround.get_param_ww')],
     ['get_param_ww, get_param_weighted, length, shaded_length, '
      'update_params'])
prop('C07', 'Luminances of the sky follow from the Perez components',
     'For every sequence of time stamps, sun and surface positions, the '
     'isotropic luminance, circumsolar luminance and horizon irradiance the '
     'hybrid model uses at a step are those of the Perez components at that '
     'step: light on the tilted surface over the view factor of its part of '
     'the sky, measured on the front, on the back when the sun is behind, on '
     'a horizontal surface when it is in their plane; zero when the Perez '
     'model clips it; never undefined.',
     ['inputs', 'histories'],
     '1-3 steps in any order of time with equal stamps too, any tilt, zenith '
     'and azimuth with the sun in front, behind, in the plane of the rows, '
     'low sun, no diffuse light, any Perez brightness coefficients',
     'Tests sample a few sun positions; rows are selected by masks and '
     'written back by position, per combination of steps, and divided by '
     'factors that vanish at some sun positions.',
     ['pvfactors/irradiance/utils.py', 'pvfactors/irradiance/models.py'],
     [('luminances', 'irradiance/utils.py:perez_diffuse_luminance'),
      ('components of the array', 'irradiance/models.py:'
       'HybridPerezOrdered._calculate_luminance_poa_components')],
     ['luminances, POA components and view factors per step; irradiance '
      'components of all surfaces'])
prop('C08', 'The geometry of one step is the timeseries geometry at that step',
     'The row and ground geometries generated for a step have, in the same '
     'order and with the same index, normal, shading and parameter values, '
     'one surface for each timeseries surface that is not empty at that step, '
     'with its coordinates at that step. Merging overlapping shadows keeps '
     'the union of the shadows, split at the cut points only when these are '
     'asked for; lengths, shaded lengths and extents are those of the '
     'timeseries geometry.',
     ['inputs', 'configurations'],
     'all centres, tilts, shaded lengths, shadow and cut point positions of '
     'each step; steps of different kind in one series; 1-4 segments per '
     'side, 1-3 shadows, 0-3 cut points, every merge and cut option',
     'Tests look at step 0 or 1 of a few series; steps where a surface is '
     'empty, overlapping shadows and cut points mix only in other series.',
     [GEO + 'timeseries.py', GEO + 'pvrow.py', GEO + 'pvground.py',
      GEO + 'base.py'],
     [('surface at a step', 'geometry/timeseries.py:TsSurface.at'),
      ('row at a step', 'geometry/pvrow.py:TsPVRow.at'),
      ('ground at a step', 'geometry/pvground.py:TsGround.at'),
      ('merged shadows',
       'geometry/pvground.py:TsGround._merge_shadow_surfaces')],
     ['coordinates, lengths, indices and parameters of the geometry of a '
      'step'])
prop('C09', 'Shadows, cuts and projections follow the sets of points of a line',
     'Casting shadows on a row side or segment and cutting it at points, in '
     'any sequence, leaves surfaces that tile it exactly once, shaded '
     'exactly where a shadow was cast, cut where asked, with its normal and '
     'parameters, and changes nothing else. The difference of two lines in '
     'the same direction is their set difference; a projection on a line '
     'segment is the point where the ray meets it, or nothing outside. Sides '
     'and rows built from end points or centre, tilt and width have equal '
     'segments in order and outward normals.',
     ['inputs', 'histories', 'configurations'],
     'all positions and lengths of the lines in six directions, every order '
     'and coincidence of their ends, 1-3 shadows and cuts in sequence on 1-4 '
     'segments, any projection vector, any row centre, width and tilt',
     'Tests try one or two positions of the lines in each method; the result '
     'depends on the order of all the ends and on what was cast before.',
     [GEO + 'base.py', GEO + 'utils.py', GEO + 'pvrow.py'],
     [('difference, contains, projection', 'geometry/utils.py:difference'),
      ('shadows', 'geometry/base.py:PVSegment.cast_shadow'),
      ('cuts', 'geometry/base.py:ShadeCollection.cut_at_point'),
      ('merging', 'geometry/base.py:ShadeCollection.merge_surfaces'),
      ('row', 'geometry/pvrow.py:PVRow.from_center_tilt_width')],
     ['coordinates, shading and lengths of the surfaces'])
prop('C26', 'Only heights above the ground matter',
     'When the ground of an array is at another height (y_ground), the rows, '
     'shadows, cut points and ground surfaces are those of the same array on '
     'ground at height zero, moved up by that height: same positions along '
     'the ground, lengths, normals, shading and indices, and the same view '
     'factors in full mode, fast mode and with absorption functions.',
     ['inputs', 'configurations'],
     'any ground height in [-50, 50] m, 1-2 rows of any width, spacing, '
     'height and tilt, sun on either side, any shadow positions in the '
     'listed orders',
     'Tests never move the ground away from zero, where every dropped or '
     'doubled ground height vanishes.',
     [GEO + 'pvarray.py', GEO + 'pvground.py',
      'pvfactors/viewfactors/vfmethods.py',
      'pvfactors/viewfactors/aoimethods.py'],
     [('row centers', 'geometry/pvarray.py:'
       'OrderedPVArray._calculate_pvrow_elements_coords'),
      ('shadows and cut points', 'geometry/pvground.py:'
       'TsGround.from_ts_pvrows_and_angles'),
      ('fast mode ground view factors', 'viewfactors/vfmethods.py:'
       'VFTsMethods.vf_pvrow_surf_to_gnd_surf_obstruction_hottel')],
     ['coordinates of all surfaces, view factor matrix, fast mode view '
      'factors'])
