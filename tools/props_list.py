p('P01', 'Sequences report their elements and find indices consistently',
  'Every sequence type (linear, logarithmic, ray fan, data) reports the element values, increments and size that its definition prescribes, and clamps bounded access at the ends. Looking up a value inside the covered range returns the index of the interval that contains it, a value outside returns the nearest interval, and the nearest-element lookup returns an element no farther away than any other. A non-monotonic series is refused.',
  'types/seq_vector.h types/seq_vector.cc types/seq_linear.h types/seq_log.h types/seq_rayfan.cc types/seq_data.cc',
  [('find_index / find_nearest', 'types/seq_vector.h, seq_linear.h, seq_log.h, seq_data.h'), ('constructors', 'types/seq_*.h')])
p('P02', 'Building and clipping sequences preserves the data',
  'Building the best sequence for a list of values returns one whose elements equal the listed values, whichever representation is chosen. Clipping to a range keeps exactly the elements inside it, in order. Augmenting a sequence keeps every original element, stays sorted, and adds the requested number of points.',
  'types/seq_vector.cc types/seq_augment.h',
  [('build_best, clip', 'types/seq_vector.cc'), ('seq_augment', 'types/seq_augment.h')])
p('P03', 'Grid interpolation reproduces nodes and is exact for (multi)linear data',
  'Interpolating a 1- to 3-dimensional grid at a node returns the stored value for every interpolation method, linear interpolation between nodes equals the multilinear blend of the surrounding nodes, and nearest-neighbour interpolation returns the value of the closest node. Outside the axes, edge limiting clamps the location to the axis end points, and without it linear data is extrapolated. The derivatives reported by linear and nearest-neighbour interpolation are those of the interpolated field.',
  'types/data_grid.h types/gen_grid.h types/gen_grid_utils.h',
  [('interpolate / interp', 'types/gen_grid.h, gen_grid_utils.h')], over=('inputs', 'configurations'))
p('P04', 'Piecewise-cubic grid interpolation is smooth and shape preserving',
  'Piecewise cubic (PCHIP) interpolation passes through the data, stays between neighbouring node values, reproduces straight lines and has a continuous slope at the nodes. Node slopes are zero at local extremes and next to flat intervals, and otherwise have the sign of the data and at most three times the slope of the neighbouring intervals.',
  'types/gen_grid.h types/gen_grid_utils.h',
  [('pchip', 'types/gen_grid.h'), ('slope estimates', 'types/gen_grid_utils.h')])
p('P05', 'Specialised bathymetry and sound-speed grids agree with their data',
  'The fast bathymetry and sound-speed-profile grids return node values at nodes and clamp locations at the edges. Bathymetry agrees with the general grid interpolator in linear and nearest-neighbour modes and has the requested cubic slopes in its bicubic mode; sound-speed grids blend their profiles linearly in latitude and longitude and cubically in depth. Reported derivatives are those of the interpolated field.',
  'types/data_grid_bathy.h types/data_grid_svp.h',
  [('interpolate', 'types/data_grid_bathy.h, types/data_grid_svp.h')])
p('P06', 'Positions convert between geodetic and spherical forms without loss',
  'Latitude, longitude and altitude given to a position come back unchanged, agree with its spherical coordinates, and survive copies, single-point selections and updates. Dot products, straight-line distances and cross products of positions equal those of the Cartesian points they stand for. Great-circle range, bearing and the point reached by travelling a range along a bearing agree with spherical trigonometry, at the equator and near the poles as well.',
  'types/wposition.h types/wposition.cc types/wposition1.h types/wposition1.cc',
  [('coordinate accessors', 'types/wposition*.h'), ('gc_range / position constructors', 'types/wposition1.cc')])
p('P07', 'Vectors keep length and angle under change of representation',
  'Converting a vector between local spherical components and Earth-centered components preserves its length and is undone by the inverse conversion. Direction angles (elevation and azimuth) converted to vector components and back return the same angles and length.',
  'types/wvector.h types/wvector.cc types/wvector1.h types/wvector1.cc',
  [('rotate, direction', 'types/wvector*.cc')])
p('P08', 'Platform orientation and beam-frame rotation are consistent',
  'The rotation matrix of an orientation is the one its heading, pitch and roll prescribe, and the three angles can be recovered from copies and combinations; setting one angle leaves the others alone. Expressing a direction in the body frame and back preserves its length and returns the same direction, and a child orientation mounted on a host is the product of the two rotations.',
  'types/orientation.h types/orientation.cc types/bvector.h',
  [('update_orientation', 'types/orientation.cc'), ('rotate', 'types/bvector.h')])
p('P09', 'Vector and matrix math applies the scalar function element by element',
  'Every vectorised math function applied to vectors or matrices yields, at every element, the value of the corresponding scalar function of that element, with the shape preserved. Signs are copied from the second argument to the magnitude of the first.',
  'ublas/scalar_math.h ublas/vector_math.h ublas/matrix_math.h ublas/math_traits.h',
  [('traits and expression templates', 'ublas/*_math.h')])
p('P10', 'Managers hand out, find and notify exactly the registered objects',
  'A manager registers each key once, refuses duplicates, returns for each key the object registered under it and nothing after removal, and keeps registered objects alive. Every registered listener is told exactly once of each event while registered and never after removal, for managers as well as for updates, eigenrays, eigenverbs and wavefronts. Platforms registered without a key get a new one.',
  'managed/manager_template.h managed/managed_obj.h managed/update_notifier.h managed/manager_listener.h',
  [('add / remove / find', 'managed/manager_template.h'), ('notify', 'managed/update_notifier.h')], over=('histories',), text='every history of add, remove, find and notify operations up to the stated length')
p('P11', 'Thread pool runs each accepted task once and shuts down cleanly',
  'Each task given to the pool is executed exactly once unless it was aborted before it started, and waiting for completion ends only when no task is active. Shutting the pool down never deadlocks.',
  'threads/thread_pool.cc threads/thread_task.cc threads/thread_controller.cc',
  [('run / thread main loop', 'threads/thread_pool.cc'), ('active counter', 'threads/thread_task.cc')], over=('schedules', 'histories'), text='every interleaving and history of operations')
p('P12', 'Readers and writers of shared state are mutually excluded and released',
  'While one thread changes platforms, sensors, pairs, managers, collections or the shared ocean, every other operation on them waits, and readers run beside each other but exclude changes. Every public operation leaves all locks released when it returns or throws.',
  'threads/read_write_lock.h',
  [('read_lock_guard / write_lock_guard', 'threads/read_write_lock.h')], over=('histories', 'inputs'))
p('P13', 'Platform linkage stays a tree and motion propagates to children',
  'A platform is the child of one host at a time: children list exactly those that were added and not removed, and exactly those report that host. Moving a host moves each child, and its children, by the offset and orientation relative to it, with the same time, speed and kind of update; without a new position the host moves by its speed along its heading.',
  'platforms/platform_model.cc platforms/platform_model.h',
  [('add_child, remove_child, update', 'platforms/platform_model.cc')], over=('histories', 'inputs'))
p('P14', 'Sensor pairs assemble direct paths and reverberation of both sensors',
  'The direct paths of a pair are exactly the rays between its sensors, from the source to the receiver, with reversed directions when the receiver computed them. New eigenverbs of both sensors start the computation of biverbs, and these the reverberation when pulses are scheduled, each with the latest inputs; computations that are superseded are aborted and change nothing. Listeners are told once, when the last of these is complete, and never after the pair was removed.',
  'sensors/sensor_pair.cc sensors/sensor_model.cc',
  [('update_wavefront_data, notify_update', 'sensors/sensor_pair.cc'), ('transmit_schedule', 'sensors/sensor_model.cc')], over=('histories', 'inputs'))
p('P15', 'Exactly the compatible source/receiver pairs exist',
  'After any history of adding and removing sensors, the pairs are exactly the monostatic and multistatic ones required by the sensors present, and are found by source, by receiver and by key. No removed sensor remains referenced. Sensors are refused when the frequencies or their maximum time are missing.',
  'sensors/sensor_manager.cc sensors/sensor_pair.cc',
  [('add_sensor, remove_sensor', 'sensors/sensor_manager.cc')], over=('histories',))
p('P16', 'Sensors recompute acoustics exactly when motion exceeds thresholds',
  'A sensor whose latitude, longitude, altitude, heading, pitch or roll differs from those of its last computation by the thresholds or more starts a new computation and aborts the previous one; smaller changes start none, unless forced. The computation is given the position and settings of the sensor and exactly the acoustic targets within its limits of range. Nothing is computed without a maximum time or when neither targets nor reverberation are wanted.',
  'sensors/sensor_model.cc platforms/motion_thresholds.cc',
  [('update', 'sensors/sensor_model.cc')])
p('P17', 'Eigenray collections file rays by target and total them correctly',
  'Each ray added to a target is stored for that target only. Totals add the rays of a target coherently, as complex pressures with their phases, or incoherently, as intensities; travel time and angles of the total are the intensity-weighted averages, and bounce counts those of the strongest ray.',
  'eigenrays/eigenray_collection.cc',
  [('add_eigenray, sum_eigenrays', 'eigenrays/eigenray_collection.cc')])
p('P18', 'Dead reckoning of eigenrays shifts times and angles consistently',
  'Dead reckoning an eigenray shortens its travel time by the motion of the source along the launch direction and lengthens it by the motion of the target along the arrival direction, over the local sound speed, and scales spreading and attenuation with the path. Nothing changes when nothing moved, and the rays of other targets are left alone.',
  'eigenrays/eigenray_collection.cc',
  [('dead_reckon', 'eigenrays/eigenray_collection.cc')])
p('P19', 'Eigenverb collections keep and find patches per interface',
  'Every eigenverb added to a collection is kept exactly once, for the interface it was added to. A search returns exactly the patches of that interface whose position lies inside the search area, a rhombus aligned with the bounding patch whose half diagonals are search_scale times its length and width.',
  'eigenverbs/eigenverb_collection.cc',
  [('add_eigenverb, find_eigenverbs', 'eigenverbs/eigenverb_collection.cc')])
p('P20', 'Bistatic reverberation patches combine source and receiver patches',
  'A biverb built from a source and a receiver eigenverb has the summed travel time, and the power and duration given by the overlap of their two Gaussian patches times the scattering strength. It is filed for its interface in order of travel time unless its power is below the threshold, and carries the angles and bounce counts of the source and of the receiver patch.',
  'biverbs/biverb_collection.cc biverbs/biverb_generator.cc',
  [('add_biverb', 'biverbs/biverb_collection.cc')])
p('P21', 'Reverberation time series accumulate each biverb at its delay',
  'Each biverb adds its power, interpolated to the transmit frequency, times pulse length, source level and the source and receiver beam levels to every receiver channel, as a Gaussian around its two way travel time and delay. Beam patterns see directions relative to their arrays, and no sample outside the window or the series is touched.',
  'rvbts/rvbts_collection.cc rvbts/rvbts_generator.cc',
  [('add_biverb', 'rvbts/rvbts_collection.cc')])
p('P22', 'Ray integration steps are exact to their stated order',
  'Each Runge-Kutta and Adams-Bashforth integration step advances position, direction and distance exactly as its published formula prescribes, so it is exact for polynomial derivatives up to its order.',
  'waveq3d/ode_integ.cc', [('rk1..ab3', 'waveq3d/ode_integ.cc')])
p('P23', 'Ray state derivatives follow the ray equations',
  'The position and direction derivatives computed for a wavefront follow the spherical ray equations for the local sound speed and its gradient: rays advance at the sound speed along their direction and turn away from higher sound speeds. The launch directions have the length given by the local slowness, and the distance from each ray to each target is that of the Cartesian points.',
  'waveq3d/wave_front.cc', [('update', 'waveq3d/wave_front.cc')])
p('P24', 'Reflection from boundaries is specular and conserves direction length',
  'A ray that crosses the surface or the bottom is placed on it and leaves with the mirror image direction about the boundary normal, with the length given by the local slowness. Travel time and distance accumulate the partial step, the reflection loss and phase of the grazing angle are added to the ray, listeners are told of the collision, and the past states of the integrator are rebuilt from the reflected ray.',
  'waveq3d/reflection_model.cc', [('bottom / surface reflection', 'waveq3d/reflection_model.cc')])
p('P25', 'Closest point of approach interpolation is a consistent Taylor expansion',
  'For a target near the wavefront, the estimated launch angles, arrival angles, travel time and other eigenray fields are the second-order Taylor expansion at the minimum of the distance squared to the target, exact for quadratic fields, and are reported only for local minima inside the ray fan with finite losses above the threshold. Eigenverbs report the footprint and power of each bottom, surface or layer collision.',
  'waveq3d/wave_queue.cc', [('compute_offsets, add_eigenray', 'waveq3d/wave_queue.cc')])
p('P26', 'Spreading loss equals the geometric area ratio',
  'Ray-theory spreading loss is the ratio of wavefront area to the launch area, and Gaussian-beam spreading is finite, positive and tends to it.',
  'waveq3d/spreading_ray.cc waveq3d/spreading_hybrid_gaussian.cc', [('intensity', 'waveq3d/spreading_*.cc')])
p('P28', 'Wavefront edges, caustics and fold-overs are flagged correctly',
  'On-edge flags mark exactly the borders of each ray family, at the ends of the fan, reversals of direction and differences of bounce counts; a caustic shifts the phase by -90 degrees exactly when neighbouring rays of a family cross. Each step accumulates attenuation, distance and phase, and each ray that crosses the surface, bottom or a layer is handed to the matching reflection exactly once and its bounce counted.',
  'waveq3d/wave_queue.cc waveq3d/wave_front.cc', [('detect_caustics, find_edges', 'waveq3d/*.cc')])
p('P29', 'Sound speed gradients are the derivatives of the sound speed',
  'Each analytic sound speed profile reports the published formula, and its gradient is the partial derivative of the reported sound speed with respect to the spherical coordinates, including gridded profiles of one to three dimensions. The flat earth correction scales the sound speed and its gradient consistently.',
  'ocean/profile_linear.cc ocean/profile_munk.cc ocean/profile_n2.cc ocean/profile_catenary.cc ocean/profile_grid.h ocean/profile_model.cc',
  [('sound_speed', 'ocean/profile_*.cc')])
p('P30', 'Boundary normals are unit length and orthogonal to the surface',
  'Each boundary model reports a height and a unit-length, upward normal that matches the slope of that height, for flat, sloped and gridded boundaries, and for single locations as well as arrays of them.',
  'ocean/boundary_flat.cc ocean/boundary_slope.cc ocean/boundary_grid.h', [('height', 'ocean/boundary_*')])
p('P31', 'Reflection losses follow their models and never amplify',
  'Reflection loss in dB is non-negative for physically valid parameters and grazing angles and equals the published formula of each model.',
  'ocean/reflect_loss_rayleigh.cc ocean/reflect_loss_beckmann.cc ocean/reflect_loss_eckart.h ocean/reflect_loss_constant.h ocean/reflect_loss_rayleigh_grid.cc',
  [('reflect_loss', 'ocean/reflect_loss_*')])
p('P32', 'Scattering strengths are consistent between scalar and vector forms',
  'Scattering strength equals the formula of each model, and the element-wise, vector and matrix forms agree.',
  'ocean/scattering_chapman.h ocean/scattering_lambert.h ocean/scattering_constant.h ocean/volume_flat.h', [('scattering', 'ocean/scattering_*.h')])
p('P33', 'Attenuation is linear in distance and follows its model',
  'Attenuation in dB equals the model coefficient at each frequency times distance, and never decreases with distance.',
  'ocean/attenuation_thorp.cc ocean/attenuation_constant.cc', [('attenuation', 'ocean/attenuation_*.cc')])
p('P34', 'Ambient noise follows the Wenz formula for all sea states',
  'Ambient noise levels are power sums of the component curves for every frequency, and constant models return their setting.',
  'ocean/ambient_wenz.cc ocean/ambient_constant.h', [('ambient', 'ocean/ambient_wenz.cc')])
p('P35', 'The shared ocean delegates to the layer models it was given',
  'An ocean gives out exactly the surface, bottom, profile and volume layers it was built from, and answers scattering, reflection loss and layer depth queries with exactly the model registered for that interface, also after that model is replaced. The shared current ocean is the last one set, and earlier holders keep theirs.',
  'ocean/ocean_model.h ocean/ocean_shared.cc ocean/ocean_utils.cc', [('delegation', 'ocean/ocean_model.h')])
p('P36', 'Beam patterns follow their formulas and peak at the main axis',
  'Each analytic beam pattern returns the published level for every direction, frequency and steering, bounded by one, with unit response on axis.',
  'beampatterns/bp_omni.cc beampatterns/bp_cardioid.cc beampatterns/bp_line.cc beampatterns/bp_planar.cc beampatterns/bp_piston.cc beampatterns/bp_solid.cc beampatterns/bp_gaussian.cc beampatterns/bp_trig.cc beampatterns/bp_multi.cc beampatterns/bp_arb.cc beampatterns/bp_grid.cc',
  [('beam_level', 'beampatterns/bp_*.cc')])
p('P39', 'Transmit waveforms have the requested length, frequency and window',
  'Continuous wave and chirp pulses have the requested duration and instantaneous frequency and unit amplitude under the chosen window.',
  'transmit/transmit_cw.cc transmit/transmit_lfm.cc transmit/window.h', [('signal', 'transmit/*.cc')])
p('P40', 'Environmental file readers load the values stored in the files',
  'Bathymetry, profile and reflection-loss readers return the values stored in the files for the requested region.',
  'netcdf/netcdf_bathy.cc netcdf/netcdf_profile.cc ocean/ascii_arc_bathy.cc ocean/ascii_profile.cc ocean/reflect_loss_netcdf.cc', [('readers', 'netcdf/*.cc')])
