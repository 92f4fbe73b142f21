# The properties (texts), one dict each; tools/gen.py writes properties.jsonl and MANIFEST.json from this.
PROOF = 'All obligations are discharged for all inputs within the stated preconditions; trusted: clang/opt front end, the irvc verifier and its rewriting, z3/cvc5. '
PROPS = []
def P(id, title, statement, q, why, files, mech, note='', **k):
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, note=note, **k))

P('C01', 'Time arithmetic is exact to the nanosecond',
  'A time point or duration is a whole number of nanoseconds in normal form, and every constructor, addition, subtraction and conversion yields exactly the sum or difference it names (a seconds value given as a floating-point number being rounded by less than a nanosecond). Adding a duration and subtracting it again, or adding the difference of two times to the earlier one, gives back the time started from.',
  'all time points over ±100 thousand years and all durations', 'Tests add a handful of durations; carries, borrows and negative values combine in ways a sample does not reach.',
  ['common/utctime.h', 'common/utctime.cxx'], [('normalised seconds/nanoseconds arithmetic', 'common/utctime.cxx: operator+, operator-, +=, -=, wrapNsec')],
  PROOF + 'Conversions from and to floating-point seconds are proved in exact-real semantics with rounding bounds where stated.')
P('C02', 'Time points are totally ordered; quantised comparison is a tolerance',
  'The six comparisons of two time points agree with the order of the instants they name, and exactly one of earlier, equal and later holds. Comparing with a quantised time treats instants at most half a quantum apart as equal and orders all others by the instant, whichever side the quantised time is on.',
  'all pairs and triples of normalised time points', 'Tests compare a few pairs; the boundary where seconds are equal and nanoseconds differ, in each of 12 operators, needs every pair.',
  ['common/utctime.h', 'common/utctime.cxx', 'common/quantized_time.h', 'common/quantized_time.cxx'], [('lexicographic comparison', 'common/utctime.cxx comparison operators'), ('tolerance comparison', 'common/quantized_time.cxx')],
  PROOF + 'For the quantised comparisons the seconds value of a difference is an exact real except in the machine-arithmetic contract (|dt| <= 1 s).')
P('C03', 'GNSS and calendar time conversions are exact inverses',
  'Converting a time to GPS, GLONASS or Galileo week and time of week, or to calendar form, and back gives the same time, and the week and time-of-week pair is normalised and counts from the documented epoch of the system with its documented offset to UTC. The reconstruction of a full time from a time of day or week picks the one closest to the reference time.',
  'all times over several thousand years including before each epoch, all weeks and times of week', 'Tests convert a few dates; midnight, week and epoch boundaries and times before an epoch are not sampled.',
  ['common/utctime.h', 'common/utctime.cxx'], [('week and leap-second arithmetic', 'common/utctime.cxx: fromGPS, fromGalileo, fromGlonass, fromGlonassTimeOfDay, GpsTow, ...')],
  PROOF + 'The library call timegm for fixed dates is replaced by its documented constant.')
P('C04', 'Bit fields of navigation messages are read and written exactly',
  'Reading a field of a navigation message gives the bits at its position, most significant bit first, as an unsigned, two\'s complement or sign-and-magnitude number; writing a field puts the value there and changes no other bit of the message.',
  'all messages of up to 40 bytes, all positions, all widths used', 'Widths, alignments and bit positions multiply to thousands of cases with every content; tests read a few.',
  ['common/ephemeris/bit_tools.h'], [('byte-crossing field extraction', 'common/ephemeris/bit_tools.h: getBit, setBit, getBitGlo')],
  PROOF + 'Widths 1..32 and 40, 48, 55, 56 at every position of a 40-byte message (longer than any navigation message).')
P('C05', 'Message checksums are the standard codes',
  'The CRC of a message equals the CRC-24Q remainder of its bits, so any single burst of up to 24 bits is noticed, and the GLONASS string check accepts exactly the strings whose Hamming code words are right.',
  'all message contents, all lengths up to 48 bytes (CRC), all GLONASS strings', 'A wrong table entry or parity mask shows up only on particular contents; tests feed a few recorded messages.',
  ['utils/crc.h', 'utils/crc.cxx', 'common/ephemeris/glonass.cxx'], [('table driven CRC', 'utils/crc.cxx'), ('Hamming parity masks', 'common/ephemeris/glonass.cxx: checkHammingCode')],
  PROOF + 'CRC: one contract per length, lengths 0..48 bytes (Galileo and GLONASS messages are at most 40), all contents; the step contract of the table covers all 256 entries.')
P('C06', 'A GPS ephemeris is decoded bit-exactly and only from matching subframes',
  'Every parameter of a GPS ephemeris equals the field that the interface specification places in subframes 1 to 3, scaled and signed as specified. An ephemeris is reported complete exactly when all three subframes received carry one issue of data, and a message that is rejected changes nothing.',
  'all subframe contents, message sizes and decoder states (hence all message histories)', 'Tests replay a recorded pass of one satellite, in which most high bits, signs and mismatching issues of data never occur.',
  ['common/ephemeris/gps.h', 'common/ephemeris/gps.cxx', 'common/ephemeris/bit_tools.h'], [('subframe field layout', 'common/ephemeris/gps.cxx: frame1, frame2, frame3'), ('collecting one issue of data', 'common/ephemeris/gps.cxx: parse')],
  PROOF + 'Histories are covered by induction: each message is taken in any decoder state that satisfies the invariant, which it re-establishes.', over=['inputs', 'histories'])
P('C07', 'A Galileo ephemeris is decoded bit-exactly and only from matching words',
  'Every parameter of a Galileo ephemeris equals the field that the interface specification places in word types 1 to 5 and 0, scaled and signed as specified. An ephemeris is reported complete exactly when the words received carry one issue of data and the CRC of each page is right, and a page that is rejected changes nothing.',
  'all page contents, message sizes and decoder states (hence all message histories)', 'Tests replay one recorded pass; high bits, signs, repeated words, short pages and mismatching issues of data never occur in it.',
  ['common/ephemeris/galileo.h', 'common/ephemeris/galileo.cxx'], [('word field layout', 'common/ephemeris/galileo.cxx: frame0..frame5'), ('page assembly and CRC', 'common/ephemeris/galileo.cxx: parse')],
  PROOF + 'One known finding (data bits 112..127 of every word are taken from the wrong page bits, and the existing tests expect that) is listed in known_findings.json and reported on every run.', over=['inputs', 'histories'])
P('C08', 'A GLONASS ephemeris is decoded bit-exactly and only from matching strings',
  'Every parameter of a GLONASS ephemeris equals the field that the interface document places in strings 1 to 5, scaled and signed as specified, and its time of ephemeris is the one the date and time-of-day fields name. An ephemeris is reported complete exactly when all five strings of one frame were received with right check bits, and a message that is rejected changes nothing.',
  'all string contents, message sizes and decoder states (hence all message histories)', 'Tests replay one recorded pass; sign bits, dates across four-year intervals and frames with a string missing never occur in it.',
  ['common/ephemeris/glonass.h', 'common/ephemeris/glonass.cxx'], [('string field layout', 'common/ephemeris/glonass.cxx: frame1..frame5'), ('frame assembly', 'common/ephemeris/glonass.cxx: parse, convertTime')],
  PROOF, over=['inputs', 'histories'])
P('C09', 'The ring buffer is a bounded double-ended queue',
  'Whatever the operations before, the ring buffer holds the elements a bounded double-ended queue of capacity one less than its size would hold, in order, as seen through every accessor and iterator; pushing to a full one drops exactly the element at the other end. Every element is constructed once and destroyed once.',
  'every reachable state (head, length, contents) and operation, for several sizes', 'Tests push a few dozen elements; wrap-around at each head position combined with each operation is not reached.',
  ['common/circular_buffer.h'], [('wrapping head and tail', 'common/circular_buffer.h')],
  PROOF + 'Sizes 2, 3, 4, 5 and 8 with all heads and lengths, and the instances used by the library by one-operation contracts.', over=['inputs', 'histories'])
P('C10', 'Rotations form a group and all representations agree',
  'Unit quaternions and rotation matrices compose, invert and act on vectors as rotations do, and converting between quaternion, rotation matrix and Euler angles (each where defined) names the same rotation, as does building a rotation from an axis and angle or from two directions. The exponential of a rotation vector is the rotation about it by its length, and the logarithm gives the vector back for angles below half a turn.',
  'all unit quaternions, rotation matrices, vectors and rotation vectors', 'Tests draw random rotations; signs of the quaternion, angles near zero and half a turn, and parallel directions have probability zero.',
  ['common/math/quat.h', 'common/math/so3.h'], [('quaternion algebra', 'common/math/quat.h'), ('rotation matrices', 'common/math/so3.h')],
  PROOF + 'Floating point is read as exact real arithmetic; facts of trigonometry (signs of sines) are assumed where the contracts say so.')
P('C11', 'Rigid transforms form a group and both representations agree',
  'Dual quaternions and rotation-translation pairs compose, invert and act on points as rigid motions do, conversions between them, their matrices and their parts name the same motion, and the adjoint maps twists as conjugation does. The exponential and the logarithm of a rigid transform are inverse to each other for angles below half a turn, also near the identity.',
  'all rigid transforms, twists and points', 'Tests draw random transforms; small angles, negative real parts and large translations with small rotations are not among them.',
  ['common/math/dquat.h', 'common/math/se3.h'], [('dual quaternion algebra', 'common/math/dquat.h'), ('pairs of rotation and translation', 'common/math/se3.h')],
  PROOF + 'Floating point is read as exact real arithmetic. DQuat::from_4x4 is not claimed (its convention is undocumented and nothing uses it).')
P('C12', 'Jacobians of the exponential and logarithm are their derivatives',
  'The Jacobian that exp returns for rotations and rigid transforms, on the left and on the right, is the derivative of the exponential, the one that log returns is the inverse of it at that transform, and asking for a Jacobian does not change the value returned. The derivatives of the parameters by the generators and back are those of composing with a small motion.',
  'all rotation vectors and twists with angles below half a turn, including angles near zero (the series)', 'Tests compare with finite differences at random points; the small-angle branches and each of the many matrix entries are only sampled.',
  ['common/math/quat.h', 'common/math/so3.h', 'common/math/dquat.h', 'common/math/se3.h'], [('closed-form Jacobians', 'common/math/*.h: exp(w, jac), log(jac), dParamDGen, dGenDParam')],
  PROOF + 'Floating point is read as exact real arithmetic. The series branches of the dual quaternion and SE3 Jacobians and log Jacobians within 1e-8 of half a turn are not covered.')
P('C13', 'The state of a satellite is the one its broadcast ephemeris defines',
  'Position and clock of a GPS or Galileo satellite at a time are those of the user algorithm of the interface specification (the eccentric anomaly solves Kepler\'s equation), its velocity is the rate of change of the position to a centimetre per second and its clock rate that of the clock polynomial; an ephemeris more than two hours from its reference time is refused. For GLONASS the state is integrated over exactly the time asked for with steps of at most a minute of the equation of motion of the interface document, by a fourth order method.',
  'all ephemerides within the ranges of the broadcast fields and all times within their validity', 'Tests evaluate one ephemeris of each system at a few times; signs of harmonic terms, anomalies near zero and half a turn, different reference times of clock and orbit do not occur in them.',
  ['common/satellite/satellite_state.h', 'common/satellite/satellite_state.cxx', 'common/math/rk4.h'], [('Kepler orbit with corrections', 'common/satellite/satellite_state.cxx: eph2Sat(KeplerianEphemeris)'), ('numerical integration', 'common/satellite/satellite_state.cxx: eph2Sat(GlonassEphemeris), glonassOrbit; common/math/rk4.h')],
  PROOF + 'Floating point is read as exact real arithmetic; that Newton\'s iteration converges within 28 steps for eccentricities up to 0.1 is assumed (and sampled natively when a contract fails). GLONASS times within 15 minutes.')
P('C14', 'Factors weigh the error of their measurement model and differentiate it',
  'The residual of each factor (pseudorange and Doppler, change of carrier phase, receiver clock dynamics, pose prior) is the error of its measurement model - geometry through the chain of frames, Sagnac correction, atmosphere, clocks, satellite motion, switch - weighted by the square root of its information, whose square is the inverse of the covariance. Its Jacobians by every parameter block are the derivatives of that residual, equally weighted, but for the approximations the code documents (Doppler by position, Sagnac terms of relative size 1e-5), and asking for Jacobians does not change the residual.',
  'all poses, lever arms, velocities, clocks, switches, satellite states, weights and times', 'Tests compare numerical and analytic Jacobians at one configuration with identity weights; correlated weights, rotated frames and lever arms in combination are not reached.',
  ['models/prange_model.cxx', 'models/relative_carrier_phase_model.cxx', 'models/gnss_dynamics_model.cxx', 'models/pose_error_model.cxx'], [('pseudorange and Doppler', 'models/prange_model.cxx: Evaluate'), ('carrier phase between epochs', 'models/relative_carrier_phase_model.cxx: Evaluate'), ('clock dynamics and pose prior', 'models/gnss_dynamics_model.cxx, models/pose_error_model.cxx')],
  PROOF + 'Floating point is read as exact real arithmetic. Rotations and rigid transforms are represented by the contracts of their classes (C10 to C12) and not by their bodies. One known finding (the carrier phase is multiplied by the wavelength) is listed in known_findings.json and reported on every run.')
P('C15', 'Ephemerides are kept in order, by satellite, and the closest one is used',
  'The almanac of a satellite holds one ephemeris per time of ephemeris, in order of time, whatever the order of arrival; a newer ephemeris of one time replaces the older, no other is lost, and an ephemeris of another satellite is refused. The state of a satellite at a time is computed from the ephemeris closest to that time. Each system has its own satellites: an ephemeris goes to the satellite of its number and system and no other, a new satellite takes the place of the oldest when there is no room, and exactly the satellites known are found. The carrier wavelength of a satellite is the speed of light over the frequency of the signal (and, for GLONASS, of the channel its ephemeris names).',
  'all times and contents of ephemerides, all satellite numbers, orders of arrival and numbers of ephemerides within the sizes stated', 'Tests add a few ephemerides in two orders; ties, insertion at each place, and full collections at each head position are not reached.',
  ['common/satellite/satellite.h', 'core/sat_manager.h', 'core/sat_manager.cxx'], [('sorted almanac', 'common/satellite/satellite.h: addEph, findClosestEphemeris, getState'), ('satellites by system and number', 'core/sat_manager.cxx: addEph, find, getSat, ephCb')],
  PROOF + 'Almanacs of up to 4 ephemerides before the operation and rings of up to 3 satellites at several head positions, by induction over operations; the ephemeris type of these contracts is a plain record (the code is a template).', over=['inputs', 'histories'])
P('C16', 'Satellite states are those at the time the signal was sent',
  'Whatever the orbit, the satellite state used for an observation is the one at the time of reception less the travel time of the signal - its distance, with the Sagnac correction, over the speed of light, seen from the state itself - to a millimetre of satellite motion, and the Sagnac correction and atmosphere kept with it are those of that state. The two states of a carrier phase difference belong to its two observations.',
  'all orbits (any states at any times), receiver positions and times', 'Tests use recorded constellations in which a light time of the wrong sign or a state of the wrong observation changes little.',
  ['common/satellite/satellite_cache.h', 'common/satellite/satellite_cache.cxx', 'models/prange_model.cxx', 'models/relative_carrier_phase_model.cxx'], [('light-time iteration', 'common/satellite/satellite_cache.cxx: update; models/prange_model.cxx: computeConstants; models/relative_carrier_phase_model.cxx: computeSatState')],
  PROOF + 'Floating point and time differences are read as exact real arithmetic (C01 bounds the rounding). The satellite gives any state at each call: the first and second improvement are proved for any state, the stopping rule for any speed; later ones follow as the loop body keeps no other state.')
P('C17', 'Coordinates, directions and atmospheric delays are those of the models',
  'Converting geodetic coordinates to the earth-fixed frame places the point of that latitude, longitude and height over the WGS84 ellipsoid, and converting back is the inverse: it ends only when a tenth of a millimetre is left, also at the poles. The local frame at a point has its origin there and its axes north, east and down; azimuth and elevation are those of the line of sight in it. The ionospheric and tropospheric delays are those of the models of Klobuchar and Saastamoinen for the receiver and the direction of the satellite.',
  'all points, satellites, directions and times of week', 'Tests convert a few points near one place and look at few satellites; quadrants, hemispheres, the clamped latitude of the pierce point, the night branch and heights out of range do not occur in them.',
  ['utils/wgs84.h', 'utils/wgs84.cxx', 'common/satellite/azel.cxx', 'common/satellite/atm_correction.cxx'], [('geodetic coordinates', 'utils/wgs84.cxx: lla2ecef, ecef2lla'), ('local frame', 'utils/wgs84.cxx: q_e2n, dq_ecef2ned, ecef2ned, ned2ecef, lla2ned; common/satellite/azel.cxx'), ('delays', 'common/satellite/atm_correction.cxx')],
  PROOF + 'Floating point is read as exact real arithmetic. The iteration of ecef2lla is one iteration from any state (that it ends is not proved); at rest its result is proved to be the inverse.')
P('C18', 'Pre-integrated inertial measurements predict and constrain motion consistently',
  'Integrating an inertial sample advances position, velocity and attitude by the dynamics of the mean of the last two samples without the bias, the covariance and the derivative by the bias by the second-order transition of the linearised error dynamics, which are the derivatives of the true ones; samples out of order are refused. The state predicted at the end of the interval is the one at which the residual vanishes, the residual is corrected for a change of the bias, and its Jacobians by poses, velocities and bias are its derivatives. Splitting an interval gives two that meet at the time of the split, with the same samples and the one at the split interpolated.',
  'all samples, biases, states, covariances, intervals, poses, velocities and split times', 'Tests integrate a few simulated trajectories from the identity with loose tolerances; coupling terms, biases other than zero, rotated starting poses and the split between samples are not reached.',
  ['models/imu_model.h', 'models/imu_model.cxx', 'models/imu_state.h', 'models/imu_state.cxx'], [('state algebra', 'models/imu_state.cxx'), ('pre-integration', 'models/imu_model.cxx: integrate, dynamics, errorStateDynamics, split'), ('factor', 'models/imu_model.cxx: Evaluate, computeEndState')],
  PROOF + 'Floating point is read as exact real arithmetic; that the discrete step is the exact solution of the continuous system is not claimed (it is the documented first and second order one). The square root of the information (finished) is not covered. Splitting: three samples at any times, a split at any place among them on the grid of time; the step of integration is by induction over samples.', over=['inputs', 'histories'])
P('C19', 'The models of the RTK filter and their Jacobians agree',
  'The motion model of the RTK filter is the kinematics of a body: attitude turned by the measured rate without its bias, position by the body velocity, that by specific force, gravity in the body frame and the turning of the body, clocks by their drifts, the rest constant. Its Jacobians by state and input are the derivatives in the chart of small motions, and the linear error dynamics are those of the Jacobians. The residuals of position fixes, pseudorange and Doppler of each system and of held ambiguities are measurement minus what the state and the antenna predict, and their Jacobians are the derivatives. Copies of a state have all its elements and its time, and an increment moves each element by its own part.',
  'all states, inputs, lever arms, frames, satellite states and measurements', 'Tests compare Jacobians with finite differences of the same wrong equations, or at states where a coupling vanishes, with tolerances of the size of the terms; signs of gravity, clocks of other systems and rotating bodies are not reached.',
  ['core/ekf/rtk_ekf_impl.cxx', 'core/ekf/rtk_ekf.yaml', 'core/ekf/ekf_gen/ekf_gen_state.py', 'core/ekf/ekf_gen/ekf_gen_templates.py'], [('motion model', 'core/ekf/rtk_ekf_impl.cxx: dynamics, errorStateDynamics'), ('measurement models', 'core/ekf/rtk_ekf_impl.cxx: h<pointPosMeas>, h<obsMeas>, h<fixAndHoldMeas>'), ('state algebra (generated)', 'core/ekf/ekf_gen/ekf_gen_state.py')],
  PROOF + 'The code of states and types is generated by the generator of the repository on every run. Floating point is read as exact real arithmetic. Rotations and rigid transforms are represented by the contracts of their classes (C10 to C12). As in C14 the Doppler is differentiated with the line of sight held fixed and without the Sagnac rate. Two satellites and up to three ambiguities (thirty in the thorough tier).')
P('C20', 'The RTK filter predicts and updates state and covariance by its models',
  'A step of prediction moves every element of the state by its rate over the interval, poses along the exponential, sets its time to the new one and keeps the inputs. The predicted covariance is F P F^T + G Qu G^T + Qx, where F = I + A dt + A^2 dt^2 / 2 and G = B dt + A B dt^2 / 2 are the second-order transitions of the Jacobians A and B of the motion model, for every block of the state and the ambiguities held. An update with a measurement of position and velocity, or of held ambiguities, moves the state towards the measurement by K e, where e is the residual, and reduces the covariance by K H P, with the gain K = P H^T (H P H^T + R)^-1 of the measurement model.',
  'all states, inputs, rates, residuals, Jacobians within the declared structure, covariances and noises', 'The generated code multiplies hundreds of blocks by hand-eliminated symbolic algebra; tests compare it with dense matrices at a few random states and without ambiguities of every number.',
  ['core/ekf/ekf_gen/ekf_gen_templates.py', 'core/ekf/ekf_gen/ekf_gen_matrix_manip.py', 'core/ekf/ekf_gen/symb_block_matrix.py', 'core/ekf/ekf_gen/symb_matrix.py', 'core/ekf/ekf_gen/symb_algebra.py'], [('generated prediction', 'core/ekf/ekf_gen/ekf_gen_templates.py: predict'), ('generated update', 'core/ekf/ekf_gen/ekf_gen_templates.py: update, doUpdate; ekf_gen_matrix_manip.py: sparse_meas_update'), ('symbolic block algebra', 'core/ekf/ekf_gen/symb_block_matrix.py, symb_matrix.py, symb_algebra.py')],
  PROOF + 'The contract is on the code that the generator of the repository produces for its RTK filter, generated again on every run: it decides the generator for this filter, not for every configuration. The motion model is represented by its contract (any rates, any Jacobians in the declared blocks). Floating point is read as exact real arithmetic; finiteness checks are taken to hold; interval of a quarter of a second; no and two ambiguities. The inverse of the innovation is represented by its contract (any symmetric matrix; of which matrix is an obligation). The update with satellite observations (switched off in the configuration) is not covered.')
NOT_APPLICABLE = {}
NOTES = 'The contracts are in contracts/, the verifier in irvc/. known_findings.json lists defects found: repaired (fix commits in /repo) and recorded.'
