prop('C01', 'Character buffers never overflow and keep what was appended',
 'Appending characters to an output buffer stores exactly the longest prefix that still fits, reports that count, and leaves every earlier character as it was; no append ever writes outside the buffer. The string flavour always yields text terminated right after the stored characters, and clearing empties the buffer.',
 ['inputs','histories'], 'every buffer fill level, every length of every appended piece, every sequence of appends and clears',
 'The tests never exercise the buffers at all; a sample of fill levels and lengths cannot settle the boundary where a piece straddles the capacity.',
 ['ecl_devices/src/lib/detail/character_buffer.cpp','ecl_devices/include/ecl/devices/detail/character_buffer.hpp'],
 [m('bounded append','CharBuffer::append, CharStringBuffer::append'), m('fill pointer arithmetic','size(), remaining(), full(), c_str()')])
prop('C02', 'The string device is a faithful byte queue',
 'Bytes written to the in-memory string device come back from read in the order written, each exactly once, and the text of the device is exactly the initial text followed by everything written since the last clear. Reads return the number of bytes actually delivered and never more than remain; no operation touches memory outside the device.',
 ['inputs','histories'], 'every initial text, every interleaving of single and block writes, reads and clears',
 'No built test touches the device; growth happens only at particular lengths, which sampling misses.',
 ['ecl_devices/src/lib/string.cpp','ecl_devices/include/ecl/devices/string.hpp'],
 [m('read and write cursors over a growing allocation','String::grow, String::write, String::read, String::clear')])
prop('C03', 'The ring buffer indexes its last elements oldest first',
 'After any pushes a ring buffer of length n > 0 holds exactly its last n elements: index 0 is the oldest and index n-1 the newest, and a push replaces the oldest and shifts every other by one. Filling makes every element the given value, and a change of length leaves a buffer that is still safe and consistent to push to and index.',
 ['inputs','histories'], 'every length, every cursor position, every sequence of push/fill/resize/index operations',
 'Container tests sample one short history; wrap-around and length change combinations are unbounded.',
 ['ecl_containers/include/ecl/containers/fifo.hpp'],
 [m('cursor modulo length','FiFo::operator[], FiFo::push_back, FiFo::fill, FiFo::resize')])
prop('C04', 'The push-and-pop queue is a bounded first-in first-out queue',
 'A push-and-pop queue returns elements in the order they were pushed, its size is the number pushed and not yet popped or displaced, and indexing counts from the oldest. Pushing into a full queue displaces only the oldest element, and popping an empty queue or resizing never corrupts what remains.',
 ['inputs','histories'], 'every capacity, every position of the two cursors, every sequence of push, pop, clear and fill',
 'Tests run one fixed history with one capacity; the cursor wrap-around cases are combinatorial.',
 ['ecl_containers/include/ecl/containers/push_and_pop.hpp','ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp','ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_fixed.hpp'],
 [m('leader/follower cursors','PushAndPop::push_back, pop_front, size, operator[]')])
prop('C05', 'Arrays and stencils hold their elements and reject bad indices',
 'Every in-range element access of a fixed or dynamic array reads or writes that element and no other, and the checked access throws exactly when the index is out of range. Copies, comma initialisers, resizes and stencil windows over an array touch exactly the elements they name, and requesting a window that reaches outside the array throws (an empty window right behind the last element is left open).',
 ['inputs','histories'], 'every size, index, window start and window length, including ones whose sum wraps',
 'Tests try a handful of indices; wrap-around and aliasing need unusual values.',
 ['ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp','ecl_containers/include/ecl/containers/array/array_mem_check.hpp','ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp','ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp','ecl_containers/include/ecl/containers/stencil/stencil.hpp','ecl_containers/include/ecl/containers/initialiser.hpp'],
 [m('range checks','Array::at, Array::stencil, Stencil::at, Stencil::stencil'), m('bounded comma initialiser','BoundedListInitialiser')])
prop('C06', 'Array overrun detection reports exactly the real overruns',
 'For arrays built with memory checking, the overrun query is false as long as only elements of the array were written, and true as soon as a guard byte next to the array on either side holds anything else than what construction put there. Element access is never affected by the guards.',
 ['inputs','histories'], 'every array size, element value and guard byte value',
 'A test can corrupt one byte; the property ranges over every guard byte and value.',
 ['ecl_containers/include/ecl/containers/array/array_mem_check.hpp','ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp','ecl_containers/include/ecl/containers/definitions.hpp'],
 [m('magic guard sections','Array::bufferOverRun, Array::initialiseMagicSections')])
prop('C07', 'Integers survive conversion to bytes and back',
 'Converting any integral value to a byte array gives its little-endian bytes, and converting those bytes back gives the same value. A byte array longer than the type is rejected with an error, and a hex string of bytes converts to exactly those bytes.',
 ['inputs'], 'every value of every integral type, every byte array length, every hex string',
 'Tests convert a few values; sign extension and widths beyond an int only show for particular bit patterns.',
 ['ecl_converters/include/ecl/converters/to_byte_array.hpp','ecl_converters/include/ecl/converters/from_byte_array.hpp'],
 [m('shift-and-mask','converters::ToByteArray, converters::FromByteArray')])
prop('C08', 'Integers convert to exactly their decimal text',
 'Converting any integer to characters produces its decimal text, terminated, with a leading minus exactly for negative values and no leading zeros; a buffer too small for the text is reported as an error without writing outside the buffer. Character digits convert to their value and back, and anything else is rejected.',
 ['inputs'], 'every value of every integer type including the extreme ones, every buffer size',
 'The extreme values and buffer edges are single points among 2^64.',
 ['ecl_converters/include/ecl/converters/char_strings.hpp','ecl_converters/include/ecl/converters/char.hpp','ecl_converters/include/ecl/converters/integers.hpp','ecl_converters/include/ecl/converters/string.hpp','ecl_converters/include/ecl/converters/converter.hpp'],
 [m('digit extraction','convertUnsignedIntegral, convertSignedIntegral')])
prop('C09', 'Integer formatting pads to the width and prints the right digits',
 'A formatted integer is its digits in the requested base, padded with blanks on the side the alignment names to exactly the requested width and never truncated when wider. One-off width and base apply to a single value only, printed with the permanent alignment unless an alignment is given with them, and a formatter without a value refuses to print.',
 ['inputs','histories'], 'every value, width, alignment and base, and every sequence of settings',
 'Tests eyeball printed samples; no test compares all widths, alignments and extreme values.',
 ['ecl_formatters/include/ecl/formatters/number.hpp','ecl_formatters/include/ecl/formatters/common.hpp'],
 [m('digit and padding loops','FormatNumber::formatDec, formatHex, formatBin, prePad, postPad')])
prop('C10', 'Time stamps stay normalised and their arithmetic is exact',
 'Adding or subtracting time stamps gives exactly the sum or difference in nanoseconds, in the normal form where seconds and nanoseconds do not disagree in sign and nanoseconds stay below one second in magnitude. Comparison of normal-form stamps agrees with comparison of the total times.',
 ['inputs','histories'], 'every pair of stamps within representable range, of either sign',
 'Carry and borrow cases between seconds and nanoseconds appear only for particular pairs and signs.',
 ['ecl_time/include/ecl/time/timestamp_base.hpp','ecl_time/src/lib/timestamp_base.cpp'],
 [m('carry and borrow','TimeStampBase::operator+=, operator-=, operator+, operator-, comparisons')])
prop('C11', 'Sleeps request exactly the asked time; periodic sleeps keep phase',
 'A sleep of any whole number of seconds, milliseconds, microseconds or nanoseconds asks the system for exactly that time as valid seconds and nanoseconds. A periodic sleeper that is on time wakes at start plus an exact multiple of its period, and one that is late one period from now, always as a valid time.',
 ['inputs','histories'], 'every duration, every period and start time, any number of periods',
 'Tests measure a few wall-clock sleeps with tolerance; splits and carries are exact only for the sampled values.',
 ['ecl_time/src/lib/sleep_pos.cpp','ecl_time/include/ecl/time/sleep_pos.hpp','ecl_time/src/lib/snooze_pos.cpp','ecl_time/include/ecl/time/snooze_pos.hpp'],
 [m('seconds/nanoseconds split','MilliSleep, MicroSleep, NanoSleep operator()'), m('period carry','Snooze::add_period')])
prop('C12', 'Running statistics equal the statistics of all the data',
 'After any sequence of samples the cumulative statistics report the exact count, mean and unbiased variance of that sequence, and clearing starts afresh. With no data the mean is zero and with fewer than two samples the variance is zero.',
 ['inputs','histories'], 'every finite sequence of samples',
 'Tests compare one random sequence; the recurrence must hold for any history.',
 ['ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp'],
 [m('online update','CumulativeStatistics::push_back')])
prop('C13', 'Wrapped angles are the same direction within [-pi, pi]',
 'Wrapping any angle gives a value within [-pi, pi] that differs from the original by a whole number of turns, and the in-place and returning forms agree. Angle objects stay wrapped through construction, assignment, addition and subtraction and report degrees and radians consistently.',
 ['inputs'], 'every finite angle',
 'Tests wrap a few angles; the boundary and multi-turn cases range over the reals.',
 ['ecl_geometry/include/ecl/geometry/angle.hpp','ecl_geometry/src/lib/angle.cpp'],
 [m('fmod based reduction','wrap_angle'), m('operators','Angle<Number>')])
prop('C14', 'Polynomial evaluation, derivatives, shift and division are exact',
 'A polynomial evaluates to the sum of its coefficients times powers, and its first and second derivatives - as values and as polynomials - are the derivatives of that sum. Shifting it horizontally gives p(x - a) (sign as documented), and synthetic division gives quotient and remainder with p(x) = (x - f) q(x) + r.',
 ['inputs'], 'all coefficients and all arguments, in real arithmetic',
 'Tests evaluate one or two polynomials at a point or two.',
 ['ecl_geometry/include/ecl/geometry/polynomial.hpp','ecl_geometry/include/ecl/geometry/pascals_triangle.hpp','ecl_geometry/include/ecl/geometry/function_math.hpp','ecl_geometry/src/lib/polynomial.cpp'],
 [m('Horner evaluation and coefficient maps','Polynomial<N>::operator(), derivative, dderivative, shift_horizontal; Division')])
prop('C15', 'Roots, intersections and extrema of polynomials are correct',
 'Every root reported for a linear, quadratic or cubic function is a root, and none is missed when it exists; the reported intersection of two lines lies on both. The maximum and minimum reported over an interval bound the function on the whole interval and are attained in it.',
 ['inputs'], 'all coefficients and intervals, in real arithmetic',
 'The tests use one function and interval each; degenerate and boundary configurations are not sampled.',
 ['ecl_geometry/src/lib/polynomial.cpp','ecl_geometry/include/ecl/geometry/function_math.hpp'],
 [m('closed forms and critical points','Roots, Intersection, Maximum, Minimum')])
prop('C16', 'Interpolating polynomials meet every requested boundary value',
 'A line built by interpolation or point-slope form passes through the given points with the given slope, and cubic and quintic interpolants take exactly the requested values, first derivatives and second derivatives at both ends.',
 ['inputs'], 'all end points with distinct abscissae and all boundary values, in real arithmetic',
 'Tests print or check one interpolant; a wrong coefficient may vanish at round sample points such as x = 0.',
 ['ecl_geometry/include/ecl/geometry/polynomial.hpp','ecl_geometry/src/lib/polynomial.cpp','ecl_geometry/src/lib/polynomial_blueprints.cpp'],
 [m('coefficient formulas','blueprints LinearInterpolation, LinearPointSlopeForm, CubicDerivativeInterpolation, CubicSecondDerivativeInterpolation, QuinticInterpolation')])
prop('C17', 'Splines interpolate their knots smoothly on the right segment',
 'A cubic or tension spline passes through every data point, evaluation uses the piece whose interval contains the argument, and first and second derivatives agree across interior knots; natural and clamped end conditions hold. A smoothed linear spline coincides with the data lines away from the corners and keeps value and slope continuous; arguments outside the domain are rejected.',
 ['inputs'], 'all increasing knot sequences, all values, all arguments',
 'Tests draw one spline; continuity must hold for all knots and spacings.',
 ['ecl_geometry/src/lib/cubic_spline.cpp','ecl_geometry/src/lib/cubic_spline_blueprints.cpp','ecl_geometry/src/lib/tension_function.cpp','ecl_geometry/src/lib/tension_spline.cpp','ecl_geometry/src/lib/tension_spline_blueprints.cpp','ecl_geometry/src/lib/smooth_linear_spline.cpp','ecl_geometry/include/ecl/geometry/cubic_spline.hpp','ecl_geometry/include/ecl/geometry/tension_spline.hpp','ecl_geometry/include/ecl/geometry/smooth_linear_spline.hpp'],
 [m('second-derivative recursion','CubicSpline::NaturalYdd, DerivativeHeuristic'), m('piece lookup','CubicSpline::operator(), derivative, dderivative')])
prop('C18', 'Planar poses form a group under composition',
 'Composing a pose with its inverse gives the identity, composing with the relative pose of a target reaches the target, and extending or concatenating pose differentials agrees with composing rigid motions of the plane. Headings stay wrapped.',
 ['inputs'], 'all positions and headings, in real arithmetic with exact trigonometry',
 'Tests compose one or two poses with round headings where sign errors cancel.',
 ['ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp','ecl_geometry/include/ecl/geometry/pose2d.hpp','ecl_geometry/src/lib/pose2d.cpp'],
 [m('rotation algebra','LegacyPose2D and Pose2D operators; concatenate_poses, extend_pose')])
prop('C19', 'The distance to a line segment is the true minimum distance',
 'For any segment and any point the reported squared distance is the smallest squared distance from the point to a point of the segment, whatever the orientation of the segment or the side the point lies on.',
 ['inputs'], 'all segments of non-zero length and all points, in real arithmetic',
 'Tests check a few points around two segments; the region tests (before, beside, beyond) depend on every coordinate.',
 ['ecl_geometry/src/lib/linear_segment.cpp','ecl_geometry/include/ecl/geometry/linear_segment.hpp'],
 [m('projection and clamping','LinearSegment::squaredDistanceFromPoint')])
prop('C20', 'Differential drive kinematics are consistent with their inverse',
 'Wheel rates computed for a linear and angular velocity reproduce exactly those velocities through the forward equations, pose updates are the rolled distance along the facing with the wrapped turn, and the base differential of a straight drive recovers its signed length and turn.',
 ['inputs'], 'all wheel radii and axle lengths > 0, all rates, velocities and poses, in real arithmetic',
 'The single test is a program with one configuration that is not built.',
 ['ecl_mobile_robot/src/lib/differential_drive.cpp','ecl_mobile_robot/include/ecl/mobile_robot/kinematics/differential_drive.hpp'],
 [m('forward and inverse maps','DifferentialDriveKinematics')])
prop('C21', 'Command line arguments take exactly the value written for them',
 'A token sets an option only if it is that option\'s flag or name (or, for switches, a combined group of flags that contains it, up to a dash inside the group); the option then holds exactly the value given with the delimiter or in the next token, a switch is toggled and a multi switch counted per occurrence. Every other token leaves the option untouched, and a repeated single option, a missing or malformed value or a value outside its constraint is reported as an error.',
 ['inputs','histories'], 'every flag, name, delimiter and token',
 'The one test parses an empty command line.',
 ['ecl_command_line/include/ecl/command_line/arg.hpp','ecl_command_line/include/ecl/command_line/switch_arg.hpp','ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp','ecl_command_line/include/ecl/command_line/value_arg.hpp','ecl_command_line/include/ecl/command_line/multi_arg.hpp','ecl_command_line/include/ecl/command_line/values_constraint.hpp'],
 [m('token matching','Arg::argMatches, Arg::trimFlag, SwitchArg::combinedSwitchesMatch'), m('processing','processArg overrides')])
prop('C22', 'Required and exclusive command line options are enforced',
 'Parsing succeeds only when every required option was given and exactly one option of each exclusive group was used, and fails otherwise; tokens no option accepts, other than a lone dash, make it fail unless the rest is being ignored. Setting one option of an exclusive group marks the others as unset and unusable.',
 ['inputs','histories'], 'every set of options and groups, every token sequence',
 'The one test parses an empty command line with optional arguments only.',
 ['ecl_command_line/include/ecl/command_line/cmd_line.hpp','ecl_command_line/include/ecl/command_line/xor_handler.hpp'],
 [m('required counting','CmdLine::parse, XorHandler::check')])
prop('C23', 'Badly specified command line options are rejected when defined',
 'Defining an option throws a specification error exactly when its flag is longer than one character or is a reserved character, or its name contains a dash prefix or a space; adding an option whose flag or name is already taken throws. An unlabeled option after an optional unlabeled one is rejected.',
 ['inputs'], 'every flag and name string, every pair of options',
 'Tests define two well-formed options.',
 ['ecl_command_line/include/ecl/command_line/arg.hpp','ecl_command_line/include/ecl/command_line/cmd_line.hpp','ecl_command_line/include/ecl/command_line/optional_unlabeled_tracker.hpp'],
 [m('specification checks','Arg::Arg, Arg::operator==, CmdLine::add, OptionalUnlabeledTracker::check')])
prop('C24', 'Flag sets, parameters and reference wrappers behave as values',
 'Flag sets obey the algebra of bit sets: union, intersection, symmetric difference, complement and their assignment forms act bitwise, and a flag tests as set exactly when the set shares a bit with it (the empty flag exactly when the set is empty). Parameters return the value last stored and reference wrappers always designate the original object.',
 ['inputs','histories'], 'every combination of flag values, every stored value',
 'Tests combine two or three flags.',
 ['ecl_utilities/include/ecl/utilities/flags.hpp','ecl_utilities/include/ecl/utilities/parameter.hpp','ecl_utilities/include/ecl/utilities/references.hpp'],
 [m('bit operators','Flags<Enum>'), m('storage','Parameter<T>, ReferenceWrapper<T>')])
prop('C25', 'Function objects call their target once with the bound arguments',
 'Invoking a function object calls the wrapped free or member function exactly once, on the bound object, with the bound or supplied arguments in order, and returns its result. Copies behave like the original.',
 ['inputs'], 'every argument value and every kind of wrapper',
 'Examples print a few calls and are not asserted.',
 ['ecl_utilities/include/ecl/utilities/function_objects.hpp'],
 [m('call forwarding','operator() of the wrappers, generateFunctionObject')])
prop('C26', 'Sign, cube root, norm and closeness functions match their definitions',
 'The sign functions return -1, 0 or 1 according to the argument with the documented value at zero, the cube root cubed gives back its argument for either sign, and the two-dimensional Euclidean norm squared is the sum of squares. Two floating point values count as close exactly when they differ by no more than the tolerance times the smaller magnitude, two integers exactly when they are equal.',
 ['inputs'], 'every argument of every supported type',
 'Tests evaluate each function at two or three points.',
 ['ecl_math/include/ecl/math/simple.hpp','ecl_math/include/ecl/math/norms.hpp','ecl_math/include/ecl/math/fuzzy.hpp'],
 [m('branches','sign, psign, nsign, cube_root, euclidean_norm, isApprox')])
prop('C27', 'Numeric limits agree with the platform types',
 'For each supported arithmetic type the published minimum, maximum and byte width are exactly those of the type on this platform, and the type predicates classify each type as what it is.',
 ['configurations'], 'every supported type',
 'The tests for it are not built; a wrong constant shows only at the extreme value.',
 ['ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp','ecl_type_traits/include/ecl/type_traits/fundamental_types.hpp','ecl_type_traits/src/lib/numeric_limits.cpp'],
 [m('specialisations','numeric_limits<T>, is_signed, is_unsigned, is_float, is_integral')])
prop('C28', 'Text input streams read exactly the number or word that is there',
 'Reading from a text stream skips blanks and newlines, then yields exactly the integer, boolean, word or character written there and consumes no more than one delimiter. Text that is no such value, or a number too large for the type, is reported as an error instead of a wrong value.',
 ['inputs'], 'every input text and target type',
 'Stream tests are not built and read a few values.',
 ['ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp'],
 [m('character level parsing','getIntegerFromStream, parseHexInteger, skipLeadingWhiteSpace')])
prop('C29', 'Text output reaches the device completely and in order',
 'Everything written to a text stream reaches its device as exactly those characters in order, numbers as their decimal text; buffered devices pass on every byte once, in order, when they fill or are flushed. A device failure is reported and not lost.',
 ['inputs','histories','fault_sequences'], 'every sequence of writes and flushes of any length, every failure of the underlying file',
 'Tests write short texts; buffer-full boundaries and failing devices are not reached.',
 ['ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp','ecl_devices/src/lib/console.cpp','ecl_devices/src/lib/shared_file.cpp','ecl_devices/src/lib/ofile_pos.cpp'],
 [m('write loop around a bounded buffer','OConsole::write, EConsole::write, SharedFile::write, OFile::write')])
prop('C30', 'Signals reach every connected slot exactly once',
 'Emitting a signal calls each slot connected to any of the signal\'s topics exactly once per shared topic with the emitted data, whatever the order of connection. A disconnected or destroyed slot or signal is never called again and disconnecting is always safe.',
 ['histories','schedules'], 'every history of connects, disconnects, copies, destructions and emits, on any number of topics',
 'Tests connect a few signals and slots once.',
 ['ecl_sigslots/include/ecl/sigslots/sigslot.hpp','ecl_sigslots/include/ecl/sigslots/manager.hpp','ecl_sigslots/include/ecl/sigslots/topic.hpp','ecl_sigslots/include/ecl/sigslots/signal.hpp','ecl_sigslots/include/ecl/sigslots/slot.hpp'],
 [m('topic registry','SigSlotsManager, Topic'), m('handle counting','Signal, Slot')])
prop('C31', 'Errors keep their origin and map to the right category',
 'An exception re-thrown through the library keeps its error flag and detail message and gains the outer location, and every system error number left by a file or socket call is translated to the error category documented for that call (an unlisted number to an unknown error); an exception made from it carries the location its caller gave.',
 ['inputs','fault_sequences'], 'every error number, every chain of re-throws',
 'No test provokes the individual system errors.',
 ['ecl_exceptions/src/lib/standard_exception.cpp','ecl_exceptions/include/ecl/exceptions/data_exception.hpp','ecl_devices/src/lib/detail/error_handler.cpp','ecl_devices/src/lib/detail/exception_handler_pos.cpp','ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp','ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp','ecl_exceptions/include/ecl/exceptions/posix_error_handler.hpp'],
 [m('errno switches','open_error, write_error, close_error, ...')])
prop('C32', 'Semaphores and shared memory are released once and time out on time',
 'A timed attempt to take a semaphore waits until exactly now plus the given duration as a valid time, and a semaphore never counts above one through the lock interface. A shared memory section is created by the first user, mapped at the right size by every user and removed only by its creator.',
 ['inputs','histories','fault_sequences'], 'every clock value and duration, every outcome of the system calls',
 'Tests run one happy path and are not built.',
 ['ecl_ipc/src/lib/semaphore_pos.cpp','ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp','ecl_ipc/src/lib/shared_memory_pos.cpp'],
 [m('timeout arithmetic','Semaphore::trylock(Duration)'), m('creator flag','SharedMemoryBase::open, SharedMemory')])
prop('C33', 'Mutexes exclude and threads run their task once under any schedule',
 'At most one thread holds a mutex at a time, and a started thread runs its function exactly once before a join on it returns, under every schedule.',
 ['schedules'], 'every interleaving of any number of threads',
 'Tests run a few schedules by chance.',
 ['ecl_threads/src/lib/mutex_pos.cpp','ecl_threads/src/lib/thread_pos.cpp','ecl_threads/include/ecl/threads/threadable.hpp'],
 [m('pthread wrappers','Mutex, Thread, Threadable')])
prop('C34', 'The covariance ellipse reproduces its covariance matrix',
 'For every symmetric positive definite 2x2 covariance the ellipse axes are orthonormal eigenvectors with the squared lengths as eigenvalues in decreasing order, so that axes and lengths reproduce the matrix; the reported rotation is the angle of the major axis and the reported intercepts are where the ellipse meets the coordinate axes.',
 ['inputs'], 'every symmetric positive definite 2x2 matrix, in real arithmetic',
 'Tests check three matrices.',
 ['ecl_statistics/src/lib/covariance_ellipsoid.cpp','ecl_statistics/include/ecl/statistics/covariance_ellipsoid.hpp'],
 [m('closed form eigen decomposition','CovarianceEllipsoid<Scalar,2>::compute')])
prop('C35', 'Trajectories pass through their waypoints within the limits',
 'A generated joint trajectory starts and ends at the first and last waypoint, visits the others in order at the accumulated durations, keeps position and rate continuous, and never exceeds the maximum accelerations.',
 ['inputs'], 'all waypoints, durations, rates and limits',
 'Tests generate two trajectories.',
 ['ecl_manipulators/src/lib/trajectory.cpp','ecl_manipulators/include/ecl/manipulators/trajectory.hpp','ecl_manipulators/include/ecl/manipulators/waypoint.hpp'],
 [m('spline generation with stretching','Trajectory<JointAngles>')])
