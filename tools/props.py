# The properties, one per entry; see mk.py.
P = []
NA = {}
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {}))))
C, CI = "aslam_cv_common/src/", "aslam_cv_common/include/aslam/common/"
RW = [C + "reader-writer-lock.cc", CI + "reader-writer-lock.h", C + "reader-first-reader-writer-lock.cc", CI + "reader-first-reader-writer-lock.h"]
p("P01", "Reader-writer locks never let a writer share the lock", "While a thread holds a reader-writer lock for writing, no other thread holds it for reading or writing, and what a writer changed is visible to whoever gets the lock next. This holds for the writer-preferring and the reader-first lock, however the calls of any number of threads interleave.",
  "schedules histories", "all interleavings of reading and writing threads", "The fixture runs a few threads under the operating system's schedule and sees one interleaving per run; a window of a few instructions between two lock operations is practically never hit.", RW,
  [("counters and flags guarded by one mutex, waited for with two condition variables", "reader-writer-lock.cc acquireReadLock/acquireWriteLock"), ("re-check of both conditions after waiting", "reader-first-reader-writer-lock.cc acquireWriteLock")])
p("P02", "A lock upgrade is atomic and at most one of several upgrades wins", "If a thread holding a read lock upgrades it successfully, no other writer has had the lock between its read and the upgraded write lock. Of several threads upgrading at the same time at least one succeeds, one that fails has given up its read lock and blocks nobody, and an upgrade nobody competes with succeeds.",
  "schedules histories", "all interleavings of threads that read, write and upgrade", "Upgrades collide only in rare interleavings; the test retries until it succeeds and cannot see a lost update caused by a writer slipping in between.", RW,
  [("pending-upgrade flag excludes new readers and writers while the remaining readers leave", "reader-writer-lock.cc upgradeToWriteLock"), ("a second upgrader gives up its read lock", "reader-writer-lock.cc upgradeToWriteLock")])
p("P03", "Lock requests are never forgotten and usage is reported truthfully", "If every holder eventually releases the lock, every request to read, write or upgrade is eventually granted: no wake-up is lost. Readers do not wait for readers, a waiting writer keeps new readers out of the writer-preferring lock but not out of the reader-first lock, and the lock reports being in use as long as anybody holds it or waits for it, and not when everybody is done.",
  "schedules histories", "all interleavings of threads that read, write, upgrade and query", "A lost wake-up needs a notification in the instant between checking a condition and waiting for it; a test that does not hang proves nothing about the schedules it did not see.", RW,
  [("notification when the last reader leaves, or the last but one during an upgrade", "reader-writer-lock.cc releaseReadLock"), ("notification of all waiting threads when a writer leaves", "reader-writer-lock.cc releaseWriteLock"), ("counts of waiting threads", "isInUse")])
TPF = [C + "thread-pool.cc", CI + "thread-pool.h"]
p("P04", "The thread pool runs every accepted task exactly once and delivers its result", "Every task accepted by the thread pool runs exactly once, also when the pool is stopped or destroyed right afterwards, and its result or exception arrives in the future the caller got. Work offered after the pool was stopped is rejected with an invalid future and never runs, and destroying the pool always terminates.",
  "schedules histories", "all interleavings of clients, workers and shutdown; arbitrary task arguments", "The tests use sleeping tasks and a handful of workers; loss or duplication of a task needs a particular interleaving of enqueueing, finishing and shutting down.", TPF,
  [("task queue guarded by one mutex, one condition variable for all changes", "thread-pool.cc run"), ("workers only leave when stopped and the queue is empty", "thread-pool.cc run"), ("packaged task per call", "thread-pool.h enqueueOrdered")])
p("P05", "Tasks of one group run one at a time in order and hold up nobody else", "Tasks enqueued with the same group identifier never run at the same time and run in the order in which they were enqueued. Tasks of other groups and tasks without a group are not held up by a busy group: a task that may run does run while a worker is free.",
  "schedules histories", "all interleavings of workers and clients, all assignments of tasks to groups", "Order violations need two workers to pick tasks at the same moment; the tests use random sleeps and observe one schedule.", TPF,
  [("guard per group, taken while a task of the group runs", "thread-pool.cc run"), ("queue scanned from the front", "thread-pool.cc run")])
p("P06", "Waiting for an empty queue returns exactly when all work is done", "Waiting for the pool to drain returns only when every task enqueued before, including tasks those tasks enqueued, has finished and its effects are visible. It always returns once that is the case, however many threads wait or enqueue at the same time.",
  "schedules histories", "all interleavings of waiting threads, clients and workers", "The window between taking the last task off the queue and counting its worker as active, or a wake-up delivered to the wrong thread, is not hit by a test with sleeping tasks.", TPF,
  [("count of active workers changed under the queue mutex", "thread-pool.cc run"), ("notification of everybody after each task and each insertion", "thread-pool.cc run, thread-pool.h enqueueOrdered")])
IDF = [CI + "hash-id.h", CI + "unique-id.h", CI + "internal/unique-id.h", C + "hash-id.cc", C + "internal/unique-id.cc"]
p("P07", "Identifiers survive text and message round trips unchanged", "Writing a 128-bit identifier as hexadecimal text or into a message and reading it back gives the same identifier, upper and lower case digits alike, and different identifiers have different texts. Text of the wrong length and messages with the wrong number of words are refused and leave the identifier as it was.",
  "inputs", "all 2^128 identifiers, all strings up to 40 digits", "The tests round-trip random identifiers; an error in one bit position or one digit pattern is missed with high probability.", IDF,
  [("hexadecimal conversion byte by byte", "hash-id.h hexString/fromHexString"), ("two-word message", "unique-id.h serialize/deserialize")])
p("P08", "Identifier order, equality and hashing agree", "Identifiers are totally ordered by a strict order that agrees with equality and with their textual form; equal identifiers, and pairs of them, have equal hashes. An identifier is valid exactly if it differs from the default one.",
  "inputs", "all pairs and triples of 128-bit identifiers", "Tests compare a few random identifiers, for which the first word almost always decides; ties in the first word are never seen.", IDF,
  [("lexicographic comparison of the two words", "hash-id.h operator<"), ("hash of both words", "hash-id.h, unique-id.h std::hash")])
p("P09", "Generated identifiers are valid and distinct", "Identifiers generated in one process, by any threads and whatever the clock shows, are valid and pairwise distinct. Identifiers made from integers are valid for positive integers, different for different integers, and spell the integer in decimal.",
  "inputs schedules", "arbitrary clock values, interleavings of generating threads, all 32-bit integers", "A collision needs equal clock readings or two threads in the same instant; tests generate a few identifiers in a row.", IDF,
  [("process-wide atomic counter in one of the words", "internal/unique-id.cc"), ("decimal digits as hexadecimal text", "unique-id.h generateIdFromInt")])
p("P10", "Times convert between units and to text without error", "A timestamp converts to seconds, milliseconds and microseconds with one correct rounding, a time in one of those units converts to the whole nanoseconds it contains, and whole numbers of a unit survive the round trip. The text of a timestamp, negative ones included, shows whole seconds and the remaining nine digits of nanoseconds, or only nanoseconds below one second's worth of digits. Exactly one timestamp, the invalid one, counts as invalid.",
  "inputs", "all 64-bit timestamps, all doubles that do not overflow", "The tests convert a handful of values with tolerances; precision loss for large timestamps or odd text for particular lengths and signs is not sampled.", [CI + "time.h"],
  [("unit factors as template traits", "time.h internal::time_traits"), ("text split nine digits from the end", "time.h timeNanosecondsToString")])
DF = [CI + "hamming.h", CI + "hamming-inl.h", CI + "feature-descriptor-ref.h", CI + "feature-descriptor-ref-inl.h", CI + "descriptor-utils.h"]
p("P11", "The Hamming distance counts exactly the differing bits", "The distance between two binary descriptors of equal size, in whole 16-byte words, is the number of bits in which they differ, whatever their content and through whichever entry point it is asked for. Descriptors of different sizes are refused.",
  "inputs", "all contents of two descriptors, sizes up to 496 bytes", "Tests compare a few descriptors; an error in one entry of the lookup table or in one lane of the vector code shows only for particular bytes.", DF,
  [("population count by nibble table lookup and horizontal sums", "hamming-inl.h SSSE3PopcntofXORed"), ("equal-size check", "feature-descriptor-ref.h GetNumBitsDifferent")])
p("P12", "Descriptor views and owners neither mix up bits nor memory", "Setting, flipping or reading a bit of a descriptor touches that bit and no other, positions outside are refused, and flipping n random bits changes exactly n. A view refers to the caller's memory, a descriptor that owns its bytes keeps its own copy through copying and assignment, equality means equal bytes, and memory is released exactly once.",
  "inputs histories", "all contents and positions; all short sequences of copying, assigning, allocating and releasing", "Ownership errors need particular sequences of copies between owners and views, and show as corruption only later.", DF,
  [("ownership flag decides between copying bytes and sharing the pointer", "feature-descriptor-ref-inl.h operator=, copy constructor"), ("byte and bit index from the position", "feature-descriptor-ref.h SetBit/GetBit/FlipBit, descriptor-utils.h getBit/setBit")])
p("P13", "Means and deviations of binary descriptors are what they say", "A bit of the binary mean is set exactly if it is set in more than half of the descriptors, the fractional mean is the fraction per bit, and the descriptor closest to the median has the smallest total distance to all others. Mean absolute deviation and standard deviation are the average distance to the binary mean and the root of the average squared difference to the fractional mean.",
  "inputs", "all contents of small sets of descriptors", "The tests use three descriptors that differ in three bits; ties, even counts and other bit positions are not covered.", DF,
  [("bit sums compared with half the number of descriptors", "descriptor-utils.h descriptorMeanRoundedToBinaryValue, feature-descriptor-ref-inl.h DescriptorMean"), ("sums of the columns of the distance matrix", "descriptor-utils.h getIndexOfDescriptorClosestToMedian")])
CHF = [CI + "channel-serialization.h", CI + "channel.h", CI + "channel-declaration.h", C + "channel-serialization.cc", C + "channel.cc"]
p("P15", "What is written to a channel's text or buffer is read back identically", "Matrices, lists of matrices, images of every element type and integers come back from either serialised form with the same size, type and content, whatever the reading channel held before, and nothing is leaked. Different contents are written differently. Floating-point numbers keep their bits in a binary buffer.",
  "inputs", "all contents of small matrices, lists and images; integers in windows around the ends of the types and powers of ten", "No test serialises a channel; a size swapped, an offset off by one element or a type confused shows only for particular shapes.", CHF,
  [("header of rows, columns, element type and channels", "channel-serialization.cc HeaderInformation"), ("sizes and offsets accumulated per matrix", "channel-serialization.h serializeToString/deSerializeFromBuffer for lists")])
p("P16", "Malformed channel data is refused without touching foreign memory", "A reader given any bytes either refuses them or has read exactly all of them: data that is too short or too long, announces another element type, impossible sizes or numbers of channels, or more matrices than there are, is refused. No byte outside the buffer is read and none outside the result is written. Well-formed data is accepted.",
  "inputs", "all contents of short buffers with small or extreme announced sizes", "Malformed data is an adversarial input space; the tests contain none.", CHF,
  [("size checks before and after reading a header", "channel-serialization.h deSerializeFromBuffer, channel-serialization.cc deSerializeTypedFromBuffer")])
p("P17", "Channel groups behave like a map of independent channels", "A channel is there exactly if it was added and not removed, holds what was last written to it, and is accessible only with its own type; adding twice and accessing or removing a missing one is refused. A clone equals its original and is independent of it, and groups are equal exactly if they have the same channels with the same content. Threads may add, remove, look up, clone and compare at the same time, without corruption or deadlock.",
  "inputs histories schedules", "all short sequences of operations, all contents, all interleavings of two threads", "No test touches channel groups; independence of clones and lock order need specific sequences or schedules.", CHF,
  [("mutex of the group held for each access", "channel-declaration.h, channel.h ChannelGroup"), ("clone of each channel value", "channel.h ChannelValueCloner, channel.cc cloneChannelGroup")])
CI = ["aslam_cv_common/include/aslam/common/"]
p("P18", "Erasing positions keeps exactly the other elements, in order", "Erasing a set of distinct positions from a list, or from the rows or columns of a matrix, leaves exactly the elements at the other positions, in their original order and unchanged; erasing nothing changes nothing. Positions outside the data and a wrong expected number of elements are refused.",
  "inputs", "all sets of positions (any order for lists) and all contents up to the stated sizes", "The tests erase a few fixed positions; block boundaries, empty sets and adjacent positions are where such code breaks.",
  ["aslam_cv_common/include/aslam/common/stl-helpers.h", "aslam_cv_common/include/aslam/common/stl-helpers-inl.h"], [("block-wise copies between sorted positions", "stl-helpers.h eraseIndicesFromVector, stl-helpers-inl.h eraseIndicesFromContainer")])
p("P19", "Median, mean, deviation, selection and drawing follow their definitions", "The median of an odd number of values is the middle one, of an even number halfway between the middle two; mean and standard deviation are those of all values; no values at all are refused. Keeping the best n elements keeps n elements none of which is beaten by a removed one, and every removed one is reported once. Drawing n random elements gives n elements from different positions, the same ones for a fixed seed, and flattening keeps every column.",
  "inputs", "all values and orders, all limits, all random numbers, up to the stated sizes", "The tests use one list each; ties, limits at the size and unlucky random numbers are not reached.",
  ["aslam_cv_common/include/aslam/common/stl-helpers.h"], [("nth_element twice for an even number", "stl-helpers.h median"), ("partial sort and cut", "stl-helpers.h keepOnlyNSortedElements"), ("set of drawn positions", "stl-helpers.h drawNRandomElements")])
p("P20", "The occupancy grid holds the right points in the right cells", "Every position inside the area belongs to exactly one cell, positions outside are refused, and the number of points always agrees with the points held. Adding to a full cell replaces its weakest point only by a stronger one; adding with a minimum distance leaves exactly the strongest of the conflicting points and touches no other. Thinning removes the weakest points of too full cells or of the fullest cells, until exactly the wanted limit is met.",
  "inputs histories", "all positions and weights, all limits, short sequences of operations", "The test for the grid is not built here and uses a handful of points; ties, borders between cells and limits of zero or one are missed.",
  ["aslam_cv_common/include/aslam/common/occupancy-grid.h", "aslam_cv_common/include/aslam/common/occupancy-grid-inl.h"], [("cell index from position", "occupancy-grid-inl.h inputToGridCoordinates"), ("count kept next to the cells", "occupancy-grid-inl.h current_num_points_"), ("conflicts among neighbouring cells", "occupancy-grid-inl.h addPointOrReplaceWeakestNearestPoints")])
p("P21", "Accumulated statistics are those of the samples", "Count, sum, mean and extremes are those of all samples added; the rolling mean, the variance and the deviation are those of the most recent samples that fit the window, whatever has been added before.",
  "inputs histories", "all sequences of sample values up to the stated length", "No test covers the window; errors appear only once it wraps around.",
  ["aslam_cv_common/include/aslam/common/statistics/accumulator.h"], [("ring buffer and running window sum", "accumulator.h Add"), ("variance over the window", "accumulator.h LazyVariance")])
p("P22", "Statistics and timers record every measurement under its own name", "A name keeps its handle until a reset, different names have different handles, and after a reset a name starts empty. Every sample, and every measurement of a timer that was started and stopped or destroyed (never a discarded one), is recorded exactly once under its name, from any number of threads. Reports may be produced at any time, also while other threads record, and list every name once with its number of samples.",
  "histories schedules inputs", "short sequences of operations, all values and clocks, all interleavings of two threads", "No test covers the registries; mixing up names, resets and concurrent reports need specific histories or schedules.",
  ["aslam_cv_common/src/statistics.cc", "aslam_cv_common/include/aslam/common/statistics/statistics.h", "aslam_cv_common/src/timer.cc", "aslam_cv_common/include/aslam/common/timer.h"], [("name to handle map and list of collectors", "statistics.cc GetHandle, timer.cc GetHandle"), ("mutex around each access", "statistics.cc, timer.cc"), ("running flag of a timer", "timer.cc Start, Stop, Discard, ~TimerImpl")])
CAM = "aslam_cv_cameras/"
DISTF = [CAM + x for m in ("", "-radtan", "-equidistant", "-fisheye") for x in ("src/distortion%s.cc" % m, "include/aslam/cameras/distortion%s.h" % m)]
p("P23", "Distortion derivatives are those of the distortion", "For every lens distortion model, at every point including the image centre, the derivative reported with respect to the point is that of the distortion itself, and the one reported with respect to the parameters is that of the distortion with these parameters, with one column per parameter. Without given parameters the model's own are used.",
  "inputs", "all points within the stated range and all coefficients", "The tests compare with finite differences at a few points; special cases around the centre and single coefficients are missed.", DISTF + [CAM + "include/aslam/cameras/distortion-null.h"],
  [("hand-written derivative expressions", "distortion-radtan.cc, distortion-equidistant.cc, distortion-fisheye.cc distortUsingExternalCoefficients, distortParameterJacobian"), ("special case around the centre", "distortion-equidistant.cc r < 1e-10, distortion-fisheye.cc r_u * r_u < 1e-5")])
p("P24", "Undistorting inverts the distortion", "For the fisheye model undistorting a distorted point gives the point back, and the other way round, up to an angle of 89 degrees. For the other models each step solves the linearised distortion for the input, steps go on until the error of a step was within the tolerance and no further, and a point that already solves the equation is returned. All ways of undistorting a point agree.",
  "inputs histories", "all points within the stated range, all coefficients for one step, all tolerances for two steps", "The tests undistort a few points with the default tolerance; a wrong step or stopping rule still converges there.", DISTF,
  [("closed form with tangent and arcus tangent", "distortion-fisheye.cc undistortUsingExternalCoefficients"), ("Newton iteration with stopping rule", "distortion-radtan.cc, distortion-equidistant.cc undistortUsingExternalCoefficients")])
p("P25", "Distortion models are the published ones, whichever way they are called", "Every model distorts as published, zero coefficients leave a point unchanged (equidistant: the radius becomes the angle), and all call forms give the same result, with internal or given coefficients, in place or not, with or without derivative. Exactly the parameters a model can use are accepted; copies are equal and independent, and two models are equal exactly if they are of the same kind and have the same parameters.",
  "inputs", "all points within the stated range, all coefficients, all doubles as parameters", "The tests use one set of coefficients per model; a wrong coefficient order or an overload that differs is not seen.", DISTF + [CAM + "include/aslam/cameras/distortion-fisheye-inl.h", CAM + "include/aslam/cameras/distortion-null.h", "aslam_cv_common/include/aslam/common/crtp-clone.h"],
  [("model expressions", "distortion-radtan.cc, distortion-equidistant.cc, distortion-fisheye.cc distortUsingExternalCoefficients"), ("dispatch of the convenience forms", "distortion.cc distort, undistort, setParameters, operator==")])
CAL = "aslam_cv_calibration/"
p("P37", "Calibration targets pair every observed corner with its point", "The points of a target are numbered row by row; index, row and column lead to the same point, those outside the target are refused, and a target is made only of as many points as its grid has. An observed corner is found by its id, exactly where it was observed, and is paired with the target point of that id; every other corner of the target is reported as not observed, and ids not on the target are refused. Grid positions of an index are given as (column, row).",
  "inputs", "all small grids, all points, all 64-bit indices, all sets of observed corners", "No test is built for targets; partial observations and indices at the border are missed.",
  [CAL + "src/target-base.cc", CAL + "include/aslam/calibration/target-base.h", CAL + "include/aslam/calibration/target-observation.h"],
  [("row-major numbering", "target-base.h gridCoordinatesToPoint, pointToGridCoordinates"), ("bounds checks", "target-base.h, target-observation.h CHECK_LT"), ("search for the corner id", "target-observation.h observedCornerId, getObservedCornerById, getCorrespondingTargetPoints")])
DET = "aslam_cv_detector/"
p("P39", "Fast explicit diffusion steps add up to the diffusion time", "For every diffusion time the steps of a cycle are positive, add up to the time of the cycle, and are as few as the stability bound allows. Reordering the steps for numerical stability uses every step exactly once, for any number of steps. A number is taken for prime exactly if it has no divisor other than one and itself.",
  "inputs", "all times and maximum steps, all numbers of steps up to the stated bound, the stated ranges of integers", "No test covers the detector; a wrong permutation or count shows only for particular numbers of steps.",
  [DET + "src/kaze/fed.cpp", DET + "include/kaze/fed.h"], [("number of steps from the time", "fed.cpp fed_tau_by_cycle_time"), ("permutation modulo a prime", "fed.cpp fed_tau_internal"), ("trial division", "fed.cpp fed_is_prime_internal")])
KZ = [DET + "src/kaze/KAZE.cpp", DET + "src/kaze/nldiffusion_functions.cpp", DET + "include/kaze/KAZE.h", DET + "include/kaze/nldiffusion_functions.h"]
p("P40", "Nonlinear diffusion moves brightness between neighbours and keeps its sum", "An explicit step changes every pixel by the flow from its neighbours inside the image, taken from the values before the step, weighted with the conductivities between them. An implicit step is the mean of the solutions of the implicit equations along the rows and along the columns, for images of any shape. Neither creates nor destroys brightness, and the conductivities are those of the chosen model, one where the image is flat.",
  "inputs", "all images and conductivities of the stated sizes, all step sizes", "No test covers the detector; borders, corners and images that are not square are where such code breaks.", KZ,
  [("flows to the four neighbours with special cases at the borders", "nldiffusion_functions.cpp nld_step_scalar"), ("tridiagonal systems for rows and columns", "KAZE.cpp AOS_Rows, AOS_Columns, Thomas"), ("conductivity models", "nldiffusion_functions.cpp pm_g1, pm_g2, weickert_diffusivity, charbonnier_diffusivity")])
p("P43", "Keypoints are exactly the refined maxima of the response", "The response is the scale-normalised determinant of the second derivatives, and the derivative of a plane is its slope. A keypoint is found exactly where the response exceeds the threshold and no neighbour in space and scale exceeds it; of two closer than their scale the stronger is kept; it is moved by the solution of the Newton equations around it and dropped exactly if that leaves its pixel or level, and the contrast is the smallest histogram step below which the wanted share of gradients lies.",
  "inputs", "all responses in neighbourhoods of the stated sizes, all thresholds, shifts and gradients", "No test covers the detector; equal neighbours, borders and a swapped mixed derivative do not show on an ordinary image.", KZ,
  [("comparison with 26 neighbours", "KAZE.cpp Find_Extremum_Threading, nldiffusion_functions.cpp check_maximum_neighbourhood"), ("suppression of repeated points", "KAZE.cpp Determinant_Hessian_Parallel"), ("finite differences around the keypoint", "KAZE.cpp Do_Subpixel_Refinement"), ("histogram percentile", "nldiffusion_functions.cpp compute_k_percentile")])

CAM = ["aslam_cv_cameras/src/camera.cc", "aslam_cv_cameras/src/camera-pinhole.cc", "aslam_cv_cameras/src/camera-unified-projection.cc", "aslam_cv_cameras/include/aslam/cameras/camera.h", "aslam_cv_cameras/include/aslam/cameras/camera-inl.h", "aslam_cv_cameras/include/aslam/cameras/camera-pinhole-inl.h"]
p("P26", "Cameras project, judge and back-project points by their published models", "A pinhole or unified camera maps a point to its distorted image scaled by the focal lengths and moved to the centre, and reports visible exactly if that lies within the image and the point can be seen, otherwise why not. Every way to ask (internal or external parameters, with or without derivatives, generic, homogeneous, many at once) gives the same answer. Back-projecting a keypoint gives the ray whose projection is the keypoint.",
  "inputs", "all points, keypoints, intrinsics and distortion coefficients within the stated ranges", "Tests use random points of one camera; points behind the camera, at the edge of the image, of a strongly curved mirror or asked for through another overload can go wrong unnoticed.", CAM,
  [("projection", "camera-pinhole.cc / camera-unified-projection.cc project3Functional, camera-pinhole-inl.h"), ("what is reported", "evaluateProjectionResult, isKeypointVisible"), ("back-projection", "backProject3, isUndistortedKeypointValid"), ("overloads", "camera.cc project3, project4, project3Vectorized, backProject3Vectorized")])
p("P27", "Camera Jacobians are the derivatives of the projection", "The Jacobians that a projection returns are its partial derivatives with respect to the point, the homogeneous point, the intrinsic parameters and the distortion coefficients, with one column for each, whichever of them are asked for.",
  "inputs", "all points, intrinsics and distortion coefficients within the stated ranges where the projection is valid", "Numerical tests compare at a few random points with coarse tolerances; a wrong term for one sign, one model or one parameter passes.", CAM,
  [("chain rule", "camera-pinhole.cc / camera-unified-projection.cc project3Functional"), ("homogeneous points", "camera.cc project4")])
CAMS = "aslam_cv_cameras/"
p("P28", "A camera of a rig is found under its index and its id, with its pose", "In every rig each camera is found under its index and under its id, together with its own pose; an id no camera of the rig has finds none, and wrong indices are refused. This stays so when cameras or poses are replaced and in every kind of copy: copies have cameras of their own, those with new ids never reuse one, and the copy without distortion has none. Rigs are equal exactly if their ids, cameras and poses are, and a rig is made only of as many poses as cameras.",
  "histories inputs", "all sequences of the stated length of replacements and copies, all indices", "The tests build a rig once and look up its cameras; tables that fall out of step after a replacement or in one kind of copy are not noticed.",
  [CAMS + "src/ncamera.cc", CAMS + "include/aslam/cameras/ncamera.h", CAMS + "src/camera.cc"],
  [("table from id to index", "ncamera.cc initInternal, setCamera, getCameraIndex"), ("kinds of copies", "ncamera.cc copy constructor, clone, cloneWithNewIds, cloneRigWithoutDistortion"), ("comparison", "ncamera.cc isEqualImpl")])
p("P29", "Masks, delays, comparison and creation of a camera follow its data", "A keypoint is masked exactly if it lies outside the image or on a zero pixel of the mask, and a mask must have the size of the image. The delay of a keypoint of a rolling shutter camera is that of its row. Exactly the parameters that a model can use are accepted, a camera is created with what was asked for or not at all, and two cameras are equal exactly if their identity, model, size, delay, compression and distortion are and their parameters are up to rounding.",
  "inputs", "all masks of the stated size, all keypoints, delays, sizes and parameters", "Tests look at a few pixels and a few parameters; the edge of the image, the pixel at the border of a mask and the one parameter not compared are not among them.",
  CAM + [CAMS + "src/camera-factory.cc"],
  [("mask", "camera.cc setMask, isMasked"), ("delay", "camera.h rollingShutterDelayNanoSeconds"), ("valid parameters", "camera-pinhole.cc / camera-unified-projection.cc areParametersValid"), ("creation", "camera-factory.cc createCamera")])
FRM = ["aslam_cv_frames/src/visual-frame.cc", "aslam_cv_frames/include/aslam/frames/visual-frame.h"]
p("P30", "A frame keeps every keypoint's data together and apart by type", "What is set or swapped into a frame is what comes out, as a whole and one by one, and no other data; indices that are not there are refused. Keypoints of several types lie one after the other: asking for a type gives exactly its own data, with the default where some was not given. Discarding untracked keypoints removes exactly those, with all their data; a cleared frame has none; copies are equal and independent; bearing vectors and raw image coordinates are those of the keypoints asked for.",
  "inputs histories", "all values, all 64-bit indices, all small numbers of keypoints and types, every choice of data present", "The frames tests are not built here, and use one type of keypoint with all data; a table that is not shortened with the others shows only with the rarer ones.", FRM + ["aslam_cv_common/include/aslam/common/channel-declaration.h", "aslam_cv_common/include/aslam/common/stl-helpers-inl.h"],
  [("channels by name", "visual-frame.cc get*, set*, swap*"), ("blocks by descriptor type", "visual-frame.cc extend*, getDescriptorBlockTypeStartAndSize, get*OfType"), ("erasing by index", "visual-frame.cc discardUntrackedObservations"), ("back-projection", "visual-frame.cc getNormalizedBearingVectors, toRawImageCoordinates")])
p("P31", "A rig of frames holds the right frame of every camera", "Each place of a rig of frames holds what was last set there; only frames of the camera of that place are taken, and frames get the cameras of a new rig. Copies have frames of their own and equal the original, also when assigned to itself; the earliest and latest time are those of the frames that are set, and rigs of frames are equal exactly if their identity, cameras and frames are. An observation on a feature track leads to its keypoint, and the box of a track encloses all observations.",
  "histories inputs", "all sequences of the stated length of operations, all indices and times, all keypoints", "The tests set each frame once; unset places, self-assignment and foreign cameras are not tried.",
  ["aslam_cv_frames/src/visual-nframe.cc", "aslam_cv_frames/include/aslam/frames/visual-nframe.h", "aslam_cv_frames/include/aslam/frames/feature-track.h", "aslam_cv_frames/include/aslam/frames/keypoint-identifier.h"],
  [("one slot for each camera", "visual-nframe.cc setFrame, unSetFrame, setNCameras"), ("copying and comparison", "visual-nframe.cc operator=, operator=="), ("extreme times", "visual-nframe.cc getMinTimestampNanoseconds, getMaxTimestampNanoseconds"), ("bounding box", "feature-track.h getDiagonalSqOfDisparityBoundingBox")])
