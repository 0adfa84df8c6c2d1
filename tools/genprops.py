import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=hook))
    assert len(title)<=80,(id,len(title)); P.append(d)
I='include/small_gicp/'
p('C01','Parallel registration reductions equal the serial sum under every schedule',
 'For every thread schedule, team size and task-splitting decision, linearizing or evaluating the point factors with the OpenMP or TBB reduction yields the same linear system (H, b, e) and the same total error as the serial reduction, up to floating-point summation order. Every factor is linearized and evaluated exactly once with its own source index, factors rejected by the correspondence test contribute nothing, and no data race occurs.',
 ['schedules','inputs','configurations'],'all interleavings / chunk-to-thread assignments / steal decisions within the stated bound, factor counts around every grain size, num_threads from 1 to more than the number of points, delivered team smaller than requested',
 'Tests run one lucky schedule per configuration on one cloud pair and only compare the final pose within a loose tolerance; a lost or doubled contribution of a few factors is invisible there.',
 [I+'registration/reduction_omp.hpp',I+'registration/reduction_tbb.hpp',I+'registration/reduction.hpp'],
 [('per-thread accumulators indexed by thread number, merged after the loop',I+'registration/reduction_omp.hpp'),('splitting body + join of parallel_reduce',I+'registration/reduction_tbb.hpp')],
 [('accumulators','partial H, b, e of one thread/body',I+'registration/reduction_*.hpp')],['return value of linearize()/error() of each reduction'])
p('C02','Parallel k-d tree construction answers exactly like brute force in any schedule',
 'For every schedule of the OpenMP and TBB builders, and for every cloud, leaf size and thread count, the constructed tree indexes every input point exactly once and its nearest-neighbour queries return exactly the distances a brute-force scan returns. Construction is free of data races and never writes outside the tree.',
 ['schedules','inputs','configurations'],'all task interleavings and steal decisions up to the preemption bound, cloud sizes around the task threshold, leaf sizes 1..N, 1..4 threads',
 'Existing tests build once per backend with the default schedule; node-slot allocation and subtree hand-over between tasks are only wrong in particular interleavings.',
 [I+'ann/kdtree_omp.hpp',I+'ann/kdtree_tbb.hpp',I+'ann/kdtree.hpp'],
 [('atomic node counter hands out node slots',I+'ann/kdtree_omp.hpp'),('tasks joined before the parent returns',I+'ann/kdtree_omp.hpp'),('parallel_invoke above the size threshold',I+'ann/kdtree_tbb.hpp')],
 [('nodes/indices','shared node array and point permutation',I+'ann/kdtree.hpp')],['knn_search/nearest_neighbor_search results'])
p('C03','Parallel voxel downsampling accounts for every point in every schedule',
 'For every schedule of the OpenMP and TBB voxel-grid downsampling, each output point is the exact mean of a set of input points lying in one voxel, and every valid input point contributes to exactly one output point, so nothing is lost, duplicated or mixed across voxels. The output has at least one point per occupied voxel and at most one more per internal processing block (of some hundreds of points or more) than the serial version (so at most about 10% more on normal inputs), and points outside the 21-bit voxel range contribute nothing; no data race occurs.',
 ['schedules','inputs'],'all chunk-to-thread assignments and interleavings within the bound; cloud sizes straddling the block sizes; clouds whose voxels straddle block borders; out-of-range points',
 'Tests compare only the output size with the serial result within 10% tolerance, for a single schedule; lost, doubled or torn points pass.',
 [I+'util/downsampling_omp.hpp',I+'util/downsampling_tbb.hpp'],
 [('atomic fetch_add reserves output slots per block',I+'util/downsampling_omp.hpp'),('voxel key sort then block-wise sum',I+'util/downsampling_tbb.hpp')],
 [('num_points','output cursor shared by blocks',I+'util/downsampling_omp.hpp')],['returned point cloud'])
p('C04','Parallel sorts return a sorted permutation of their input in every schedule',
 'For every schedule, every input order, duplicate structure and length, the OpenMP merge sort, OpenMP quick sort and TBB radix sort leave the range holding exactly the input multiset, ordered by the comparator or key when the call returns; the radix sort also keeps equal keys in input order. No element outside the range is touched and no data race occurs.',
 ['schedules','inputs'],'all task interleavings within the bound; all short inputs over a small alphabet; lengths around every sequential threshold and tile size; 1..4 threads; reused scratch buffers',
 'Tests sort random arrays once with the ambient schedule; task joining mistakes and threshold off-by-ones show only for particular sizes and interleavings.',
 [I+'util/sort_omp.hpp',I+'util/sort_tbb.hpp'],
 [('taskwait before merging',I+'util/sort_omp.hpp'),('implicit barrier of the parallel region completes all tasks',I+'util/sort_omp.hpp'),('tile histogram / prefix offsets / scatter',I+'util/sort_tbb.hpp')],None,['sorted range contents'])
p('C05','Parallel normal and covariance estimation equals the serial result',
 'For every schedule, thread count and cloud size, the OpenMP and TBB normal, covariance and combined estimators assign every point of the cloud the same attributes as the serial estimator, each point being processed exactly once with its own neighbourhood. No data race occurs and the point coordinates are not modified.',
 ['schedules','inputs','configurations'],'all chunk/steal assignments and interleavings within the bound; sizes 0..N incl. fewer points than threads; each of the entry points with and without a user supplied tree',
 'Tests check one random cloud with one schedule; missing tails, skipped chunks or shared scratch data depend on size, thread count and interleaving.',
 [I+'util/normal_estimation_omp.hpp',I+'util/normal_estimation_tbb.hpp',I+'util/normal_estimation.hpp'],
 [('independent per-point work in parallel loops',I+'util/normal_estimation_omp.hpp'),('blocked_range body',I+'util/normal_estimation_tbb.hpp')],None,['normals and covariances of the cloud after the call'])
p('C06','Concurrent read-only use of shared objects is race-free and isolated',
 'Several threads may at the same time query one k-d tree, voxel map or point cloud and run alignments through one shared registration object against shared inputs, and each call returns exactly what it returns when run alone. The concurrent calls do not race with each other and leave the shared objects unchanged.',
 ['schedules','configurations'],'all interleavings within the preemption bound of 2-3 threads performing const operations (searches, alignments with the serial and parallel reductions, normal estimation on distinct clouds with a shared tree) on the same objects',
 'No existing test uses the library from more than one user thread.',
 [I+'ann/kdtree.hpp',I+'ann/incremental_voxelmap.hpp',I+'registration/registration.hpp',I+'registration/optimizer.hpp'],
 [('const methods keep per-call state on the stack',I+'ann/kdtree.hpp'),('factors vector created per align call',I+'registration/registration.hpp')],None,['search results, registration results'])
p('C07','k-d tree nearest-neighbour search is exact',
 'For every non-empty cloud, query, number of neighbours k and builder setting, a k-nearest search returns min(k, N) distinct points whose reported squared distances are their true distances to the query, sorted in ascending order and equal to the k smallest of a brute-force scan; unused result slots are reported as not found. A non-zero early-termination threshold may only be exploited to stop once the k results found all lie closer than the threshold, and every result returned is still a true point with its true distance.',
 ['inputs','configurations'],'all small clouds over a coordinate lattice (duplicates, collinear, coplanar included) x lattice and off-lattice queries x k from 1 beyond N x leaf sizes x axis-aligned/PCA projection x static/dynamic k entry points x threshold settings; larger structured clouds',
 'Tests use random clouds where ties, duplicates, empty subtrees, degenerate splits and queries on the splitting plane practically never occur.',
 [I+'ann/kdtree.hpp',I+'ann/knn_result.hpp',I+'ann/projection.hpp'],
 [('branch-and-bound descent with plane distance pruning',I+'ann/kdtree.hpp'),('sorted bounded result buffer',I+'ann/knn_result.hpp'),('split axis selection',I+'ann/projection.hpp')],None,['indices, squared distances and count returned by the search'])
p('C08','Incremental voxel map follows its insertion and eviction rules for every history',
 'After any sequence of insertions with any poses, the map holds exactly one entry per voxel that has been touched and not evicted; a Gaussian voxel summarises exactly all points inserted since its creation (mean and mean covariance), and a point-storing voxel holds exactly the points that the cell limit and minimum-distance rule admit, with their attributes transformed by the pose. Voxels not touched by an insertion for more than the eviction horizon are removed at the periodic sweep, all others stay, and lookup by global index always returns the element that iteration and search report.',
 ['histories','inputs','configurations'],'all insertion histories up to the depth bound over a small alphabet of clouds (incl. empty, points on voxel borders, negative coordinates) and poses x LRU horizon/cycle x cell limits x minimum distances',
 'Tests insert one or two clouds and only compare search results with a k-d tree; eviction and finalisation state never comes into play.',
 [I+'ann/incremental_voxelmap.hpp',I+'ann/gaussian_voxelmap.hpp',I+'ann/flat_container.hpp'],
 [('lru counter / periodic erase / index map rebuild',I+'ann/incremental_voxelmap.hpp'),('accumulate then finalize',I+'ann/gaussian_voxelmap.hpp'),('capacity and min distance test',I+'ann/flat_container.hpp')],
 [('lru_counter','number of insertions',I+'ann/incremental_voxelmap.hpp'),('voxels/flat_voxels','hash index and voxel store',I+'ann/incremental_voxelmap.hpp')],['size(), voxel iteration, point/normal/cov access by global index, searches'])
p('C09','Voxel map neighbour search is exact over the configured neighbouring cells',
 'For every map content and query, nearest and k-nearest search return exactly the closest stored elements among the cells of the configured neighbourhood (1, 7 or 27 cells around the query cell), each element at most once, with true squared distances in ascending order and global indices that resolve to those elements. Searches never modify the map and find nothing if the neighbourhood is empty.',
 ['inputs','histories','configurations'],'all small map contents over a voxel lattice incl. negative cells and borders x queries x k x neighbourhood settings (in every order of reconfiguration) x voxel contents type',
 'Tests use random points with a fixed setting and accept approximate agreement; neighbourhood reconfiguration is never exercised.',
 [I+'ann/incremental_voxelmap.hpp',I+'ann/flat_container.hpp',I+'util/fast_floor.hpp',I+'util/vector3i_hash.hpp'],
 [('loop over cell offsets',I+'ann/incremental_voxelmap.hpp'),('global index = voxel id + point id bit packing',I+'ann/incremental_voxelmap.hpp')],None,['search results'])
p('C10','Serial downsampling is the exact per-voxel mean / a true subset',
 'Voxel-grid downsampling returns exactly one point per occupied voxel of the grid, equal to the mean of all valid input points inside that voxel, for every resolution and sign of coordinates; points outside the supported 21-bit voxel range (and only those) are ignored. Random downsampling returns min(n, N) distinct input points, unmodified, and the input is never modified.',
 ['inputs','configurations'],'all small clouds over a coordinate alphabet around voxel borders, negative cells, range limits and just outside them x leaf sizes x input orders; all (N, n) pairs',
 'Tests compare the number of outputs with another library on one scan; range limits, borders and invalid points never occur there.',
 [I+'util/downsampling.hpp',I+'util/fast_floor.hpp'],
 [('pack 3x21-bit coords into a key, sort, sum runs',I+'util/downsampling.hpp')],None,['returned point cloud'])
p('C11','Estimated normals and covariances are the PCA of the neighbourhood',
 'Whenever at least five neighbours are available, the estimated normal is the unit eigenvector of smallest eigenvalue of the covariance of the k nearest points (homogeneous component zero), oriented toward the origin, and the estimated covariance has eigenvalue 1e-3 along that normal and 1 in the two orthogonal directions, symmetric with zero homogeneous row and column. With fewer than five neighbours the normal is zero and the covariance is the identity with zero homogeneous part; every point of the cloud receives a value.',
 ['inputs','configurations'],'all small clouds over a lattice (planes in any orientation, lines, duplicates, generic) x number of neighbours around the threshold x entry points (normal, covariance, both; with or without tree)',
 'Tests sample a random cloud and allow a fraction of wrong normals.',
 [I+'util/normal_estimation.hpp'],[('neighbourhood covariance and eigen decomposition',I+'util/normal_estimation.hpp'),('fallback for too few neighbours',I+'util/normal_estimation.hpp')],None,['normals and covariances of the cloud'])
p('C12','Factor linearization is consistent with the factor error',
 'For every factor type (point-to-point, point-to-plane, distribution-to-distribution) and every pose, correspondence and attribute value, the linearization returns the current error, its exact gradient with respect to a right-multiplied SE(3) perturbation, and a symmetric positive semi-definite Gauss-Newton Hessian of the residual; re-evaluating the error for the same correspondence at the same pose gives the same value. A factor whose nearest neighbour is missing or rejected contributes nothing to the linear system and exactly zero error afterwards.',
 ['inputs','configurations'],'a lattice of poses x source/target points x normals/covariances x rejection thresholds, with target searchers returning any answer (found / not found / rejected) in any order over repeated linearizations',
 'Tests only look at convergence of complete registrations; a sign or scale error in one block still converges.',
 [I+'factors/icp_factor.hpp',I+'factors/plane_icp_factor.hpp',I+'factors/gicp_factor.hpp',I+'registration/rejector.hpp'],
 [('analytic Jacobians',I+'factors/gicp_factor.hpp'),('stored target index reused by error()',I+'factors/icp_factor.hpp'),('rejection test',I+'registration/rejector.hpp')],
 [('target_index / mahalanobis','correspondence state of a factor',I+'factors/gicp_factor.hpp')],['linearize()/error() outputs'])
p('C13','Robust kernels and general factors compose consistently',
 'Wrapping any factor with a robust kernel scales its contribution by the kernel weight of the unweighted residual norm, so that weights lie in [0,1], equal 1 at zero residual, do not increase with the residual, follow Huber min(1, c/|e|) or Cauchy c/(c + e^2) of the norm e of the factor error for the configured width c, and rejected factors stay without effect. A degrees-of-freedom restriction leaves the error untouched and keeps exactly the restricted rotation/translation components of the estimated pose update at (numerically) zero for every mask, whereas the null factor changes nothing.',
 ['inputs','configurations'],'lattices of kernel widths x residuals incl. the transition point; all 64 restriction masks x poses x clouds; all factor x kernel compositions',
 'No unit test inspects robust kernels or restricted degrees of freedom beyond an example.',
 [I+'factors/robust_kernel.hpp',I+'factors/general_factor.hpp'],
 [('weight function',I+'factors/robust_kernel.hpp'),('large diagonal penalty on restricted axes',I+'factors/general_factor.hpp')],None,['linearize()/error() outputs, estimated update'])
p('C14','Optimizers follow the Gauss-Newton / Levenberg-Marquardt protocol',
 'For every sequence of linear systems and errors the problem may produce, the optimizers only move the pose by the damped Gauss-Newton step of the latest system; Levenberg-Marquardt accepts a step only if it does not increase the total error (point factors plus general factor), otherwise keeps the pose and raises the damping, and both stop at convergence or at their iteration limits. The returned result reports the pose actually accepted, the linear system and inlier count of the last linearization, the error that goes with the reported pose as the optimizer computed it, and the converged flag is set only if the termination criterion was met by the last step.',
 ['histories','configurations'],'all environment answer sequences (error better/equal/worse at each trial, system scale, NaN, small/large step) up to the iteration bound x iteration limits x damping settings x criteria',
 'Tests run well-behaved registrations in which the rejection branch, iteration caps and damping escalation are hardly entered.',
 [I+'registration/optimizer.hpp',I+'registration/termination_criteria.hpp',I+'registration/registration_result.hpp'],
 [('LM trial loop with lambda update',I+'registration/optimizer.hpp'),('termination test on the step',I+'registration/termination_criteria.hpp')],
 [('lambda','damping factor',I+'registration/optimizer.hpp'),('T_target_source','current estimate',I+'registration/registration_result.hpp')],['RegistrationResult, sequence of evaluated poses'])
p('C15','Registration recovers the relative pose and respects its frame conventions',
 'Aligning a structured cloud with a rigidly moved copy of itself from an initial guess within the convergence basin yields the pose that maps source points onto target points (target = T * source) for every factor type, reduction, optimizer and search structure, with the converged flag set, near-zero error and a finite pose that is a proper rigid transform. A common rigid motion of both inputs changes the result only by conjugation when source and target are copies of each other, an aligned pair stays at the identity, and the input clouds and trees are never modified.',
 ['inputs','configurations'],'a lattice of rigid motions x initial guesses x synthetic structured clouds x all factor/reduction/optimizer/search configurations',
 'Tests align one scan pair around one ground-truth pose with loose tolerances.',
 [I+'registration/registration.hpp',I+'registration/optimizer.hpp',I+'factors/gicp_factor.hpp'],
 [('iterative alignment',I+'registration/registration.hpp')],None,['RegistrationResult'])
p('C16','PCL-style registration object gives history-independent results',
 'After any sequence of configuration calls, input changes, swaps, clears, covariance settings and alignments on one PCL registration object, an alignment returns the same pose, output cloud, score, Hessian and stored covariances as a fresh object given only the latest inputs and settings. Invalid numeric settings are replaced by a valid fallback value, an unknown registration type is refused, covariances once computed or provided for an input are kept until that input changes, and the output cloud is the source cloud transformed by the final pose.',
 ['histories','configurations'],'all call sequences up to the depth bound over an alphabet of setters, setInput*, setCovariances, swap, clear, align and getters with two or three small clouds',
 'Tests call align a couple of times on the same object with fixed order of setters.',
 [I+'pcl/pcl_registration.hpp',I+'pcl/pcl_registration_impl.hpp',I+'pcl/pcl_proxy.hpp'],
 [('cached trees, covariances and voxel maps invalidated by setters',I+'pcl/pcl_registration_impl.hpp')],
 [('target_tree_/source_covs_/target_voxelmap_','cached derived data',I+'pcl/pcl_registration.hpp')],['align output, getFinalTransformation, getFitnessScore, getters'])
p('C17','The helper API honours every setting and equals the explicit pipeline',
 'Preprocessing and alignment through the high-level helper functions produce the same result as composing the documented building blocks by hand with the same parameters, for every registration type, thread count, resolution, correspondence distance, termination threshold, iteration limit and neighbour count. Changing any one setting changes only what that setting controls, and inputs are not modified.',
 ['configurations','inputs'],'every setting field varied over several values in all registration types and overloads on small structured clouds',
 'Tests call each overload once with default settings and check the final pose loosely.',
 [I+'registration/registration_helper.hpp','src/small_gicp/registration/registration_helper.cpp'],
 [('settings copied to the registration object','src/small_gicp/registration/registration_helper.cpp')],None,['helper return values'])
p('C18','Python bindings agree with the C++ library for every input form',
 'Every Python entry point gives the same result as the C++ function it wraps, for Nx3 and Nx4 arrays and point cloud objects, single and batched queries, and any thread count; returned arrays have the documented shape and not-found neighbours are marked as such. Arrays of invalid shape and None are refused (an exception, or the documented empty result) rather than crash, input arrays are not modified, and returned objects stay valid after their inputs are released.',
 ['inputs','configurations'],'all entry points x array forms (Nx3, Nx4, non-contiguous, float32, wrong shapes, empty) x num_threads x k relative to N x object lifetime orders',
 'The Python tests exercise each function once on two scans with contiguous float64 arrays.',
 ['src/python/preprocess.cpp','src/python/kdtree.cpp','src/python/align.cpp','src/python/voxelmap.cpp','src/python/pointcloud.cpp','src/python/factors.cpp','src/python/result.cpp'],
 [('argument conversion and dispatch on num_threads','src/python/align.cpp'),('batch loops','src/python/kdtree.cpp')],None,['values returned to Python'])
p('C19','Degenerate inputs are handled without undefined behaviour',
 'Empty, single-point, tiny, coincident, collinear and coplanar clouds, more threads or neighbours than points, and non-overlapping clouds are processed by every public operation without out-of-bounds access, use of uninitialised memory, hang or crash. Searching an empty structure finds nothing, downsampling nothing gives nothing, and aligning without correspondences leaves the initial guess as a finite pose.',
 ['inputs','configurations'],'every public operation x cloud sizes 0..7 and boundary sizes x degenerate geometries x parameter corner values',
 'No test uses clouds with fewer than thousands of points.',
 [I+'ann/kdtree.hpp',I+'util/normal_estimation.hpp',I+'util/downsampling.hpp',I+'registration/registration.hpp',I+'registration/optimizer.hpp'],
 [('size checks and fallbacks',I+'ann/kdtree.hpp')],None,['sanitizer reports, return values'])
p('C20','SE(3) utilities are the exact exponential map',
 'For every twist vector the pose exponential returns a proper rigid transform (orthonormal rotation with determinant one, last row 0 0 0 1) equal to the matrix exponential of the twist, continuously through the small-angle region and at large angles. The rotation exponential agrees with it for zero translation, the quaternion form has unit norm, and the skew operator satisfies skew(a) b = a x b.',
 ['inputs'],'a lattice of rotation axes x angles (zero, denormal, around the series switch-over, pi, 2pi multiples) x translations',
 'No unit test covers these functions directly.',
 [I+'util/lie.hpp'],[('series switch near zero angle',I+'util/lie.hpp')],None,['so3_exp, se3_exp, skew'])
p('C21','Point file reading is faithful and safe on truncated files',
 'Reading a point file returns exactly the points stored in it, in order and with unit homogeneous coordinate, for raw float xyz(i) files and for binary PLY files with any supported number of float properties per vertex. A file truncated at any byte, an empty or a missing file never causes out-of-bounds access or a hang, and yields only points that are fully contained in the file.',
 ['fault_sequences','inputs'],'every truncation point of small valid files x numbers of points x numbers of vertex properties; missing and empty files',
 'Tests read three intact files of one layout.',
 [I+'benchmark/read_points.hpp'],[('fread of whole records / header parse',I+'benchmark/read_points.hpp')],None,['returned vector of points'])
p('C22','Projective search returns true distances from its projected window',
 'Every neighbour reported by the projective search is a stored point with its true squared distance, results are distinct and sorted in ascending order, and every point whose image projection lies inside the search window around the query pixel and that is the one kept for its pixel competes for the result. A query finds itself at distance zero when its pixel holds it, and the search is never out of bounds for any query direction.',
 ['inputs','configurations'],'lattice of directions covering poles and the +-180 degree seam x image sizes x window sizes x k',
 'Tests check only loose recall on one scan.',
 [I+'ann/projective_search.hpp'],[('spherical index map with border handling',I+'ann/projective_search.hpp')],None,['search results'])
p('C23','Point containers keep points and attributes consistent',
 'Building, resizing, copying and element access on every supported point container (library cloud, Eigen matrix, PCL cloud and its covariance proxy) keep each point together with its own normal and covariance, use homogeneous coordinate one for points and zero for normals, and preserve existing elements and contents across conversions. Reported size and attribute availability always match what can be accessed.',
 ['histories','inputs'],'all sequences of resize/set/assign/copy/convert up to the depth bound over small sizes and each container type and input element type',
 'Tests go once through a fixed sequence for one size.',
 [I+'points/point_cloud.hpp',I+'points/eigen.hpp',I+'points/traits.hpp',I+'pcl/pcl_point_traits.hpp',I+'pcl/pcl_proxy.hpp'],
 [('traits adapters',I+'points/traits.hpp')],None,['size/empty/has_*/point/normal/cov accessors'])
p('C24','Calls leave no hidden state behind',
 'The result of a C++ library call (tree building and neighbour search, voxel maps, projective search, downsampling and sampling, normal and covariance estimation, sorting, registration, helper functions) depends only on its arguments and on the objects it is given. After any sequence of earlier calls in the same process, on other data, sizes, settings, objects or threads and including failing calls and empty inputs, it returns what it returns as the first call of a fresh process, and registration, reduction, builder and factor objects that are reused give the same results as newly made ones.',
 ['histories','inputs'],'all call sequences up to the depth bound over an alphabet of more than fifty calls covering every public part, each also repeated many times and issued from other threads',
 'Tests issue each call in one order, mostly once per process, and do not compare a call with itself in another history.',
 [I+'registration/registration.hpp',I+'registration/reduction.hpp',I+'registration/optimizer.hpp',I+'ann/kdtree.hpp',I+'ann/incremental_voxelmap.hpp',I+'util/downsampling.hpp',I+'util/normal_estimation.hpp',I+'util/sort_tbb.hpp','src/small_gicp/registration/registration_helper.cpp'],
 [('all working storage is local to a call or to the object',I+'registration/registration.hpp')],None,['return values of all public calls'])
p('C25','Odometry built from the library follows every bounded motion sequence',
 'For every sequence of small sensor motions, estimating odometry with the library (downsample the scan, estimate normals and covariances, align it to the incremental voxel map or to the previous scan from the last pose, insert it with the estimated pose) keeps the estimated trajectory within a few centimetres and fractions of a degree of the true one in a structured scene. This holds for Gaussian and flat voxel maps with removal of old voxels, point-to-plane and distribution-to-distribution registration, scan-to-scan matching, the helper functions and the serial, OpenMP and TBB back ends; the map keeps showing the scene in the frame of the first scan, most points are inliers and scans are not modified.',
 ['histories','configurations'],'all motion sequences up to the depth bound over an alphabet of translations and rotations from several starting poses, and all periodic ones over longer drives',
 'Tests align one pair of scans; the odometry programs are benchmarks without checks.',
 [I+'ann/incremental_voxelmap.hpp',I+'ann/gaussian_voxelmap.hpp',I+'ann/flat_container.hpp',I+'registration/registration.hpp',I+'util/normal_estimation.hpp',I+'util/downsampling.hpp'],
 [('insertion with the estimated pose and least recently used removal',I+'ann/incremental_voxelmap.hpp')],[('flat_voxels','voxels of the map',I+'ann/incremental_voxelmap.hpp')],['RegistrationResult, estimated trajectory, voxel map contents'])
p('C26','Algorithms see their inputs only through the documented extension points',
 'Every algorithm (downsampling, normal and covariance estimation, k-d trees, voxel maps, projective search, registration) gives the same result for the same points in every container, supported (library cloud, Eigen matrix, PCL cloud and covariance proxy) or user-defined through the documented traits, up to the precision the container stores; it never reads an element or attribute that was not set, never writes an input, and writes outputs only with homogeneous coordinate one for points and zero for normals and covariances. User-defined nearest-neighbour searches, correspondence rejectors, general factors and voxel contents are called as documented with the arguments they describe, and a registration whose rejector accepts a subset of the source points equals a registration of that subset.',
 ['inputs','configurations'],'all combinations of container types, operations, back ends and clouds, all accept/reject outcomes over ten source points, all user-defined searches and priors',
 'Tests use the library cloud and the PCL cloud only and never a user-defined type; examples with user types are not checked.',
 [I+'points/traits.hpp',I+'ann/traits.hpp',I+'points/eigen.hpp',I+'pcl/pcl_point_traits.hpp',I+'pcl/pcl_proxy.hpp',I+'util/downsampling.hpp',I+'util/normal_estimation.hpp',I+'registration/registration.hpp',I+'ann/incremental_voxelmap.hpp','src/example/03_registration_template.cpp'],
 [('all access through traits',I+'points/traits.hpp'),('fallback of nearest neighbour to knn_search',I+'ann/traits.hpp')],None,['calls of the traits, rejector, general factor and voxel contents; results of all algorithms'])
p('C27','Ownership, lifetime and memory',
 'Owning structures (k-d tree, projective search, preprocessed clouds, voxel maps, sampled clouds, clouds built from user vectors, results, RegistrationPCL) stay usable and answer the same after the caller has released its own references to the inputs and after they were copied, moved, relocated in a vector, swapped, or their original was destroyed; structures that copy their input, and outputs, do not change when the input is changed later. Every call releases everything except its result: destroying all objects returns all memory and repeating any sequence of calls does not accumulate memory. When an allocation fails at any point of a serial call, the call throws std::bad_alloc, leaks nothing and does not damage its inputs, so that the same call made again gives the result it would have given; the contents of a structure that the failing call was modifying are unspecified. Copies of a voxel map share voxel contents and are claimed only while neither is modified.',
 ['histories','fault_sequences','inputs'],'all sequences of building, releasing, overwriting, copying, moving, relocating and destroying up to the depth bound; all repeated call pairs; every allocation of every serial call as a fault point',
 'Tests keep all inputs alive until the end, never copy or move a structure, do not watch memory, and no allocation ever fails in them.',
 [I+'ann/kdtree.hpp',I+'ann/projective_search.hpp',I+'ann/incremental_voxelmap.hpp',I+'points/point_cloud.hpp',I+'pcl/pcl_registration.hpp',I+'pcl/pcl_registration_impl.hpp',I+'registration/registration.hpp',I+'util/downsampling.hpp','src/small_gicp/registration/registration_helper.cpp'],
 [('the owning tree keeps the points alive and its inner tree refers to them',I+'ann/kdtree.hpp'),('working memory is owned by containers local to the call',I+'util/downsampling.hpp')],None,['answers of structures, live memory, exceptions'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
