prop('M01', 'The eight-point estimator solves the epipolar equations of its sample',
     'The essential matrix of eight matches is the minimiser, over matrices of unit norm, of the sum of the squared epipolar values of exactly those matches, and the estimated poses are the poses that matrix decomposes into. For eight exact matches in general position the true relative pose, up to the length of its translation, is among the estimates.',
     'all bearings with nonzero depth, any eigendecomposition outcome; exact scenes in general position',
     'The repository test samples random scenes with small rotations and accepts a residual of any one candidate.',
     [EP, ES], [('equations', EP + ' encode_epipolar_equation'), ('matrix', EP + ' EightPoint::from_matches'), ('poses', EP + ' EightPoint::estimate')],
     note='that the true pose is among the estimates is proved end to end for scenes in general position; the eigendecomposition and the singular value decomposition of nalgebra are assumed by contract; the f64 code is sampled end to end (conditioned away from degenerate scenes)')
prop('M02', 'The five-point estimator solves the epipolar and essential-matrix constraints',
     'The five-point solver works in the null space of the epipolar equations of its sample, its cubic system is the ten constraints that make a matrix of that space essential, and for every matrix of that space that satisfies them the matching eigenvector of the action matrix is read back as that matrix. For five exact matches in general position the true relative pose, up to the length of its translation, is among the estimates; a degenerate sample gives no meaningless pose and the solver terminates.',
     'all bearings with nonzero depth, any four null vectors, any common zero of the cubic forms, any real eigenvalue index; exact scenes in general position',
     'The repository has no passing test of this solver: it read the wrong rows of its eigenvectors and never returned the pose.',
     [NS, ES], [('epipolar equations', NS + ' encode_epipolar_equation, five_points_nullspace_basis'), ('cubic constraints', NS + ' five_points_polynomial_constraints, o1, o2'), ('action matrix', NS + ' five_points_relative_pose'), ('reading back', NS + ' compute_eigenvector, essentials_from_action_ebasis')],
     note='eigenvalues, null vectors and linear solves of nalgebra are assumed by contract; that the true pose is among the estimates is proved, and also sampled end to end on the f64 code')
prop('M03', 'The three-point estimator returns camera poses that reproduce its sample',
     'Every candidate of the three-point solver has depths at which the three points, placed along their bearings, have the distances of the world points, and its pose takes each world point to its depth along its bearing without changing orientation, for any pose including half turns. The true pose is among the estimates whenever the distances determine the depths well; a point at infinity in the sample gives no pose.',
     'all triangles and bearings, every root and sign branch; exact scenes in general position, half turns included',
     'The repository tests sample random small rotations with bounded angle and a tolerance; half turns and degenerate branches are never met.',
     [LT], [('pencil and cubic', LT + ' compute_poses_nordberg'), ('singular eigenvectors', LT + ' eigen_decomposition_singular, root2real'), ('refinement', LT + ' gauss_newton_refine_lambda'), ('pose', LT + ' compute_poses_nordberg')],
     note='the private functions are replaced by their contracts in the contract of their caller and are under contract themselves, cube_root as a Newton iteration from the side it converges on (how fast is sampled only); the refinement is proved for any number of steps by induction; known finding: configurations symmetric about the first point')
EP_ = 'cv-geom/src/epipolar.rs'
prop('G06', 'Epipolar losses and gradients are what their geometry says',
     'The point gradient moves a point onto its bearing ray by the shortest way, the pose gradient moves it onto the bearing and turns it towards it. The epipolar loss is the sine of the angle between the ray nearer the baseline and the epipolar plane of the other, between zero and one, zero for rays that meet in front of both cameras and one where no plane is defined. The three-view gradients distribute the two-view corrections: each camera turns by two thirds of its own correction and one third of the one between the other two, and moves onto the point where the other two rays meet.',
     'all unit bearings, all translations, either outcome of each two-view triangulation; the loss for bearings that are not exactly perpendicular',
     'The repository has no test of these functions.',
     [EP_], [('gradients', EP_ + ' point_gradient, world_pose_gradient'), ('loss', EP_ + ' loss'), ('three views', EP_ + ' three_view_gradients, two_view_rotation_gradient')],
     note='in the translation part of the three-view gradients the two-view triangulation is replaced by any point or none (its own contract is separate: the point is in the epipolar plane, on the uncorrected ray); known finding: that triangulation is asked with the sign of the baseline that finds rays meeting behind the cameras')
prop('G05', 'Iterative triangulation refines the linear point by its rule',
     'The sine triangulator starts from the point of the linear method over all its observations, gives nothing when that gives nothing and returns a point at infinity as it is. Each step moves the point by the rate times the mean, over all observations, of the shortest way from the point onto the observation ray, and it stops at the first step shorter than the tolerance relative to the point or at the iteration limit. For exact observations it returns the true point, whatever the rate and tolerance.',
     'any number of observations, all poses, bearings, rates and tolerances, any starting point; exact observations',
     'A doctest uses one two-view configuration; nothing looks at more than two observations, the rate, the stopping rule or the limit.',
     [GT, EP_], [('start', GT + ' SineL1Triangulator::triangulate_observations'), ('step', EP_ + ' point_gradient')],
     note='sums over any number of observations by the sequence rule and any number of iterations by induction over the counted loop (DESIGN.md); whole runs are also compared with a direct simulation on the f64 code; a step onto the world origin is excluded')
SV_, TV_ = 'cv-optimize/src/single_view_optimizer.rs', 'cv-optimize/src/three_view_optimizer.rs'
prop('O01', 'Single-view pose optimization follows its rule',
     'Each iteration moves the pose by one rigid motion: the rate times the mean of the pose gradients of all landmarks, or, for the L1 form, the rate times the harmonic-mean weighted sum of their directions. A landmark at infinity contributes no gradient; without a landmark that does, without landmarks or without iterations the pose stays. It stops, without moving, once fifty iterations in a row made neither sum smaller than every earlier one. A pose that sees every landmark exactly stays.',
     'any number of landmarks, finite or at infinity and not at the camera centre, all poses, rates and epsilons',
     'The repository tests optimize a handful of sampled scenes and accept a loose final error; no weight, rate or stopping rule is looked at.',
     [SV_, EP_], [('step', SV_ + ' single_view_simple_optimize_l1, single_view_simple_optimize_l2, landmark_delta'), ('gradient', EP_ + ' world_pose_gradient'), ('motion', 'cv-core/src/so3.rs Se3TangentSpace::isometry')],
     note='the gradient of a landmark and the motion of an increment are replaced by uninterpreted functions (their contracts are G06 and C04); any number of landmarks by the sequence rule and any number of iterations, with the stopping rule over any history, by induction over the counted loop (DESIGN.md); runs of up to 120 iterations are also compared with a direct simulation on the f64 code')
prop('O02', 'Three-view pose optimization follows its rule',
     'The two poses are optimized together as motions of the outer cameras into the frame of the centre camera. In each iteration both move by one rigid motion each: the rate times the mean of the three-view gradients of all landmarks at the current two poses, or, for the L1 form, the rate times the harmonic-mean weighted sum of their directions with a translation scale of both translations together, or, for the adaptive form, that mean weighted by how much the landmarks agree on it. The simple forms stop, without moving, once fifty iterations in a row made none of the four sums smaller than every earlier one. Without landmarks or iterations the poses stay.',
     'any number of landmarks, all poses, bearings, rates and epsilons',
     'The repository has no test of these functions.',
     [TV_, EP_], [('step', TV_ + ' three_view_simple_optimize_l1, three_view_simple_optimize_l2, three_view_adaptive_optimize_l2, landmark_gradients'), ('gradients', EP_ + ' three_view_gradients'), ('motion', 'cv-core/src/so3.rs Se3TangentSpace::isometry')],
     note='the gradients of a landmark and the motion of an increment are replaced by uninterpreted functions (their contracts are G06 and C04); any number of landmarks by the sequence rule and any number of iterations, with the stopping rule over any history, by induction over the counted loop (DESIGN.md); runs of up to 120 iterations are also compared with a direct simulation on the f64 code')

AK = 'akaze/src/'
prop('A01', 'The feature extractor diffuses for the time its scales ask for',
     'The scale space has, for each octave up to the configured number whose smaller side is at least 40 pixels, the configured number of sublevels (one below 80 pixels), in order. A level of octave o and sublevel s of S has scale base * 2^(o + s/S) and time half the square of its scale. From one level to the next the image is diffused for exactly the difference of their times, in the least number n of fast explicit diffusion steps that reaches it under the stability limit: the steps t / (2 cos^2(pi (2k+1)/(4n+2))), scaled to add up to the time, each once, in the reordered sequence. The schedule is finite and found for every configuration, including cycles of a single step.',
     'all image sizes and configurations; cycles of 1 to 40 steps for any scale and stability limit (proof), any time (sampled)',
     'The crate has no test of the schedule; the default configuration never has a cycle of one step, on which the schedule did not terminate.',
     [AK + 'fed_tau.rs', AK + 'evolution.rs'], [('steps', AK + 'fed_tau.rs fed_tau_by_process_time, fed_tau_internal'), ('levels', AK + 'evolution.rs Akaze::allocate_evolutions, EvolutionStep::new')],
     note='the steps and their reordering are proved for cycles of 1 to 40 steps; their number, their sum and the levels are sampled (cosines and powers of two are not decided over the reals)', level='other')
prop('A02', 'Image filters are convolutions with a replicated border',
     'The horizontal, vertical and separable filters give at every pixel the weighted sum of its neighbours, the weights in the order of the kernel and centred, with pixels outside the image equal to the nearest pixel inside, for every image width, height and odd kernel size. A Gaussian kernel is proportional to exp(-x^2 / (2 sigma^2)), symmetric and adds up to one; blurring uses a radius of ceil(2 sigma) and leaves a constant image as it is. The Scharr derivatives of a linear image are its slopes (32 times the slopes for the smallest kernel). Halving an image averages its 2x2 tiles, with the last row or column alone where a side is odd. Grey values are divided by the largest value of their type, and pixel (x, y) is row y, column x of the array form.',
     'any pixel values, kernel weights and sigmas; image sizes up to 33 pixels and kernels up to 17, all 8-bit and 16-bit grey values',
     'The crate compares two filters with another crate on one photograph and one kernel; borders, widths around the block size, other kernels and odd sizes are never met.',
     [AK + 'image.rs', AK + 'derivatives.rs'], [('filters', AK + 'image.rs horizontal_filter, vertical_filter, separable_filter'), ('Gaussian', AK + 'image.rs gaussian_kernel, gaussian_blur'), ('derivatives', AK + 'derivatives.rs scharr_horizontal, scharr_vertical'), ('images', AK + 'image.rs GrayFloatImage')],
     note='sums are compared over exact reals, so the order in which lanes are added does not matter', level='other')
prop('A03', 'The nonlinear scale space diffuses by its conductivities and conserves intensity',
     'One diffusion step moves, between every two neighbouring pixels, the step size times the mean of their conductivities times the difference of their values, and nothing across the border, so the sum of the image is unchanged. Conductivities are 1 / (1 + |gradient|^2 / k^2), positive and at most one. The contrast factor k is the upper edge of the first histogram bin up to which the configured fraction of the nonzero gradients of the smoothed image lies. Each level starts from the level before it, halved where a new octave starts and k is then reduced to three quarters, and is diffused with the conductivities of its smoothed start. The detector response is the determinant of the Hessian by Scharr derivatives at the scale of the level, times the fourth power of that scale.',
     'any pixels, conductivities, step sizes and contrasts at the stated image sizes; whole scale spaces and contrast factors sampled',
     'The crate tests only compare the number of keypoints of one photograph.',
     [AK + 'nonlinear_diffusion.rs', AK + 'contrast_factor.rs', AK + 'detector_response.rs', AK + 'lib.rs'], [('step', AK + 'nonlinear_diffusion.rs calculate_step'), ('conductivity', AK + 'nonlinear_diffusion.rs pm_g2'), ('contrast', AK + 'contrast_factor.rs compute_contrast_factor'), ('response', AK + 'detector_response.rs Akaze::detector_response'), ('levels', AK + 'lib.rs Akaze::create_nonlinear_scale_space')],
     note='the contrast factor and whole scale spaces are sampled on the f32 code', level='other')
prop('A04', 'Keypoints are refined maxima of the response and descriptors describe their surroundings',
     'Every keypoint is the sub-pixel refinement of a strict maximum of the detector response of its level that is above the threshold and within reach of its descriptor; a maximum that stands alone, and the strongest one, is found, and of maxima within the size of a keypoint only one is. The refinement is the stationary point of the quadratic through the 3x3 neighbourhood, kept exactly when it is within one pixel, in the coordinates of the full image. The orientation is the direction of the strongest sum of Gaussian-weighted gradients in a sliding window of a third of a half turn. The descriptor holds, for the 2x2, 3x3 and 4x4 grids and each channel, one bit for each pair of cells: whether the mean of the first is larger. Keypoints whose samples leave the image are dropped together with their descriptor, the two lists match, and the strongest keypoints up to the configured number come out, strongest first.',
     'any 3x3 neighbourhood of responses (three octaves); any values of two or three cells; sampled scale spaces, keypoints, orientations and descriptors',
     'The crate tests only compare the number of keypoints of one photograph.',
     [AK + 'scale_space_extrema.rs', AK + 'descriptors.rs', AK + 'lib.rs'], [('maxima', AK + 'scale_space_extrema.rs Akaze::detect_keypoints'), ('refinement', AK + 'scale_space_extrema.rs do_subpixel_refinement'), ('orientation', AK + 'scale_space_extrema.rs compute_main_orientation'), ('descriptor', AK + 'descriptors.rs Akaze::extract_descriptors'), ('selection', AK + 'lib.rs Akaze::extract_from_gray_float_image')],
     note='only the refinement and the bits of small grids are decided for all values; detection, orientation, descriptors and the selection are sampled', level='other')
