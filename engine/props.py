#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 engine/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, quant, why, files, mech, state=(), observe=(), note='', claimed=True, reason='', level='proof', over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, state=state, observe=observe, note=note, claimed=claimed, reason=reason, level=level))
CP, PO, SO, CO, TR = 'cv-core/src/point.rs', 'cv-core/src/pose.rs', 'cv-core/src/so3.rs', 'cv-core/src/camera.rs', 'cv-core/src/triangulation.rs'
PI, ES = 'cv-pinhole/src/lib.rs', 'cv-pinhole/src/essential.rs'
GT, GE = 'cv-geom/src/triangulation.rs', 'cv-geom/src/epipolar.rs'
OS, OT = 'cv-optimize/src/single_view_optimizer.rs', 'cv-optimize/src/three_view_optimizer.rs'
EP, LT, NS = 'eight-point/src/lib.rs', 'lambda-twist/src/lib.rs', 'nister-stewenius/src/lib.rs'

prop('C01', 'Points are stored in one normalised projective form',
     'A camera or world point built from any homogeneous coordinates (other than the origin direction being undefined) denotes the same projective point, has a unit first-three-coordinates direction and a fourth coordinate that is not negative, and is the same whatever nonzero scale the coordinates came with. Converting a Euclidean point to that form and back returns the point; a point whose fourth coordinate is zero has no Euclidean form but still has a direction.',
     'all homogeneous 4-vectors with a nonzero direction part, all nonzero scales, both signs of the fourth coordinate, points at infinity, both point types',
     'No test in cv-core covers it; the doctests use a couple of finite points with positive scale.',
     [CP], [('normalising construction', CP + ' Projective::from_homogeneous'), ('Euclidean conversion', CP + ' Projective::point, from_point, bearing')],
     note='all obligations are identities of real algebraic functions over every branch of the sign flip')
prop('C02', 'Pose transforms are rigid motions that compose and invert exactly',
     'Transforming a point with a pose gives rotation times direction plus translation times the fourth coordinate, as a projective point, for all four kinds of pose. The inverse of a pose undoes it, the identity changes nothing, scaling a pose scales only its translation, its parts and 4x4 matrix agree with it, and the world-to-world pose built from two poses a and b of one camera is the inverse of b after a, so it maps the first world to the second.',
     'all rotations, translations, homogeneous points (finite and infinite) and scales',
     'The repository tests transform a few random points of one pose type; inverse, scale, parts and the world-to-world composition are untested.',
     [PO], [('transform', PO + ' Pose::transform, pose_output'), ('inverse, identity, scale, parts, matrix', PO + ' Pose::{inverse,identity,scale,from_parts,homogeneous}'), ('world-to-world', PO + ' WorldToWorld::from_camera_poses')])
prop('C03', 'Pose Jacobians are the derivatives of the transform',
     'The reported Jacobian of a transform with respect to its input is the matrix that maps the input to the unnormalised output, and the reported Jacobian with respect to the pose is the derivative of the output for a left-multiplied infinitesimal translation and rotation. The combined and the separate accessors agree.',
     'all poses and homogeneous points, all infinitesimal directions',
     'The repository never compares its analytic Jacobians with a derivative over poses; one point-wise finite-difference doctest of the rotation part exists.',
     [PO, SO], [('Jacobians', PO + ' pose_jacobian_input, pose_jacobian_self'), ('rotation Jacobian', SO + ' Skew3::jacobian_self')])
prop('C04', 'Rotation and rigid-motion exponential and logarithm are mutually inverse',
     'The exponential of a rotation vector is the rotation by its length about its direction (Rodrigues), the logarithm of a rotation is a rotation vector whose exponential is that rotation, including a half turn and the identity, and the hat and vee maps, their square, the bracket and the Jacobian of the rotated point are the standard ones. The six coordinates of a pose hold its translation and rotation vector and rebuild the pose.',
     'all rotation vectors including zero and lengths near and at half a turn, all rotations, all translations',
     'Doctests use random small vectors; the branch points (zero, half turn) are measure zero for sampling and were broken.',
     [SO, PO], [('exponential and logarithm', SO + ' From<Skew3> for Rotation3, From<Rotation3> for Skew3'), ('hat, vee, bracket', SO + ' Skew3::{hat,hat2,vee,bracket,jacobian_input}'), ('pose coordinates', PO + ' Pose::{se3,from_se3}')])
prop('C05', 'Pose increments add, scale and apply as declared',
     'Pose increments form a vector space: addition, accumulation, summation, scaling of either part or both, and conversion to and from six coordinates act on translation and rotation coordinate by coordinate, with zero as identity. Applying an increment first translates by its translation and then rotates by its rotation vector (x becomes R(x + t)), its unit-length form has unit-length nonzero parts, and an increment built from not-a-number parts is zero in that part.',
     'all translation and rotation vectors, scales, and sequences of increments; NaN parts',
     'There is no test of the increment type at all.',
     [SO], [('increment type', SO + ' Se3TangentSpace')],
     note='known finding: the inverse of an increment negates both parts, which does not undo its rigid motion when both are present')
prop('C06', 'Consensus residuals measure angular disagreement, zero exactly on a fit',
     'The residual of a world match against a pose is one minus the cosine between the observed bearing and the transformed point. The residual of a bearing pair against a relative pose is one minus the cosines of the two bearings to the rays from both cameras to their shared point, so it is zero for an exact match in front of both cameras and never negative.',
     'all poses, bearings and world points; all exact two-view configurations',
     'Estimators are tested end to end on random scenes, which never isolates the residual nor its degenerate cases.',
     [PO], [('residuals', PO + ' Model<FeatureWorldMatch> for WorldToCamera, Model<FeatureMatch> for CameraToCamera')])
prop('C07', 'Observations are triangulated in the frame that was asked for',
     'Triangulating relative observations around a centre camera is the triangulation of the same bearings with the centre camera as world origin, with every other camera placed by its given relative pose, and is absent exactly when the triangulation is. A relative two-camera triangulation is the triangulation of exactly the two bearings with identity and the relative pose.',
     'all relative poses and bearings, any number of observations in the proof bound, any triangulator (it is replaced by its contract)',
     'No test calls the centre-camera form; every triangulation test supplies its own world frame.',
     [TR], [('centre camera form', TR + ' TriangulatorObservations::triangulate_observations_to_camera'), ('two-camera form', TR + ' TriangulatorRelative for T')])
prop('P01', 'Pinhole calibration and projection are inverse bijections',
     'Calibrating a pixel gives the unit direction, in front of the camera, that the intrinsic matrix maps to that pixel up to scale, for any focal lengths, principal point and skew. Projecting a bearing in front of the camera gives the pixel of its ray and projecting one in the image plane or behind the camera gives nothing; each map undoes the other.',
     'all intrinsics with nonzero focal lengths, all pixels, all bearings',
     'Doctests check one camera with zero or one skew value and one pixel.',
     [PI], [('pinhole model', PI + ' CameraModel for CameraIntrinsics'), ('intrinsic matrix', PI + ' CameraIntrinsics::matrix')])
prop('P02', 'Radial distortion is applied and removed consistently',
     'Calibrating a pixel with radial distortion gives the direction of the undistorted point, which is the distorted point divided by one plus the coefficient times its squared radius. Projecting a bearing solves that relation for the distorted point including at the principal point and with a zero coefficient, and each map undoes the other where the model is invertible.',
     'all intrinsics, all coefficients including zero and negative, all pixels and bearings where a real distorted radius exists',
     'The doctest uses one camera, one coefficient and one pixel away from the principal point.',
     [PI], [('distorted model', PI + ' CameraModel for CameraIntrinsicsK1Distortion')])
prop('P03', 'Camera intrinsics and sensor specifications hold what they are given',
     'Setting focal lengths, principal point or skew changes exactly that parameter, and the intrinsic matrix lays them out as declared. A sensor specification has pixel sizes equal to the sensor size over the pixel count, and centred intrinsics have the given focal length and the principal point at half the pixel counts minus one half.',
     'all parameter values, all pixel counts and sensor sizes',
     'No test builds intrinsics from a sensor specification.',
     [PI], [('builders', PI + ' CameraIntrinsics::{identity,focals,focal,principal_point,skew,matrix}'), ('sensor', PI + ' CameraSpecification')])
prop('P04', 'Reprojection error is the image displacement of the triangulated point',
     'The reprojection error of a match is, in each image, the displacement between the normalised observed point and the normalised projection of the point triangulated from both bearings, and is absent when triangulation is. The average error is the mean length of both displacements, zero for an exact match.',
     'all relative poses, bearings with nonzero depth, and triangulated points (the triangulator is replaced by its contract); exact two-view configurations',
     'No test calls it.',
     [PI], [('error', PI + ' pose_reprojection_error, average_pose_reprojection_error')])
prop('E01', 'The essential matrix of a pose encodes exactly its epipolar geometry',
     'The essential matrix built from a relative pose is the cross-product matrix of its translation times its rotation, so that every exact match satisfies its epipolar equation. Its residual of a match is the absolute value of that bilinear form on the two bearings scaled to unit depth.',
     'all relative poses and bearing pairs',
     'Tests build a few random matrices and check reconstruction end to end within tolerance.',
     [ES], [('construction', ES + ' From<CameraToCamera> for EssentialMatrix'), ('residual', ES + ' Model<FeatureMatch> for EssentialMatrix')])
prop('E02', 'Decomposing an essential matrix yields the rotations and translation behind it',
     'Both rotations obtained from an essential matrix are proper rotations, the translation is a unit vector in the left null space, and the cross-product matrix of the translation times either rotation is the matrix up to sign and scale. The pose that built the matrix, with either sign of translation, is among the four candidate poses, and the candidate lists in all forms agree with each other.',
     'all essential matrices (any orthogonal factors of the singular value decomposition, either sign of both determinants), every convergence outcome',
     'The test checks one of the candidates of random poses within a tolerance; determinant signs depend on the SVD implementation and are not enumerated.',
     [ES], [('decomposition', ES + ' EssentialMatrix::possible_rotations_unscaled_translation'), ('candidate lists', ES + ' EssentialMatrix::{possible_rotations,possible_unscaled_poses,possible_unscaled_poses_bearing}')])
prop('E03', 'Reconditioning yields the nearest essential matrix',
     'Reconditioning a matrix keeps its singular directions, replaces its two largest singular values by their mean and its smallest by zero, so the result has two equal singular values and one zero, and an essential matrix is returned unchanged. It gives nothing only when the decomposition does not converge.',
     'all 3x3 matrices, every order of singular values, every convergence outcome',
     'The test reconditions random matrices and compares with an older implementation.',
     [ES], [('recondition', ES + ' EssentialMatrix::recondition')])
prop('G01', 'Linear multi-view triangulation is the least-squares point and exact on exact data',
     'For fewer than two observations there is no result; otherwise the result is the minimiser, over unit homogeneous points, of the sum of squared distances of the transformed point from every observed bearing ray. Exact observations of a point in front of every camera give back that point, and a result lies in front of every camera.',
     'all poses and bearings; any point other than the world origin (which the projective form cannot hold); any number of observations',
     'The end-to-end tests triangulate random scenes with a tolerance and one triangulator setting.',
     [GT], [('objective and solution', GT + ' LinearEigenTriangulator::triangulate_observations')],
     note='sums and quantifiers over any number of observations by the sequence rule (DESIGN.md); contracts with two and three observations stand in when a loop has a shape that rule does not cover')
prop('G02', 'Two-view linear triangulation solves the collinearity equations exactly',
     'The linear two-view triangulation solves the equations stating that the point lies on both bearing rays, for any relative pose. An exact match in front of both cameras gives back its point, and a result lies in front of both cameras.',
     'all relative poses and bearing pairs',
     'One test on random scenes compares against an older copy of the code.',
     [GT], [('design and solution', GT + ' RelativeDltTriangulator::triangulate_relative')])
prop('G03', 'Mean-mean triangulation is the mean distance along the mean ray',
     'The result is the point on the mean ray, from the mean of the camera centres along the mean of the bearings, at the mean of the distances at which that ray is closest to each observed ray. It is given only when it lies in front of every camera, and withheld only when it does not.',
     'all camera centres, orientations and bearings with a defined mean ray, any number of them',
     'Not covered by any test beyond a tolerance on random scenes.',
     [GT], [('mean ray', GT + ' MeanMeanTriangulator::triangulate_observations')])
prop('G04', 'Angular two-view triangulation meets the minimally corrected rays',
     'The angular triangulators rotate the rays by the smallest correction (only the ray nearer the baseline, or both by the same angle) into one plane with the baseline and return the point where the corrected rays meet, exactly when they meet in front of both cameras. An exact match in front of both cameras gives back its point.',
     'all relative poses and bearing pairs for which the correction is defined, both choices of corrected ray and of bisector',
     'Tests bound the end-to-end error on random scenes only.',
     [GT], [('L1', GT + ' AngularL1Triangulator'), ('L infinity', GT + ' AngularLInfinityTriangulator')])

exec(open(V + '/engine/props_more.py').read()) if os.path.exists(V + '/engine/props_more.py') else None

TECH = {'other': 'contract-based verification of the extracted real code: the same contracts and obligations, discharged on every path for any pixel values at stated image sizes, kernels and octaves (bounded, not counted as proof), and on sampled runs of the f32 code where no bound is stated',
        'proof': 'contract-based deductive verification of the extracted real code: postconditions discharged on every path over exact reals (rational-function normal form + z3), callees by contract; failed obligations replayed on the f64 code'}
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                            'observe_at': list(p['observe']) or [w for _, w in p['mech']], 'hook_needed': None}}) + '\n')
    base = 'Every obligation is discharged for all real inputs and all paths of the extracted code; f64 is read as exact reals, the extraction, the obligation generator and z3 are trusted, and nalgebra\'s iterative decompositions are assumed by contract (listed in the evidence). The same contracts also run on the f64 code with sampled inputs, which is not counted as proof.'
    base2 = 'Bounded: every obligation of the bounded contracts is discharged over exact reals for any pixel values, weights and scales at the stated sizes; the other contracts run on sampled inputs of the f32 code. The dependencies of this crate that are not installed (image, ndarray, nshare, primal, bitarray) are replaced by stand-ins whose behaviour is assumed (engine/stubs); if the source no longer builds against them nothing is decided and the evidence says so. The extraction, the obligation generator and z3 are trusted.'
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
         'notes': 'Nothing in /repo is instrumented: the checks extract the sources mechanically on every run (engine/xform). /repo carries only fix: commits, listed in known_findings.json.'}
    for p in P:
        if p['claimed']:
            m['checks'].append({'property': p['id'], 'quick_cmd': f"./check.sh {p['id']} quick", 'thorough_cmd': f"./check.sh {p['id']} thorough",
                                'technique': TECH.get(p['level'], TECH['proof']), 'level': p['level'], 'level_note': (base if p['level'] == 'proof' else base2) + (' ' + p['note'][0].upper() + p['note'][1:] + '.' if p['note'] else '')})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['reason']})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
