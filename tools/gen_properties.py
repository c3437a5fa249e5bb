"""Writes /verif/properties.jsonl (one JSON object per line). Edit here, re-run, commit both."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['src/pytorch_kinematics/' + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    P.append(d)

p('C01', 'Forward kinematics is the product of offsets and joint motions along the tree',
  'For every robot tree, every joint configuration and every batch size, the pose returned for a frame is the product, taken from the root down to that frame, of each frame\'s link offset, then its joint offset, then its joint\'s motion. '
  'A missing offset counts as the identity, each frame is driven by its own joint\'s column of the input, and a fixed joint contributes the identity. '
  'Every pose is reported under the name of the frame it belongs to.',
  ['inputs', 'programs'], 'all kinematic trees (any depth and branching, any mix of joint types, offsets present or absent), all joint values, all batch sizes',
  'Tests compare a handful of robots at a few configurations against stored numbers; a wrong parent, column or offset order that cancels on those robots (identity offsets, single branch) is invisible.',
  ['chain.py', 'frame.py', 'transforms/rotation_conversions.py'],
  [('level-by-level accumulation of world transforms', 'chain.py:_fk_impl'), ('flattening of the tree into index tables', 'chain.py:Chain.__init__')],
  ['Chain.forward_kinematics', 'Chain.forward_kinematics_tensor'],
  [('parent table', 'for each frame the index of its parent, -1 at the root', 'chain.py:Chain._direct_parent_idx'),
   ('static offset table', 'link offset times joint offset for each frame', 'chain.py:Chain._static_offsets')])

p('C02', 'Joint motion model: revolute, prismatic and fixed',
  'A revolute joint at value q moves its frame by the right-handed rotation of angle q about its unit axis, a prismatic joint by the translation of length q along its unit axis, and a fixed joint not at all. '
  'The axis stored for a joint is the given direction scaled to unit length, and the z axis when none is given. '
  'Asking a single frame for its transform at a joint value gives the product of its joint offset and its joint motion, as forward kinematics uses it.',
  ['inputs'], 'all axes (any length and direction), all joint values, all joint types, batched or not',
  'Tests use axis-aligned joints and compare whole-robot poses, so an error in an off-diagonal term of the general-axis formula or a missing normalisation never shows.',
  ['frame.py', 'transforms/rotation_conversions.py', 'chain.py'],
  [('axis-angle to 4x4 matrix', 'transforms/rotation_conversions.py:axis_and_angle_to_matrix_44'),
   ('prismatic matrix', 'transforms/rotation_conversions.py:axis_and_d_to_pris_matrix'),
   ('single-frame transform', 'frame.py:Frame.get_transform'), ('axis normalisation', 'frame.py:Joint.__init__')],
  ['Frame.get_transform', 'Joint.axis'])

p('C03', 'Gradients through forward kinematics are the true derivatives',
  'Back-propagating any upstream gradient through forward kinematics gives, for every joint, exactly the derivative of the returned poses with respect to that joint\'s value, summed over all frames that the joint moves and no others. '
  'The fast analytical gradient used by default and the ordinary automatic gradient agree, the result has the shape of the joint values, and the forward poses are the same whether or not a gradient is requested.',
  ['inputs', 'programs'], 'all trees, joint types, configurations, batches and upstream gradients',
  'Tests compare the two gradients on a few robots and one loss; the sum over descendants, the sign of the cross products and the prismatic case are each exercised by very few shapes.',
  ['chain.py'],
  [('hand-written backward', 'chain.py:_FKAnalyticalBackward.backward'), ('choice of gradient path', 'chain.py:Chain.forward_kinematics_tensor'),
   ('ancestor mask and joint-to-frame table', 'chain.py:Chain.__init__')],
  ['torch.autograd.grad of Chain.forward_kinematics_tensor'])

p('C04', 'Jacobian columns are the geometric twist of each joint',
  'For a serial chain, column i of the Jacobian is, expressed in the base frame, (axis x (end effector position - joint position), axis) for a revolute joint and (axis, 0) for a prismatic joint, with the three linear rows above the three angular rows. '
  'There is one column per non-fixed joint, in the order of the joint names, and the value does not depend on whether the frame poses were computed beforehand, or on which of the equivalent entry points was used.',
  ['inputs', 'programs'], 'all serial chains, joint types, axes, configurations and batches',
  'Tests check a few arms, almost all revolute, against stored matrices or finite differences at a few points.',
  ['chain.py', 'jacobian.py'],
  [('Jacobian kernel', 'chain.py:SerialChain.jacobian_tensor'), ('wrapper', 'jacobian.py:calc_jacobian')],
  ['SerialChain.jacobian', 'SerialChain.jacobian_tensor', 'calc_jacobian'])

p('C05', 'Tool offsets move the Jacobian reference point and the returned pose',
  'With a tool offset, the Jacobian is that of the tool point: each revolute column\'s linear part is axis x (tool position - joint position), prismatic columns and all angular parts are unchanged. '
  'The end effector pose returned on request equals forward kinematics of the end effector, composed on the right with the tool transform when one is given; offsets may be a position or a transform, shared or one per batch element.',
  ['inputs', 'configurations'], 'all tool positions and transforms, all batch sizes, with and without the pose being requested',
  'Tests use one or two tool offsets on revolute arms and look at a few of the four combinations of arguments.',
  ['chain.py', 'jacobian.py'],
  [('tool correction', 'chain.py:SerialChain.jacobian')], ['SerialChain.jacobian', 'calc_jacobian'])

p('C06', 'One joint order everywhere',
  'The order of the joint names is the order of the columns of a joint tensor in forward kinematics, of the entries built from a dictionary of joint values, of the axes, of the lower and upper position, velocity and effort limits, of the Jacobian columns and of the inverse kinematics solution. '
  'Each non-fixed joint has exactly one entry, and fixed joints have none.',
  ['programs', 'inputs'], 'all trees, including those where breadth-first and depth-first orders differ',
  'Order mismatches only show on branching trees whose branches differ; most test robots are serial or symmetric.',
  ['chain.py', 'ik.py'],
  [('joint listing', 'chain.py:Chain.get_joints'), ('index tables', 'chain.py:Chain.__init__'), ('limits', 'chain.py:Chain._get_joint_limits'),
   ('dictionary input', 'chain.py:Chain.ensure_tensor'), ('revolute mask', 'ik.py:InverseKinematics.__init__')],
  ['get_joint_parameter_names', 'get_joint_limits', 'forward_kinematics'])

p('C07', 'A serial chain is exactly the path from its root to its end frame',
  'Building a serial chain from a robot and an end frame keeps exactly the frames on the path from the chosen root to the end frame, in order, each with only the next one as child. '
  'The chosen root becomes the origin: its own joint and link offset no longer contribute, all later frames keep theirs. '
  'The robot it was cut from is not changed, shares no frame with the result, and an unknown root or end frame is an error.',
  ['programs', 'histories'], 'all trees, all (root, end) pairs, any number of extractions from the same robot',
  'Tests extract a few chains from a few robots, rarely with a root other than the top one, and never check the source robot afterwards.',
  ['chain.py'],
  [('extraction', 'chain.py:SerialChain.__init__')], ['SerialChain.forward_kinematics', 'SerialChain.get_joint_parameter_names'])

p('C08', 'Joint values mean the same however passed; incomplete ones are refused',
  'Forward kinematics and the Jacobian give the same result for the same joint values passed as a tensor, an array, a list or a dictionary keyed by joint name, with or without batch dimension; a dictionary places every value in the column of the joint it names whatever its own order. '
  'A dictionary that omits a joint, names an unknown joint, or an input with the wrong number of joints is refused with an error, never filled in silently.',
  ['inputs'], 'all input types, key orders, batch sizes and missing or extra joints',
  'Tests use one or two forms per robot; missing or reordered keys are hardly exercised.',
  ['chain.py'],
  [('conversion to tensor', 'chain.py:Chain.ensure_tensor'), ('serial inputs', 'chain.py:SerialChain.convert_serial_inputs_to_chain_inputs')],
  ['Chain.forward_kinematics', 'SerialChain.forward_kinematics', 'SerialChain.jacobian'])

p('C09', 'A model moved to another dtype or device is moved completely',
  'After moving a robot model, frame, link, joint or transform to a dtype or device, every tensor it holds and every tensor it later computes or returns is on that device, and every floating-point one has that dtype; nothing computed before the move is returned afterwards. '
  'A chain built for a dtype and device creates all its tensors there, and moving never changes a value other than by conversion.',
  ['histories', 'configurations'], 'all sequences of construction, use and conversion, all dtypes and devices',
  'The tests run on the CPU, where a tensor left behind on the old device goes unnoticed, and convert only once, before first use.',
  ['chain.py', 'frame.py', 'transforms/transform3d.py'],
  [('conversion', 'chain.py:Chain.to, SerialChain.to, frame.py:Frame.to/Link.to/Joint.to, transform3d.py:Transform3d.to')],
  ['Chain.to', 'SerialChain.to', 'Frame.to', 'Transform3d.to'])

p('C10', 'Batch elements are independent',
  'In every batched operation (forward kinematics, Jacobians, transforms, rotation conversions, quaternion operations, inverse kinematics steps), the result for one batch element depends only on that element\'s inputs. '
  'Evaluating a batch gives the same values as evaluating its elements one at a time.',
  ['inputs'], 'all batch sizes and contents',
  'Tests compare batches only against stored outputs; cross-talk needs a batch mixing special and ordinary elements (close and far quaternions, small and large angles).',
  ['transforms/rotation_conversions.py', 'transforms/math.py', 'transforms/so3.py', 'transforms/transform3d.py', 'chain.py', 'ik.py'],
  [('elementwise and batched tensor operations', 'every function taking a leading batch dimension')], None)

p('C11', 'Operations do not modify their arguments',
  'No conversion, quaternion, transform, forward kinematics, Jacobian, clamping or inverse kinematics call changes the contents of a tensor, array, list, dictionary, transform or robot model it was given. '
  'Calling it again with the same arguments therefore gives the same result.',
  ['inputs', 'histories'], 'all calls and argument values, repeated in any order',
  'Tests pass fresh inputs and look at outputs only; a write through a view of the caller\'s tensor is not observed.',
  ['transforms/rotation_conversions.py', 'transforms/math.py', 'transforms/so3.py', 'transforms/transform3d.py', 'transforms/perturbation.py', 'chain.py', 'frame.py', 'ik.py'],
  [('functional style: results written into fresh tensors', 'all public functions')], None)

p('C12', 'Rotation conversions between matrices, quaternions and axis-angle agree',
  'Converting between rotation matrices, real-first quaternions, axis-angle vectors and (axis, angle) pairs always describes the same right-handed rotation: a quaternion or axis-angle vector converts to the matrix given by its defining formula (whatever the quaternion\'s length), and converting a rotation matrix to a quaternion gives one that converts back to it, also for half-turns. '
  'An axis-angle vector and its quaternion keep the same direction and angle, including for angles near zero.',
  ['inputs'], 'all rotations, including identity, half-turns, very small angles and non-unit quaternions',
  'Tests use random rotations; each special branch (largest component, small angle) is hit rarely or never, and a wrong element in one branch is not seen.',
  ['transforms/rotation_conversions.py'],
  [('conversions', 'rotation_conversions.py:quaternion_to_matrix, matrix_to_quaternion, axis_angle_to_quaternion, quaternion_to_axis_angle, axis_and_angle_to_matrix_33')], None)

p('C13', 'Euler angle conversions follow the named convention',
  'For each of the twelve three-letter conventions, converting angles to a matrix gives the product, left to right, of the elementary rotations about the named axes, and converting a matrix back gives angles that reproduce it. '
  'Roll-pitch-yaw to quaternion conversion gives the rotation of its named axis sequence for every one of its twenty-four sequences. '
  'An invalid convention or wrongly shaped input is refused.',
  ['inputs', 'configurations'], 'all conventions, all angles away from gimbal lock, all batch shapes',
  'Tests cover few conventions, mostly as round trips in which two matching mistakes cancel.',
  ['transforms/rotation_conversions.py'],
  [('Euler conversions', 'rotation_conversions.py:euler_angles_to_matrix, matrix_to_euler_angles, quaternion_from_euler')], None)

p('C14', 'Quaternion algebra',
  'Quaternion multiplication is the Hamilton product (real part first) and its standardised form differs from it at most by an overall sign that makes the real part non-negative; inversion of a unit quaternion is its conjugate; applying a quaternion to a point rotates it as the corresponding matrix does. '
  'Reordering between real-first and real-last quaternions is exact and each is the inverse of the other.',
  ['inputs'], 'all quaternions, points and batch shapes',
  'A sign or component swap can cancel in the round trips and self-compositions the tests use.',
  ['transforms/rotation_conversions.py'],
  [('quaternion functions', 'rotation_conversions.py:quaternion_raw_multiply, quaternion_multiply, quaternion_invert, quaternion_apply, standardize_quaternion, xyzw_to_wxyz, wxyz_to_xyzw')], None)

p('C15', 'Six- and nine-number pose encodings',
  'The six-number encoding of a rotation is its first two rows; decoding any two independent three-vectors gives the rotation whose rows are their Gram-Schmidt orthonormalisation completed right-handedly. '
  'The nine-number pose encoding appends the translation, and the position plus quaternion encoding stores translation and real-last quaternion; decoding an encoded pose restores it.',
  ['inputs'], 'all poses and all independent vector pairs, all batch shapes',
  'Tests check few or no poses for these encodings; several are not covered at all.',
  ['transforms/rotation_conversions.py'],
  [('encodings', 'rotation_conversions.py:rotation_6d_to_matrix, matrix_to_rotation_6d, matrix44_to_se3_9d, se3_9d_to_matrix44, matrix_to_pos_rot, pos_rot_to_matrix')], None)

p('C16', 'Rigid transform algebra',
  'Composing transforms multiplies their matrices in the order given, so the composite applied to a point equals applying the last one first; a single transform broadcasts against a batch. '
  'The inverse of a rigid, translating, rotating or scaling transform composed with it is the identity, points are transformed as matrix times homogeneous point, and normals by the inverse transpose. '
  'Stacking, indexing and cloning preserve each matrix, in order.',
  ['inputs', 'histories'], 'all rigid transforms, points and normals, batch sizes, and sequences of compositions',
  'Tests follow the upstream library\'s examples: a few transforms and points; batch broadcasting and inverse of composites are sparsely sampled.',
  ['transforms/transform3d.py'],
  [('composition, inverse, application', 'transform3d.py:Transform3d.compose, inverse, transform_points, transform_normals, stack, _broadcast_bmm')], None)

p('C17', 'Transforms are built from exactly what was given',
  'A transform built from a position and/or a rotation (quaternion, XYZ Euler angles or matrix) or from a matrix has exactly that translation and rotation, for single and batched inputs; translation, scaling, rotation and axis-rotation transforms have the standard matrix for their arguments, with angles in degrees unless radians are asked for. '
  'The matrix has the requested dtype and the reported dtype is that of the matrix; invalid shapes are refused.',
  ['inputs', 'configurations'], 'all accepted combinations of arguments, shapes and dtypes',
  'Tests cover few combinations, nearly all in single precision.',
  ['transforms/transform3d.py'],
  [('constructors', 'transform3d.py:Transform3d, Translate, Scale, Rotate, RotateAxisAngle')], None)

p('C18', 'Rotation group exponential, logarithm and hat maps',
  'The hat of a vector is the skew matrix that takes cross products with it and the inverse map undoes it; the exponential of a vector is the rotation about it by its length; the logarithm of a rotation is the vector whose exponential it is, for angles below a half-turn. '
  'The relative angle of two rotations is the angle of the first times the inverse of the second, the cosine variant returns its cosine, and wrongly shaped or non-skew, non-rotation inputs are refused.',
  ['inputs'], 'all vectors and rotations with angle below a half-turn, all batch sizes',
  'Tests use random rotations and generous tolerances.',
  ['transforms/so3.py', 'transforms/math.py'],
  [('maps', 'so3.py:hat, hat_inv, so3_exp_map, so3_log_map, so3_rotation_angle, so3_relative_angle')], None)

p('C19', 'URDF robots are loaded with their stated geometry',
  'Loading a URDF gives the tree of its links and joints with, for each joint, its name, its type (continuous as an unlimited revolute, floating and planar refused or treated as stated), the unit axis, the origin as translation after roll-pitch-yaw rotation about fixed axes, and its position, velocity and effort limits where it has them and none where it does not. '
  'Visual shapes keep their origin, type and size, and a serial chain loaded directly equals the one cut from the loaded robot.',
  ['inputs'], 'all URDF documents with supported joint types',
  'Tests load a few robots and compare forward kinematics at a few configurations; non-trivial rotations about several axes, continuous limits and visuals are rarely covered.',
  ['urdf.py', 'urdf_parser_py/urdf.py'],
  [('conversion', 'urdf.py:_convert_transform, _convert_joint, _convert_visual, _build_chain_recurse, build_chain_from_urdf, build_serial_chain_from_urdf')], None)

p('C20', 'SDF robots are loaded with their stated geometry',
  'Loading an SDF gives the tree of its links and joints with, for each joint, its name, type, unit axis and limits where it has them; poses (x y z roll pitch yaw) are translations after the rotation Rz(yaw) Ry(pitch) Rx(roll). '
  'A child\'s joint placement is relative to its parent as the model states, visual shapes keep their pose, type and size, and a serial chain loaded directly equals the one cut from the loaded robot.',
  ['inputs'], 'all SDF documents with supported joint types',
  'The only SDF test robot has no non-trivial rotations.',
  ['sdf.py', 'urdf_parser_py/sdf.py'],
  [('conversion', 'sdf.py:_convert_transform, _convert_visual, _build_chain_recurse, build_chain_from_sdf, build_serial_chain_from_sdf')], None)

p('C21', 'MJCF robots are loaded with their stated geometry',
  'Loading an MJCF model gives the tree of its bodies with each body\'s position and real-first quaternion as offset from its parent, each hinge or slide joint with its name, unit axis and range limits if limited (none otherwise), and a fixed connection for a body without joints. '
  'Bodies with several joints are refused rather than loaded wrongly, and unsupported joint types are an error.',
  ['inputs'], 'all MJCF models in the supported subset',
  'Tests load a few models; joint limits and multi-joint bodies are hardly checked.',
  ['mjcf.py'],
  [('conversion', 'mjcf.py:_build_chain_recurse, body_to_geoms, build_chain_from_mjcf, build_serial_chain_from_mjcf')], None)

p('C22', 'Robot description elements are parsed into the fields they name',
  'Every attribute and child element declared for a URDF or SDF element is read into, and only into, the like-named field of the object, with its declared type; numbers and vectors keep their value and order. '
  'A required attribute or element that is missing, a vector of the wrong length, or a document of another root type is refused with an error.',
  ['inputs'], 'all URDF and SDF documents',
  'Tests parse complete, valid robots only; which attributes are optional and what happens when one is missing is never exercised.',
  ['urdf_parser_py/urdf.py', 'urdf_parser_py/sdf.py', 'urdf_parser_py/xml_reflection/core.py', 'urdf_parser_py/xml_reflection/basics.py'],
  [('reflection tables', 'urdf_parser_py/urdf.py and sdf.py: xmlr.reflect calls'), ('reflection engine', 'xml_reflection/core.py:Reflection, Attribute, Element, ValueType')], None)

p('C23', 'Inverse kinematics results describe the configurations they come with',
  'In the result of a solve, the position and rotation errors stored for an attempt are those of the stored configuration, an attempt is flagged converged exactly when both stored errors are below their tolerances, and a problem is flagged solved when at least one of its attempts is. '
  'Once an attempt has converged, later iterations never replace its configuration or errors.',
  ['inputs', 'histories'], 'all targets, tolerances, retry counts and iteration histories',
  'Tests check that most problems converge; whether flags, errors and configurations stay consistent for the others, or after convergence, is not checked.',
  ['ik.py'],
  [('result bookkeeping', 'ik.py:IKSolution.update')], ['PseudoInverseIK.solve'])

p('C24', 'Inverse kinematics respects joint limits when asked to',
  'With limit enforcement on, every returned configuration lies within the chain\'s limits; bringing it there first moves revolute joints by whole turns only, leaves prismatic joints unwrapped and leaves joints without finite limits finite. '
  'After enforcement the errors and flags are re-evaluated for the enforced configurations; with clamping on, every configuration reached by a step lies within the limits.',
  ['inputs', 'configurations'], 'all chains, limits (finite, one-sided, absent), targets and settings',
  'Tests use robots whose joints all have finite limits and are all revolute.',
  ['ik.py'],
  [('wrapping and clamping', 'ik.py:PseudoInverseIK._wrap_revolute_joints, _enforce_limits, solve')], ['PseudoInverseIK.solve'])

p('C25', 'The inverse kinematics step is weighted damped least squares on the pose error',
  'The pose error is target position minus current position, and the rotation vector of target orientation times inverse of current orientation, both in the base frame, for each attempt against its own problem\'s target. '
  'The joint step is J^T (J J^T + (lambda + mu) I)^-1 e with weighted Jacobian and error and mu the damping times the squared weighted error; the decomposition-based variant computes the same step, and the reported error is unweighted.',
  ['inputs'], 'all poses, targets, Jacobians, weights, damping values and batch layouts',
  'Tests look only at whether solves converge, which survives a wrong damping, weight or even sign in part of the error.',
  ['ik.py', 'transforms/rotation_conversions.py'],
  [('step kernels', 'ik.py:_ik_step_kernel, _ik_step_kernel_svd, delta_pose')], ['PseudoInverseIK.solve', 'PseudoInverseIKWithSVD.solve', 'delta_pose'])

p('C26', 'Each inverse kinematics solve is bounded and independent of earlier ones',
  'A solve performs at most the configured number of iterations, starts from the given or sampled initial configurations, every attempt of every problem from its own, and does not depend on any earlier solve with the same solver. '
  'Stopping early happens only when no problem is left that its settings say is worth continuing, and a solved or given-up problem is not revived.',
  ['histories', 'inputs', 'configurations'], 'all sequences of solves on one solver, all shapes of initial configurations, all stopping settings',
  'Tests run one solve per solver with one stopping setting.',
  ['ik.py'],
  [('solve loop', 'ik.py:PseudoInverseIK.solve'), ('state reset', 'ik.py:InverseKinematics.clear'), ('remaining mask', 'ik.py:IKSolution.update_remaining_with_keep_mask')], ['PseudoInverseIK.solve'])

p('C27', 'Tensor-level kernels can be compiled as a single graph',
  'Forward kinematics on tensors, the tensor Jacobian and the inverse kinematics step contain no data-dependent Python branching, host synchronisation or object construction that would break graph capture, on any path reachable from them.',
  ['configurations', 'programs'], 'all call paths of the tensor-level entry points',
  'Tests compile with one robot and one set of options; other option paths are not compiled.',
  ['chain.py', 'ik.py', 'transforms/rotation_conversions.py'],
  [('tensor-only kernels', 'chain.py:_fk_impl, forward_kinematics_tensor, jacobian_tensor; ik.py:_ik_step_kernel')], None)

p('C28', 'Results stay differentiable with respect to tensor inputs',
  'Forward kinematics, Jacobians, transforms built from tensors and rotation conversions propagate gradients from every floating-point tensor input to the outputs computed from it; no step silently detaches, copies through host values or disables gradients. '
  'At inputs where a guarded small-angle formula is selected, the gradient is finite.',
  ['inputs', 'programs'], 'all differentiable entry points and inputs, including zero rotation',
  'Tests back-propagate through few entry points at generic inputs.',
  ['chain.py', 'frame.py', 'transforms/transform3d.py', 'transforms/rotation_conversions.py', 'transforms/math.py', 'transforms/so3.py'],
  [('pure tensor expressions', 'all conversions and kernels')], None)

p('C29', 'Model queries agree with the tree',
  'Listing joints, links, frames and their names visits every element of the tree exactly once in depth-first order, with fixed joints left out exactly when asked; looking up a frame, link or joint by name finds it anywhere in the tree and returns nothing when it does not exist. '
  'Frame indices returned for names are, in order, the positions of those frames in the forward kinematics result, and frames built with children keep them.',
  ['programs', 'inputs'], 'all trees and names',
  'Tests query few names of few robots and mostly with default arguments.',
  ['chain.py', 'frame.py'],
  [('tree traversals', 'chain.py:Chain.find_frame, find_link, find_joint, get_joints, get_links, get_frame_names, get_frame_indices, get_joints_and_child_links')], None)

p('C30', 'Joint limits are reported and applied as given',
  'The reported lower and upper limits for position, velocity and effort are those stored for each joint, minus and plus infinity where a joint has none; clamping a configuration moves each joint value to the nearest value within its own limits and leaves values already inside unchanged.',
  ['inputs', 'programs'], 'all robots and configurations, limited, one-sided and unlimited joints',
  'Tests check limits on few robots in which all joints are limited.',
  ['chain.py', 'frame.py'],
  [('limits', 'chain.py:Chain._get_joint_limits, Chain.clamp; frame.py:Joint.clamp')], ['Chain.clamp', 'Chain.get_joint_limits', 'Joint.clamp'])

p('C31', 'Sampled perturbations are rigid and centred on the given pose',
  'Every perturbed pose keeps the given translation plus a random displacement scaled by the translation spread, and the given rotation preceded by a rotation about a random or given unit axis with an angle scaled by the angle spread. '
  'With a given axis and a perpendicular displacement requested, the displacement has no component along the axis; zero spreads return the pose itself.',
  ['inputs'], 'all poses, spreads, axes and sample counts',
  'Tests look at sampled statistics for a few poses.',
  ['transforms/perturbation.py', 'transforms/transform3d.py'],
  [('sampling', 'perturbation.py:sample_perturbations')], None)

p('C32', 'Quaternion interpolation and distance',
  'Interpolating two unit quaternions gives the first at 0, the second up to sign at 1, and at t the shortest-arc spherical interpolation; the angular distance is the angle of the rotation between them (zero for nearly equal rotations), symmetric and unaffected by the sign of either. '
  'The extended arc cosine equals the arc cosine inside its bounds and continues linearly, with equal value and slope, outside.',
  ['inputs'], 'all pairs of unit quaternions, all t, all batches',
  'Tests use single pairs and compare a few values.',
  ['transforms/math.py'],
  [('quaternion interpolation and distance', 'math.py:quaternion_slerp, quaternion_angular_distance, acos_linear_extrapolation')], None)

p('C33', 'Inverse kinematics converges for reachable targets',
  'For a target the robot can reach, inverse kinematics with enough attempts and iterations finds a configuration within tolerance.',
  ['inputs'], 'all reachable targets of all robots',
  'Tests sample one robot and accept a success rate.',
  ['ik.py'], [('iterative solver', 'ik.py:PseudoInverseIK.solve')], None)

p('C34', 'Results are accurate to working precision',
  'Forward kinematics, Jacobians and conversions are accurate to a small multiple of the working precision for all inputs, without overflow, cancellation or loss near singular configurations.',
  ['inputs'], 'all floating-point inputs', 'Tests compare at loose tolerances on generic inputs.',
  ['chain.py', 'transforms/rotation_conversions.py'], [('floating-point evaluation', 'all kernels')], None)

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P))
