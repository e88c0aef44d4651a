#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))
G = "gconv/geometry/groups/"
K = "gconv/gnn/kernels/"
M = "gconv/gnn/modules/"

p("C01", "Group laws hold for products, inverses and determinants",
  "For planar and spatial rotations in every parameterization that has a product, with or without the reflection coefficient, products of valid elements are valid elements, products are associative, an element times its inverse is the identity on either side, and determinants multiply. "
  "The pairwise product of two lists is the table of the single products with the first list as rows, and broadcasting gives the same as applying the operation one element at a time. "
  "None of these operations changes its arguments.",
  ["inputs", "programs"], "all elements, all sequences of products and inverses, all batch and broadcast shapes",
  "The stable tests never call the group operations directly; the group test files only check shapes on one grid and do not even import. Laws are claims about all pairs and triples.",
  [G+"so2.py", G+"o2.py", G+"so3.py", G+"o3.py"],
  [("left_apply_angle / left_apply_to_angle / inverse_angle / inverse_matrix", G+"so2.py"),
   ("left_apply_angle / left_apply_to_angle / inverse / det", G+"o2.py"),
   ("left_apply_matrix / left_apply_to_matrix / left_apply_quat / matrix_inverse / quat_inverse", G+"so3.py"),
   ("left_apply_O3 / left_apply_to_O3 / inverse / det", G+"o3.py")],
  observe=["return values of the group operations"])

p("C02", "Acting on vectors is a group action",
  "Applying a group element to a grid of vectors is a linear isometry; acting with a product equals acting with the right factor and then the left one, the identity leaves every vector alone, and the inverse undoes the element. "
  "Whether the map preserves or reverses orientation agrees with the determinant the library reports. "
  "Applying a list of elements to a grid returns, for each element in order, the whole transformed grid in its original layout.",
  ["inputs"], "all elements, all vectors, all grid shapes, all lists of elements",
  "No stable test looks at a single transformed coordinate; a wrong sign or a transposed matrix still gives the right shape.",
  [G+"so2.py", G+"o2.py", G+"so3.py", G+"o3.py"],
  [("left_apply_angle_to_R2, left_apply_matrix_to_R2", G+"so2.py"), ("left_apply_to_R2, det", G+"o2.py"),
   ("left_apply_to_R3", G+"so3.py"), ("left_apply_to_R3, det", G+"o3.py")],
  observe=["return values of the action functions"])

p("C03", "All parameterizations of an element denote the same transformation",
  "Converting a rotation or a direction between angle, vector, matrix, quaternion, Euler and spherical parameterizations never changes the rotation or direction it denotes, and converting back returns the same one. "
  "This includes the identity, half turns, quarter turns about the coordinate axes and gimbal-locked Euler angles, and holds entry by entry for inputs with any leading batch shape.",
  ["inputs"], "all rotations and directions including the degenerate ones, all batch shapes",
  "Stable tests only reach the conversions through random or tabulated grids and never compare a converted value; the degenerate branches need exact special elements.",
  [G+"so3.py", G+"so2.py", G+"s2.py"],
  [("matrix_to_quat, quat_to_matrix, matrix_to_euler, euler_to_matrix, quat_to_euler, euler_to_quat, matrix_x/y/z", G+"so3.py"),
   ("angle_to_matrix, angle_to_euclid", G+"so2.py"),
   ("spherical_to_euclid, euclid_to_spherical, spherical_to_euler, spherical_to_euler_neg_gamma", G+"s2.py")],
  observe=["return values of the conversion functions"])

p("C04", "Named finite rotation groups are exactly the groups they name",
  "The identity, Klein, tetrahedral, octahedral, icosahedral and cyclic grids contain unit quaternions of pairwise different rotations, in the number their name promises, are closed under product and inverse, and contain the identity. "
  "A cyclic grid of n elements consists of the rotations by multiples of a full turn over n about the requested axis, in order, for either spelling of the axis, and any other axis is rejected.",
  ["inputs", "configurations"], "every named group, every pair of its elements, every cyclic order and axis",
  "No test touches these tables; one wrong sign in one of 60 rows leaves shape and norms intact.",
  [G+"so3.py"],
  [("identity, klein_group, tetrahedral, octahedral, icosahedral, cyclic, cyclic_x/y/z", G+"so3.py")],
  observe=["return values of the grid functions"])

p("C05", "Distances and logarithms measure the relative rotation",
  "The geodesic distance between two elements is the angle of the rotation taking one to the other (half that angle for spatial rotations): it is symmetric, does not depend on which quaternion sign or angle period represents an element, and is unchanged when both elements are multiplied by a third on either side. "
  "The nearest-neighbour distance of each grid element is its distance to the closest other element of the grid. "
  "The logarithm of a rotation points along its axis and has its angle as length (half the angle for quaternions), for every angle from zero to a half turn.",
  ["inputs"], "all pairs of elements, all grids, all angles up to a half turn",
  "Stable tests never evaluate a distance or logarithm; kernel widths derived from them only show up as numbers no test looks at.",
  [G+"so2.py", G+"so3.py", G+"s2.py"],
  [("geodesic_distance, geodesic_distance_euclid, nearest_neighbour_distance", G+"so2.py"),
   ("geodesic_distance, nearest_neighbour_distance, so3_log, quaternion_log", G+"so3.py"), ("geodesic_distance_s2", G+"s2.py")],
  observe=["return values of the distance and logarithm functions"])

p("C06", "Generated grids hold the requested number of valid, distinct elements",
  "A uniform or random grid of a given size has exactly that many elements, each a valid element of the group in the requested parameterization and documented range, and a grid with reflections lists all requested rotations first and then all requested reflections, with either count allowed to be zero. "
  "Uniform planar grids are equally spaced starting at the identity, uniform spatial and spherical grids keep their elements well apart, all parameterizations are available for every size, and unsupported parameterizations are rejected. "
  "Random grids cover the whole group, reflections included, and random shapes are honoured.",
  ["inputs", "configurations"], "all sizes, parameterizations, (rotation, reflection) counts and random seeds",
  "Stable tests request two or three sizes and only look at shapes.",
  [G+"so2.py", G+"o2.py", G+"so3.py", G+"o3.py", G+"s2.py", G+"_grid_cache.py"],
  [("uniform_grid, random_grid", G+"so2.py"), ("uniform_grid, random_grid", G+"o2.py"), ("uniform_grid, random_quat, random_matrix, random_euler", G+"so3.py"),
   ("uniform_grid, random_grid", G+"o3.py"), ("random_s2, uniform_grid_s2", G+"s2.py"), ("table of precomputed grids", G+"_grid_cache.py")],
  observe=["return values of the grid functions"])

p("C07", "Cached grids are stable and isolated from their users",
  "Once a grid of some size and parameterization is available from the cache, every later request returns the same values in that parameterization, whatever callers did to grids they received earlier and whatever models built on them did, including in-place modification and loading of model state. "
  "A grid that was generated with caching enabled is returned unchanged by later requests for the same size and parameterization, does not disturb other sizes or parameterizations, and is only replaced when overwriting is asked for. "
  "Without caching enabled, generating a grid leaves the cache as it was.",
  ["histories"], "all interleavings of requests, caching requests, saves, in-place modifications by callers, model construction and state loading",
  "Needs multi-step histories; the tests request each grid once and never modify one.",
  [G+"_grid_cache.py", G+"so3.py", K+"kernel.py"],
  [("save_grid, load_grid", G+"_grid_cache.py"), ("uniform_grid(cache_grid=...)", G+"so3.py"), ("reference grids registered as module buffers", K+"kernel.py")],
  state=[("grid cache", "size and parameterization to grid", G+"_grid_cache.py")],
  observe=["so3.uniform_grid results over time"])

p("C08", "Sampling a signal on the group interpolates it",
  "Sampling at an element where the signal is defined returns the signal there; nearest mode always returns the value at the closest grid element, the RBF mode is linear in the signal and depends only on distances, and barycentric sampling is a convex combination of the values at the three closest points. "
  "Each query is answered independently of the other queries and in query order, and relabelling the signal grid together with its signal changes nothing. "
  "With reflections, rotations are sampled only from the rotation part and reflections only from the reflection part, in whatever order they are mixed, and unknown modes are rejected.",
  ["inputs", "configurations"], "all grids, signals, queries, orders, widths and (rotation, reflection) splits",
  "Stable tests run sampling inside layers without looking at any value.",
  ["gconv/geometry/interpolation.py", G+"so2.py", G+"o2.py", G+"so3.py", G+"o3.py"],
  [("interpolate_RBF, interpolate_NN, interpolate_BCC, RBF_gauss", "gconv/geometry/interpolation.py"), ("grid_sample", G+"so2.py, so3.py, o2.py, o3.py")],
  observe=["return values of grid_sample and interpolate_*"])

p("C09", "Spatial reference grids and masks are centred and symmetric",
  "The spatial reference grid of any size covers the cube or square from -1 to 1 uniformly, contains the origin for odd sizes (size one included), and is mapped onto itself by every axis permutation and axis flip. "
  "The spherical mask is the 0/1 indicator of the grid points within its radius: it is invariant under the same symmetries, keeps the centre and drops the corners for every size where they lie outside. "
  "A layer or kernel applies the mask exactly when it is asked to, for every group.",
  ["inputs", "configurations"], "all kernel sizes, both dimensions, mask on and off, every kernel and layer type",
  "Stable tests use kernel sizes 3 and 5 and never look at mask values or at mask=False.",
  ["gconv/gnn/functional/grid.py", "gconv/gnn/functional/mask.py", K+"kernel_sen/", K+"kernel_en/"],
  [("create_grid_R2, create_grid_R3", "gconv/gnn/functional/grid.py"), ("create_spherical_mask_R2, create_spherical_mask_R3", "gconv/gnn/functional/mask.py"), ("mask option of the kernels", K+"kernel_sen/, "+K+"kernel_en/")],
  observe=["returned grids and masks", "sampled kernels with mask on and off"])

p("C10", "Sampled kernels are the reference kernel moved by the group",
  "The kernel a layer uses between an input element and an output element depends on the pair only through their relative element: its group part is the stored group signal sampled there, and its spatial part is the stored spatial kernel sampled at positions moved by the inverse of the output element, masked and divided by the output element's determinant. "
  "Multiplying all input and output elements by one common element leaves the group part unchanged. "
  "This holds for lifting, separable, subgroup and full kernels of every group, for any numbers of input and output elements (equal or not), channels and channel groups, and each entry lands at the output channel, output element, input channel and input element it belongs to.",
  ["inputs", "configurations"], "all kernel types, groups, element lists of any lengths, channel counts, channel groups, kernel sizes, sampling modes and parameters",
  "Stable tests check shapes of SE(3) kernels for one equal-sized input and output grid; no sampled value is ever compared.",
  [K+"kernel.py", K+"kernel_sen/", K+"kernel_en/"],
  [("forward of the lifting, separable, subgroup and full kernels", K+"kernel.py"), ("choice of group operations and default sampling widths", K+"kernel_sen/, "+K+"kernel_en/")],
  state=[("weight, weight_H", "trainable signals on the reference grids", K+"kernel.py"), ("grid_H, grid_Rn, mask", "reference grids", K+"kernel.py")],
  observe=["return values of kernel modules"])

p("C11", "Layers compute the group convolution with the declared geometry",
  "The output of every lifting, separable and full group convolution equals the convolution of its input with the kernel sampled for the given elements, summed over input channels of the same channel group and over all input elements, plus one bias per output channel. "
  "Stride, dilation, padding amount, 'same'/'valid' padding and every padding mode act exactly once and exactly as in an ordinary convolution of that kernel size, in two and three dimensions, so separable and full layers with the same geometry produce outputs of the same shape.",
  ["inputs", "configurations"], "all inputs, parameters, layer types, groups, strides, paddings, padding modes, dilations, channel groups, bias on or off and element counts",
  "Stable tests use stride 1, padding='same', zeros padding, groups=1 and compare shapes only.",
  [M+"gconv.py", M+"gconv_sen/", M+"gconv_en/"],
  [("_conv2d_forward, _conv3d_forward, padding setup in GroupConvNd.__init__", M+"gconv.py"), ("forward of GLiftingConvNd, GSeparableConvNd, GConvNd", M+"gconv.py")],
  observe=["layer outputs", "kernels sampled by the layer's kernel module"])

p("C12", "Layers and networks are equivariant to the symmetries of their group",
  "Transforming the spatial input by a symmetry of the pixel or voxel lattice that belongs to the layer's group, together with the group grids, transforms the output feature maps the same way, up to the determinant of the symmetry by which kernels are normalised; translations away from the border translate the output. "
  "Reordering the elements of an input grid together with the feature maps changes nothing, and reordering the output grid reorders the output. "
  "Consequently global pooling after lifting and group convolution layers gives features that do not change when the input is rotated.",
  ["inputs", "configurations"], "all inputs, parameters, lattice symmetries, group grids, layer types and stacks of layers",
  "The only equivariance test draws pictures and asserts nothing.",
  [M+"gconv.py", K+"kernel.py", G, M+"pooling.py"],
  [("kernels indexed by inverse(out) * in", K+"kernel.py"), ("forward of the convolution layers", M+"gconv.py"), ("global pooling", M+"pooling.py")],
  observe=["layer and network outputs on transformed inputs"])

p("C13", "The returned group grid is the one the features are defined on",
  "Every convolution layer returns, next to its features, the list of group elements they belong to: evaluating the layer without random permutation on exactly that list reproduces the same features. "
  "With random permutation off the returned list is the requested one, or the layer's default when none is requested; with it on, the returned list is the requested or default one multiplied from the left by one single valid group element, freshly drawn for each call, reflections included where the group has them. "
  "Requested grids are never modified.",
  ["inputs", "histories", "configurations"], "all layers, requested grids, random draws and repeated calls",
  "Stable tests check only that the grid is unchanged with permutation off.",
  [M+"gconv_sen/", M+"gconv_en/", M+"gconv.py"],
  [("forward of the concrete layers (grid defaults and permutation)", M+"gconv_sen/, "+M+"gconv_en/")],
  observe=["(features, grid) pairs returned by layers"])

p("C14", "Pooling reduces exactly the dimensions it names",
  "Spatial pooling of a lifted feature map equals ordinary pooling applied separately to every channel and group element, for max, average and adaptive variants in two and three dimensions, and returns the group grid unchanged; group pooling reduces only the group dimension and global pooling the group and all spatial dimensions, to the maximum or mean as named. "
  "Every pooling module returns tensors, never auxiliary tuples, and group and global pooling do not depend on the order of the group elements.",
  ["inputs", "configurations"], "all inputs, window sizes, strides, target sizes, dimensions and group sizes",
  "No test calls a pooling module.",
  [M+"pooling.py"], [("all pooling modules", M+"pooling.py")], observe=["pooling outputs"])

p("C15", "Normalisation, activation and wrapped modules respect the group structure",
  "Activations and wrapped element-wise modules apply the underlying function to every entry and return the group grid unchanged. "
  "Batch and instance normalisation share one statistic and one affine pair per channel across the group and all spatial dimensions (per sample for instance normalisation), so they commute with any reordering of group elements and with spatial lattice symmetries, and in evaluation mode batch normalisation uses the running statistics; layer normalisation normalises exactly the trailing dimensions it is given. "
  "All of them preserve the shape of their input.",
  ["inputs", "histories", "configurations"], "all inputs, training and evaluation histories, affine parameters, dimensions and wrapped modules",
  "No test calls a normalisation, activation or wrapper module.",
  [M+"normalization.py", M+"activations.py", M+"wrappers.py"],
  [("GBatchNorm*, GInstanceNorm*, GLayerNorm", M+"normalization.py"), ("GReLU, GGELU, GLeakyReLU", M+"activations.py"), ("GWrap", M+"wrappers.py")],
  observe=["module outputs and running statistics"])

p("C16", "Every well-typed network runs and keeps features and grid in step",
  "Any sequence of modules in which a lifting layer is followed by group convolutions, activations, normalisations, spatial poolings and at the end possibly group or global pooling of the same dimension runs without error, whatever the sizes of the group grids involved. "
  "After each module the feature map has exactly the batch, channel, group and spatial sizes that the module's declared geometry implies, the number of elements in the returned grid equals the group size of the features, and all values are finite.",
  ["programs", "configurations"], "all module sequences, groups and configurations",
  "Stable tests run single layers; no test composes two modules.",
  [M, K], [("all modules exported by gconv.gnn", "gconv/gnn/modules/__init__.py")], observe=["(features, grid) after every module"])

p("C17", "Saved models restore exactly and models do not affect each other",
  "Loading the state saved from a model into another model built with the same arguments makes the two compute the same function, including when the group grid was generated at random. "
  "Training, modifying, loading or moving one model never changes the parameters, grids or outputs of another model, of a copy taken earlier, of a saved state, or of a grid passed in by the user, even when both were built from the same grid. "
  "Copies and pickled models compute the same function as the original.",
  ["histories"], "all interleavings of building, copying, saving, loading, training and modifying models",
  "Needs multi-model histories; tests build a model, call it once and drop it.",
  [K+"kernel.py", M+"gconv.py", G+"_grid_cache.py"],
  [("parameters and registered buffers", K+"kernel.py"), ("sampling widths derived from the grid", K+"kernel_sen/, "+K+"kernel_en/")],
  state=[("grid_H, grid_Rn, mask, weight, weight_H, bias", "model state", K+"kernel.py"), ("sample_H_kwargs", "sampling width", K+"kernel.py")],
  observe=["state dicts, outputs and user tensors after each step"])

p("C18", "Results of one sample, channel group or call do not leak into another",
  "The output for one batch item does not depend on the other items, and the output of one channel group depends only on the input channels and parameters of that group. "
  "Calling a layer with permutation off any number of times, in any order and with other calls in between, always gives the same result for the same input, grids and parameters. "
  "No call changes its input tensors, the given grids or the model's parameters and buffers.",
  ["inputs", "histories"], "all inputs, batch compositions, channel groupings and call sequences",
  "Stable tests call each layer once or twice with groups=1 and compare shapes.",
  [M+"gconv.py", K+"kernel.py"],
  [("reshape to channels x elements and grouped convolution", M+"gconv.py"), ("channel-major kernel layout", K+"kernel.py")],
  observe=["layer outputs, inputs and state before and after calls"])

p("C19", "Constructor options are honoured or rejected, never ignored",
  "Every layer accepts each documented value of its options and behaves accordingly: a provided reference grid replaces the default one and determines the group kernel size, an integer group kernel size means that many rotations and, where the group has them, as many reflections, a given sampling width is used as is and the default width is derived from the grid's element spacing, and sampling and padding modes are passed through. "
  "Configurations that cannot work (non-positive channel groups, channels not divisible by the channel groups, negative or empty group kernels, unknown padding strings or modes, 'same' padding with a stride) are rejected when the layer is built.",
  ["configurations"], "all option values and combinations for every layer",
  "Stable tests build a handful of valid configurations and no invalid one.",
  [M+"gconv.py", M+"gconv_sen/", M+"gconv_en/", K+"kernel_sen/", K+"kernel_en/"],
  [("validation in GroupConvNd.__init__", M+"gconv.py"), ("option handling in the concrete kernels", K+"kernel_sen/, "+K+"kernel_en/")],
  observe=["construction outcome, resulting kernel geometry and outputs"])

p("C20", "Repulsion spreads a grid without touching what it should not",
  "Running the repulsion optimiser returns a grid of the same shape whose elements are pairwise no closer than a crowded starting grid, with no gradient tracking left on. "
  "Unless in-place operation is requested, the given grid keeps its values; with it, the given grid holds the result. "
  "With zero steps the grid is returned unchanged, the number of steps, step size, metric, transform, energy and noise level given are the ones used, and without noise the result is a deterministic function of the input.",
  ["inputs", "histories", "configurations"], "all starting grids, step counts, metrics and in-place settings",
  "No test calls the optimiser directly; the tabulated grids bypass it for all tested sizes.",
  ["gconv/geometry/repulsion.py", G+"so3.py", G+"s2.py"],
  [("repulse, columb_energy", "gconv/geometry/repulsion.py")], observe=["returned grid and argument after the call"])

p("C21", "Custom groups get the same guarantees from the base classes",
  "A kernel or layer built from user-supplied group operations calls them only with the documented argument shapes and order, and computes the same sampled kernel and convolution as the built-in groups do, for any element parameterization, including groups whose determinant is not one, for which kernels are divided by the determinant. "
  "Optional parts left out (determinant, mask, sampling options) mean no division, no mask and default options.",
  ["inputs", "configurations"], "all user-supplied groups, element shapes, kernel types and dimensions",
  "Tests only use the built-in groups, none of which has a determinant other than plus or minus one.",
  [K+"kernel.py", M+"gconv.py", "gconv_tutorial.ipynb"],
  [("GroupKernel and subclasses", K+"kernel.py"), ("GLiftingConv2d/3d, GSeparableConv2d/3d, GConv2d/3d", M+"gconv.py")],
  observe=["arguments received by the user-supplied operations", "sampled kernels and layer outputs"])

p("C22", "Gradients reach every parameter and input they depend on",
  "Differentiating any function of a layer's output yields, for the input, each weight and the bias, exactly the derivative of the convolution formula: outputs are linear in the input and in each weight tensor separately and affine in the bias. "
  "This holds for all layer types, sampling modes, permutation on or off, and stacks of layers, and gradients are always finite.",
  ["inputs", "configurations"], "all inputs, parameters, layer types, options and stacks",
  "No test differentiates anything.",
  [K+"kernel.py", M+"gconv.py", "gconv/geometry/interpolation.py"],
  [("differentiable sampling of weights", K+"kernel.py"), ("differentiable convolution", M+"gconv.py")], observe=["gradients from autograd"])

p("C23", "Everything keeps and uses the precision it is given",
  "Group operations, kernels, layers and modules work in single and in double precision, whichever is the default: results, returned grids, gradients and parameters have the precision of the arguments or of the model, and grids made from nothing have the default precision in force when they are made. "
  "Double results agree with single ones and are accurate to double precision. No call fails because of the precision of a model or because the default precision was changed, before or after building, loading or converting it.",
  ["inputs", "histories"], "all operations, kernels, layers and grid makers, and all histories of changing the default precision, building, converting, loading, training and calling models",
  "Tests run in single precision only.",
  [G+"so2.py", G+"o2.py", G+"so3.py", G+"o3.py", G+"s2.py", "gconv/geometry/interpolation.py", K+"kernel.py", M+"gconv_sen/gconv_se2.py", M+"gconv_sen/gconv_se3.py", M+"gconv_en/gconv_e2.py", M+"gconv_en/gconv_e3.py"],
  [("new_empty, new_tensor in the group operations", G), ("random rotation of the output grid in the precision of the grid", M+"gconv_sen/gconv_se2.py")],
  observe=["precision and values of returned tensors, gradients and parameters"])

p("C24", "Models and operations work on every device",
  "Group operations, kernels, layers and modules work on the device of their arguments, and functions that make grids on the device they are asked for, returning tensors on that device that hold the same numbers as on the CPU. "
  "Models can be built, moved, loaded from a checkpoint of another device, trained and called on any device in any order: parameters and buffers move together, and no operation mixes devices.",
  ["inputs", "histories"], "all operations, kernels, layers and grid makers, and all histories of moving, loading, training and calling models on devices",
  "Tests run on the CPU only.",
  [G+"so2.py", G+"o2.py", G+"so3.py", G+"o3.py", G+"s2.py", "gconv/geometry/repulsion.py", K+"kernel.py", M+"gconv.py", "gconv/gnn/functional/grid.py", "gconv/gnn/functional/mask.py"],
  [("device arguments of grid makers", G), ("registered buffers for grids and masks", K+"kernel.py"), ("random rotation on the device of the input", M+"gconv_sen/gconv_se2.py")],
  observe=["device and values of returned tensors, parameters and buffers"])

p("C25", "Randomness comes only from torch's global generator",
  "Every result is a function of the arguments and of the state of torch's global generator: after the same seed, or after restoring a saved state, building layers, making grids, permuting output grids and repulsion give the same numbers, and from different states they give different ones. "
  "Operations that are documented as random advance the generator; all others (conversions, products, sampling, kernels, layers without permutation, finite and cached grids) leave it alone. No other source of randomness is read or changed, nothing is seeded behind the user's back, and every number returned or initialised is computed, never left over in memory.",
  ["histories", "inputs"], "all interleavings of seeding, saving, restoring and operations of the library",
  "Tests neither seed nor repeat anything.",
  [G+"so2.py", G+"o2.py", G+"so3.py", G+"o3.py", G+"s2.py", "gconv/geometry/repulsion.py", K+"kernel.py", M+"gconv.py", M+"gconv_sen/gconv_se2.py"],
  [("random grids", G), ("noise in repulse", "gconv/geometry/repulsion.py"), ("reset_parameters", K+"kernel.py"), ("random rotation of the output grid", M+"gconv_sen/gconv_se2.py")],
  observe=["state of torch's, numpy's and python's generators", "returned and initialised numbers"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
