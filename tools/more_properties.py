DI = TH + "disco/"
DK = DI + "optimized/kernels_cpu/"
prop("C09", "DISCO convolution computes the quadrature sum over the filter support",
     "For every basis, normalisation mode, grid pair, stride, channel grouping, cutoff and precision, the convolution layer returns the documented sum: filter functions rotated to each output point, normalised as documented, integrated against the input with the grid's quadrature, mixed by the weights, plus bias. The compiled, fused and pure-torch paths all satisfy this, including filters with partly or wholly empty support and a single output latitude.",
     ["inputs", "configurations"], "all inputs, weights and biases; geometries, bases, modes listed",
     "Tests compare the implementation's own paths on a few configurations with random data.",
     [DI + "convolution.py", DI + "optimized/disco_optimized.py", DI + "optimized/disco_helpers.h", DK + "disco_cpu_fwd.h", TH + "filter_basis.py"],
     [("DiscreteContinuousConvS2", DI + "convolution.py"), ("disco_fwd_cpu_impl", DK + "disco_cpu_fwd.h"), ("_disco_s2_contraction_torch", DI + "kernels_torch/disco_torch.py")])
prop("C10", "DISCO transpose convolution is the exact adjoint of the convolution",
     "The transpose layer returns the documented adjoint quadrature sum for every basis, normalisation, grid pair, upsampling ratio, grouping and precision on compiled and pure-torch paths. Unnormalised or geometrically normalised, it is the adjoint of the convolution in the quadrature inner products. The compiled backward kernel is the exact transpose of the forward kernel for arbitrary filter values and sparsity patterns.",
     ["inputs", "configurations"], "all inputs, weights, biases and (kernel level) filter values; geometries and patterns listed",
     "Tests compare paths of the implementation at a few sizes; adjointness is not tested for arbitrary filters.",
     [DI + "convolution.py", DI + "optimized/disco_optimized.py", DK + "disco_cpu_bwd.h", DK + "disco_cpu_fwd.h"],
     [("DiscreteContinuousConvTransposeS2", DI + "convolution.py"), ("disco_bwd_cpu_impl", DK + "disco_cpu_bwd.h")])
prop("C11", "DISCO layers commute with longitude shifts, act locally, are normalised",
     "Shifting the input in longitude by whole output cells shifts the output of convolution and transpose convolution alike. An output point never depends on input beyond the cutoff radius (plus the documented 0.1 percent margin). Under nodal, modal and support normalisation no single basis function amplifies the maximum of the field; nonnegative bases keep constants under nodal normalisation and oscillating ones remove them under modal. Channel groups do not interact.",
     ["inputs", "configurations"], "all inputs and weights, every shift; geometries listed",
     "These hold for every field and shift; tests have no equivariance or locality check.",
     [DI + "convolution.py", TH + "filter_basis.py", DK + "disco_cpu_fwd.h", DK + "disco_cpu_bwd.h"],
     [("_normalize_convolution_tensor_s2", DI + "convolution.py"), ("_precompute_convolution_tensor_s2", DI + "convolution.py")])
prop("C12", "DISCO gradients are the exact derivatives on every code path",
     "For every path (compiled, fused recomputation, saved-activation, spatial-first input gradient, pure torch, transpose layer), channel layout, grouping, stride and empty-row pattern, the gradients of input, weight and bias equal the derivatives of the definition, whichever subset of them is required, and keep the dtype.",
     ["inputs", "configurations"], "all inputs, parameters and cotangents; configurations listed",
     "Gradient tests cover a few layouts; which backward path is taken depends on channel counts and empty rows.",
     [DI + "convolution.py", DI + "optimized/disco_optimized.py", DK + "disco_cpu_bwd.h"],
     [("_disco_s2_fused_conv_bwd_optimized", DI + "optimized/disco_optimized.py"), ("_DiscoSaveXConvFn", DI + "optimized/disco_optimized.py"), ("_disco_s2_fused_conv_spatial_first_dgrad", DI + "optimized/disco_optimized.py")])
AT = TH + "attention/"
AK = AT + "optimized/kernels_cpu/"
prop("C15", "Attention is the quadrature-weighted softmax over the neighbourhood",
     "For every grid pair, ratio of longitudes (same grid, downsampling, upsampling), cutoff, number of heads, channel counts, bias, scale, query/key normalisation, self- or cross-attention and batch size, the neighbourhood attention layer returns, at each output point with a nonempty neighbourhood, the projected average of the projected values within the cutoff (plus the documented 0.1 percent margin), weighted by exp(scaled score) times the quadrature weight and normalised per head; global attention does so over the whole input grid. The compiled and pure-torch paths both satisfy it and keep the dtype.",
     ["inputs", "configurations"], "all queries, keys, values (and parameters where stated); configurations listed",
     "Tests compare the implementation's own paths with random data on a few configurations.",
     [AT + "attention.py", AT + "_layout.py", AT + "optimized/attention_optimized.py", AT + "kernels_torch/attention_torch.py", AK + "attention_cpu_fwd.h", AK + "attention_cpu_fwd_upsample.cpp"],
     [("NeighborhoodAttentionS2", AT + "attention.py"), ("AttentionS2", AT + "attention.py"), ("s2_attn_fwd_kernel", AK + "attention_cpu_fwd.h"), ("_neighborhood_s2_attention_upsample_fwd_torch", AT + "kernels_torch/attention_torch.py")])
prop("C16", "Attention gradients are the exact derivatives on every code path",
     "For the compiled and pure-torch paths, same-grid, downsampling and upsampling, any heads, channels, bias, scale and normalisation, and whichever subset of inputs and parameters requires gradients (including one tensor used as query, key and value), the gradients equal the derivatives of the definition and keep the dtype. The same holds for global attention.",
     ["inputs", "configurations"], "all inputs, cotangents (and parameters where stated); configurations listed",
     "Gradient tests compare two hand-written implementations at sampled points; an error common to both, or at untested ratios and layouts, is not seen.",
     [AT + "attention.py", AT + "_layout.py", AT + "optimized/attention_optimized.py", AT + "kernels_torch/attention_torch.py", AK + "attention_cpu_bwd.h", AK + "attention_cpu_bwd_upsample.cpp"],
     [("s2_attn_bwd_kernel", AK + "attention_cpu_bwd.h"), ("_neighborhood_s2_attention_bwd_torch", AT + "kernels_torch/attention_torch.py")])
prop("C17", "Attention keeps bounds, is equivariant, local and stable at any score size",
     "Constant values come back unchanged and outputs lie between the smallest and largest value, for all queries and keys. Shifting all fields in longitude by whole cells shifts the output. An output point depends only on its own query and on keys and values within the cutoff; heads and batch items do not interact. Scores of any magnitude, all far below or above zero or widely spread, give the finite softmax of their differences, and finite gradients. Layout conversions between channels-first and channels-last are exact inverses for any memory layout, also in the backward pass.",
     ["inputs", "configurations"], "all inputs, every shift; geometries and score offsets listed",
     "These hold for every field; tests draw scores of order one and check no equivariance or locality.",
     [AT + "attention.py", AT + "_layout.py", AT + "kernels_torch/attention_torch.py", AK + "attention_cpu_fwd.h", AK + "attention_cpu_bwd.h"],
     [("_neighborhood_s2_attention_fwd_torch", AT + "kernels_torch/attention_torch.py"), ("to_nhwc", AT + "_layout.py")])

prop("C25", "Distributed DISCO layers equal the serial layers on any process grid",
     "With the serial parameters, concatenating the ranks' outputs of the distributed DISCO convolution or transpose convolution gives the serial layer's output for the concatenated input, on every process grid (including missing process groups), with uneven latitude, longitude and channel splits, any grouping (also shards that cut a group), stride, basis, normalisation, bias, precision, and on the compiled, fused and pure-torch paths, also when a latitude shard has no or a single filter entry. Input gradients concatenate to the serial ones; weight and bias gradients summed over ranks equal the serial ones.",
     ["inputs", "configurations", "schedules"], "all inputs, parameters and cotangents; process grids, sizes and paths listed",
     "The test-suite here runs without multiple processes, so none of this code is exercised by it.",
     [D + "distributed_convolution.py", D + "primitives.py", DI + "convolution.py", DI + "optimized/disco_optimized.py"],
     [("DistributedDiscreteContinuousConvS2", D + "distributed_convolution.py"), ("_split_distributed_convolution_tensor_s2", D + "distributed_convolution.py")])
prop("C28", "Distributed attention equals the serial layer on any process grid",
     "With the serial parameters, concatenating the ranks' outputs of distributed neighbourhood attention gives the serial layer's output for the concatenated query, key and value, on every process grid with uneven splits: same-grid, downsampling and upsampling, any heads, channels, bias, scale, normalisation and cutoff whose halo fits a latitude shard (otherwise construction is refused). Gradients of inputs concatenate to, and gradients of parameters sum to, the serial ones. The result is finite and exact at any size of the scores.",
     ["inputs", "configurations", "schedules"], "all queries, keys, values and cotangents; process grids, sizes and score offsets listed; the CUDA ring-step operators are replaced by their documented contract",
     "The test-suite here runs without multiple processes and without GPUs, so none of this code is exercised by it.",
     [D + "distributed_attention.py", D + "primitives.py", AT + "attention.py"],
     [("DistributedNeighborhoodAttentionS2", D + "distributed_attention.py"), ("ring exchange forward/backward", D + "distributed_attention.py")])
FB = TH + "filter_basis.py"
prop("C14", "Filter bases have the documented values, support and symmetry",
     "For every kernel shape, cutoff radius and polar coordinate (r, phi), each basis function takes its documented value: piecewise linear hats (with the antipodal contribution for even radial counts), L2-normalised Zernike polynomials, Hann-windowed harmonics divided by their L2 norm on the disk, and normalised Fourier-Bessel functions ordered by eigenvalue, in at least the caller's precision. Nothing is reported beyond the cutoff radius, also when no point at all lies inside it. Functions flagged isotropic do not depend on phi; the hat functions are non-negative and sum to one away from the boundary; windowed and Fourier-Bessel functions vanish on it.",
     ["inputs", "configurations"], "all coordinates r, phi; kernel shapes and cutoffs listed",
     "Tests sample a few points; the values matter at every relative position of two grids, at every kernel size.",
     [FB], [("compute_support_vals", FB), ("isotropic_mask", FB), ("compute_l2_norms", FB)])
prop("C20", "Results do not depend on history: caches and calls leave no trace",
     "What a table function or layer computes depends only on its configuration, parameters and input. Whatever was constructed or computed before, with the same or different arguments, and even if every tensor handed out earlier was overwritten in place, a newly built grid, transform, resampler, convolution or attention layer gives its defined result. Using a filter basis does not change it. Calling a layer does not modify its inputs, parameters or buffers, nor a result returned earlier, and calling it again with the same input gives the same result.",
     ["inputs", "histories"], "all inputs; every history of two earlier constructions and a final one from the menus listed",
     "Tests construct each object in isolation; aliasing between cached tables and live layers shows only in particular sequences.",
     [TH + "cache.py", TH + "quadrature.py", TH + "legendre.py", FB, DI + "convolution.py"],
     [("lru_cache", TH + "cache.py"), ("_precompute_convolution_tensor_s2", DI + "convolution.py")])
prop("C13", "Filter repacking preserves every entry for any sparsity pattern",
     "Whatever sparsity pattern a filter tensor has (any entries per basis function and output row, empty rows, rows empty for some basis functions only, a single row, no entries at all), the sorted, row-compressed, padded and per-basis-function split forms of it that the compiled convolution uses contain every entry exactly once, with its column and value, under its own basis function and row, and nothing else; no buffer is read or written out of bounds. Convolution and its transpose computed from any of these forms equal the ones computed from the original list.",
     ["inputs", "configurations"], "all patterns, columns, values and fields within the sizes listed",
     "Tests see the patterns of a few grids; packing errors show only for particular combinations of empty and shared rows.",
     [DI + "optimized/disco_helpers.h", DI + "optimized/disco_optimized.py", DI + "convolution.py"],
     [("preprocess_psi_kernel", DI + "optimized/disco_helpers.h"), ("pack_psi_dense_kernel", DI + "optimized/disco_helpers.h"), ("_build_kernel_split_csr", DI + "optimized/disco_optimized.py"), ("_maybe_kpack_psi", DI + "optimized/disco_optimized.py")])
prop("C29", "Layers refuse inputs that do not match the shape they were built for",
     "For every tensor size, a forward pass of a transform, resampler, convolution or attention layer on an input whose latitudes, longitudes, spectral extents, vector components or channels differ from those of the layer, or whose number of dimensions the layer does not support, raises an error. The same holds for attention whose query, key and value disagree in grid, channels or (neighbourhood attention) batch. No such input is cropped, broadcast, reinterpreted on the layer's grid, or read out of bounds.",
     ["inputs", "configurations"], "all tensor extents from 1 to 4096; layers and ranks listed",
     "A test can only try a few wrong sizes; compiled kernels index with precomputed offsets, so an unchecked size is silently read out of bounds.",
     [TH + "sht.py", TH + "resample.py", TH + "spectral_convolution.py", DI + "convolution.py", AT + "attention.py"],
     [("shape checks in forward", TH + "sht.py"), ("_check_input", DI + "convolution.py"), ("_check_extent", AT + "_attention_utils.py")])
prop("C30", "Result shapes and dtypes hold for every batch size, also under compilation",
     "For every number of leading or batch entries, the forward pass returns a tensor of the documented shape (the input's leading dimensions, the layer's output channels and output grid or spectral extents) in the input's precision, complex exactly where documented, and differentiating it gives every input and parameter a gradient of its own shape and dtype. The shapes and dtypes that the custom operators announce to the compiler without running (fake kernels) are the same ones. Layers cast to another floating-point type work in that type.",
     ["inputs", "configurations"], "all batch sizes within the bound; layers, ranks, channels and dtypes listed",
     "Tests run a few batch sizes; shapes announced by fake kernels matter only under compilation with particular sizes.",
     [TH + "sht.py", TH + "quadrature.py", TH + "spectral_convolution.py", DI + "convolution.py", DI + "optimized/disco_optimized.py", AT + "attention.py", AT + "optimized/attention_optimized.py"],
     [("register_fake kernels", DI + "optimized/disco_optimized.py"), ("register_fake kernels", AT + "optimized/attention_optimized.py"), ("forward methods", TH + "sht.py")])
prop("C31", "Autocast and half precision keep the layers' function and dtypes",
     "Under torch.autocast('cpu') in bfloat16 or float16, and after conversion of a layer to half precision, the DISCO convolutions (compiled and pure-torch), neighbourhood and global attention, the spectral convolution, the resampler and quadrature compute the same function of their inputs and parameters as in full precision, up to the rounding of values stored in half precision: transforms and the mixing of the spectral convolution are not reduced. Gradients are the derivatives of that function up to rounding, and come in the dtype of the tensor they belong to. Attention and the compiled convolutions return the autocast dtype, the spectral convolution and the resampler that of their input.",
     ["inputs", "configurations"], "all inputs, cotangents and (linear layers) parameters in [-1,1], all rounding errors within the unit roundoff per stored half-precision value; layers and sizes listed",
     "Tests compare one random tensor per dtype with loose tolerances; the autocast kernels are separate dispatcher entries reached by no other path.",
     [DI + "optimized/disco_optimized.py", DI + "kernels_torch/disco_torch.py", AT + "optimized/attention_optimized.py", AT + "kernels_torch/attention_torch.py", AT + "attention.py", TH + "spectral_convolution.py", TH + "resample.py"],
     [("autocast kernels", DI + "optimized/disco_optimized.py"), ("autocast kernels", AT + "optimized/attention_optimized.py"), ("SpectralConvS2.forward", TH + "spectral_convolution.py")])
