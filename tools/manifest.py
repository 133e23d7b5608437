#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; the results are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TH = "torch_harmonics/"
D = TH + "distributed/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


prop("C01", "Scalar transform round trip is the identity on band-limited data",
     "Synthesising a field from any set of spectral coefficients and analysing it again returns the same coefficients, for every grid type, size, truncation, normalisation and phase convention the transforms accept at the default truncation, and for any batch shape. Analysing and re-synthesising any band-limited field returns the field, and repeating the round trip changes nothing.",
     ["inputs", "configurations"], "all coefficient values; listed grid/size/truncation/normalisation configurations",
     "The tests sample random coefficients on a few large grids with loose tolerances and mostly single precision; they cannot cover all coefficient values or odd/even longitudes, custom truncations and conventions.",
     [TH + "sht.py", TH + "fft.py", TH + "legendre.py", TH + "quadrature.py", TH + "truncation.py"],
     [("RealSHT.forward / InverseRealSHT.forward", TH + "sht.py"), ("rfft/irfft mode handling", TH + "fft.py")])
prop("C02", "Scalar transforms compute the documented harmonic sums and integrals",
     "Synthesis of coefficients is the documented sum of spherical harmonics at every grid point, and analysis of a field is the documented quadrature projection on every harmonic, for each normalisation and phase convention. The gradients that automatic differentiation delivers for both are the exact adjoints of these linear maps.",
     ["inputs", "configurations"], "all field and coefficient values and all cotangents; listed configurations",
     "Tests compare with themselves (round trip) or with finite differences at random points; a consistent error in both directions, or in a single mode, passes.",
     [TH + "sht.py", TH + "fft.py", TH + "legendre.py"],
     [("Legendre contraction", TH + "sht.py"), ("Legendre tables", TH + "legendre.py")])
prop("C03", "Vector transforms: definition, round trip, gradient/curl separation",
     "The vector synthesis and analysis equal the documented sums over spheroidal and toroidal vector harmonics, in double precision for double-precision data, and they invert each other on band-limited tangential fields without a degree-zero part. The first coefficient set produces gradient fields of the scalar synthesis and the second one its rotated (divergence-free) counterpart.",
     ["inputs", "configurations"], "all coefficient and field values; listed configurations",
     "Tests check analytic examples and one random round trip in single-precision tolerance.",
     [TH + "sht.py", TH + "legendre.py"],
     [("RealVectorSHT / InverseRealVectorSHT", TH + "sht.py"), ("derivative tables", TH + "legendre.py")])
prop("C04", "Real Fourier wrappers truncate, pad and invert consistently",
     "The real Fourier analysis with a mode count equals the first modes of the full real discrete Fourier transform, zero-padded if more modes are asked for than exist, and the inverse returns the real signal of the given length whose spectrum is the given one (imaginary parts of the mean and Nyquist modes are ignored, missing modes are zero). This holds for any length, mode count, dimension and normalisation, and the gradients are the adjoints.",
     ["inputs", "configurations"], "all signal and spectrum values; lengths, mode counts, dims, norms listed",
     "Tests fix a handful of lengths and never vary dimension, over-long or truncated mode counts jointly.",
     [TH + "fft.py"], [("rfft / irfft", TH + "fft.py")])
prop("C05", "Quadrature rules are exact, positive and consistently rescaled",
     "Each one-dimensional rule returns increasing nodes inside the interval and positive weights that integrate every polynomial up to its documented degree exactly on any interval, and the periodic rule does so for every trigonometric polynomial. The spherical quadrature module integrates (or, when normalised, averages) every field exactly with these weights; latitudes are returned from north to south.",
     ["inputs", "configurations"], "all polynomial coefficients, all interval ends, all field values; numbers of points listed",
     "Tests integrate a few fixed functions on a few sizes.",
     [TH + "quadrature.py"], [("node and weight computation", TH + "quadrature.py"), ("QuadratureS2.forward", TH + "quadrature.py")])
prop("C06", "Associated Legendre tables equal the defining polynomials at every point",
     "The tabulated normalised associated Legendre functions and their derivative/order quotients equal the closed-form definitions at every point of the interval, for every degree, order, normalisation, phase convention and direction flag; entries with order above degree vanish.",
     ["inputs", "configurations"], "all x in [-1,1] resp. all colatitudes; degrees and orders up to the bound",
     "Tests evaluate a few low-degree functions at sampled points.",
     [TH + "legendre.py"], [("legpoly recurrence", TH + "legendre.py"), ("_precompute_dlegpoly", TH + "legendre.py")])
prop("C07", "Triangular truncation follows grid and sampling limits for all sizes",
     "The degree and order limits chosen for a grid never exceed what its latitudes (per grid type) and longitudes can resolve, order never exceeds degree, user-given limits are respected exactly when they are admissible under the documented rule, and inconsistent sizes are refused.",
     ["inputs", "configurations"], "all latitude/longitude counts and all requested limits up to 10^6",
     "Tests cover a few sizes per grid type; the arithmetic must hold for all of them.",
     [TH + "truncation.py"], [("truncate_sht", TH + "truncation.py")])
prop("C08", "Resampling is the documented interpolation on the sphere",
     "Resampling returns, at every output point, the bilinear interpolation of the four surrounding samples of the longitude-periodic field, with pole values being the mean of the nearest ring where the output extends beyond the input latitudes; coincident nodes are copied, constants are preserved, results stay within the range of the input, common rotations commute, and gradients are the adjoint. The spherical mode uses the documented great-circle formula for every pair of samples, increasing or decreasing.",
     ["inputs", "configurations"], "all sample values; grid pairs and sizes listed",
     "Tests use constant or linear fields on a few grid pairs and cannot see a wrong neighbour or weight at isolated points.",
     [TH + "resample.py"], [("interpolation tables", TH + "resample.py"), ("pole expansion", TH + "resample.py")])
prop("C18", "Spectral convolution is exactly degree-wise channel mixing",
     "The layer's output is the synthesis on the output grid of the analysis of the input, truncated to what both grids resolve, with each group's channels mixed by the weights of its degree, after adding the bias spectrum times the input's surface integral when a bias is enabled. Gradients for input, weights and bias are those of this map.",
     ["inputs", "configurations"], "all inputs, weights, biases and cotangents; shapes listed",
     "Tests check shapes and a few random values against the serial layer itself.",
     [TH + "spectral_convolution.py", TH + "sht.py", TH + "quadrature.py"], [("SpectralConvS2.forward", TH + "spectral_convolution.py")])
prop("C19", "Random fields follow the documented spectrum exactly",
     "A sampled random field is the synthesis of independent standard-normal coefficients scaled by the square root of the documented spectrum in amplitude, length scale, smoothness and radius, without a degree-zero part, so every realisation has zero mean. A field computed from given noise and one drawn internally use the same map, and samples of one call are independent.",
     ["inputs", "configurations"], "all noise values, all amplitudes and length scales in a box; sizes and exponents listed",
     "Random sampling can only estimate such laws statistically; the tests check shapes and rough moments.",
     [TH + "random_fields.py", TH + "sht.py"], [("GaussianRandomFieldS2", TH + "random_fields.py")])
prop("C21", "Domain decomposition covers every index once and is balanced",
     "Splitting a dimension over ranks yields non-empty contiguous chunks in rank order that cover the dimension exactly and differ in size by at most one, larger ones first, and is refused exactly when a chunk would be empty. Flattening and padding leading dimensions is undone exactly, for any shape.",
     ["inputs", "configurations"], "all sizes up to 10^6 and rank counts up to the bound; all tensor values",
     "Tests use a few sizes.",
     [D + "primitives.py"], [("compute_split_shapes", D + "primitives.py"), ("flatten/unflatten of leading dims", D + "primitives.py")])
prop("C22", "Communication primitives redistribute exactly, backward is their adjoint",
     "On every process grid, with even or uneven splits and real or complex data of any precision, the distributed transposes, copies, reductions, scatters, gathers, reduce-scatters and halo exchanges deliver exactly the documented data on every rank, never use a buffer before its transfer has completed, never deadlock, and leave their inputs unmodified. Their backward passes deliver the documented adjoint redistribution of the cotangents.",
     ["inputs", "configurations", "schedules"], "all data and cotangent values; process grids, shapes and dims listed; undefined buffer contents and all completion orders allowed by the communication contract",
     "The test-suite here runs without multiple processes, so none of this code is exercised by it.",
     [D + "primitives.py", D + "utils.py"], [("autograd functions around collectives", D + "primitives.py")])
prop("C23", "Distributed scalar transform equals the serial one on any process grid",
     "Concatenating the ranks' outputs of the distributed scalar analysis or synthesis gives the serial result for the concatenated inputs, for every process grid, uneven splits, any number of leading entries (also fewer than ranks), truncation and normalisation; the same holds for the gradients.",
     ["inputs", "configurations", "schedules"], "all data and cotangents; process grids and sizes listed",
     "The test-suite here runs without multiple processes.",
     [D + "distributed_sht.py", D + "primitives.py"], [("DistributedRealSHT / DistributedInverseRealSHT", D + "distributed_sht.py")])
prop("C24", "Distributed vector transform equals the serial one on any process grid",
     "Concatenating the ranks' outputs of the distributed vector analysis or synthesis gives the serial result for the concatenated inputs, for every process grid, uneven splits, any number of leading entries, truncation and normalisation; the same holds for the gradients.",
     ["inputs", "configurations", "schedules"], "all data and cotangents; process grids and sizes listed",
     "The test-suite here runs without multiple processes.",
     [D + "distributed_sht.py", D + "primitives.py"], [("DistributedRealVectorSHT / DistributedInverseRealVectorSHT", D + "distributed_sht.py")])
prop("C26", "Distributed resampling and quadrature equal the serial modules",
     "On any process grid with any splits, the concatenated output of the distributed resampling equals serial resampling of the concatenated input in every mode and grid pair, including pole expansion, and every rank of the distributed quadrature holds the serial integral. The gathered gradients equal the serial ones.",
     ["inputs", "configurations", "schedules"], "all data and cotangents; process grids and sizes listed",
     "The test-suite here runs without multiple processes.",
     [D + "distributed_resample.py", D + "distributed_quadrature.py", D + "primitives.py"], [("DistributedResampleS2.forward", D + "distributed_resample.py"), ("DistributedQuadratureS2.forward", D + "distributed_quadrature.py")])
prop("C27", "Distributed spectral convolution equals the serial layer",
     "With the serial parameters sharded as documented, the concatenated output of the distributed spectral convolution equals the serial layer's output on any process grid, with and without bias and groups. Input and bias gradients are exact per rank, and the weight gradients summed over the azimuth ranks equal the serial ones.",
     ["inputs", "configurations", "schedules"], "all inputs, parameters and cotangents; process grids and sizes listed",
     "The test-suite here runs without multiple processes.",
     [D + "distributed_spectral_convolution.py", D + "distributed_sht.py", D + "distributed_quadrature.py"], [("DistributedSpectralConvS2.forward", D + "distributed_spectral_convolution.py")])
exec(open(os.path.join(HERE, "tools", "more_properties.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more_properties.py")) else None
P.sort(key=lambda p: p["id"])

TECH = "bounded symbolic execution of the real code + SMT (z3) verdict per output element"
NOTE = {
    "default": "For every value of the symbolic inputs within the stated boxes, on the listed configurations: z3 refutes the negated claim. Real arithmetic with float64 tables (rounding outside the model); aten primitives trusted; oracle independent of the package.",
    "dist": "As for the serial checks; ranks are simulated in one process with the communication layer replaced by its contract (undefined receive buffers until completion, mismatch and deadlock detection).",
    "int": "Integer arithmetic of the real function over symbolic sizes, all branches explored, z3 decides each claim for all sizes within the bounds.",
    "cxx": "The C++ kernel sources are recompiled from /repo with a symbolic scalar type and executed on symbolic data; z3 decides each claim. Real arithmetic; OpenMP scheduling and SIMD codegen outside the model.",
}
KIND = {"C07": "int", "C21": "int", "C22": "dist", "C23": "dist", "C24": "dist", "C25": "dist", "C26": "dist", "C27": "dist", "C28": "dist", "C09": "cxx", "C10": "cxx", "C11": "cxx", "C12": "cxx", "C13": "cxx", "C15": "cxx", "C16": "cxx", "C17": "cxx", "C31": "cxx"}
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough", technique=TECH, level="other", level_note=NOTE[KIND.get(i, "default")]))
    else:
        na.append(dict(property=i, reason=NA[i]))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks were added to /repo; checks use the unmodified package"), checks=checks, not_applicable=na,
         notes="Technique: solver-based checking of the real code. Engine in vlib/, one file per property in checks/, entry point check.py.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
