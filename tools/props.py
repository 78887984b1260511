"""The properties, in one place. mkdocs.py turns this into properties.jsonl, MANIFEST.json and KNOWN_FINDINGS.json."""
import os
TESTS = "The unit tests convert one or two random images of one size per function, with one matrix and loose bounds on whole images, "

PROPS = [
 dict(id="C01", title="8-bit RGB to YUV is accurate for every image, matrix, range and mode",
  statement="For every 8-bit RGB/BGR(A) image of any size, every 4:0:0, 4:2:0, 4:2:2 and 4:4:4 planar or bi-planar (NV12/21/16/61/24/42) conversion writes every luma sample within 1.4 code values, and every chroma sample within 1.4 code values, of the real-valued ITU-T H.273 formula for the given matrix (built in or custom Kr/Kb) and range, chroma being the transform of the mean RGB of the pixels its sample covers (those that exist, for odd sizes). In Professional mode the bounds are 0.6 (luma) and 1.0 (chroma), in Fast mode 2.5. Rounding is unbiased: over many unrelated colours the mean deviation of a plane is below 0.3. Every sample of every plane is written, whatever the width, the height and the instruction set.",
  over=["inputs", "configurations"], forall="all RGB images, sizes (odd ones too), matrices, ranges, conversion modes, channel orders, target formats, CPU instruction sets",
  why=TESTS+"so a wrong coefficient, a wrong tail of a row, a swapped chroma sample or an overflow for particular colours on one instruction set passes them.",
  files=["src/rgba_to_yuv.rs", "src/rgba_to_nv.rs", "src/rgb_to_y.rs", "src/yuv_support.rs", "src/avx2", "src/avx512bw", "src/sse"],
  mech=[("fixed-point forward transforms and their SIMD versions", "src/rgba_to_yuv.rs, src/rgba_to_nv.rs, src/rgb_to_y.rs, src/{sse,avx2,avx512bw}"), ("weights and their rounding", "src/yuv_support.rs")],
  tech="differential against a real-valued reference model with stated bounds, on every instruction set",
  note="Random exploration; per function about 1500 generated images per run on every instruction-set rung of the CPU. Trusts the reference model (oracle.rs) and the stated bounds."),
 dict(id="C02", title="8-bit YUV to RGB is accurate for every image, matrix, range and mode",
  statement="For every 8-bit YUV image (planar, bi-planar, packed 4:2:2, packed AYUV/VYUA, gray, with or without alpha; any sample values, sizes and chroma subsampling), every colour sample written is within 2.75 code values of the real-valued ITU-T H.273 formula for the given matrix and range, limited to 0..255, the chroma sample covering a pixel being applied unfiltered. In Professional mode the bound is 0.6; in Fast mode and for packed 4:2:2 it is 4.2 (Fast may also limit a multiplier above 127/64 to it), with premultiplication 3.0, and luma below nominal black may or may not be limited to black first. Every sample is written, whatever the width, the height and the instruction set.",
  over=["inputs", "configurations"], forall="all YUV sample values (also outside nominal range), sizes, subsamplings, matrices, ranges, modes, channel orders, CPU instruction sets",
  why=TESTS+"so wrap-around for saturated colours, wrong odd columns or last rows, and errors of one SIMD path pass them.",
  files=["src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/yuy2_to_rgb.rs", "src/y_to_rgb.rs", "src/ayuv_to_rgb.rs", "src/yuv_to_rgba_alpha.rs", "src/y_with_alpha_to_rgb.rs", "src/built_coefficients.rs"],
  mech=[("fixed-point inverse transforms and their SIMD versions", "src/yuv_to_rgba.rs, src/yuv_nv_to_rgba.rs, src/yuy2_to_rgb.rs, src/{sse,avx2,avx512bw}"), ("coefficients", "src/built_coefficients.rs, src/yuv_support.rs")],
  tech="differential against a real-valued reference model with stated bounds, on every instruction set",
  note="Random exploration; per function about 1500 generated images per run on every instruction-set rung of the CPU. Trusts the reference model and the stated bounds."),
 dict(id="C03", title="High bit depth RGB to YUV is accurate at every depth and byte order",
  statement="For every 10-, 12-, 14- and 16-bit RGB(A) image, conversion to planar (little or big endian) and bi-planar (samples in the high bits) YUV of the same depth writes luma within 0.75 and chroma within 1.2 code values at 10 and 12 bits, 1.3 at 14 bits, and 3.5 (luma) and 2.25 (chroma) at 16 bits, of the real-valued formula for the matrix and range, chroma being the transform of the mean RGB of the pixels it covers. Up to 14 bits the mean deviation of a plane over many unrelated colours is below 0.3. No written sample exceeds the declared depth, unused low bits of high-bit-aligned samples are zero, and every sample is written.",
  over=["inputs", "configurations"], forall="all 10/12/14/16-bit RGB images, sizes, subsamplings, byte orders, matrices, ranges, CPU instruction sets",
  why=TESTS+"and only some of the depths, so saturation, endianness, rows of odd size and one SIMD path's tails are not settled.",
  files=["src/rgb16_to_yuv_p16.rs", "src/rgb_to_nv_p16.rs", "src/avx2", "src/avx512bw", "src/sse"],
  mech=[("fixed-point forward transforms for 16-bit samples", "src/rgb16_to_yuv_p16.rs, src/rgb_to_nv_p16.rs"), ("SIMD versions", "src/{sse,avx2,avx512bw}/rgb_to_yuv_p16*.rs")],
  tech="differential against a real-valued reference model with stated bounds, on every instruction set",
  note="Random exploration; per function about 1500 generated images per run on every instruction-set rung of the CPU."),
 dict(id="C04", title="High bit depth YUV to RGB is accurate for every depth and target",
  statement="For every 10-, 12-, 14- and 16-bit YUV image (planar little or big endian, bi-planar, packed 4:2:2, gray, with or without alpha; any sample values of that depth), conversion to RGB(A) of the same depth is within 2.8 code values at 10 and 12 bits, 2.5 at 14 and 5.5 at 16; to 8-bit RGB(A)/BGR(A) and to AR30/RA30 within 1.6 code values of the target; to half-float within 0.6 (10 bits), 1.8 (12) and 3.2 (14) source code values plus half-float rounding, of the real-valued formula for the matrix and range, limited to the target's range. Luma below nominal black may or may not be limited to black first. Every sample is written and none exceeds the declared depth.",
  over=["inputs", "configurations"], forall="all samples of the declared depth, sizes, subsamplings, byte orders, matrices, ranges, targets, CPU instruction sets",
  why=TESTS+"for part of the depths and targets, so wrap-around, wrong depth scaling, wrong byte order of one plane and SIMD tails pass them.",
  files=["src/yuv_p16_rgba_p16.rs", "src/yuv_p10_rgba.rs", "src/yuv_nv_p16_to_rgb16.rs", "src/yuv_nv_p10_to_rgb.rs", "src/yuv_p16_ar30.rs", "src/yuv_nv_p10_to_ar30.rs", "src/yuv_p16_rgba_f16.rs", "src/yuva_p16_rgba_f16.rs", "src/y_p16_to_rgb16.rs", "src/yuy2_to_rgb_p16.rs"],
  mech=[("fixed-point inverse transforms for 16-bit samples", "src/yuv_p16_rgba_p16.rs, src/yuv_p10_rgba.rs, src/yuv_nv_p16_to_rgb16.rs"), ("SIMD versions", "src/{sse,avx2,avx512bw}/yuv_p16_to_rgb*.rs, yuv_nv_p16*.rs")],
  tech="differential against a real-valued reference model with stated bounds, on every instruction set",
  note="Random exploration; per function about 800 generated images per run on every instruction-set rung of the CPU."),
 dict(id="C05", title="Identity (GBR), YCgCo, RemoteFX and half-float conversions are accurate",
  statement="Identity (GBR) conversions in both directions are exact in full range and within 1.5 code values of the range formula in limited range; RGB to YCgCo is within 1.0 and YCgCo to RGB within 0.75 (exact in full range) of the formula; RemoteFX RGB to YCbCr is within 1.6 and back within 1.05 of the MS-RDPRFX transform. Integer to half-float conversion is the correctly scaled value within half-float rounding, half-float to integer is within 0.51 code values, and identity to half-float is within half-float rounding in full range.",
  over=["inputs", "configurations"], forall="all images of these formats, sizes, ranges, subsamplings, depths 8 to 16, CPU instruction sets",
  why=TESTS+"if there is a test at all (several of these families have none), so per-colour and per-width errors pass them.",
  files=["src/to_identity.rs", "src/from_identity.rs", "src/from_identity_alpha.rs", "src/from_identity_f16.rs", "src/from_identity_alpha_f16.rs", "src/rgb_to_ycgco.rs", "src/ycgco_to_rgb.rs", "src/ycgco_to_rgb_alpha.rs", "src/rdp.rs", "src/f16_converter.rs"],
  mech=[("the conversions", "src/to_identity.rs, src/from_identity*.rs, src/rgb_to_ycgco.rs, src/ycgco_to_rgb*.rs, src/rdp.rs, src/f16_converter.rs"), ("SIMD versions", "src/avx2/gbr_to_rgb.rs, src/avx2/rdp_to_yuv.rs, src/avx2/f16_converter.rs, src/sse")],
  tech="differential against a real-valued reference model with stated bounds, on every instruction set",
  note="Random exploration; per function about 1500 generated images per run on every instruction-set rung of the CPU."),
 dict(id="C06", title="Shuffles, packing, repacking, rotation and mirroring move every sample exactly",
  statement="Channel shuffles (RGB, BGR, RGBA, BGRA), AR30/RA30/AB30/BA30 packing and unpacking in both byte orders, rotation by 90, 180 and 270 degrees and mirroring produce bit for bit the value their definition gives for each pixel, missing alpha being opaque and depth changes being plain shifts (10 bits to 8) or bit replication (8 to 10). Conversions between planar YUV and packed 4:2:2 (YUYV, YVYU, UYVY, VYUY; 8 and 16 bits) copy luma exactly, and copy, repeat or average (rounding up) chroma as the two subsamplings require. Every destination sample is written.",
  over=["inputs", "configurations"], forall="all images, sizes (odd ones too), channel orders, byte orders, CPU instruction sets",
  why=TESTS+"or are absent (rotation, mirroring, repacking), so row tails of a SIMD width, odd sizes and byte orders are not settled.",
  files=["src/shuffle.rs", "src/rgb_ar30.rs", "src/ar30_rgb.rs", "src/geometry.rs", "src/mirroring.rs", "src/yuv_to_yuy2.rs", "src/yuy2_to_yuv.rs", "src/yuv_to_yuy2_p16.rs", "src/yuy2_to_yuv_p16.rs"],
  mech=[("per-format movers and their SIMD versions", "src/shuffle.rs, src/rgb_ar30.rs, src/ar30_rgb.rs, src/yuv_to_yuy2.rs, src/yuy2_to_yuv.rs, src/{sse,avx2}"), ("geometry", "src/geometry.rs, src/mirroring.rs")],
  tech="exact model of each data movement, on every instruction set",
  note="Random exploration against an exact model; per function about 5000 generated images per run on every instruction-set rung."),
 dict(id="C07", title="Results depend only on pixels, not on strides, padding or old contents",
  statement="A conversion of given pixels gives bit-identical results for every accepted stride and buffer address, whatever bytes lie in the row padding of the source and whatever the destination held before, and wherever its slices end (after the last pixel, after a full last row, or rows later). Bytes of the destination that belong to no pixel (row padding, data after the last row) keep their old value.",
  over=["inputs", "configurations"], forall="all functions, images, strides, padding contents, buffer alignments, prior destination contents, CPU instruction sets",
  why="The tests use compact images in fresh zeroed buffers, so reading padding, leaving samples unwritten or writing past the row end cannot show.",
  files=["src/images.rs", "src/yuv_to_rgba.rs", "src/rgba_to_yuv.rs", "src/yuv_p16_rgba_p16.rs", "src/avx2", "src/sse", "src/avx512bw"],
  mech=[("row slicing", "every conversion's row iteration"), ("SIMD row tails", "src/{sse,avx2,avx512bw}")],
  tech="metamorphic: same pixels in different layouts",
  note="Random exploration; every function of the crate, two layouts per case, top and one random instruction-set rung."),
 dict(id="C08", title="No conversion of a valid image panics or touches memory outside its buffers",
  statement="For every valid image description (any size, strides at or above the minimum, slices of at least stride times rows and less than a row more, any sample values, any alignment) every conversion returns success without panicking, never reads or writes outside the slices it was given, never modifies its source, and writes only samples of the destination image.",
  over=["inputs", "configurations"], forall="all functions, sizes, strides, sample values, alignments, CPU instruction sets",
  why="The tests never place buffers against inaccessible memory and use few sizes, so out-of-bounds SIMD accesses in row tails go unseen.",
  files=["src/avx2", "src/avx512bw", "src/sse", "src/internals.rs", "src/rgba_to_yuv.rs", "src/yuv_to_rgba.rs"],
  mech=[("unsafe SIMD row handlers with tail buffers", "src/{sse,avx2,avx512bw}"), ("row dispatch", "src/internals.rs and the conversions")],
  tech="guard pages around every buffer and canaries, over all functions and instruction sets; strides to 2^32-1 in sparse memory",
  note="Random exploration in forked workers: an access within the guard page or a changed canary is caught; an out-of-bounds read that lands inside another mapped byte of the same arena is not (placements put both ends of a slice at a page border)."),
 dict(id="C09", title="Invalid image descriptions are rejected with an error, never accepted",
  statement="Every conversion given an image whose slice is too short for its size and stride, whose stride is below the row length, whose width or height is zero, whose dimensions overflow, or whose parts disagree returns an error. It neither panics nor reads or writes outside the given slices, and it leaves the destination as it was.",
  over=["inputs"], forall="all functions and all invalid combinations of width, height, strides and slice lengths, including values near 2^31 and 2^32",
  why="The tests only pass valid images; overflow of size arithmetic and missing checks on one plane of one function are not visited.",
  files=["src/images.rs", "src/yuv_error.rs", "src/numerics.rs", "src/shuffle.rs", "src/rdp.rs", "src/geometry.rs"],
  mech=[("constraint checks", "src/images.rs check_constraints, src/yuv_error.rs check_*"), ("their use at each entry point", "all public functions")],
  tech="generated invalid geometries; the oracle is that the call must return an error and change nothing",
  note="Random exploration; about 1000 generated invalid calls per function per run. Rotation and mirroring of an empty image is a no-op by design and is not counted as invalid."),
 dict(id="C15", title="Sharp YUV chroma stays within what gamma-aware averaging can give",
  statement="Sharp YUV conversion (4:2:0 and 4:2:2) writes luma within 0.75 code values of the real-valued formula. Every chroma sample lies, within 0.75 code values, between the smallest and the largest chroma that gamma-aware (linear-light) weighted averaging of the pixels it covers and their direct neighbours can give for the chosen gamma transfer, and is the plain chroma of the colour where the image is flat.",
  over=["inputs", "configurations"], forall="all RGB images, sizes, matrices, ranges, gamma transfers, CPU instruction sets",
  why=TESTS+"with one gamma transfer.",
  files=["src/sharpyuv/mod.rs", "src/sharpyuv/sharp_rgba_to_yuv.rs", "src/sharpyuv/sharp_gamma.rs"],
  mech=[("linearisation, filtering, forward transform", "src/sharpyuv/sharp_rgba_to_yuv.rs"), ("gamma tables", "src/sharpyuv/sharp_gamma.rs"), ("SIMD rows", "src/sse, src/avx2")],
  tech="interval reference model of the filter in linear light",
  note="Random exploration; about 1500 generated images per function per run."),
 dict(id="C10", title="Instruction set, build features and threading do not change results",
  statement="The same call gives the same picture on every CPU and in every build of the crate. The rayon build is bit-identical to the plain build; a build with fewer features (default features, no AVX-512, SSE only, no SIMD) is bit-identical to the full build restricted to the same instructions; and across instruction sets results are bit-identical, except that matrix conversions may differ by 1 code value (RGB to YUV, identity) or 1 to 4 code values (YUV to RGB: 1 Professional, 2 Fast, 3 Balanced and high bit depth, 4 other 8-bit functions, and wherever luma is below nominal black by what limiting it to black changes). The vector instruction sets agree with each other bit for bit in every function that has code for them (harness/rungs.in lists the pairs of rungs that may differ per function, mode and depth).",
  over=["inputs", "configurations", "schedules"], forall="all functions, images, sizes, layouts, parameters, CPU instruction sets, cargo feature sets, thread schedules",
  why="The tests run in one build on the best instruction set of the machine they happen to run on, so a defect of another dispatch target or of the rayon row split is never executed.",
  files=["src/avx2", "src/avx512bw", "src/sse", "src/rgba_to_yuv.rs", "src/yuv_to_rgba.rs", "Cargo.toml"],
  mech=[("run-time dispatch", "Default impls of the *Handler types in every conversion module"), ("row parallelism", "cfg(feature = rayon) blocks of every conversion module")],
  tech="differential between six builds of the crate and all instruction-set rungs of this CPU",
  note="Random exploration; 200 generated calls per function per run, each on every rung and in five more builds. Only rungs of the CPU the check runs on."),
 dict(id="C11", title="Converting there and back gives the original within a fixed bound",
  statement="RGB to YUV 4:4:4 and back to the same RGB layout with the same matrix, range and mode returns every sample within 5 code values at 8 bits (4 in Professional mode; 24 in Fast mode limited range), 4 at 10, 12 and 14 bits, 7 at 16 bits; with subsampled chroma the same holds for single-coloured images, sharp YUV included (4). YCgCo returns within 2 (full) or 3 (limited range), identity (GBR) exactly (full) or within 2, RemoteFX within 2, f16 within half a unit of its precision (exactly for 8 and 10 bits); channel reorder, packing/unpacking 4:2:2, mirroring and rotating by opposite angles are exact inverses.",
  over=["inputs", "configurations"], forall="all pairs of a function and its inverse, images, sizes, layouts, parameters, CPU instruction sets",
  why=TESTS+"for a handful of pairs, and the bound they use is tens of code values.",
  files=["src/yuv_support.rs", "src/rgba_to_yuv.rs", "src/yuv_to_rgba.rs", "src/rgba_to_nv.rs", "src/yuv_nv_to_rgba.rs", "src/to_identity.rs", "src/from_identity.rs"],
  mech=[("matching forward and inverse coefficients", "src/yuv_support.rs"), ("matching plane layouts of both directions", "all conversion modules")],
  tech="round trip with stated bounds over 204 function pairs",
  note="Random exploration; 300 generated round trips per pair per run on every rung."),
 dict(id="C12", title="Grey stays grey, black and white stay put, nominal range is respected",
  statement="RGB pixels with R=G=B encode to chroma exactly at its neutral value, and samples with neutral chroma decode to R=G=B exactly. Luma is a monotone function of the grey level, equal for equal greys (within 1 code value for decoders, whose vector and scalar parts may round differently); black maps exactly to nominal black and back to zero, white to nominal white and back to the maximum within 1 code value. With limited range no RGB input gives luma or chroma outside the nominal limits (by more than 1 code value at 8 bits outside Professional mode).",
  over=["inputs", "configurations"], forall="all matrix conversions, all grey images and all RGB images, sizes, layouts, matrices (custom too), ranges, modes, CPU instruction sets",
  why="The tests use random images and average differences; a colour cast of one code value or an inversion between neighbouring grey levels disappears in them.",
  files=["src/yuv_support.rs", "src/rgba_to_yuv.rs", "src/rgb_to_y.rs", "src/yuv_to_rgba.rs", "src/y_to_rgb.rs"],
  mech=[("weights that sum exactly", "src/yuv_support.rs"), ("bias and rounding constants", "all conversion modules")],
  tech="metamorphic relations on generated grey images with landmarks, and range limits on generated images",
  note="Random exploration; 300 generated images per function per run on every rung."),
 dict(id="C13", title="Alpha neither leaks into colour nor gets lost; premultiplication is exact",
  statement="The alpha channel of an RGBA source never influences YUV output, and the alpha plane of a YUVA source never influences straight (not premultiplied) colour, which equals what the function without alpha gives for the same picture (within the precision of C10). Premultiplied output is the straight colour times alpha, rounded to nearest within 0.02: opaque pixels are unchanged, fully transparent ones are zero, and no colour exceeds its alpha.",
  over=["inputs", "configurations"], forall="all functions reading alpha, images, alpha values, layouts, parameters, CPU instruction sets",
  why="The tests use opaque or constant alpha and compare colours loosely.",
  files=["src/yuv_to_rgba_alpha.rs", "src/yuv_p16_rgba_alpha.rs", "src/yuv_p16_rgba16_alpha.rs", "src/y_with_alpha_to_rgb.rs", "src/yuva_p16_rgba_f16.rs", "src/ayuv_to_rgb.rs"],
  mech=[("alpha copy and premultiplication", "src/yuv_to_rgba_alpha.rs and its SIMD rows"), ("channel offsets", "src/yuv_support.rs YuvSourceChannels")],
  tech="metamorphic: the same picture with other alpha, with straight and premultiplied output, and without alpha",
  note="Random exploration; 400 generated pictures per function per run on every rung."),
 dict(id="C14", title="Storage variants of one picture give the same result",
  statement="Functions that differ only in how the picture is stored (RGB, BGR, RGBA or BGRA order; big or little endian; samples in high or low bits; Cb before Cr or after; planar, bi-planar or packed) give the same samples for the same picture: bit-identical where only byte, sample or plane order differs, and within the precision of C10 between planar, bi-planar, packed and 10-bit-word storage.",
  over=["inputs", "configurations"], forall="all pairs of functions for one conversion, images, sizes, layouts, parameters, CPU instruction sets",
  why="Each function is tested alone; the many generated variants of one kernel are where a swapped channel or a wrong byte order in one of them hides.",
  files=["src/yuv_p16_rgba_p16.rs", "src/yuv_p10_rgba.rs", "src/yuv_nv_p16_to_rgb16.rs", "src/yuy2_to_rgb.rs", "src/rgb16_to_yuv_p16.rs", "src/rgba_to_nv.rs"],
  mech=[("const-generic endianness, bit position, NV order, channel order", "all conversion modules")],
  tech="differential between functions on one generated picture in two storages",
  note="Random exploration; 200 generated pictures per pair, 403 pairs, on every rung."),
 dict(id="C16", title="Calls are pure: no history, no interference between threads",
  statement="What a call returns and writes depends only on its arguments: any call gives bit-identical output as the first call of a process, after any sequence of other calls, and while other threads run other conversions.",
  over=["histories", "schedules"], forall="all sequences of calls of any functions with any parameters, and all interleavings of such sequences on four threads",
  why="Every test makes one or two calls in a fixed order; state left behind by one function and read by another needs a particular sequence.",
  files=["src/yuv_support.rs", "src/sharpyuv/sharp_gamma.rs", "src/rgba_to_yuv.rs", "src/yuv_to_rgba.rs", "src/built_coefficients.rs"],
  mech=[("handlers and tables are built per call", "all conversion modules")],
  tech="stateful: generated call sequences run alone in fresh processes, in sequence, in reverse and on concurrent threads",
  note="Random exploration; about 8000 generated sequences of 2 to 9 calls per run, most of them around one function, the functions of the most similar names and a few changed parameters. Thread schedules are those the kernel happens to choose."),
 dict(id="C17", title="Each output sample depends only on the pixels it covers",
  statement="Changing the pixels of one chroma block changes no output sample of another block. Converting a group of rows alone gives bit-identical rows, and converting any block-aligned window alone gives the same samples as in the whole picture within the precision of C10.",
  over=["inputs", "configurations"], forall="all functions, images, positions, windows, parameters, CPU instruction sets",
  why="The tests compare whole images against themselves; reads from a neighbouring pixel, row or vector lane are small there.",
  files=["src/rgba_to_yuv.rs", "src/yuv_to_rgba.rs", "src/yuv_nv_to_rgba.rs", "src/shuffle.rs", "src/avx2", "src/sse", "src/avx512bw"],
  mech=[("row handlers and their tails", "all conversion modules and SIMD rows")],
  tech="metamorphic: one block changed, rows alone, window alone",
  note="Random exploration; 200 generated pictures per function per run on two rungs each."), dict(id="C18", title="Image containers accept exactly valid images and allocate and show them right",
  statement="check_constraints of every image container accepts an image exactly if its size is not zero, every stride is at least the row of its plane and every slice holds all rows (the interleaved chroma plane of bi-planar images and packed 4:2:2 images must be exactly compact), for every subsampling with odd sizes rounded up, and never panics. alloc gives a zeroed compact image of exactly this shape that is accepted. Views (to_fixed, from_mut) show the same size, strides and samples. Converting into an allocated image gives what converting into the caller's memory gives.",
  over=["inputs", "configurations"], forall="all containers, sample types, sizes (also near 2^31 and 2^32), subsamplings, strides, slice lengths, and all conversions into containers",
  why="The tests use even sizes and compact images of one container type each; they never look at the shape of an allocated odd image or at a rejected one.",
  files=["src/images.rs", "src/yuv_error.rs"],
  mech=[("constraint checks", "src/images.rs check_constraints, src/yuv_error.rs"), ("alloc, to_fixed, from_mut", "src/images.rs")],
  tech="model of the containers' shapes; differential for conversions into allocated images",
  note="Random exploration; 20000 generated images per container, 100 conversions per function with a container as its output."),
]

FIXED = [
 ("840f331", "C01", "AVX-512 VNNI fast-mode RGB to YUV 4:4:4/4:2:2 added the bias twice"),
 ("bf76888", "C01", "AVX2 RGB to YUV 4:0:0 dropped pixels in row tails"),
 ("a5788c9", "C01", "SMPTE 240M matrix had Kr and Kb swapped"),
 ("f0d5ba8", "C01", "rounding of RGB to YUV weights overflowed luma of white and broke neutral chroma"),
 ("c171f6b", "C03", "high bit depth RGB to YUV 4:2:0 took last luma of the 2x2 block from a wrong pixel"),
 ("c465eb5", "C03", "high bit depth RGB to bi-planar YUV 4:2:0 wrote last luma of odd rows at row start"),
 ("721279a", "C03", "rgb16_to_p216 and rgba16_to_p216 worked with 4:2:0 instead of 4:2:2"),
 ("a3281ed", "C03", "AVX-512 high bit depth RGB to YUV never stored chroma of row tails"),
 ("dcf3dd0", "C04", "big endian 4:2:2 YUVA to RGBA10/12/14 was read as little endian"),
 ("c44a94a", "C03", "rgba12_to_i212_be worked with 4:2:0 instead of 4:2:2"),
 ("dc342b0", "C04", "big endian 10/12-bit YUV to BGRA wrote RGBA"),
 ("f1c0339", "C03", "SSE high bit depth RGB to YUV 4:2:0 mixed green of the first row into the second"),
 ("e11f006", "C08", "SSE 10/12-bit YUVA to RGBA wrote 32 bytes past the pixels it converted"),
 ("5f49780", "C04", "AVX2 10/12-bit YUVA to RGBA repeated alpha of the first 16 pixels"),
 ("587424b", "C04", "alpha plane of big endian YUVA was read as little endian"),
 ("c3c9882", "C04", "10/12-bit YUV to 8-bit RGB wrapped around instead of saturating"),
 ("cfb895d", "C04", "12/14-bit YUV to AR30/RA30 was not scaled down to ten bits"),
 ("6dcaa35", "C04", "SSE 10/12-bit bi-planar YUV to RGB mixed neighbouring chroma samples"),
 ("d31c139", "C04", "SIMD 10/12-bit YUV to 8-bit RGBA stored a 10/12-bit alpha"),
 ("66f6e31", "C04", "10/12-bit YUV to 8-bit RGB scaled chroma wrongly for matrices without built coefficients"),
 ("071305c", "C04", "AVX2 YUV to RGBA f16 stored integer alpha"),
 ("d308c75", "C02", "SSE and AVX-512 8-bit YUV to RGB subtracted the luma bias with signed saturation"),
 ("aabea5e", "C02", "SSE NV12/NV21 to RGB used the Cr coefficient for blue in row tails"),
 ("871b1c8", "C02", "SIMD premultiplied alpha multiplied unclamped colors and truncated division by 255 on AVX2"),
 ("1dd7b16", "C02", "SIMD fast bi-planar YUV to RGB wrapped bright saturated pixels to black"),
 ("3dc0181", "C05", "AVX2 8-bit to f16 rounded normalized values to integers and interleaved 16-bit lanes in row tails"),
 ("a375457", "C05", "RGB to YCgCo scaled chroma by the luma range"),
 ("5b4e6ba", "C05", "16-bit identity to f16 overflowed to infinity"),
 ("4934cda", "C07", "high bit depth RGB to YUV 4:2:2 used row padding as the odd last column"),
 ("734dd9f", "C06", "packed 4:2:2 to planar dropped row tails and the odd last row, took 4:2:0 chroma from differing rows and wrote V padding"),
 ("83215cc", "C07", "4:4:4 YUV to AR30/RA30 wrote row padding"),
 ("878a711", "C07", "4:2:2 YUVA to RGBA used row padding as the odd last column"),
 ("25cc134", "C02", "SIMD fast bi-planar YUV to RGB wrapped bright greens with wide custom matrices"),
 ("5a27ecf", "C06", "4:4:4 YUV to packed 4:2:2 wrote wrong chroma on x86 SIMD and left gaps after the vector part"),
 ("75fc2a0", "C06", "Rotate90 misplaced leftover columns for RGBA, CbCr and 16-bit planes"),
 ("38121fe", "C09", "packed 4:2:2 images with a wrong stride were accepted"),
 ("4e1944e", "C09", "high bit depth gray to RGB did not validate its images"),
]

BELOW_BLACK = [
  "i010_alpha_to_rgba", "i010_alpha_to_rgba10", "i010_be_alpha_to_rgba", "i010_be_alpha_to_rgba10", "i010_be_to_bgr", "i010_be_to_bgra",
  "i010_be_to_rgb", "i010_be_to_rgba", "i010_to_bgr", "i010_to_bgra", "i010_to_rgb", "i010_to_rgba", "i012_alpha_to_rgba", "i012_alpha_to_rgba12",
  "i012_be_alpha_to_rgba", "i012_be_alpha_to_rgba12", "i012_be_to_bgr", "i012_be_to_bgra", "i012_be_to_rgb", "i012_be_to_rgba", "i012_to_bgr",
  "i012_to_bgra", "i012_to_rgb", "i012_to_rgba", "i210_alpha_be_to_rgba", "i210_alpha_be_to_rgba10", "i210_alpha_to_rgba", "i210_alpha_to_rgba10",
  "i210_be_to_bgr", "i210_be_to_bgra", "i210_be_to_rgb", "i210_be_to_rgba", "i210_to_bgr", "i210_to_bgra", "i210_to_rgb", "i210_to_rgba",
  "i212_alpha_to_rgba", "i212_alpha_to_rgba12", "i212_be_alpha_to_rgba", "i212_be_alpha_to_rgba12", "i212_be_to_bgr", "i212_be_to_bgra",
  "i212_be_to_rgb", "i212_be_to_rgba", "i212_to_bgr", "i212_to_bgra", "i212_to_rgb", "i212_to_rgba", "i410_alpha_to_rgba", "i410_alpha_to_rgba10",
  "i410_be_alpha_to_rgba", "i410_be_alpha_to_rgba10", "i410_be_to_rgba", "i410_to_rgba", "i412_alpha_to_rgba", "i412_alpha_to_rgba12",
  "i412_be_alpha_to_rgba", "i412_be_alpha_to_rgba12", "p010_to_rgb10", "p010_to_rgba10", "p012_to_rgb12", "p012_to_rgba12", "p210_to_rgb10",
  "p210_to_rgba10", "p212_to_rgb12", "p212_to_rgba12", "p410_to_rgb10", "p410_to_rgba10", "p412_to_rgb12", "p412_to_rgba12", "uyvy422_to_bgr",
  "uyvy422_to_bgra", "uyvy422_to_rgb", "uyvy422_to_rgba", "vyuy422_to_bgr", "vyuy422_to_bgra", "vyuy422_to_rgb", "vyuy422_to_rgba",
  "yuv420_alpha_to_bgra", "yuv420_alpha_to_rgba", "yuv420_to_bgr", "yuv420_to_bgra", "yuv420_to_rgb", "yuv420_to_rgba", "yuv422_alpha_to_bgra",
  "yuv422_alpha_to_rgba", "yuv422_to_bgr", "yuv422_to_bgra", "yuv422_to_rgb", "yuv422_to_rgba", "yuv444_alpha_to_bgra", "yuv444_alpha_to_rgba",
  "yuv444_to_bgr", "yuv444_to_bgra", "yuv444_to_rgb", "yuv444_to_rgba", "yuyv422_to_bgr", "yuyv422_to_bgra", "yuyv422_to_rgb", "yuyv422_to_rgba",
  "yvyu422_to_bgr", "yvyu422_to_bgra", "yvyu422_to_rgb", "yvyu422_to_rgba"
]
# every function but rotation and mirroring walks rows this way
SLICE_ENDS = sorted(f"{l.split()[1]} slice ends" for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/registry.in")) if l.strip() and not l.split()[1].startswith(("rotate_", "mirror_")))
FINDINGS = [
 dict(key="slice-end-short", property="C07", classes=["last row: skipped", "last row: wrong in the last rows", "last row: panic"], units=SLICE_ENDS,
  text="an image whose slice ends right after its last pixel is accepted, but rows are walked with chunks_exact(stride), so its last row is left "
       "unconverted, taken from the row before, or (some functions, few rows) the call panics"),
 dict(key="slice-end-long", property="C07", classes=["rows after: written", "rows after: wrong in the last rows", "rows after: panic"], units=SLICE_ENDS,
  text="slices with whole rows after the image: rows are walked to the end of the shortest slice, so rows after the image are written, the odd last row is "
       "looked for at the end of the slice, and (sharp YUV, RDP, packing) the call can panic"),
 dict(key="below-black", property="C17", classes=["below black"], units=BELOW_BLACK,
  text="limited-range YUV to RGB limits luma below nominal black to black in SIMD code but not in the scalar tail of a row, so the last columns of a "
       "single-coloured image can differ from the others (only for chroma samples away from neutral together with luma below 16)"),
]
NOT_APPLICABLE = []
