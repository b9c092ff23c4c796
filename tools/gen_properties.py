#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Multithreaded operations return exactly what the sequential ones return",
"With the multithreading feature on, every operation that uses it (crop, scale, Lanczos scale, the linear, box, weighted-average, Gaussian, sharpening, edge-detection and bilateral filters) returns, for every image with at least one pixel, the same image, dimensions, channel layout and kind of outcome as the same call in the sequential build, whatever the number of worker threads, the way work is split and stolen, the interleaving of the workers, and the context it is called from. Pixel values agree up to floating-point rounding (exactly, where pixels are only copied).",
["schedules","inputs","configurations"],
"all images, arguments, pool sizes, work-splitting and stealing decisions, and interleavings down to single memory accesses",
"The tests run without the multithreading feature, and no test controls a schedule; with real threads a test sees a handful of interleavings it cannot choose.",
["src/transform.rs","src/filter/mod.rs","src/filter/edge.rs","src/filter/bilateral.rs","src/util/mod.rs","src/util/math.rs","src/image/mod.rs"],
[("indexed parallel map and ordered collect over pixel numbers","src/transform.rs, src/filter/mod.rs, src/filter/bilateral.rs"),("pixel number to coordinates","src/util/mod.rs get_2d_coords"),("assembling the image from per-pixel vectors","src/image/mod.rs from_vec_of_vec, from_vec_of_slice")],
observe=["returned image or error of the public function"])

p("C02","Multithreaded operations always finish, in any pool and any context",
"A call of a multithreaded operation returns after a bounded number of steps under every fair schedule: with a pool of a single worker, with several callers sharing one pool, and when called from inside a task, a join or a scope of the same pool. No combination of such calls can deadlock or spin for ever.",
["schedules","configurations"],
"all pool sizes from one worker up, nesting contexts, numbers of simultaneous callers and fair schedules",
"A deadlock needs a particular stealing or waiting order; tests never run the multithreaded build, nested calls or a one-worker pool.",
["src/transform.rs","src/filter/mod.rs","src/filter/bilateral.rs","src/filter/edge.rs"],
[("workers never wait for one another: each pixel is computed independently","src/transform.rs, src/filter/mod.rs, src/filter/bilateral.rs")],
observe=["the call returns"])

p("C03","Concurrent callers do not affect one another",
"Any number of threads may call any operations of the library at the same time, on shared or separate images and on separate files, and every call returns exactly what it would have returned had it been the only call ever made; shared input images are left bit for bit unchanged. This holds with and without the multithreading feature.",
["schedules","inputs"],
"all sets of simultaneous calls and all their interleavings down to single memory accesses and system calls",
"Tests call every function from one thread only; interference needs two calls to overlap at a particular instruction.",
["src/colorspace.rs","src/convert.rs","src/filter/mod.rs","src/filter/edge.rs","src/filter/bilateral.rs","src/filter/median.rs","src/morphology.rs","src/tone.rs","src/transform.rs","src/util/mod.rs","src/util/math.rs","src/image/mod.rs","src/image/pixel_iter.rs","src/image/sub_image.rs","src/simd.rs","src/io/mod.rs"],
[("no mutable global or thread-local state anywhere in the crate; inputs are taken by shared reference","src/*")],
observe=["returned values of concurrent calls","contents of shared input images afterwards"])

p("C04","A call's result does not depend on what was called before",
"The outcome of every operation is determined by its arguments (and, for reading, by what the file holds at that moment): it is the same as the first call in a fresh process and as the thousandth after any history of other calls, on the same or another thread. In particular earlier calls that returned errors, panicked, were aborted by a panicking callback or hit storage faults leave no trace.",
["histories","fault_sequences","inputs"],
"all histories of earlier successful, rejected, panicking and I/O-faulted calls, with related arguments, on any thread",
"Each test makes one or two calls with fixed arguments; leftovers show only after particular pairs of related calls or after a failed call.",
["src/colorspace.rs","src/convert.rs","src/filter/mod.rs","src/filter/edge.rs","src/filter/bilateral.rs","src/filter/median.rs","src/morphology.rs","src/tone.rs","src/transform.rs","src/util/mod.rs","src/util/math.rs","src/image/mod.rs","src/image/from_impl.rs","src/simd.rs","src/io/mod.rs"],
[("lookup tables, kernels, histograms and scratch vectors are rebuilt inside every call","src/tone.rs, src/colorspace.rs, src/filter/median.rs, src/util/mod.rs")],
observe=["returned values"])

p("C05","A failing callback never corrupts an image",
"When a user callback given to an in-place or mapping operation panics at any invocation, or (for in-place operations) yields a pixel of the wrong length, the panic reaches the caller, the image keeps its dimensions and all its pixels, and every element holds either its old value or the complete new value for it (for whole-pixel operations no pixel is half replaced); the image stays fully usable. When no callback fails, each selected element is passed to the callback exactly once with its original value, alpha goes only to the alpha callback, and everything else is untouched.",
["fault_sequences","histories","inputs"],
"all in-place and mapping operations, image shapes, and every point at which a callback can fail, in any sequence",
"The tests use callbacks that never fail; the quantifier is over every failure point in every sequence of operations.",
["src/image/mod.rs","src/image/pixel.rs"],
[("a pixel is written back only after its callback returned, with its length checked","src/image/mod.rs apply_pixels, apply_pixels_if_alpha, set_pixel_indexed"),("mapping builds a separate image","src/image/mod.rs map_*")],
state=[("data","row-major channel values, always width*height*channels long","src/image/mod.rs Image")],
observe=["image dimensions and data after a caught panic"])

p("C06","An image is a faithful store of its pixels through any history",
"After any sequence of pixel writes, in-place edits and conversions, including writes rejected because of out-of-range coordinates or a wrong pixel length, every way of reading the image (by coordinates, by index, raw data, pixel iterator, sub-image, neighbourhood inside the image) reports for each position exactly the value last successfully written there, from every thread that reads it. A rejected access panics and changes nothing.",
["histories","fault_sequences","schedules"],
"all sequences of reads, writes and rejected accesses, with any number of concurrent readers between writes",
"Tests read back a couple of fixed pixels of one 3x3 image; they never mix rejected accesses, views and readers.",
["src/image/mod.rs","src/image/sub_image.rs","src/image/pixel_iter.rs","src/image/pixel.rs","src/error/messages.rs"],
[("bounds and length checks before any write","src/error/messages.rs check_xy, check_channels"),("row-major addressing shared by all views","src/image/mod.rs index, get_pixel, get_subimage, get_neighborhood_*")],
state=[("data","row-major channel values","src/image/mod.rs Image")],
observe=["all read accessors"])

p("C07","Taking or missing the CPU fast path does not change a result",
"Brightness, saturation and grayscale conversion return the same image whether the CPU-specific fast path is available or not and whether it is compiled in or not, for images of every size and channel layout; this holds even if the availability answer differs from call to call.",
["configurations","inputs","fault_sequences"],
"all images, arguments and all sequences of answers of CPU feature detection, in builds with and without the fast path",
"No running test calls these functions at all, and a test host has one CPU type: the fallback and the fast path never run on the same input.",
["src/simd.rs","src/tone.rs","src/colorspace.rs"],
[("feature detection chooses between two implementations","src/tone.rs brightness, saturation; src/colorspace.rs rgb_to_grayscale"),("vector loop plus scalar remainder","src/simd.rs")],
observe=["returned image"],
hook="cfg(imgproc_sim): feature detection asks the simulator (src/lib.rs)")

p("C08","Results do not depend on the host environment",
"For equal arguments every operation returns bit-identical results in every process and on every host: independent of hash seeds, of the previous contents and layout of the heap, of the number of CPUs and worker threads, of time, and of thread scheduling.",
["configurations","schedules","inputs"],
"all environments: random seeds, heap contents and placement, CPU and worker counts, clocks, schedules",
"A test run has a single environment and compares with nothing; uninitialised memory or hash order may well agree by luck on one host.",
["src/tone.rs","src/util/mod.rs","src/simd.rs","src/filter/mod.rs","src/filter/bilateral.rs","src/filter/median.rs","src/transform.rs","src/image/mod.rs","src/colorspace.rs","src/morphology.rs"],
[("ordered accumulation of the histogram; the hashed map is only looked up by key","src/util/mod.rs generate_histogram_percentiles, src/tone.rs histogram_equalization"),("ordered collect in multithreaded operations","src/filter/mod.rs, src/transform.rs"),("buffers are initialised before use","src/simd.rs, src/image/mod.rs")],
observe=["returned values in different environments"])

p("C09","A successful write has stored the whole image; storage errors are reported",
"If writing an image returns success, the destination holds a complete file that decodes to the image written (exactly, for lossless formats whose reader supports its layout), and this stays so however the process ends afterwards. If creating the file or transferring any part of its data fails (full disk, quota, I/O error, no descriptor, permission), writing returns an error: it never reports success and never panics.",
["fault_sequences","inputs"],
"all images and formats and all sequences of storage faults during the call",
"Tests never write a file; storage faults at a chosen byte cannot be produced by a unit test on a real disk.",
["src/io/mod.rs","src/error/mod.rs"],
[("propagation of encoder and file errors","src/io/mod.rs write"),("error conversions","src/error/mod.rs")],
observe=["result of the write","contents of the destination"])

p("C10","A read returns exactly the stored image or an error",
"Reading a file returns exactly the image its bytes encode, with the file's width, height, channel count and alpha flag, or an error. Under storage faults during the read, for a file cut off at any point (but inside or after the last number of a plain-text PNM file, whose end is not marked), and for a PNG file with any damaged byte, it returns an error or the exact image, never different pixels, a partial image or a panic; once the faults stop the same call succeeds.",
["fault_sequences","inputs","schedules"],
"all supported 8-bit files, all sequences of read faults, every truncation point, damaged PNG bytes, all interleavings of the decoder's own threads",
"Tests never read a file; short reads, interrupted calls and truncation at a chosen byte do not occur on a healthy disk.",
["src/io/mod.rs","src/error/mod.rs"],
[("decoder errors are propagated","src/io/mod.rs read"),("colour type to channel layout","src/io/mod.rs from_color_type")],
observe=["result of the read"])

p("C11","Write then read returns the same image, however storage splits the transfers",
"An 8-bit gray, gray+alpha, RGB or RGBA image written to a lossless format that stores its layout (PNG; PGM, PPM, PAM, BMP, TIFF, TGA and ICO where applicable) and read back has the same dimensions, channels, alpha flag and pixels, also when storage transfers data in arbitrary small pieces or interrupts calls and they must be resumed, when the file replaces a longer one, and when other files are written and read at the same time.",
["inputs","fault_sequences","schedules","histories"],
"all images in the supported layouts and formats, all splittings and interruptions of transfers, all interleavings with other I/O calls",
"Tests never touch a file; short transfers and interruptions do not happen on demand.",
["src/io/mod.rs"],
[("channel layout chosen from channels and alpha on write, and from colour type on read","src/io/mod.rs write, read, from_color_type")],
observe=["image returned by the read"])

p("C12","A refused write leaves existing files untouched",
"Writing an image whose channel layout is unsupported, whose pixel data does not fill its dimensions, or whose destination name has no supported format or a format that cannot hold the layout or the dimensions returns an error and neither creates, truncates nor modifies any file, whatever else goes wrong in storage at the same time.",
["inputs","fault_sequences","histories"],
"all unsupported images and destinations, all prior states of the destination, with and without storage faults",
"Tests never write a file, and the loss shows only when a file already exists at the destination.",
["src/io/mod.rs"],
[("layout check before saving","src/io/mod.rs write"),("pixel-count check before saving","src/io/mod.rs write (ImageBuffer::from_raw)")],
observe=["result of the write","contents of the file system afterwards"])

p("C13","I/O calls leak nothing and touch only the named file",
"However a read or a write ends (success, error, panic, under any storage faults), every file descriptor it opened is closed when it returns, a read modifies nothing, and a write changes no path but its destination and leaves no other file behind.",
["fault_sequences","histories"],
"all sequences of reads and writes with storage faults at any point",
"Tests never touch a file; leaks on error paths need a fault at a particular call.",
["src/io/mod.rs"],
[("file handles owned by values dropped on every path","src/io/mod.rs read, write")],
observe=["open descriptors and directory contents after the call"])

p("C14","A crash during a write never yields a wrong image",
"If the process dies at any point during a write, a later read of the destination returns either the complete previous image, the complete new image, or an error, never a third image; all other files are intact, and repeating the write succeeds.",
["crash_points","inputs"],
"all images and formats and every point between or inside the storage operations of the write, over an absent, shorter or longer previous file",
"A unit test cannot kill the process at a chosen storage operation and look at what was left.",
["src/io/mod.rs"],
[("the destination is replaced by a new file written front to back; decoders reject incomplete files","src/io/mod.rs write")],
observe=["result of reading the destination after restart"])

p("C15","No operation touches memory outside its own buffers",
"For images of every size and layout, wherever the allocator places the buffers (next to other live data, at the edge of mapped memory, in memory with any previous contents), no operation reads or writes outside the buffers it owns or was given, uses memory after freeing it, or exposes uninitialised memory.",
["configurations","inputs","schedules"],
"all operations, image sizes and layouts, heap placements and heap contents",
"Out-of-bounds vector accesses are silent with an ordinary allocator, and no running test calls the unsafe code.",
["src/simd.rs","src/tone.rs","src/colorspace.rs","src/image/mod.rs"],
[("loop bounds of the raw-pointer vector loops","src/simd.rs")],
observe=["guard bytes around every allocation, protected pages at its edge, process survival"])

p("C16","A failure inside a multithreaded operation is contained and reported",
"If computing any pixel of a multithreaded operation (on images with at least one pixel) fails, on whichever worker and at whatever time, the failure reaches exactly the caller of that operation, no partial image is returned, calls running at the same time on the same workers still return their correct results, and the workers remain able to serve later calls correctly.",
["fault_sequences","schedules"],
"all multithreaded operations, sets of failing pixels, pool sizes, interleavings, and later calls",
"Tests run neither the multithreaded build nor a failing pixel; which worker fails when is a matter of schedule.",
["src/transform.rs","src/filter/mod.rs","src/filter/bilateral.rs","src/filter/edge.rs"],
[("panics of a pixel task propagate through the parallel collect","src/transform.rs, src/filter/mod.rs, src/filter/bilateral.rs")],
observe=["outcome at the caller","results of concurrent and later calls"])

# Properties this family cannot decide here (pure functions of their arguments)
pure="A pure function of its arguments; tests sample a few inputs or none."
p("N01","Geometric transforms place every pixel where documented",
"Reflecting twice, translating, cropping, overlaying and superimposing move or combine pixels exactly as documented for every image, offset and size, including regions that reach the image border, and rotating or shearing keeps every input pixel inside the output.",
["inputs"],"all images, offsets, sizes, angles and factors",pure,["src/transform.rs"],[("coordinate arithmetic","src/transform.rs")])
p("N02","Median and trimmed-mean filters equal their definition",
"For every image, radius and trim amount each output value is the median (or trimmed mean) of the values in the kernel window around it.",
["inputs"],"all images, radii and trims",pure,["src/filter/median.rs"],[("incrementally updated partial histograms","src/filter/median.rs")])
p("N03","Linear filters equal convolution, separable or not",
"Filtering with a kernel equals direct convolution with edge-clamped borders, and the separable route gives the same result as the direct one for every separable kernel.",
["inputs"],"all images and kernels",pure,["src/filter/mod.rs","src/util/math.rs"],[("kernel separation by SVD","src/util/math.rs separate_kernel")])
p("N04","Morphology obeys its algebra",
"On binary images erosion shrinks, dilation grows, both are monotone and dual, opening and closing are idempotent, and majority picks the majority value.",
["inputs"],"all binary images and radii",pure,["src/morphology.rs"],[("window sums over a summed-area table","src/morphology.rs, src/util/mod.rs")])
p("N05","Colour conversions are inverse to one another",
"Converting an image to another colour space and back returns the original up to quantisation, and converted channels lie in the documented ranges.",
["inputs"],"all images",pure,["src/colorspace.rs","src/util/math.rs"],[("conversion matrices and transfer functions","src/colorspace.rs, src/util/constants.rs")])
p("N06","Tone operations and thresholds follow their definition",
"Contrast, gamma, brightness, histogram equalisation and thresholding compute the documented value for every channel, leave alpha alone and stay in range.",
["inputs"],"all images and parameters",pure,["src/tone.rs","src/filter/mod.rs"],[("per-channel maps and lookup tables","src/tone.rs")])
p("N07","Invalid arguments are rejected with an error, not a panic or a wrong image",
"Every operation returns an error for arguments outside its documented domain (even kernel sizes, out-of-range parameters, mismatched images, regions outside the image) and accepts everything inside it.",
["inputs"],"all arguments",pure,["src/error/messages.rs","src/transform.rs","src/filter/mod.rs","src/tone.rs"],[("argument checks","src/error/messages.rs")])
p("N08","Interpolated scaling reproduces the image at every factor",
"Scaling by any positive factor yields the documented dimensions, keeps constant images constant, reproduces the input at factor one and keeps values within the range the interpolation method allows.",
["inputs"],"all images, factors and methods",pure,["src/transform.rs","src/util/math.rs"],[("interpolation weights","src/transform.rs, src/util/math.rs")])
p("N09","Summed-area tables and window sums are exact",
"The sum over any rectangle computed from a summed-area table equals the sum of the pixels in it for every image whose partial sums are representable.",
["inputs"],"all images and rectangles",pure,["src/util/mod.rs"],[("inclusion-exclusion on the table","src/util/mod.rs rectangular_intensity_sum")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
