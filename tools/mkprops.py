import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook,**({'state':state} if state else {}))))
I,C,H,S,F="inputs","configurations","histories","schedules","fault_sequences"
p("C01","Remapping writes every output pixel, valid indices only, nothing else",
 "A successful remap writes exactly width×height palette indices, each smaller than the length of the palette returned afterwards, into every output pixel, and touches no byte outside the image area of the caller's buffer or rows. The written values do not depend on the buffer's previous contents, and a buffer that is too small is rejected without being written.",
 [I,C],"all image shapes, contents, settings, dithering levels, backgrounds and output buffer layouts",
 "tests remap a few fixed sizes and never look at surrounding memory, stale buffer contents or shapes around internal thresholds (rows, chunks, maps)",
 ["src/quant.rs","src/remap.rs","src/seacow.rs","imagequant-sys/src/ffi.rs"],
 [("plain and dithering remap loops write one index per pixel","src/remap.rs"),("row views over caller memory, buffer size checks","src/seacow.rs, src/quant.rs remap_into, ffi liq_write_remapped_image*")],
 ["QuantizationResult::remapped/remap_into/remap_into_vec","liq_write_remapped_image, liq_write_remapped_image_rows"])
p("C02","Palette never exceeds the requested number of colours",
 "A successful quantization yields a palette of at least one and at most the configured maximum number of colours, before and after remapping, whatever the quality, speed, posterization, fixed colours, importance map or way the histogram was filled. It also never holds more entries than there are distinct visible input colours plus fixed colours (all fully transparent colours counting as one).",
 [I,C],"all images/histograms and all attribute combinations",
 "a handful of (image, max_colors) pairs are tested; the limit interacts with the search feedback loop, fixed colours and quality targets",
 ["src/quant.rs","src/mediancut.rs","src/pal.rs","src/attr.rs"],
 [("colour limit in the palette search and in the fixed-colour merge","src/quant.rs find_best_palette, src/pal.rs with_fixed_colors"),("median cut loop bound","src/mediancut.rs cut")],
 ["palette length from palette(), palette_len(), remapped(), liq_get_palette"])
p("C03","Images that already fit the palette are reproduced exactly",
 "When an image has no more distinct visible colours than the colour limit, and quality target is 100, speed is 1–7, no posterization is requested and every pixel has non-zero importance, then quantizing and remapping it reproduces every visible pixel's RGBA exactly and every fully transparent pixel as fully transparent, at any dithering level, with any number of threads and any input gamma from 0.1 (below it dark colours are beyond the precision of the arithmetic). At speeds 8–10, where colours differing only in the lowest bit of a channel may be merged, every visible pixel without dithering gets a palette entry equal to it in all higher bits.",
 [I,C],"all images with at most max_colors distinct colours, all shapes, gammas, dithering levels, speeds",
 "tests check a few fixed palettes/images; exactness must survive colour-space round trips of all 2^32 colours, k-means refinement, dithering and all shapes",
 ["src/quant.rs","src/hist.rs","src/pal.rs","src/remap.rs","src/kmeans.rs"],
 [("few-colours shortcut takes the histogram as palette","src/quant.rs palette_from_histogram"),("gamma/premultiply round trip","src/pal.rs from_rgba/to_rgb"),("no diffusion of sub-visible error","src/remap.rs get_dithered_pixel")],
 ["remapped() palette[index] versus input pixels"])
p("C04","Fixed colours always appear in the final palette, unchanged",
 "Every fixed colour added to an image or histogram before quantization (the first max_colors of them, in order, when there are more; duplicates counting once) is present exactly — apart from requested posterization — in the palette returned both before and after remapping, for any image, quality, speed, dithering, importance map or background. More than 256 fixed colours are refused with an error.",
 [I,C,H],"all sets/orders of fixed colours (including duplicates, fully transparent ones, ones equal to image colours), all images and attributes",
 "tests cover few fixed colours with friendly images; the guarantee must survive median cut, k-means, replacement of unused colours, sorting and rounding",
 ["src/hist.rs","src/pal.rs","src/kmeans.rs","src/quant.rs","src/image.rs"],
 [("fixed colours merged into every candidate palette and flagged as immovable","src/pal.rs with_fixed_colors, PalPop::to_fixed"),("k-means and replacement skip flagged entries","src/kmeans.rs finalize, replace_unused_colors")],
 ["palette() and remapped() palettes","add_fixed_color return codes"])
p("C05","The minimum quality setting is a guaranteed floor",
 "If a minimum quality is set, quantization either fails with the quality-too-low error or returns a result whose reported quality is at least that minimum, and the palette really achieves about the reported error on the image it was made for (the report is the search's own estimate). Quality-too-low is never returned when no minimum (0) is set or when the image can be represented exactly, and fewer colours than allowed are only used when the target quality is reached.",
 [I,C],"all images and all (minimum, target, max_colors, speed) combinations",
 "tests check one or two quality settings on one image",
 ["src/attr.rs","src/quant.rs","src/kmeans.rs"],
 [("quality/MSE scale and limits","src/quant.rs quality_to_mse/mse_to_quality, src/attr.rs target_mse"),("floor check after palette search","src/quant.rs QuantizationResult::new")],
 ["quantize() result, quantization_quality(), quantization_error(), independent recomputation from palette"])
p("C06","Undithered remap picks the closest palette colour and reports true error",
 "With dithering off and no background, every pixel is mapped to a palette entry that is at least as close (in the library's premultiplied perceptual colour difference) as every other entry, for every palette size and arrangement and independent of neighbouring pixels. The reported remapping error equals the mean of these differences and the reported remapping quality is consistent with it.",
 [I,C],"all palettes (1–256 entries, clustered, duplicated, collinear, translucent) and all pixel values and orders",
 "unit tests probe a few palettes; the search tree prunes and shortcuts based on guesses that must never change the answer",
 ["src/nearest.rs","src/pal.rs","src/remap.rs"],
 [("vantage-point tree with guess shortcut","src/nearest.rs"),("colour difference","src/pal.rs f_pixel::diff"),("error accumulation","src/remap.rs remap_to_palette")],
 ["remapped() indices and palette, remapping_error(), remapping_quality()"])
p("C07","Remapping over a background only ever improves the composited picture",
 "When an image has a background and the palette has a fully transparent entry, undithered remapping gives a pixel the fully transparent entry when the background pixel is at least as close to it as the best palette entry, and the closest palette entry otherwise; the reported remapping error is the mean of the smaller of the two differences. With any dithering, pixels that equal their background or a palette colour are shown exactly when all pixels are of that kind, and those that equal their background get the fully transparent entry. Without a fully transparent palette entry the background has no effect, and a background of different size or with its own background is refused.",
 [I,C],"all image/background pairs, palettes with/without transparent entry, dithering levels, speeds",
 "tests use one identical background on one image",
 ["src/remap.rs","src/image.rs","src/quant.rs"],
 [("per-pixel comparison of background and palette difference","src/remap.rs remap_to_palette, dither_row"),("background validation","src/image.rs set_background")],
 ["remapped() over set_background, liq_image_set_background"])
p("C08","Palette order honours the transparent-index setting",
 "By default all palette entries with transparency come before all opaque entries (judged before any posterization rounding), in the palette returned by quantization and after undithered remapping, and always for palettes made from histograms; dithered remapping may still fine-tune the alpha of nearly opaque entries. With the last-index-transparent setting, if the palette has a fully transparent colour, the last palette entry is fully transparent, before and after any remapping. This holds for images and histograms and with fixed colours, and pixels still map to the right colours.",
 [I,C],"all images with mixed alpha, all settings, fixed colours, speeds, dithering",
 "tests check one image with the flag",
 ["src/quant.rs"],[("palette sort and swap","src/quant.rs sort_palette")],["palette(), remapped() palette order"])
p("C09","Invisible RGB never matters and opaque images stay opaque",
 "Changing the RGB values of fully transparent pixels (or of fully transparent histogram or fixed colours) changes nothing in the palette, the indices or the reported errors. An image with only opaque pixels gets only opaque palette entries, and an image with only fully transparent pixels gets only fully transparent ones.",
 [I,C],"all images, all replacements of hidden RGB values, all settings",
 "tests never vary hidden RGB",
 ["src/hist.rs","src/pal.rs","src/image.rs"],
 [("fully transparent colours share one histogram key","src/hist.rs add_color"),("premultiplied internal pixels","src/pal.rs from_rgba")],["palette(), remapped(), quantization_error() for pairs of inputs"])
p("C10","Posterization limits every palette channel to the requested bit depth",
 "With a minimum posterization of n bits every channel (including alpha) of every visible palette entry, before and after remapping and for fixed colours too, is one of the 2^(8−n) levels whose dropped low bits replicate the high bits, so that 0 and 255 are preserved; the setting never makes quantization fail. When the image has few enough colours, every undithered pixel gets a palette entry about as close to it as the posterized version of some input colour that shares its high bits.",
 [I,C],"all images, n in 0–4, all other settings",
 "one posterization test exists on one image",
 ["src/pal.rs","src/hist.rs","src/attr.rs"],[("rounding of the output palette","src/pal.rs posterize_channel, init_int_palette"),("histogram key masking","src/hist.rs posterize_mask")],["palette values"])
p("C11","Result depends on pixel values only, not on how the image was supplied",
 "The same pixels supplied as an owned, borrowed or strided buffer (with arbitrary padding and excess), through a row callback, through C contiguous/row-pointer/callback images, or as a clone of an image whose original was dropped, give identical palettes, indices and errors, including sizes too large for cached conversion. Row callbacks are only asked for rows inside the image with a row buffer of exactly the image width, and the caller's pixels are never modified.",
 [I,C,H],"all pixel contents, shapes, strides, paddings and constructor variants",
 "tests check each constructor separately with trivial images",
 ["src/image.rs","src/rows.rs","src/seacow.rs","src/capi.rs","imagequant-sys/src/ffi.rs"],
 [("row access abstraction","src/rows.rs DynamicRows"),("clone of row pointers","src/rows.rs Clone"),("streaming of huge images","src/rows.rs should_use_low_memory")],["quantize+remap outputs across representations; row callback arguments"])
p("C12","Histogram accumulates exactly the colours given, in any grouping or order",
 "For any sequence of adding images, colour-count lists and fixed colours to a histogram, the resulting palette reflects the union of all non-zero-count colours: when they fit into the limit the palette is exactly that set, regardless of order and grouping, and a colour's weight is the sum of its counts. A palette made from a histogram is frozen: remapping any image with it at any dithering level returns that same palette, and an empty histogram or invalid entries are refused without changing it.",
 [H,I],"all operation sequences up to the explored depth over small colour alphabets",
 "tests add one or two images once",
 ["src/hist.rs","src/quant.rs","src/pal.rs"],[("hash map accumulation and re-masking","src/hist.rs add_color, init_posterize_bits"),("freeze of result colours","src/quant.rs QuantizationResult::new")],["Histogram::quantize palettes"])
p("C13","Settings accept exactly the documented ranges; failures change nothing",
 "Every attribute and result setter accepts exactly its documented range, reports a value-out-of-range error otherwise, and after any sequence of calls the getters return the last accepted values; a rejected call has no effect on later results and setters of different options commute. This holds identically through the Rust and C interfaces, and copies of a settings object are independent of the original.",
 [H,C],"all setter call sequences to the explored depth over boundary values; all single values in the integer ranges",
 "tests check a few values of each setter",
 ["src/attr.rs","src/quant.rs","imagequant-sys/src/ffi.rs"],[("range checks in setters","src/attr.rs, src/quant.rs set_dithering_level/set_output_gamma, ffi.rs liq_set_*")],["getters, pipeline outcome after sequences"])
p("C14","Progress callbacks can abort at any point, cleanly",
 "At whichever progress notification the callback first asks to stop, the running quantization or remapping ends with the aborted error rather than success or another error, progress values always lie between 0 and 100, and no later step is reported as completed. The attributes, image, histogram and result objects stay usable afterwards: repeating the operation without aborting gives a valid result, identical to an undisturbed quantization.",
 [F,I,C],"every progress notification index of every explored pipeline, one-shot and persistent stop requests",
 "one test aborts at a single point",
 ["src/attr.rs","src/quant.rs","src/hist.rs","src/remap.rs"],[("progress checks between stages","src/quant.rs find_best_palette/refine_palette/new, src/hist.rs add_image, src/remap.rs")],["return codes, callback arguments, follow-up runs"])
p("C15","A result gives the same remap regardless of what was remapped before",
 "Remapping an image with a result object depends only on that image, the result's current dithering and gamma settings and the quantized palette: earlier remaps of other images, setting changes that were later reverted, failed or aborted calls, and cloning the result do not alter palette, indices or reported errors. After each successful remap the palette and remapping error read from the result are those of that remap.",
 [H],"all sequences of remaps, setting changes, reads and clones up to the explored depth",
 "tests remap once or twice in a fixed order",
 ["src/quant.rs","src/remap.rs"],[("palette cloned per remap, remapped state reset by setters","src/quant.rs write_remapped_image_rows_internal, set_*")],["remapped(), palette(), remapping_error() after each history"])
p("C16","Thread scheduling never changes the result, and nothing deadlocks or races",
 "For a given input and settings every interleaving of the library's worker threads gives the same palette, indices and errors (up to floating-point rounding of sums), and terminates; the number of worker threads changes nothing when dithering is off, and with dithering changes at most where a tall image is split. Unrelated quantizations running concurrently on different threads do not affect each other's results.",
 [S,I],"all interleavings of 2–3 workers at work-item granularity up to the preemption bound, on inputs that exercise each parallel section",
 "tests run whatever schedule the machine produces",
 ["src/kmeans.rs","src/remap.rs","src/lib.rs","src/seacow.rs"],[("per-thread accumulators merged after the parallel loop","src/kmeans.rs iteration, src/remap.rs remap_to_palette"),("disjoint row chunks","src/remap.rs remap_to_palette_floyd")],["outputs under a controlled scheduler substituted for the thread pool; race detector runs"],None)
p("C17","The C interface behaves like the Rust one and rejects bad handles",
 "Any pipeline driven through the C functions with the published header gives the same return codes, palette, indices, errors and getter values as the equivalent Rust calls, with error codes and structures as declared in the header. Null or wrong-kind handles and invalid sizes are refused with the documented error value (or null) instead of crashing, output pointers are always set, destroying null is allowed, null callbacks switch the callback off, and callbacks receive the registered user pointer and handle.",
 [C,H,I],"all C entry points × {valid, null, wrong kind of handle} and all pipelines of the explored configuration space",
 "the C test covers one happy path",
 ["imagequant-sys/src/ffi.rs","imagequant-sys/libimagequant.h","src/capi.rs","src/error.rs"],[("handle tagging","ffi.rs bad_object!"),("thin wrappers","ffi.rs")],["C driver compiled against the header"])
p("C18","Memory handed over through the C interface is released exactly once",
 "Across any order of creating, configuring, quantizing, remapping and destroying objects, every buffer whose ownership was passed to the library is released exactly once with the registered free function, no earlier than its last use; buffers whose ownership was not passed are never released, and destroying all objects leaves no memory behind. An ownership call that returns an error takes nothing, except that a background image passed with valid handles is always taken.",
 [H],"all operation sequences up to the explored depth over image kinds × ownership flags × maps × backgrounds",
 "tests never use ownership flags",
 ["imagequant-sys/src/ffi.rs","src/seacow.rs","src/rows.rs"],[("owned/borrowed buffer wrapper","src/seacow.rs SeaCow"),("ownership transfer","src/rows.rs set_memory_ownership, ffi.rs set_background/set_importance_map")],["recording free function, allocation accounting"])
p("C19","No input or call sequence causes a crash, memory error or undefined behaviour",
 "For every valid sequence of safe API calls with any pixel data, histogram counts, importance values, gammas and settings, the library returns a result or an error value: it never panics (also with debug assertions and overflow checks), never reads uninitialised or freed memory and never yields non-finite numbers or a hang.",
 [I,C,H],"all call sequences up to the explored depth, the deviation-bounded configuration space, degenerate inputs",
 "tests use well-formed inputs only",
 ["src"],[("bounds and error handling throughout, unsafe row/buffer handling","src/rows.rs, src/seacow.rs, src/remap.rs, src/hist.rs, src/mediancut.rs")],["panic hook, debug-assertion build, Miri and address-sanitizer monitored executions, watchdog"])
p("C20","Build features do not change results",
 "Building without thread support gives the same palettes, indices, errors and return codes as building with it (apart from dithering of images tall enough to be split between threads). Building with large-palette support gives identical results for limits up to 256 colours (when no minimum quality is set), and palettes with more than 256 entries are refused when remapping instead of producing wrong indices.",
 [C,I],"the explored configuration space in each feature combination",
 "the same unit tests are run per feature set but outputs are never compared",
 ["src/rayoff.rs","src/lib.rs","src/pal.rs","src/remap.rs","src/nearest.rs"],[("sequential stand-ins","src/rayoff.rs"),("index width types","src/pal.rs")],["outcome digests across builds"])
p("C21","Image construction accepts exactly the buffers that can hold the image",
 "An image is accepted if and only if both dimensions are at least one and representable, the stride is not smaller than the width, the buffer holds all rows (the last may lack its padding) and gamma is within 0–1; otherwise the documented error is returned and nothing is read. Importance maps and output buffers are accepted exactly when their size fits, and reported width and height equal the given ones.",
 [I],"all combinations of small dimensions, strides, buffer lengths and boundary/overflowing values, all constructors",
 "tests try half a dozen sizes",
 ["src/image.rs","src/rows.rs","imagequant-sys/src/ffi.rs"],[("size validation","src/rows.rs for_pixels, src/image.rs check_image_size/new_internal, ffi.rs check_image_size")],["constructor results"])
p("C22","Input and output gamma are applied consistently",
 "The output palette uses the input image's gamma unless an output gamma is set, and then equals the input colours converted from input to output gamma, in every palette read made after the setting is changed, before or after remapping; alpha is never affected. The output gamma getter returns the gamma in effect, and indices still select the converted colour of the original pixel.",
 [C,H],"all input/output gamma pairs of the grid, all channel values, order of set/read/remap",
 "no test sets an output gamma",
 ["src/pal.rs","src/quant.rs","src/hist.rs","src/image.rs"],[("gamma tables","src/pal.rs gamma_lut/to_rgb"),("cached integer palette","src/quant.rs int_palette/set_output_gamma")],["palette(), remapped(), output_gamma()"])
p("C23","Palettes never invent colours outside the input's range",
 "Without posterization or gamma change, every non-fixed visible palette entry has each RGB channel and alpha within the minimum and maximum of that channel over the visible, non-ignored input pixels (to within one rounding level), before and after remapping.",
 [I,C],"all images and settings of the explored space",
 "no test relates palette to input ranges",
 ["src/kmeans.rs","src/mediancut.rs","src/pal.rs","src/remap.rs"],[("weighted averages only","src/kmeans.rs, src/mediancut.rs weighed_average_color")],["palette values versus input"])
p("C24","Importance map weights pixels; zero-importance pixels are ignored",
 "Pixels with zero importance have no influence on the generated palette whatever their colour, an all-maximum map is equivalent to plain pixel counting, and giving a pixel importance v is equivalent to adding its colour v times to a histogram; pixels of higher importance are represented at least as well on average. The map given by the user stays in force for every later quantization that is possible with that image.",
 [I,C,H],"all maps over small images, all settings of the explored space",
 "tests set no meaningful map",
 ["src/image.rs","src/hist.rs","src/remap.rs"],[("boost per pixel","src/hist.rs add_pixel_rows"),("k-means weight","src/remap.rs remap_to_palette")],["palette for pairs of inputs"])
p("C25","Generated palettes are competitive with a simple reference quantizer",
 "For limits of at least 8 colours (16 at speeds above 6) the actual error of the undithered remapped image is not materially worse than that of a plain median-cut reference with the same number of colours, and on average over many images it is lower at speeds 1–7. Every well-separated group of colours gets its own entry when the limit is generously larger (three times) than the number of groups, and (from those limits on) doubling the colour limit or lowering the speed setting does not materially increase the error.",
 [I,C],"structured image families × limits × speeds",
 "quality is never compared with anything in tests",
 ["src/mediancut.rs","src/kmeans.rs","src/quant.rs","src/hist.rs"],[("median cut with feedback and k-means","src/quant.rs find_best_palette")],["independently computed error of remapped output"])
p("C26","Dithering reproduces intermediate colours on average, everywhere in the image",
 "With full dithering, areas whose colour lies between palette colours are rendered as a mixture whose local average is closer to the input than the best single palette colour, uniformly over the image including borders and the places where work is split between threads; flat areas already equal to a palette colour stay flat. Level 0 gives no dithering, and lower levels never move the average further away than no dithering does.",
 [I,C,S],"two-to-four colour palettes × flat and gradient images × shapes around thresholds × levels × thread counts",
 "no test examines dithered output",
 ["src/remap.rs","src/image.rs"],[("error diffusion, serpentine scan, chunk pre-warming","src/remap.rs remap_to_palette_floyd/dither_row")],["block averages of remapped output"])
p("C27","Log, flush and progress callbacks only observe, and reach the right receiver",
 "Log messages and flush notifications are delivered only to the callbacks last registered on the settings object in use (a copy starts with those of its original), together with that object; every quantization logs something, and after the last message the flush callback is called before it or the log callback is replaced or cleared or the object is destroyed. Registering log, flush or never-stopping progress callbacks changes no palette, index, reported error or return code, in Rust and in C.",
 [H,C],"all histories of registering, clearing, copying, using and destroying settings objects up to the depth; all explored pipelines with and without observers",
 "tests register at most one callback and never compare results with and without it",
 ["src/attr.rs","src/quant.rs","imagequant-sys/src/ffi.rs"],[("log and flush callbacks shared by copies, flushed on replacement and drop","src/attr.rs set_log_callback/set_log_flush_callback/Drop"),("C trampolines","ffi liq_set_log_callback, liq_set_log_flush_callback, liq_attr_copy")],["callbacks received by two distinct receivers per kind","palette, indices, errors with and without observers"])
p("C28","Maximum quality: reached when possible, with no more colours than needed",
 "With a maximum (target) quality below 100 the palette has about as few colours as that quality needs: not materially more than a plain median cut needs for the same error, and on average about as many. When a plain median cut reaches the target comfortably within the colour limit, so does the palette; a lower target never costs noticeably more colours and a higher target is never noticeably worse.",
 [I,C],"all targets × image families × sizes × speeds × colour limits, images and histograms; deviations of all other settings",
 "tests check that one quality setting gives fewer colours on one image",
 ["src/quant.rs","src/mediancut.rs","src/attr.rs"],[("search stops adding colours at the target error","src/mediancut.rs total_box_error_below_target/cut"),("feedback loop and overshoot","src/quant.rs find_best_palette")],["palette length and independently computed error for every target"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
