prop("R01", "Image does not depend on scheduling or CPU count",
 "For every image function whose value depends only on the sample position and on the random numbers handed out at the first two recursion levels, and for every image size and number of passes, the rendered image and deviation image are the same for every number of worker CPUs and every interleaving of the workers. Sampling returns only when all samples of all pixels have been taken, and never deadlocks.",
 ["schedules","configurations"], "all interleavings of the render workers up to a preemption bound, worker counts 1..3, tile layouts",
 "Tests render with whatever schedule and CPU count the machine gives; they compare to goldens within a tolerance, so a lost or duplicated sample, or worker state leaking between tiles, goes unnoticed.",
 ["tracer/sampler.go","tracer/ctx.go"], ["tile queue and worker goroutines @ tracer/sampler.go SampleWithCancel","per-worker context @ tracer/ctx.go NewCtx, Init"],
 "stateless model checking of the real renderer under a controlled scheduler (preemption-bounded exhaustive interleavings), plus race-detector side condition", MC,
 "All interleavings up to the stated preemption bound for the stated small images; sequential consistency assumed, with a separate race-detector pass to justify it.")
prop("R02", "Every pixel receives exactly the requested samples at its own centre",
 "Without anti-aliasing, sampling n passes evaluates the image function exactly n times per pixel at the pixel's centre: u runs from 0 to 1 over the image width, v decreases downwards, pixels are square and v is centred on 0.5. The image then is per pixel and per colour channel the mean of all samples taken so far, and the deviation image their (n-1) standard deviation (0 for a single sample), a sample that is not a number counting as black. Sampling a and then b passes is equivalent to sampling a+b passes, and reading or modifying returned images does not affect later results.",
 ["inputs","histories"], "all image sizes up to a bound, all histories of sampler operations up to a depth",
 "Tests compare a few fixed-size renders to goldens within a tolerance; nobody counts evaluations per pixel or interleaves sampling and reading.",
 ["tracer/sampler.go"], ["accumulation of sum, sum of squares and count @ tracer/sampler.go samplePixel","tiling @ tracer/sampler.go tessellate","pixel to camera mapping @ tracer/sampler.go IndexToCam"],
 BE + " (operation histories of the sampler)", EXP,
 "Exhaustive over all histories up to depth 4 (quick) / 5 (thorough) of 6 operations, and all image sizes up to 40x40 / 72x72.")
prop("R03", "Anti-aliased samples stay in their own pixel and spread evenly over it",
 "With anti-aliasing, every sample of a pixel lies within that pixel's own square. Over successive passes the offsets of a pixel follow the 2,3-Halton low-discrepancy sequence, shifted by an amount that differs between pixels, so that they cover the pixel evenly, whatever way the passes are divided over sampling calls.",
 ["inputs","histories"], "all image sizes up to a bound, all pixels, all passes up to a bound, several divisions of passes over calls",
 "Golden images tolerate jitter of this size, so wrong footprints (aspect ratio) or repeated offsets do not show up.",
 ["tracer/sampler.go","tracer/ctx.go","tracer/sequence/sequence.go"], ["sub-pixel offset @ tracer/sampler.go samplePixel","per-pixel shifted sequence @ tracer/ctx.go NewCtx, tracer/sequence/sequence.go Init"],
 BE, EXP, "All pixels and passes of the listed image sizes; offsets recovered from the accumulated image itself.")

prop("R04", "A ray sees exactly the nearest surface in front of it",
 "Of all objects and lights in a scene, a ray sees the one hit nearest in front of its start, whatever the number, order and grouping of the objects; hits behind the start, missed, or at no number do not count. The material of that surface, and no other, is asked for the colour, with the distance, the unit normal and the local coordinates of that hit. When light sources are accounted for separately (indirect light), they appear black but still hide what is behind them, and where nothing is hit the scene is black.",
 ["inputs"], "all sequences of up to 4 (thorough 5) probe objects and lights over 9 hit positions; all orders and groupings of sets of real objects",
 "Golden scenes have one fixed order of a few objects; ties, order dependence and NaN distances do not occur there.",
 ["tracer/scene.go","tracer/objects/group.go"], ["frontmost intersection @ tracer/scene.go intersectFrontmost","lights replaced by black @ tracer/scene.go NewScene, LightFieldIndirect"],
 BE, EXP, "Complete over the stated arrangements. Which of several surfaces at exactly the same distance is seen is left open.")
prop("R05", "Recursion stops at exactly the requested depth; evaluations are independent",
 "A camera ray is level one, every ray traced by a material is one level deeper, and beyond the scene's recursion depth a ray sees black; within it nothing is cut off. Evaluating a ray, to whatever depth, leaves the worker's context as it found it, so that the result of an evaluation does not depend on which other evaluations were made before with the same context.",
 ["inputs","histories"], "all recursion depths, branching factors and histories of evaluations up to the stated bounds",
 "Tests render whole images with one depth each; an off-by-one or state left in the reused context changes images by less than the golden tolerance.",
 ["tracer/scene.go","tracer/ctx.go"], ["recursion depth bookkeeping @ tracer/scene.go lightField","recycled rays and context state @ tracer/ctx.go"],
 BE + " (operation histories on one context)", EXP, "Complete over the stated depths, branching factors and histories. Random numbers of the third and deeper levels are not reproducible by design and are not used.")
prop("R06", "Shadows are cast by exactly what lies between surface and light",
 "Light arriving at a point is multiplied by the transmission of every transparent surface strictly between point and light, and blocked completely by any opaque one, whatever the order and grouping of the objects; surfaces behind the point or beyond the light have no influence, and lights cast no shadow. Testing for shadow does not alter the ray.",
 ["inputs"], "all arrangements of up to N layers (position, kind, shape, grouping) between, behind and beyond",
 "Golden scenes have at most one transparent object between surface and light.",
 ["tracer/scene.go","tracer/materials/transparent.go","tracer/materials/matte.go"], ["occlusion test @ tracer/scene.go Occlude","shadow filter @ tracer/materials/transparent.go Filter"],
 BE, EXP, "Complete over the stated arrangements; up to 100 surfaces of one object are followed.")
prop("G01", "Primitive objects report the nearest crossing exactly",
 "Spheres, cylinders along each axis (open and capped), boxes, rectangles, triangles, quadrilaterals, disks and the backdrop report, for every ray start (outside, inside, far away) and every direction of any length, the nearest crossing of their ideal surface in front of the start, or none if there is none. The reported normal, local coordinates and material are those of that point. Solid objects tell correctly whether a point is inside.",
 ["inputs"], "every primitive x sizes x positions x lattice of ray starts x lattice, generic and targeted directions",
 "Tests compare one golden image per primitive, seen from outside, from one position.",
 ["tracer/objects/quadric.go","tracer/objects/box.go","tracer/objects/mesh.go","tracer/objects/backdrop.go"], ["quadric intersection @ tracer/objects/quadric.go","box intersection @ tracer/objects/box.go","triangle intersection @ tracer/objects/mesh.go"],
 BE, EXP, "Complete over the stated lattices. Rays within 1e-6 (relative) of an edge or tangent are not judged, nor rays starting exactly on a surface.")
prop("G02", "Bounding volumes and trees never change what is seen",
 "Every object lies completely within the bounds it reports. Putting objects together in a tree of any number of children, nested, in any order, or wrapping them in their bounding box, gives for every ray the same nearest hit (distance, normal, local coordinates, material) as testing each child on its own, and none if there is none.",
 ["inputs"], "every layout x number of children x order x wrapper x ray start and direction of a lattice, including axis-parallel rays and rays starting on box faces",
 "Golden images of trees show a single view; a lost hit is a few pixels, and axis-parallel rays hardly occur.",
 ["tracer/objects/tree.go","tracer/objects/boundingbox.go","tracer/objects/bounded.go"], ["tree construction and traversal @ tracer/objects/tree.go","ray-box test @ tracer/objects/boundingbox.go"],
 BE, EXP, "Complete over the stated layouts and ray lattices.")
prop("G03", "Boolean combinations of solids behave like operations on point sets",
 "A point is inside an intersection, union, difference or complement exactly when set algebra says so, and the surface of the combination, as seen by any ray from inside or outside, is the boundary of that point set, with the normal, material and local coordinates of the operand it belongs to. Restricting or removing keeps only the part of the first surface that lies inside or outside of the other. This holds for expressions of any nesting.",
 ["inputs"], "every boolean expression over the primitives up to the stated depth x lattices of rays and points",
 "Tests show golden images of a handful of combinations from one viewpoint.",
 ["tracer/objects/csg.go"], ["intersection, union, complement, restriction @ tracer/objects/csg.go"],
 BE, EXP, "Complete over all expressions of the stated depth and the stated lattices; rays close to edges where the operands' surfaces meet are not judged.")
prop("G04", "Transformed and placed objects are exactly the moved originals",
 "An object that has been translated, rotated, uniformly scaled or any chain of these is hit by a ray exactly where the original is hit by the ray transformed back, with distances along the original ray, rotated normals and unchanged local coordinates and material; its bounds enclose it and insideness moves along. Transforming one instance never influences the original or other instances. Placement operations put the named point (centre, bottom centre) where requested and scale and rotate about the stated point, and remapped local coordinates are the given function of the position.",
 ["inputs","histories"], "every object x every chain of up to 3 transforms x wrapper in between; every placement operation x object x position",
 "Tests apply one or two transforms to a teapot and compare one golden image.",
 ["tracer/objects/transformed.go","tracer/objects/remap.go","api/object.go"], ["transformed intersection @ tracer/objects/transformed.go","placement @ api/object.go"],
 BE, EXP, "Complete over the stated chains and lattices; non-uniform scaling is not offered by the API.")
prop("G06", "Affine transforms compose, invert and act as documented",
 "Composing transforms in sequence acts on every point and direction like applying the parts one after the other in the documented order, the inverse undoes it, and directions are unaffected by translation. Rotations turn counterclockwise about the given axis through the given origin, scalings keep their origin fixed, and base mappings send the unit vectors where stated. Building a composition does not modify its parts.",
 ["inputs","histories"], "every composition of up to N transforms of all kinds, built in each documented way, on a set of points and directions",
 "Unit tests cover a few single transforms.",
 ["geom/affinetransform.go","geom/matrix.go","geom/vec.go"], ["composition and inverse @ geom/affinetransform.go","matrix algebra @ geom/matrix.go"],
 BE, EXP, "Complete over the stated compositions.")
prop("G07", "Meshes and parametric surfaces are gap-free and interpolated correctly",
 "A mesh is hit by a ray exactly where the nearest of its triangles is hit, with the normal smoothly interpolated from the averaged normals of the adjacent faces and the interpolated texture coordinates. Parametric surfaces pass through the given function at every grid point with the grid's (u,v). No ray slips through between adjacent triangles, not even exactly at shared edges and vertices.",
 ["inputs"], "every listed surface x resolution x ray start and direction; all small mesh topologies; rays exactly through shared edges and vertices",
 "Golden images show single views; a ray that slips through is a single pixel.",
 ["tracer/objects/mesh.go","tracer/objects/tree.go"], ["vertex normals and interpolation @ tracer/objects/mesh.go","mesh tree @ tracer/objects/tree.go"],
 BE, EXP, "Complete over the stated surfaces and lattices.")
prop("G08", "Height fields are hit where the ray first meets the surface",
 "A height field of any size is hit by a ray coming from above or from outside at the first point where the ray meets the surface of the given function scaled to that size, within its numerical resolution, and not at all if it does not meet it. Normal and local coordinates are those of the surface there.",
 ["inputs"], "every listed height function x size x ray start and direction",
 "One golden image.",
 ["tracer/objects/isosurface.go"], ["ray marching and bisection @ tracer/objects/isosurface.go"],
 BE, EXP, "Complete over the stated functions (linear and smooth ones, whose slope the marching can resolve) and lattices.")
prop("M01", "Materials scatter light by the laws of optics and conserve energy",
 "Matte surfaces reflect incoming direct and indirect light in proportion to the cosine of its angle with the normal (each light counted exactly once, and diffuse rays being distributed with the cosine), reflective ones mirror, refractive ones bend by Snell's law with total internal reflection, shiny and Fresnel ones split light by the stated weights, blends mix by their weights, and flat ones shine. Both sides of a surface behave alike, and secondary rays start on the proper side of the surface. A loss-less surface in a uniform environment is exactly as bright as the environment.",
 ["inputs"], "every material expression up to the stated depth x normal x direction from both sides x lighting",
 "Golden images with tolerance show combined effects; the direction and weight of single secondary rays are never examined.",
 ["tracer/materials/matte.go","tracer/materials/reflective.go","tracer/materials/refractive.go","tracer/materials/transparent.go","tracer/materials/blend.go"], ["direct and indirect light @ tracer/materials/matte.go","mirror directions @ tracer/materials/reflective.go","Snell and Fresnel @ tracer/materials/refractive.go"],
 BE, EXP, "Complete over the stated material expressions, normals and directions; each traced ray is made visible by an environment whose brightness depends on direction.")
prop("M02", "Fog attenuates and scatters light by the length of the path within it",
 "Fog attenuates what a ray sees exponentially with the length of the part of the ray below the fog's height, for rays that look up, down, level, start inside or outside. Scattering fog adds light scattered at exponentially distributed points of that part, from every light that is not shadowed there; it applies to camera rays only.",
 ["inputs"], "every density x height x camera position x direction x distance of the surface behind x lighting",
 "One golden image each, without level rays.",
 ["tracer/media/fog.go","tracer/media/expfog.go"], ["fog attenuation @ tracer/media/expfog.go","scattering @ tracer/media/fog.go"],
 BE, EXP, "Complete over the stated lattice.")
prop("L01", "Lights illuminate exactly as much as their visible surface implies",
 "Every sample of an area light lies on the surface that is visible, evenly spread over it, and carries exactly the light which that piece of surface sends to the target (inverse square and cosine law, one-sided). Point lights follow the inverse square law and are invisible, and the sun illuminates from its direction with the stated strength independently of position. Moving a light moves its visible surface and its samples alike.",
 ["inputs"], "every light x target point x pass and pixel",
 "Golden images with tolerance; a mismatch between visible surface and sampled light is not compared.",
 ["tracer/lights/planar.go","tracer/lights/pointlight.go","tracer/lights/transformed.go"], ["area light sampling @ tracer/lights/planar.go","point light @ tracer/lights/pointlight.go"],
 BE, EXP, "Complete over the stated lights, targets and passes.")
prop("K01", "Cameras cast the rays of their projection, wherever they are and point",
 "For every image position, a perspective camera of any field of view, an environment-map camera and an isometric camera cast the ray of the documented projection, translated and rotated by the sequence of moves applied to the camera, rotations being about the camera's own position. With a finite aperture the rays start evenly spread over the lens and all meet in the point on the focal plane. Moving a camera yields a new one and leaves the original as it was.",
 ["inputs","histories"], "every camera x sequence of moves x image position x lens position",
 "Golden images of one or two cameras.",
 ["tracer/cameras/projective.go","tracer/cameras/environmentmap.go","tracer/cameras/isometric.go","tracer/cameras/withtransform.go"], ["perspective and lens @ tracer/cameras/projective.go","moves @ tracer/cameras/withtransform.go"],
 BE, EXP, "Complete over the stated cameras, moves and lattice of positions. Evenness on the lens is additionally judged statistically (10 sigma), as lens positions are pseudo-random by design.")
prop("Q01", "The numbers driving the sampling are even, repeatable and correctly mapped",
 "The random numbers of the first two recursion levels are a low-discrepancy sequence per pixel (radical inverses in distinct prime bases with a per-pixel shift), depending on pixel and pass only, and the same in every context. Numbers are in [0,1) at every level. The mappings to the disk and the hemisphere are onto, and distribute evenly over the disk and with the cosine over the hemisphere around any normal.",
 ["inputs","histories"], "every base, index, context size, pixel, level and pass up to the bounds; a lattice over the unit square, all listed normals",
 "Tests cover the first few numbers of a sequence.",
 ["tracer/sequence/sequence.go","tracer/sequence/mappings.go","tracer/ctx.go"], ["Halton sequence @ tracer/sequence/sequence.go","per-pixel sequence @ tracer/ctx.go","disk and hemisphere @ tracer/sequence/mappings.go"],
 BE, EXP, "Complete up to the stated bounds; area distortion of the mappings is measured numerically at every lattice point.")
prop("T01", "Textures give every point the colour of their pattern or image",
 "Checkerboards alternate with the stated pitch and grids draw lines of the stated width, on both sides of the origin; panned and scaled textures show the original at the moved point, and fisheye maps put the zenith in the middle and angles proportional to radius. An image used as texture shows exactly its pixels at their positions (bottom row at v=0), linearly interpolated in between and repeated with period one in both directions. An image file in any supported format is decoded exactly, or refused if it is missing or damaged.",
 ["inputs"], "every pitch, width, scale, image size, pixel format x lattice of texture coordinates over several periods; every truncation of a file",
 "Only the period of the interpolation is unit-tested; the rest by golden images at one scale.",
 ["texture/func2d.go","texture/interpolation.go","texture/texture2d.go","texture/uvmapper.go","imagef/load.go"], ["patterns @ texture/func2d.go","interpolation @ texture/interpolation.go","pan and scale @ texture/texture2d.go","fisheye @ texture/uvmapper.go","file loading @ imagef/load.go"],
 BE, EXP, "Complete over the stated lattices. Points within 1e-9 of a pattern's edge are not judged.")
prop("I01", "Colours are encoded by the sRGB curve; images are written exactly",
 "Linear colour values are encoded by the sRGB curve and image files decoded by its inverse, each channel in its place, monotonically, values outside of the range being clipped and never wrapped around. The PPM encoders write exactly the header and width x height pixels in row order, at 16 bits per channel, for every image, and encoding does not modify it.",
 ["inputs"], "every 16-bit value; every small image over a palette of values including out-of-range ones; every image size up to the bound",
 "Tests look at a few values and one encoded file; images are compared after encoding both sides with the same code.",
 ["imagef/colorf/color.go","imagef/ppm/ppm.go","imagef/image.go"], ["sRGB curve @ imagef/colorf/color.go","PPM @ imagef/ppm/ppm.go"],
 BE, EXP, "Complete over all 16-bit values and the stated images, read back by independent decoders. Known finding: the curve is lifted by 0.005 (see DESIGN.md); a level may be rounded either way.")
prop("I02", "Bloom adds exactly the excess light, spread over the neighbourhood",
 "Bloom adds to every pixel, per colour channel, the light above the threshold of all pixels, weighted with the kernel (Gaussian, Airy or star) of the given radius, normalized so that the total equals the amplitude, light falling off the image being lost. A radius of zero switches it off, several kinds are applied one after the other, and the original image is never modified.",
 ["inputs"], "every small image (single pixels, pairs, pattern) x kind x radius x amplitude x threshold x combination",
 "Three golden images in the middle of a large image.",
 ["imagef/post/convolution.go","imagef/post/params.go"], ["convolution @ imagef/post/convolution.go AddConvolution","kernels @ imagef/post/convolution.go Gaussian, Airy"],
 BE, EXP, "Complete over the stated images and parameters; as the operation is linear above the threshold, single pixels and pairs determine it.")
prop("F01", "Mesh files are loaded completely and exactly, or refused",
 "A PLY or OBJ file yields exactly the vertices and faces it contains, quads being split into two triangles and faces grouped by material, whatever its number formats, white space, line ends, comments and irrelevant extra data. A file that is damaged or cut off within its data, or that cannot be read, gives an error and never a partial or wrong mesh. Loaded as an object, all its triangles are there, transformed by the given transforms in order, with their materials.",
 ["inputs","fault_sequences"], "every file of a grammar; every truncation, deletion and replacement of a byte, every deletion, swap and duplication of lines of base files; every position of a read error",
 "A single well-formed OBJ file is tested.",
 ["tracer/objects/ply/parser.go","tracer/objects/obj/parser.go","tracer/objects/mesh.go"], ["PLY parser @ tracer/objects/ply/parser.go","OBJ parser @ tracer/objects/obj/parser.go","loading @ tracer/objects/mesh.go PlyFile, ObjFile"],
 BE + " and complete fault injection", EXP, "Complete over the stated grammar and damages, judged by an independent reader with the verdicts valid, invalid and unspecified (not judged).")
prop("F02", "An image that was not written completely is never reported as written",
 "If any write of an image file fails or is short, at any byte, once or permanently, the encoder returns an error and the program ends with a failure status. If the program reports success, all files it should have written exist, are complete and decodable, and contain nothing of files they replaced.",
 ["fault_sequences","crash_points"], "every byte position and write call of the encoders failing; every file size limit from 0 to beyond the complete output, full devices, missing directories, for rendering and animation",
 "No test injects a write error.",
 ["api/render.go","api/animate.go","imagef/ppm/ppm.go"], ["saving @ api/render.go save, savePPM","encoders @ imagef/ppm/ppm.go"],
 "exhaustive fault enumeration on the real encoders and the real program (every write position)", FE, "Complete over all byte positions of the stated images. Errors that the system only reports when closing a file are not covered.")
prop("A01", "A Spec renders exactly the scene it specifies, with documented defaults",
 "Unspecified settings of a scene get their defaults (one pass, recursion depth one, a 90 degree camera at height 1, 960x540 pixels, a missing width or height following from 16:9) and specified ones are honoured; the image shows all of the objects, lights and media given, through the given camera, and is written with at least the requested passes, post-processed, to all output files, animations frame by frame. A view applied to a scene gives it the view's size, camera position, orientation and debug options and leaves the original untouched. The debug option for normals shows the component of the normal towards the camera on every object, whatever its material, with a black background.",
 ["inputs","configurations"], "every combination of set and unset fields from listed values; every subset of objects, lights and media; the program run for every listed size, passes and format",
 "Tests do not go through the Spec, its defaults, views or the render program at all.",
 ["api/spec.go","api/view.go","api/render.go","api/animate.go"], ["defaults @ api/spec.go InitDefaults","views @ api/view.go ApplyTo","rendering to files @ api/render.go renderLocal","animation @ api/animate.go"],
 BE, EXP, "Complete over the stated combinations.")
prop("G05", "Objects answer correctly when used by many workers at once",
 "Intersecting, shading and insideness tests of every kind of object, material, light, camera and medium give the same answers when called by several workers concurrently as when called by one, under every interleaving: a scene is read-only during rendering and no worker observes another's temporary state.",
 ["schedules"], "all interleavings up to a preemption bound of two or three workers using one shared object",
 "Tests render with one schedule and compare with tolerance; a rare torn state is a single wrong pixel.",
 ["tracer/objects","tracer/materials","tracer/lights","tracer/cameras","tracer/media","tracer/scene.go"], ["shared scene @ tracer/scene.go","lazily initialised or cached state @ tracer/objects"],
 "stateless model checking of the real code under a controlled scheduler (preemption-bounded exhaustive interleavings), plus race-detector side condition", MC,
 "All interleavings at shared-memory accesses up to the stated preemption bound; sequential consistency, with a race-detector pass as side condition.")
prop("A02", "The render server survives concurrent bake, cancel and preview requests",
 "At most one bake runs at a time, a second one is refused with an error without disturbing the first, and cancelling frees the server for the next bake, which is unaffected by the cancelled one. Repeated bakes of the same view refine the same image, 1, then 2, then 3 further passes, while a bake of another view starts afresh; every bake that succeeds returns an image whose every pixel is the mean of the samples requested for it. Previews give one pass of the requested view at any time, invalid requests an error, and under no interleaving do requests deadlock, crash, or wedge the server.",
 ["schedules","histories"], "all histories of requests up to a depth; all interleavings of 2-3 concurrent requests up to a preemption bound",
 "The server has no tests.",
 ["api/server.go","tracer/sampler.go"], ["request handling and sampler reuse @ api/server.go","cancelling @ tracer/sampler.go SampleWithCancel"],
 "stateless model checking of the real handlers under a controlled scheduler, plus exhaustive request histories", MC,
 "All histories up to the stated depth and all interleavings up to the stated preemption bound.")
prop("A03", "The viewer always ends up showing the view the user asked for",
 "Keys, wheel and mouse drags move the viewer's camera along its own axes, turn it (never beyond the vertical) and switch the debug options; after every change it asks for a preview of the latest view, cancels the bake of a view that has become outdated, and once it has handled the change never shows a picture of an earlier view (only, while previews fail, a placeholder). At most one bake is outstanding, and unless paused or dragging the current view is always being refined, from coarse to full resolution, the latter with anti-aliasing, the newest picture filling the window. This holds for every order and timing of user events, window events, and of the answers, delays and failures of the server; failing requests neither crash nor block the viewer, and closing the window ends it.",
 ["histories","schedules"], "all scripts of user events, window events and server answers (success, error, refused, cut off) up to the stated depth, on the real program under a virtual clock",
 "There are no tests of the viewer at all; races between user events and answers that are under way only show up interactively, once in a while.",
 ["cmd/bruteray-view/main.go"], ["event loop @ cmd/bruteray-view/main.go run, repaintIfNeeded","background bake and its cancellation @ cmd/bruteray-view/main.go goBakeAndSend, handleBakery, cancelBaking","events @ cmd/bruteray-view/main.go handleKeyEvent, handleMouseEvent, handleSizeEvent"],
 "stateless model checking of the real viewer program: exhaustive exploration of all event/answer orders up to a depth under a virtual clock, with a monitor on requests and published pictures", MC,
 "All scripts up to depth 5 (quick) / 7 (thorough) over the stated alphabets, and all sequences of 3 / 4 of 39 events. Screen driver and (except in one space) the server are stand-ins; several events that arrive at the very same instant are explored only while the viewer waits for the server.")
prop("A04", "The watcher runs the latest version of the program, once",
 "The watcher compiles and starts the watched program at the beginning and after every change of the file (newer or older time stamp), with the given arguments, in its directory. Whenever it comes to rest, the latest version of the file has been compiled and, if that worked and the program has not ended by itself, exactly one instance of just that version is running: never an outdated one, never two at a time, also if the file changes again while it is being compiled. Nothing is recompiled or restarted without a change, and neither a version that does not compile or start nor a program that ends by itself keeps the watcher from picking up the next change.",
 ["histories"], "all histories of edits (good, not compiling, not starting, ending by itself, older, touched, changed before or while being compiled) and deaths of the program up to the stated length",
 "There are no tests of the watcher.",
 ["cmd/bruteray-watch/main.go"], ["polling @ cmd/bruteray-watch/main.go watch","stopping, compiling and starting @ cmd/bruteray-watch/main.go rerun"],
 "exhaustive exploration of all edit histories up to a length on the real watcher program under a virtual clock, against a model of what must be running", EXP,
 "All histories of 3 (quick) / 4 (thorough) steps after 4 kinds of start, plus longer alternating ones. The compiler and the watched program are stand-ins; the file exists all the time.")
