#!/usr/bin/env python3
# Writes properties.jsonl (kept as code so that the texts are easy to edit).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
D="triangulation/incrdelaunay/"
p("T01","Incremental triangulation is Delaunay after any history of edits",
  "After any history of inserting points of the image and removing points that are present (duplicates included, removed one copy at a time), the incremental triangulation reports non-overlapping triangles between exactly the live distinct points, none of which has a live point strictly inside its circumcircle. Every Delaunay face that is not extremely large compared with the image (circumradius below three quarters of the longer side) is covered exactly once; among cocircular points any choice of diagonals is right. Nothing crashes or hangs, from 1x1 images to images with sides of 8000 pixels, for tens of thousands of points and of copies of one point.",
  ["inputs","histories"],"all insert/remove histories over pixel positions of all image sizes up to 8000, including collinear, cocircular, border and duplicate points",
  "Tests triangulate a handful of fixed points once; edit histories, cocircularity, duplicates and border points are not sampled.",
  [D+"delaunay.go",D+"grid.go",D+"geom.go",D+"pointmap.go"],[("Bowyer-Watson insertion, ear-cutting removal","delaunay.go Insert/Remove"),("point location by a grid of triangles","grid.go")],["IterTriangles after each operation"])
p("T02","Setting a triangulation to another gives an equal, independent copy",
  "Setting one incremental triangulation to another of the same image size, whatever both held before and however often it is repeated, makes it describe exactly the other's points (with their multiplicities) and triangles. From then on each can be edited without the other, or any third one, changing: every one of them stays the Delaunay triangulation of its own points and reports its own point count. Setting one to itself changes nothing.",
  ["histories"],"all interleavings of insert, remove, set and undo over several triangulations of one image size",
  "No test sets a triangulation; aliasing shows only after later edits of either side.",
  [D+"delaunay.go",D+"grid.go",D+"pointmap.go"],[("copying of triangles, grid, point counts and free list","delaunay.go Set, grid.go set, pointmap.go Set")],["IterTriangles and NumPoints of all objects after each operation"])
p("T03","Point count, membership and nearest-point answers match the live points",
  "At every moment of any history of insertions, removals and copies, the incremental triangulation reports as many points as are live (copies counted), says that a position is present exactly when a live point is there, and answers a nearest-point query for any position of the image with a live point at the minimal distance.",
  ["inputs","histories"],"all histories of insert/remove/set and all query positions of the image",
  "The tests do not query after removals, with duplicates, or for nearest points near the border.",
  [D+"delaunay.go",D+"pointmap.go"],[("hashed multiset of points","pointmap.go"),("greedy walk to the nearest vertex","delaunay.go GetClosestTo")],["NumPoints, HasPoint, GetClosestTo"])
p("T04","Every distinct point gets exactly its nearest-site region of the image",
  "Turning a set of points of the image into regions (exact, or rounded to whole pixels from normalised points) yields one convex polygon per distinct point, equal to the part of the image rectangle that is closer to this point than to any other, up to 0.01 pixel (rounded: up to rounding of the vertices). Together the regions cover the image once, image corners included, for one point as well as for collinear, cocircular or border points.",
  ["inputs"],"all point sets (at least one point) in all image sizes up to 8000",
  "Tests do not check cell geometry; clipping at corners and edges depends on the configuration of several cells.",
  [D+"voronoi.go",D+"geom.go","polygonation/polygonate.go"],[("circumcentres around each point, clipped to the image, corners added","voronoi.go Voronoi")],["polygons passed to the callback","Polygonate result"])
p("T05","Incrementally maintained regions equal those of the current points",
  "After any history of insertions, removals of present points, batches of moves and copying one diagram into another or itself, the regions reported by an incrementally maintained diagram are exactly the nearest-site regions of its current distinct points, one per point, clipped to the image, up to 0.01 pixel. Diagrams not touched by an operation report what they did before.",
  ["inputs","histories"],"all interleavings of insert, remove, move and set over several diagrams",
  "No test edits a diagram; stale or missing regions depend on which neighbours an edit touched.",
  [D+"voronoi.go",D+"polygonmap.go",D+"delaunay.go"],[("regions recomputed for the points whose triangles changed","voronoi.go IVoronoi")],["IterPolygons after each operation"])
p("T06","One-shot triangulation covers the hull of the rounded points exactly",
  "Triangulating any group of normalised points for a width and height yields triangles whose vertices are exactly rounded input points, which do not overlap, tile the convex hull of the distinct rounded points and have no input point strictly inside any circumcircle. Groups without a triangle (fewer than three distinct points, all collinear) yield an empty result without an error, and the input is not modified.",
  ["inputs"],"all groups of normalised points and image sizes up to 10000",
  "Tests triangulate one fixed group; duplicates, collinear and cocircular sets are not covered.",
  ["triangulation/triangulator.go"],[("scaling, rounding and conversion of the index list","triangulator.go Triangulate")],["returned triangles"])
p("T07","Pixel, line and block rasterisation agree with the geometry of the shape",
  "For any triangle with integer vertices, every vertex order and every block size, drawing it pixel by pixel, by line segments or by blocks and segments reports the same set of pixels, each once and inside the triangle's bounding box, and in every row they are the run that the edges delimit. For any convex polygon with integer vertices and any block size the same holds with respect to its fan triangles, which use only its vertices and cover its area, and all its interior pixels are reported.",
  ["inputs"],"all integer triangles (extent up to 4000, anywhere in the plane) and convex polygons with coordinates up to 4000, all block sizes up to 64",
  "Tests rasterise a few fixed shapes; flat tops, needles, negative slopes and block alignments multiply.",
  ["rasterize/pixels.go","rasterize/lines.go","rasterize/blocks.go","rasterize/polygon.go","geom/polygon.go","geom/triangle.go"],[("DDA edge walking","rasterize/*.go"),("whole blocks between the edge runs of block rows","blocks.go"),("fan triangulation","geom/polygon.go")],["pixel, line and block callbacks"])
p("T08","Adjacent shapes share no pixel and leave no gap",
  "Rasterising all triangles of a triangulated point set reports no pixel of the image twice, whatever mix of pixel and block drawing is used, and every pixel exactly once when the points include the four corners of the image. Likewise the rounded nearest-site regions of any points, as long as rounding keeps them convex, cover every pixel of the image exactly once.",
  ["inputs"],"all point sets and image sizes",
  "Needs the fill rule to agree on both sides of every shared edge for every slope; tests draw shapes in isolation.",
  ["rasterize/pixels.go","rasterize/blocks.go","rasterize/lines.go","triangulation/triangulator.go","polygonation/polygonate.go"],[("half-open fill rule","rasterize/*.go")],["pixels reported per piece"])
p("T09","Triangle fitness evaluated from scratch equals its definition",
  "Evaluating a point group from scratch against an image of 8-bit colours returns one minus the sum, over the triangles of the Delaunay triangulation of the points, of the squared colour differences between each covered pixel and the mean of its triangle, with every pixel of area left uncovered counted as the maximal difference, divided by the maximal difference of the whole image. The value does not depend on the block size, also when blocks are larger than the image, nor on which of the constructed functions is used, and is never above 1.",
  ["inputs","configurations"],"all 8-bit images, block sizes, point groups",
  "The test compares one constant for one image and group; block sizes, overflow of sums and degenerate groups are not covered.",
  ["fitness/triangles.go","fitness/pixels.go","fitness/util.go"],[("per-pixel and per-block colour sums","pixels.go"),("variance by sums","triangles.go Calculate")],["value of Calculate"])
p("T10","Region fitness evaluated from scratch equals its definition",
  "Evaluating a point group as nearest-site regions against an image of 8-bit colours returns one minus the sum, over the rounded regions of the points, of the squared colour differences between each pixel of a region and the region's mean colour, divided by the maximal difference of the whole image, whatever the block size and whichever of the constructed functions is used.",
  ["inputs","configurations"],"all 8-bit images, block sizes, point groups with at least one point",
  "There is no test of this function.",
  ["fitness/polygons.go","fitness/pixels.go"],[("variance by sums over polygon blocks","polygons.go Calculate")],["value of Calculate"])
p("T11","Incremental and cached fitness equals evaluation from scratch",
  "In any run of generations over a population whose members are evaluated through the shared cache, the fitness returned for a member (unchanged, or copied from another member and mutated) equals the fitness of its current points evaluated from scratch. This holds for triangles and for regions, for every cache size from one slot up, any order in which members are evaluated, and after members exchange positions; evaluating never changes the points or the list of mutations.",
  ["histories","configurations","inputs"],"all histories of basing, mutating (moves, exchanges, collisions, no-ops), evaluating, updating and swapping; all cache sizes and block sizes",
  "Tests evaluate one group once; cache collisions and stale incremental state need many generations.",
  ["fitness/triangles.go","fitness/polygons.go","fitness/cache.go","algorithm/evaluator/parallel.go"],[("triangulation copied from the base and edited","Calculate, SetBase"),("cache lookups compare all coordinates","cache.go Equals"),("caches merged per generation","parallel.go")],["value of Calculate"])
p("T12","The best member never gets worse and the statistics describe it",
  "For every algorithm, the reported best fitness never decreases from generation to generation, no matter what the mutations do, and right after construction it is the highest fitness found in the initial evaluation. After every step the reported best fitness is exactly the fitness function's value of the reported best point group and the highest value computed in that generation, the generation counter has grown by one, and the point group handed to the caller keeps its number of points.",
  ["histories","configurations","schedules"],"all algorithms, population and cutoff sizes (population at least twice the cutoff), fitness functions (negative values, ties, plateaus), mutators and numbers of steps",
  "The tests run one algorithm briefly with one configuration.",
  ["algorithm/modifiedgenetic.go","algorithm/simple.go"],[("bases survive unmutated, population sorted by fitness, best copied","newGeneration, updateFitnesses")],["Best and Stats after each step, recorded evaluations"])
p("T13","Each generation is bases, their mutants and combined improvements only",
  "In every step the members evaluated are exactly: the fittest members of the previous generation (as many as the cutoff) unchanged, then mutated copies of these with the copies shared out evenly in turn, each passed to the mutation method once. The combining algorithm also evaluates, for every base with at least one copy fitter than it, the base with all changes of its fitter copies applied at once, taking for a point changed by several the change of the fittest; bases without such a copy get no combined member, and a member that was not evaluated is never selected.",
  ["histories","configurations","schedules"],"all population and cutoff sizes (population at least twice the cutoff), fitness landscapes without ties, mutators that change each point at most once",
  "Needs the full content of every generation; tests only look at the end result.",
  ["algorithm/modifiedgenetic.go","algorithm/simple.go","algorithm/data.go"],[("round-robin bases","newGeneration"),("collection of beneficial mutations","setBeneficial, combineMutations")],["recorded calls of the mutation method and of the fitness functions"])
p("T14","Every evaluation is told the right base and mutations",
  "Whenever an algorithm evaluates a member through a function that keeps state and is handled by the shared-cache evaluator, either the function last evaluated or was last set to exactly these points, or it has never evaluated anything, or it was given a base whose last evaluated points, changed by the listed mutations, are exactly the member's points. This holds in every generation, although members are reordered by fitness, are skipped, or are created late by combination.",
  ["histories","configurations","schedules"],"all algorithms, population and cutoff sizes, fitness landscapes, mutators, numbers of steps",
  "A wrong base shows only as a wrong fitness in a later generation of a particular reordering.",
  ["algorithm/modifiedgenetic.go","algorithm/simple.go","algorithm/evaluator/parallel.go","algorithm/evaluator/evaluators.go"],[("functions move with their members","Swap"),("bases and mutations recorded per member","newGeneration, combineMutations")],["calls received by a stateful function"])
p("T15","Parallel evaluation is free of data races and schedule-independent",
  "Running any algorithm with the shared-cache evaluator performs no data race, and for fixed random seeds and a fitness function without ties the sequence of best members and fitness values is the same for every number of processors and every order in which evaluations complete.",
  ["schedules"],"all interleavings of the worker goroutines and the collecting goroutine",
  "Tests run one schedule without the race detector.",
  ["algorithm/modifiedgenetic.go","algorithm/simple.go","algorithm/evaluator/parallel.go","fitness/triangles.go","fitness/polygons.go"],[("two caches, one read and one written per generation","parallel.go Prepare/Update"),("results collected over a channel","calculateFitnesses")],["race detector reports, Best and Stats per step"])
p("T16","Mutations are reported completely and keep points normalised",
  "For any group of normalised points and any rate and amount, a mutation method keeps the number and order of points, keeps every coordinate in [0,1], and calls back exactly once, in the same call, for each point it mutates with the true old point, the new point and its index; all other points are unchanged. The share of mutated points follows the rate (0: none, 1 or more: all, default: two points expected per group), a uniform mutation moves a coordinate by at most half its amount, and a gaussian one has a standard deviation of half its amount, without bias.",
  ["inputs","configurations"],"all point groups, rates and amounts",
  "Tests only use rate 0 and 1 on three points and count callbacks.",
  ["mutation/gaussian.go","mutation/random.go","normgeom/normpoint.go"],[("clamping","Constrain"),("callback after the change","Mutate")],["points before and after, callbacks"])
p("T17","Generators return the requested number of well spread points",
  "Every generator returns exactly the requested number of points (one or more), all with coordinates in [0,1], as a new group that is independent of earlier results and does not influence them. Random points are uniformly distributed over the square; the spaced generator places them on average clearly further from their nearest neighbour than random points when it is given enough iterations.",
  ["inputs","configurations"],"all numbers of points and iterations",
  "Tests only check the length of one result.",
  ["generator/random.go","generator/spaced.go"],[("accept a move only if the nearest neighbour is further away","spaced.go Generate")],["returned groups"])
p("T18","Image conversion keeps every pixel's colour and the dimensions",
  "Converting any image yields data of the same width and height in which the pixel at (x, y) is the colour of the image's pixel at (x, y) counted from the upper left corner of its bounds, as 8-bit channels (alpha-premultiplied, high byte) divided by 255. This holds for all colour models and for images and sub-images whose bounds do not start at the origin, the result does not alias the source, and the source is not changed; data created empty is black and has the given size.",
  ["inputs"],"all image types, sizes and bounds",
  "Tests only check the size of an empty image.",
  ["image/rgbdata.go","image/data.go"],[("conversion of 16-bit channels","ToData")],["Size and RGBAt of the result"])
p("T19","Rendered shapes keep their order and get the mean colour of their pixels",
  "Rendering triangles or polygons onto an image returns one coloured shape per input shape, in order, with each vertex divided by the image's width and height, coloured with the mean of the image's colours over exactly the pixels the shape covers. A shape that covers no pixel gets the mean of the pixels at its vertices (moved into the image where they lie on its right or lower border), so that colours are always finite and within the range of the image's colours.",
  ["inputs"],"all images, triangulations and region sets, including slivers and shapes at the border",
  "One test renders one triangle on a black image.",
  ["render/triangles.go","render/polygons.go","render/util.go","color/color.go","geom/triangle.go","geom/polygon.go"],[("running average","color.go"),("fallback to the vertices","TrianglesOnImage, PolygonsOnImage")],["returned shapes and colours"])
p("T20","The random source is reproducible, in range and well distributed",
  "The fast random source gives the same sequence after the same seed, however its functions are interleaved, and different sequences for different seeds. Bounded integers lie in [0, n) and are uniform for every bound, floats lie in [0,1) and are uniform, 63-bit integers are never negative, and normal numbers have mean 0, standard deviation 1 and the normal distribution's shape, including tails beyond 3.44.",
  ["inputs","histories"],"all seeds, bounds and call sequences",
  "Tests do not check distributions; a wrong table entry changes only a sliver of the values.",
  ["random/random.go"],[("ziggurat tables","NormFloat64"),("PCG generator","Seed, Uint32")],["returned values"])
p("T21","Output files hold the algorithm's reported results after every batch",
  "While the output writer runs an algorithm, after every given number of steps the output file holds exactly the current best points in a form that parses back to the same points, and the statistics file, which starts empty, gains one line with the generation and best fitness at that moment, in order and flushed, even if the run is then interrupted. The console runner prints the same lines, and the trace and profile helpers step the algorithm and leave complete, readable files behind when they return.",
  ["crash_points","histories"],"all point groups, step counts and interruption points between steps",
  "No test writes a file; the loops never return.",
  ["utils/output.go","utils/fitness.go","utils/trace.go","utils/profile.go"],[("flush after every line","GenerateAlgorithmOutput"),("flush and close","GenerateTrace")],["files at each interruption point, standard output"])
p("T22","Point group and geometry helpers preserve and scale coordinates exactly",
  "Copying or setting a point group yields an equal and independent group (setting to a group of another length panics and changes nothing), constraining moves a point to the nearest point of the unit square and leaves points of the square alone, and distances are Euclidean. Normalising a triangle or polygon keeps the number and order of its vertices and divides each by the width and height, and the area helper returns the rounded area of any convex polygon in either orientation.",
  ["inputs"],"all point groups, points, triangles, polygons and sizes",
  "Tests use one example per helper and do not check independence.",
  ["normgeom/normpoint.go","normgeom/normtriangle.go","geom/triangle.go","geom/polygon.go","triangulation/triangulator.go"],[("copying","NormPointGroup.Set, Copy"),("scaling","ToNorm")],["returned values"])
p("T23","Every step finishes and evaluates each member of the generation once",
  "With any fitness function and mutator that return, under any delays, any number of processors and any order of completion, construction and every step finish. In each of them every member of the generation is evaluated exactly once, no function is in two evaluations at a time, and no evaluation or cache update is still running once the step has returned.",
  ["schedules","configurations"],"all interleavings, delays, processor counts, population and cutoff sizes (population at least twice the cutoff), and several algorithms run in turn or at the same time",
  "Tests run one schedule; lost or doubled evaluations depend on timing.",
  ["algorithm/modifiedgenetic.go","algorithm/simple.go","algorithm/evaluator/evaluators.go"],[("results counted over a channel","calculateFitnesses")],["start and end events of evaluations and evaluator calls"])
p("T24","The reported fitness is the accuracy of the rendered result",
  "At any point of a run on a real image, the reported best fitness equals the accuracy of what the user gets by triangulating (or dividing into regions) and rendering the reported best points: one minus the squared colour differences between the image and the rendered shapes, uncovered pixels counting as the maximal difference, divided by the maximal difference. This holds for every algorithm with the shared-cache evaluator and for the default configuration, and the reported points always lie in the unit square.",
  ["histories","configurations","inputs"],"all images, algorithms, kinds of shapes, block sizes, cache sizes and numbers of steps",
  "Compares two independent pipelines over whole runs; no test renders a result and measures it.",
  ["algorithm/modifiedgenetic.go","algorithm/simple.go","fitness/triangles.go","fitness/polygons.go","render/triangles.go","render/polygons.go","triangulation/triangulator.go","polygonation/polygonate.go","utils/default.go"],[("the whole pipeline","utils/default.go DefaultAlgorithm")],["Best, Stats and the rendered shapes"])
p("T25","Long runs stay bounded in memory, goroutines and open files",
  "However long a triangulation, a set of diagrams or an algorithm is used, what it holds is bounded by its live content and not by its history: after any number of insertions, removals, copies (including long lineages of fresh copies) or generations with the same number of points and members, the live memory, the number of goroutines and the number of open files stay where they were, algorithms, images and rendered results that are dropped leave nothing behind, and the triangulation, the regions and the reported best fitness are still the right ones.",
  ["histories"],"all histories of edits, copies and generations with bounded live content",
  "Users run algorithms for hours; tests stop after a few steps, and a slow leak changes no result until indexes overflow or memory is gone.",
  ["triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/grid.go","triangulation/incrdelaunay/pointmap.go","triangulation/incrdelaunay/polygonmap.go","triangulation/incrdelaunay/voronoi.go","algorithm/modifiedgenetic.go","algorithm/simple.go","algorithm/evaluator/parallel.go","utils/output.go"],[("free places are reused","Delaunay.addTriangle, Set"),("cache of fixed size","NewParallel"),("workers are returned to the pool","calculateFitnesses")],["heap after collection, goroutines, file descriptors"])
p("T26","Independent objects can be used at the same time",
  "Operations that share nothing but inputs they only read can run at the same time without data races, and each has the result it has alone: triangulating, dividing into regions, rasterising, rendering, converting images, copying and comparing point groups, generating points, uniform mutation, editing separate triangulations or diagrams (also ones that are copied from the same original), evaluating separate fitness functions of one image, querying one triangulation, and stepping separate algorithms. This holds from the first call in a process on. Only the package-level random source, and the Gaussian mutation that uses it, are documented as not thread safe.",
  ["schedules"],"all interleavings of operations on separate objects with shared read-only inputs",
  "Tests run everything on one goroutine; shared buffers and lazily filled tables give the same results there.",
  ["triangulation/triangulator.go","polygonation/polygonate.go","render/triangles.go","render/polygons.go","rasterize/lines.go","rasterize/blocks.go","rasterize/polygon.go","image/rgbdata.go","triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go","fitness/triangles.go","fitness/polygons.go","generator/spaced.go","mutation/random.go"],[("no package-level state","all packages but random"),("sources of copies are only read","Delaunay.Set, IVoronoi.Set, SetBase")],["race detector reports, results alone and together"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
