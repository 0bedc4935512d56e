# Source of /verif/properties.jsonl and of the per-property part of MANIFEST.json.
# Run tools/mkmeta.py after editing.

def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return d

PROPS = [
P("C01", "A mesh is exactly the record of its edit history",
  "After any sequence of adding and moving vertices, adding, removing and querying triangles, appending other meshes (or itself), setting colours, clearing, copying and assigning, every query answers what a plain list-based record of that history would: ids are consecutive and never renumbered, removal affects exactly the named triangle, and stored positions come back bit for bit. "
  "A copied or assigned mesh holds the same vertices and the remaining triangles in order plus the colour, and from then on neither object can influence the other; assigning a mesh to itself or appending it to itself is well defined (no change, respectively doubling).",
  ["histories"], "every interleaving of mesh operations over several live mesh objects, including aliasing (self-assignment, self-append) and sizes from empty to thousands of elements",
  "The tests build a few fixed meshes once and look at counts; no test replays a long mixed history against an independent record, none uses self-assignment or keeps a copy alive while editing its source.",
  ["src/Mesh.cpp", "src/Mesh.h", "src/MeshKernelLinkedTriangles.cpp"],
  [("vertex and triangle arrays with an unlinked flag", "src/MeshKernelLinkedTriangles.cpp"), ("deep copy through clear + append", "src/Mesh.cpp operator=, add_mesh")],
  ["Mesh query functions"], [("vertices / triangles / unlinked flags", "the mesh content", "MeshKernelLinkedTriangles")]),
P("C02", "Local topology edits keep the surface, its volume and its border",
  "Splitting a triangle at a vertex, splitting an edge shared by two consistently oriented triangles, flipping a triangle, adding a quad or a pentagon and splitting a triangle against another triangle replace exactly the named triangles: every other triangle is untouched and the new triangles are appended at the end. "
  "A split leaves the oriented border of the patch (directed edges not cancelled by their opposite) unchanged - and hence a closed outward mesh closed and outward - and, when the new point lies on the split element, leaves total area and enclosed volume unchanged; a flip reverses exactly one triangle; a quad or pentagon covers the given polygon in the given orientation, the optimising quad choosing the diagonal of smaller area. "
  "Splitting two meshes against each other never alters the inputs and yields copies covering the same surfaces, in which exactly the triangles that some triangle of the other mesh splits are replaced.",
  ["histories", "inputs"], "every sequence of local edits on every mesh, with every rotation of a triangle's vertex order and every choice of edge and split point",
  "The only test splits triangles at their centroid on a sphere and saves a file; edge splits, flips and mesh-mesh splits are never executed by any test.",
  ["src/Mesh.cpp", "src/MeshBoolean.cpp"],
  [("remove triangle(s), append their replacements", "src/Mesh.cpp split_*, flip_triangle, add_quad, add_pentagon"), ("pairwise splitting with bounding-box rejection", "src/MeshBoolean.cpp")],
  ["Mesh query functions"]),
P("C03", "Mesh primitives are closed, outward oriented and geometrically exact",
  "Every primitive mesh generator (tetrahedron, box, octahedron, dodecahedron, icosahedron, cylinder, UV sphere, geodesic sphere, torus) yields, for every positive size and level of detail, a mesh in which each directed edge is matched by exactly one opposite edge, no triangle is degenerate, no vertex is unused or duplicated, the Euler characteristic is that of the shape and the normals point outward. "
  "Every vertex lies on the ideal shape of the requested size and placement, the level of detail gives the intended number of faces, and volume and area match the ideal polyhedron (regular solids, box, prism) or converge to the ideal surface.",
  ["inputs"], "every size over many orders of magnitude, every level of detail and any former content of the output mesh",
  "Tests compare volume and area of four shapes at one size and one resolution with a loose tolerance, and nothing checks closedness at all.",
  ["src/MeshFactory.cpp", "src/MeshTessellate.cpp", "src/MeshUtil.cpp"],
  [("explicit vertex/face tables and parametric loops with modulo wrap", "src/MeshFactory.cpp"), ("tessellate + normalise + merge for the geodesic sphere", "src/MeshFactory.cpp create_sphere_geodesic")],
  ["Mesh query functions"]),
P("C04", "Mesh subdivision covers the input surface exactly",
  "Subdividing a mesh with n segments replaces every remaining triangle by exactly n*n congruent triangles of the same orientation whose vertices are the regular barycentric lattice of that triangle, skips removed triangles, and leaves the input unchanged. "
  "Area and enclosed volume are preserved, and subdividing a closed mesh gives a mesh that is closed again once coincident vertices are merged.",
  ["inputs"], "every mesh (any triangle shape, removed triangles included) and every number of segments",
  "A test subdivides one icosahedron with n=2 and counts vertices.",
  ["src/MeshTessellate.cpp"], [("stripes of triangles over an integer lattice", "src/MeshTessellate.cpp compute")], ["Mesh query functions"]),
P("C05", "Vertex merging and empty-triangle removal change nothing else",
  "Merging vertices joins every vertex to one at less than the tolerance if there is one among the vertices kept before it, keeps all others (so kept vertices are pairwise at least the tolerance apart), keeps their order and bit-exact positions, drops removed triangles and preserves the order, orientation and colour of the remaining ones; no triangle corner moves by the tolerance or more and merging again changes nothing. "
  "Removing empty triangles removes exactly those having two corners closer than the tolerance.",
  ["inputs"], "every mesh, including clusters, chains of near vertices, duplicates, removed triangles and every tolerance",
  "One test merges a subdivided icosahedron and checks only the number of vertices; removal of empty triangles is never tested.",
  ["src/MeshUtil.cpp"], [("alias table and mesh rebuild", "src/MeshUtil.cpp merge_vertices"), ("edge length test", "src/MeshUtil.cpp remove_empty_triangles")], ["Mesh query functions"]),
P("C06", "Mesh measurements agree with geometry and its symmetries",
  "Volume and area equal those of the linked triangles computed independently, are unaffected by removed triangles, vertex numbering, triangle order and corner rotation, are additive over appended meshes, invariant under translation (closed meshes) and rotation and scale with the cube and square of a scaling, while flipping every triangle or mirroring negates the volume and keeps the area. "
  "The outward-orientation predicate is the sign of the volume, the no-degenerate-triangle predicate is false as soon as a linked triangle has exactly zero area, a mesh with missing triangles is never reported closed nor clean while a closed one is reported closed, and measuring never changes the mesh.",
  ["inputs"], "every mesh, open or closed, with removed triangles, any orientation, position and scale",
  "Tests measure four primitives at the origin; no invariance, no removed triangles, no orientation test.",
  ["src/MeshMeasurements.cpp", "src/Geometry.cpp"], [("signed tetrahedra and cross-product areas", "src/MeshMeasurements.cpp")], ["MeshMeasurements functions"]),
P("C07", "Transforms are the affine maps they are named after, on every object",
  "Translation, scaling and the quaternion, matrix and angle-axis rotations map every point to the mathematically defined image (angles in degrees, right-handed, about the given unit axis); the three axis-angle rotations agree, fix their axis, preserve distances and orientation, and compose and invert accordingly, while the Euler-angle rotation always preserves distances and angles and composes yaw, pitch and roll in that order. "
  "Applying a transform to a point list, a mesh, a spline surface or solid or a smooth mesh maps each of its defining points once, changes nothing else (connectivity, weights, knots), and commutes with evaluating the object.",
  ["inputs", "histories"], "every angle, axis, offset and scale, sequences of transforms, and every kind of transformable object",
  "Tests apply a handful of transforms to single points; application to objects is exercised without checking the result.",
  ["src/Transform.cpp", "src/Mesh.cpp", "src/NurbsSurface.cpp", "src/NurbsSolid.cpp", "src/SmoothMesh.cpp", "src/QuadBezierTriangle.cpp"],
  [("rotation formulas", "src/Transform.cpp"), ("loop over defining points", "apply_transform of each class")], ["Transform::apply", "apply_transform"]),
P("C08", "Geometric predicates give the true answer away from degeneracy",
  "For points, segments, planes, triangles and boxes in general position (away from the decision boundary by more than rounding error) the predicates are exact: plane distance and projection, plane-segment, plane-plane, segment-segment, triangle-segment and triangle-triangle intersection, triangle cut by a plane, point in triangle for points of its plane, and bounding-box overlap; each is unaffected by the order of vertices and arguments, by rigid motion and by scale. "
  "A reported intersection point lies on both intersecting elements, a miss leaves no spurious hit, vector operations match their definitions, and the pseudo-random axis is a unit vector depending only on its seed.",
  ["inputs"], "every configuration of the elements outside a small band around the decision boundary, any scale, vertex order and argument order",
  "Tests evaluate one or two hand-written configurations per predicate, all near the origin and at unit scale.",
  ["src/Geometry.cpp", "src/GeometryUtil.cpp"], [("closed formulas", "src/Geometry.cpp")], ["Geometry classes"]),
P("C09", "Curve evaluation equals the rational B-spline definition",
  "For every degree, clamped knot vector (any interior multiplicity up to the degree, any range before normalisation), positive weights and control points, evaluating a curve at any parameter in [0,1] gives the point defined by the Cox-de Boor basis; so it interpolates its end points, stays in the box of its active control points, is affine invariant, is unaffected by scaling all weights or the knot range, and answers the same in whatever order parameters are asked. "
  "The sampled polyline starts at the first and ends at the last point of the curve and all its points lie on the curve in order, and closedness is exactly coincidence of the end points.",
  ["inputs", "histories"], "every degree, knot vector, weights, control polygon and parameter including knots and both ends, and every order of evaluation",
  "Tests evaluate a few fixed curves, mostly Bezier or uniform, and compare with a closed form at a few samples.",
  ["src/NurbsCurve.cpp", "src/NurbsFactory.cpp"], [("de Boor recursion on homogeneous points", "src/NurbsCurve.cpp evaluate"), ("knot span search and normalisation", "src/NurbsCurve.cpp")], ["NurbsCurve::evaluate", "NurbsCurve::to_polyline"]),
P("C10", "Refining a curve never changes its shape",
  "Any sequence of knot insertions (at any parameter, existing knots included, up to full multiplicity) and degree elevations leaves every point of the curve unchanged; each insertion adds exactly one control point and the inserted knot, each elevation raises the degree by one and every knot's multiplicity by one and reports success, and elevation beyond the supported degree reports failure and changes nothing.",
  ["histories", "inputs"], "every sequence of refinements on every curve of degree 1 to 3, rational or not, uniform or not, with repeated interior knots",
  "Tests refine fixed curves once or twice and compare at samples; repeated interior knots, non-uniform spacing and mixed sequences are not covered.",
  ["src/NurbsCurve.cpp"], [("Boehm insertion and direct elevation formulas in homogeneous coordinates", "src/NurbsCurve.cpp insert_knot, degree_elevation")], ["NurbsCurve::evaluate"]),
P("C11", "Surface evaluation is the tensor product and survives refinement",
  "For every pair of degrees, clamped knot vectors, positive weights and control grid, evaluating a surface at any (u,v) in the unit square gives the rational tensor-product B-spline point, whatever was evaluated before; corners interpolate the corner control points and every border is the curve of the border control points. "
  "Any sequence of knot insertions and degree elevations in either direction leaves every surface point unchanged, changes only the sizes, knots and degree of that direction, and elevation beyond the supported degree is refused without effect.",
  ["inputs", "histories"], "every degree pair, non-square grid, knots, weights, parameter pair, and every sequence of refinements in both directions",
  "Tests use a few small, mostly square or equal-degree surfaces and single refinements.",
  ["src/NurbsSurface.cpp", "src/NurbsCurve.cpp"], [("tensor-product de Boor", "src/NurbsSurface.cpp evaluate"), ("row/column curves for refinement", "src/NurbsSurface.cpp create_u_curves, from_v_curves")], ["NurbsSurface::evaluate"]),
P("C12", "Extruded, ruled and revolved surfaces are exact",
  "For every profile curve, the extrusion evaluates to C(u) + v*direction, the ruled surface between two compatible curves to (1-v)-weighted blending of the two curves (exact straight ruling for equal weights), and the revolution to the profile point C(v) turned about the z axis, at constant radius and height, one full turn over u with every rotational position reached. "
  "Degrees, knots, sizes and closed flags of the result follow from the inputs alone (not from the former content of the output object), the inputs are unchanged and success is reported.",
  ["inputs"], "every rational or polynomial profile curve of any degree, direction and parameter pair, and any former content of the output surface",
  "Tests build a few shapes from lines and circles and check them at samples.",
  ["src/NurbsExtrude.cpp", "src/NurbsRuled.cpp", "src/NurbsRevolve.cpp"], [("duplicated control rows", "src/NurbsExtrude.cpp, src/NurbsRuled.cpp"), ("nine-point circle per profile point", "src/NurbsRevolve.cpp")], ["NurbsSurface::evaluate"]),
P("C13", "Spline primitives are analytically exact",
  "Circle, disk, sphere, torus, cylinder, box, quad and triangle built as spline curves, surfaces or solids satisfy the implicit equation of the ideal shape of the requested size at every parameter, cover it entirely, and the faces of a solid meet along their borders with outward orientation; a curve built from points is the uniform clamped curve of those points. "
  "A height field, or a mesh turned into spline faces, reproduces every input sample or every remaining triangle (and nothing for removed ones), whatever the output object held before.",
  ["inputs"], "every size, every parameter and point set, rectangular height fields, meshes with removed triangles, reused output objects",
  "Tests sample a few primitives at one radius; solids and height fields are only written to files.",
  ["src/NurbsFactory.cpp", "src/NurbsUtil.cpp", "src/NurbsSolid.cpp"], [("control point tables and revolve", "src/NurbsFactory.cpp"), ("uniform grid / triangle conversion", "src/NurbsUtil.cpp")], ["NurbsSurface::evaluate", "NurbsSolid::surfaces"]),
P("C14", "Meshing a spline surface samples it faithfully",
  "Meshing a spline surface with n segments yields the regular (n*Nu+1) by (n*Nv+1) grid of surface points and exactly two consistently oriented triangles per cell following the surface orientation, joined to the start where the surface is flagged closed; a solid's mesh is the concatenation of its faces' meshes and, for the closed primitives, becomes closed and outward once coincident vertices are merged. "
  "Appending mode keeps the former content of the mesh untouched, replacing mode drops it, the control-point mesh has exactly the control net's quads, and the spline object is unchanged.",
  ["inputs"], "every surface (degrees, sizes, closed flags), every number of segments, and any former content of the mesh",
  "Tests convert shapes and save them without looking at the mesh.",
  ["src/NurbsUtil.cpp"], [("grid sampling and quad linking with wrap-around", "src/NurbsUtil.cpp to_mesh"), ("control net", "src/NurbsUtil.cpp to_controlpoints_mesh")], ["Mesh query functions"]),
P("C15", "Grids, height fields and images become the expected meshes",
  "A grid of points or heights of any rectangular size becomes the mesh having exactly these points in row-major order (x running fastest) and two triangles per cell, all oriented the same way (upward for a height field), so that its projected area and border are those of the rectangle. "
  "Converting an image to numbers keeps the same row-major order, one value per pixel equal to the first plane of that pixel, so an image of any size becomes the height field of its pixels.",
  ["inputs"], "every rectangular size including single rows, columns, points and empty, any values, and any former content of the outputs",
  "Tests use square grids only and save the result without inspecting it.",
  ["src/MeshUtil.cpp", "src/Image.h"], [("row-major loops", "src/MeshUtil.cpp create_from_z, create_from_grid"), ("pixel loop", "src/Image.h to_double")], ["Mesh query functions", "Image::to_double"]),
P("C16", "Bezier patches and smooth meshes are exact and tessellate without gaps",
  "A quadratic triangular patch evaluates to its rational Bernstein form (corners and edge curves included, flat patches exactly planar), and its mesh with n segments consists of the (n+1)(n+2)/2 lattice points of the patch and exactly n*n triangles of one common orientation covering the parameter triangle, appended to the target mesh without touching it. "
  "A smooth mesh is the sequence of its patches under copies, assignments and appends (itself included); the flat smooth primitives tessellate to the closed, consistently oriented polyhedron of the requested size and the smooth sphere to a closed consistently oriented surface touching the sphere at its poles and axes. "
  "The Bernstein polynomials are non-negative on [0,1] and sum to one, and normal-derived cubic control points follow the point-normal formula.",
  ["inputs", "histories"], "every patch, weights, parameter and number of segments, every size of primitive, every history of smooth-mesh operations",
  "Tests tessellate a few patches into files and print values without checking them.",
  ["src/QuadBezierTriangle.cpp", "src/SmoothMesh.cpp", "src/SmoothMeshFactory.cpp", "src/BezierUtil.cpp", "src/CubicBezierTriangles.cpp"],
  [("Bernstein evaluation", "src/QuadBezierTriangle.cpp eval"), ("triangular lattice linking", "src/QuadBezierTriangle.cpp add_to_mesh")], ["QuadBezierTriangle::eval", "Mesh query functions"]),
P("C17", "STL files round-trip every mesh",
  "Saving any mesh to STL writes a file whose size and facet count match exactly its remaining triangles, readable by an independent binary-STL parser, with every corner equal to the stored position rounded to single precision in order and orientation. "
  "Loading that file - or any well-formed binary STL - gives exactly these triangles, replacing whatever the mesh held, and reports success; a missing file, or one cut short of its announced facets, is reported as failure; the saved mesh is never changed.",
  ["inputs"], "every mesh (empty, removed triangles, extreme coordinates, thousands of facets) and every well-formed or truncated file",
  "Tests save one mesh and load it back without comparing contents.",
  ["src/STLFile.cpp"], [("binary writer skipping removed triangles", "src/STLFile.cpp save"), ("binary reader", "src/STLFile.cpp load")], ["file bytes", "Mesh query functions"]),
P("C18", "OBJ files hold every written object and round-trip meshes",
  "Saving a mesh to OBJ and loading it back yields the same vertices to printed precision (six significant digits) and exactly the remaining triangles with the same vertex numbers and orientation. "
  "When several meshes and polylines are written one after another, an independent parser finds every object complete, on lines of its own, with indices that refer to that object's own vertices and the mesh colour on its vertices; reopening the writer starts a fresh file. "
  "Loading replaces the former content of the mesh, accepts comments, blank lines and unknown records, and reports failure for a missing file or malformed vertices or faces.",
  ["inputs", "histories"], "every mesh and polyline, every sequence of writes, reopening, and any former content of the loaded mesh",
  "Tests write files and check only that saving reports success.",
  ["src/OBJFile.cpp"], [("running vertex offset", "src/OBJFile.cpp OBJWriter"), ("line parser", "src/OBJFile.cpp load")], ["file text", "Mesh query functions"]),
P("C19", "STEP output is well formed and carries every surface",
  "After any sequence of surface and solid writes and closing, the STEP file is syntactically well formed with header, data section and end marker, every instance number is defined exactly once and every reference resolves to an entity of the proper kind. "
  "Each written surface appears in order with degrees, control net, weights, knots with multiplicities and closed flags from which an independent reader rebuilds the same surface to printed precision, is used by exactly one face, in its own orientation, and is reachable from the root shape; a solid contributes each of its surfaces once.",
  ["inputs", "histories"], "every surface with clamped knots, every sequence of writes, empty files, writers closed explicitly or by destruction, and reopened",
  "Tests write files and never read them back.",
  ["src/StepFile.cpp"], [("running instance number", "src/StepFile.cpp StepWriter"), ("entity templates", "src/StepFile.cpp write")], ["file text"]),
P("C20", "BMP images round-trip at every size and depth",
  "Writing an image of one, three or four planes and any width and height produces a BMP whose header fields, row padding, row order and channel order satisfy an independent decoder, and reading it back gives the same size, planes and pixel bytes (the alpha plane of four-plane images reads back as zero). "
  "Reading any well-formed uncompressed 8-, 24- or 32-bit bottom-up file - with any data offset - gives its pixels, whatever the image held before; missing, foreign, unsupported or cut-short files are reported as failure.",
  ["inputs"], "every width (all residues modulo four), height, plane count and content, and every former content of the target image",
  "Tests write and read one or two images whose width is a multiple of four.",
  ["src/ImageIoBmp.cpp", "src/Image.h"], [("row padding and channel swap", "src/ImageIoBmp.cpp")], ["file bytes", "Image accessors"]),
P("C21", "No input file can crash, hang or exhaust the loaders",
  "For every byte string presented as an STL, OBJ or BMP file, loading terminates with true or false without aborting, without undefined behaviour, and with time and memory bounded by a small multiple of the file's size. "
  "Whatever the verdict, the resulting mesh or image is valid - every triangle refers to existing vertices and every pixel of the announced size is accessible - and usable afterwards, including for loading a good file.",
  ["inputs"], "every file content: random bytes, mutated and truncated valid files, hostile headers, counts, sizes and indices",
  "Tests only load files the library has just written.",
  ["src/STLFile.cpp", "src/OBJFile.cpp", "src/ImageIoBmp.cpp"], [("header and index validation", "load/read functions")], ["return value", "object content after loading"]),
P("C22", "A save that reports success has written the whole file",
  "Whenever saving an STL, OBJ or BMP file reports success, the file holds exactly the complete content; if the device fills up, the file-size limit is hit at any byte, or the path cannot be created, failure is reported instead. "
  "A failed save neither changes the saved object nor prevents a later save from succeeding.",
  ["fault_sequences", "crash_points"], "every byte offset at which storage can run out, unwritable paths, and every mesh or image being saved",
  "Tests never inject an I/O error; they only save to a writable directory.",
  ["src/STLFile.cpp", "src/OBJFile.cpp", "src/ImageIoBmp.cpp"], [("stream state after the final flush", "save/write functions")], ["return value", "file bytes"]),
P("C23", "Rendering is memory safe and stays inside its buffer for any scene",
  "For every buffer size, camera (position, angles, zoom), lights and scene - points behind, on or near the camera plane, degenerate, huge, infinite or undefined coordinates included - every drawing call terminates without aborting or undefined behaviour and writes no memory outside the width*height pixel buffer. "
  "Every pixel it changes gets the colour produced by that call, and no element entirely behind the camera changes the image.",
  ["inputs", "histories"], "every camera, lights, buffer size from 0x0 upward, scene and sequence of drawing calls",
  "One test renders a friendly scene and saves it without looking at the image.",
  ["src/Renderer.cpp", "src/RendererCamera.cpp", "src/RendererLight.cpp"], [("projection with bounded integer range", "src/RendererCamera.cpp project"), ("clipping", "src/Renderer.cpp draw_trapeze, draw_horizontal_line")], ["pixel buffer and the guard zones around it"]),
P("C24", "The rendered image shows the nearest surfaces with the right colours",
  "For scenes in front of the camera, each pixel clearly inside the projection of front-facing (or two-sided) triangles shows the nearest of them, lit by the sum of the ambient and diffuse lights saturated per channel, and each pixel clearly outside every drawn element keeps the background; this holds up to the image borders, for partly visible triangles, and independently of the drawing order. "
  "Back-facing and removed triangles are not drawn, lines, polylines and pixels follow the projected geometry and are hidden only by nearer surfaces, the mesh colour is used when no colour is given, and clearing restores the background and forgets depth.",
  ["inputs", "histories"], "every scene in front of the camera, camera pose, zoom, image size, drawing order and set of lights",
  "The test image is never inspected.",
  ["src/Renderer.cpp", "src/RendererCamera.cpp", "src/RendererLight.cpp"], [("scanline rasteriser with 1/z buffer", "src/Renderer.cpp"), ("light accumulation", "src/Renderer.cpp compute_color_with_lights")], ["pixel buffer"]),
P("C25", "Images behave as plain pixel arrays and image tools compute pixelwise",
  "An image is exactly a width*height*planes array: each accessor reaches the same byte for the same pixel and plane, distinct pixels never alias, writes change only the addressed byte, resizing gives the announced size, and copies are independent. "
  "Conversion to grey is the integer mean of the first three planes of each pixel, scaling multiplies every value with rounding and saturation to 0..255, and the Sierpinski and Mandelbrot generators give images of the requested size whose every pixel satisfies the generator's definition, whatever the image held before.",
  ["inputs", "histories"], "every size, plane count, content, factor and sequence of image operations",
  "Tests generate square images and save them without checking pixels.",
  ["src/Image.h", "src/ImageUtil.cpp", "src/ImageGenerator.cpp"], [("index arithmetic", "src/Image.h"), ("pixel loops", "src/ImageUtil.cpp, src/ImageGenerator.cpp")], ["Image accessors"]),
P("C26", "Value objects copy deeply and release everything they own",
  "Every copyable object of the library (mesh, face, solid, spline curve, surface and solid, smooth mesh, patch, image, transforms) can be copied, assigned (to itself too), stored in containers, passed, swapped and destroyed in any order: afterwards the target equals the source, later changes to one are invisible in the other, and no memory is leaked, freed twice or used after release. "
  "The same holds for renderers with their lights and for file writers destroyed while open.",
  ["histories"], "every sequence of constructions, copies, assignments, edits and destructions over a pool of live objects of all types",
  "The tests create objects once and let the process end; no test assigns faces or solids, assigns over a non-empty object, or watches memory.",
  ["src/Mesh.cpp", "src/Face.cpp", "src/Solid.cpp", "src/SmoothMesh.cpp", "src/Renderer.cpp", "src/RendererLight.h", "src/NurbsSolid.cpp"],
  [("copy operations and destructors", "the classes' special members")], ["heap accounting and sanitizers", "object queries"]),
P("C27", "Independent objects can be used from different threads",
  "Threads working on different objects never interfere: there is no data race and each thread obtains bit for bit the results of running alone, for every part of the library (meshes, factories, splines, files in different paths, rendering into different buffers). "
  "A mesh, smooth mesh, spline curve or spline surface that nobody modifies may be read, measured, evaluated, meshed and rendered by any number of threads at once with the same results.",
  ["schedules"], "every schedule of several threads running any mix of library operations on separate objects or reading shared unmodified objects",
  "All tests are single-threaded.",
  ["src/NurbsCurve.cpp", "src/NurbsSurface.cpp", "src/Mesh.cpp", "src/Renderer.cpp", "src/GeometryUtil.cpp"],
  [("no mutable global state; read operations leave objects untouched", "whole library")], ["thread sanitizer reports", "results compared with a sequential run"]),
P("C28", "Results depend only on the arguments, not on history",
  "Every generator, converter, loader and builder gives the same result for the same arguments whether its output object is fresh or was used for anything before, whether its internal buffers were used for other degrees or sizes before, and however often it is repeated in one process; files written for equal objects are identical byte for byte. "
  "Operations documented as read-only never change their inputs, even when called repeatedly.",
  ["histories"], "every pair of histories leading to the same call with the same arguments, across all generators, converters, builders, writers and evaluators",
  "Tests use a fresh object for each call, or reuse one without comparing with a fresh one.",
  ["src/NurbsSurface.cpp", "src/NurbsCurve.cpp", "src/NurbsFactory.cpp", "src/MeshFactory.cpp", "src/OBJFile.cpp", "src/StepFile.cpp"],
  [("clear() at the start of builders", "factories and builders"), ("reset of weights, flags, counters", "src/NurbsSurface.cpp, src/OBJFile.cpp, src/StepFile.cpp")], ["object queries", "file bytes"]),
P("C29", "A load that reports success has loaded the whole file",
  "Whenever loading an STL, OBJ or BMP file reports success, the mesh or image is exactly what the file holds; if a read fails, or ends before the announced content, at any point of the file, or if the path cannot be read, failure is reported instead. "
  "Short and interrupted reads are not visible, and a failed load leaves a valid object, keeps no descriptor open and does not prevent a later load from succeeding.",
  ["fault_sequences"], "every point of every STL, OBJ or BMP file at which a read call can fail, end early, return less or be interrupted, and every unreadable path",
  "Tests never inject an I/O error; they only load complete files.",
  ["src/STLFile.cpp", "src/OBJFile.cpp", "src/ImageIoBmp.cpp"], [("stream state after the last read", "load/read functions")], ["return value", "object content after loading"]),
]
