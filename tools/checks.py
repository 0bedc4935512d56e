# Case counts and settings of each check.
def K(quick, thorough, must=(), level="exploration", **kw):
    d = dict(quick=quick, thorough=thorough, must_observe=list(must), level=level)
    d.update(kw)
    return d

CHECKS = {
    "C01": K(40000, 200000, ["self-appends", "self-assignments", "copies", "removals", "meshes with undefined coordinates"]),
    "C02": K(20000, 400000, ["triangle splits", "edge splits", "flips", "quads", "pentagons", "optimised quads", "exact triangle-triangle splits", "mesh-mesh splits with effect", "single triangles split against each other", "triangles split by each other", "large meshes split against each other", "meshes with several triangles split"]),
    "C03": K(20000, 200000, ["tetrahedron", "box", "octahedron", "dodecahedron", "icosahedron", "cylinder", "sphere_geodesic", "sphere_uv", "torus", "fine levels"]),
    "C04": K(16000, 300000, ["closed meshes", "fine subdivisions", "very fine subdivisions", "large meshes"]),
    "C05": K(160000, 2000000, ["merges", "vertices merged", "empty triangles removed", "distances equal to the tolerance", "undefined or infinite vertices", "zero tolerance"]),
    "C06": K(16000, 500000, ["measurements", "closed meshes", "open meshes", "moved closed meshes"]),
    "C07": K(100000, 400000, ["translation", "scale", "quaternion", "rotation matrix", "matrix", "angle-axis", "Euler angles", "objects transformed", "rotation agreements", "new transforms"]),
    "C08": K(3000000, 60000000, ["plane cuts", "plane misses", "plane-segment hits", "plane-segment misses", "parallel segments", "segment-segment hits", "segment-segment misses", "points in triangle", "points out of triangle", "triangle-segment hits", "triangle-segment misses", "triangle-triangle hits", "triangle-triangle misses", "overlapping boxes", "separate boxes", "random axes", "plane-plane crossings", "parallel planes"]),
    "C09": K(60000, 3000000, ["rational curves", "polynomial curves", "curves with repeated interior knots", "polylines", "closed curves", "open curves", "invariances", "reused objects", "very close knots"]),
    "C10": K(150000, 3000000, ["elevations", "refused elevations", "elevations with repeated interior knots", "insertions at an existing knot", "insertions at a new parameter", "insertions to full multiplicity", "very close knots", "insertions very close to a knot"]),
    "C11": K(30000, 1500000, ["non-square grids", "unequal degrees", "borders", "elevations u", "elevations v", "insertions u", "insertions v", "refused elevations", "insertions at an existing knot", "reused objects", "very close knots"]),
    "C12": K(250000, 3000000, ["extrusions", "ruled surfaces with equal weights", "ruled surfaces with different weights", "revolutions", "closed profiles", "outputs reused", "ruled with itself"]),
    "C13": K(150000, 1000000, ["circles", "disks", "spheres", "tori", "cylinders", "boxes", "quads", "triangles", "tori crossing their axis", "curves from points", "height fields", "non-square height fields", "meshes", "removed triangles"]),
    "C14": K(6000, 300000, ["appended meshes", "replaced meshes", "closed in u", "closed in v", "solids meshed", "closed solids", "control nets", "long surfaces", "control nets with repeated lines"]),
    "C15": K(40000, 1000000, ["grids with cells", "grids without cells", "non-square grids", "grids of points", "height fields", "images", "height fields with undefined heights"]),
    "C16": K(20000, 1000000, ["flat patches", "curved patches", "self-assignment", "self-append", "copy", "flat pentagons", "smooth meshes meshed", "smooth tetrahedron", "smooth box", "smooth octahedron", "smooth dodecahedron", "smooth icosahedron", "smooth sphere", "point-normal triangles", "large smooth meshes"]),
    "C17": K(60000, 2000000, ["meshes saved", "meshes with removed triangles", "facets parsed", "files loaded", "files with trailing bytes", "truncated files", "loaded over itself", "large files"]),
    "C18": K(60000, 2000000, ["round trips", "meshes with removed triangles", "coloured vertices", "polylines parsed", "writers reopened", "writers destroyed while open", "files loaded", "malformed files", "large files", "closed polylines", "failed opens"]),
    "C19": K(12000, 600000, ["solids written", "surfaces rebuilt", "non-square surfaces", "empty files", "writers reopened", "writers destroyed while open", "failed opens", "large files", "solids of many faces"]),
    "C20": K(30000, 1000000, ["8 bits written", "24 bits written", "32 bits written", "padded rows written", "read over itself", "8 bits read", "24 bits read", "32 bits read", "gaps before the pixels", "refused files", "short palettes", "palettes of true colour files"]),
    "C21": K(60000, 4000000, ["loads metered", "STL accepted", "STL refused", "OBJ accepted", "OBJ refused", "BMP accepted", "BMP refused", "pixels touched", "triangles checked", "large files"]),
    "C22": K(600, 20000, ["STL", "OBJ", "BMP", "OBJ writer", "offsets tried", "complete sweeps of the offsets", "limits just sufficient", "failures reported", "full devices", "impossible paths", "no descriptor", "longer former files", "former files of any size", "failed saves measured", "meshes without vertex"]),
    "C24": K(16000, 600000, ["camera changes", "clears", "closed meshes drawn", "meshes with their own colour", "meshes with a given colour", "removed triangles", "line positions checked", "edges drawn", "pixels", "pixels certainly covered", "triangles certainly drawn", "triangles not to be drawn", "triangles facing the camera", "triangles over the whole image", "triangles reaching far out of the screen", "many lights", "long polylines", "default light factors", "line columns and rows checked", "very wide or high images", "negative colours", "lines of many steps", "polylines of more than a thousand points", "same triangle after a change", "renderers at the same address"]),
    "C23": K(40000, 1500000, ["exact buffers", "guarded buffers", "empty buffers", "hostile cameras", "hostile lights", "triangles behind", "meshes behind", "lines behind", "pixels behind", "triangles seen", "colours compared", "clears", "lines of more than a million steps"]),
    "C25": K(12000, 400000, ["resizes", "writes", "self-assignments", "assignments", "copies", "conversions", "non-square conversions", "saturated values", "scalings", "Sierpinski images", "Mandelbrot images", "non-square fractals", "points of the set", "points out of the set", "many iterations", "conversions to double", "address sweeps", "images of more than 2^31 bytes", "large Sierpinski images"]),
    "C26": K(12000, 500000, ["edits", "copies", "self-assignments", "assignments", "swaps", "moves", "containers", "destructions", "renderers", "writers", "faces and solids from meshes", "large objects", "histories measured", "Mesh", "Face", "Solid", "NurbsCurve", "NurbsSurface", "NurbsSolid", "SmoothMesh", "QuadBezierTriangle", "Image"]),
    "C28": K(30000, 1200000, ["solids of the mesh factory", "mesh edition", "merge and clean", "tessellation", "mesh boolean", "grids", "curve evaluation", "curve refinement", "surface evaluation", "surface refinement", "extrusion", "revolution", "ruled surface", "curves and surfaces of the factory", "solids of the factory", "surface from heights", "solid from a mesh", "surface to mesh", "solid to mesh", "control net", "smooth factory", "smooth mesh edition", "STL", "OBJ", "OBJ writer", "STEP", "BMP", "images", "rendering", "geometry", "transforms", "faces and solids", "smooth mesh to mesh", "measurements", "copies", "cleared objects", "former uses", "repetitions", "nearly the same arguments", "new processes", "odd states"]),
    "C27": K(6000, 120000, ["solids of the mesh factory", "mesh edition", "merge and clean", "tessellation", "mesh boolean", "grids", "curve evaluation", "curve refinement", "surface evaluation", "surface refinement", "extrusion", "revolution", "ruled surface", "curves and surfaces of the factory", "solids of the factory", "surface from heights", "solid from a mesh", "surface to mesh", "solid to mesh", "control net", "smooth factory", "smooth mesh edition", "STL", "OBJ", "OBJ writer", "STEP", "BMP", "images", "rendering", "geometry", "transforms", "faces and solids", "smooth mesh to mesh", "measurements", "copies", "cleared objects", "shared: mesh read", "shared: mesh measured", "shared: mesh rendered", "shared: mesh saved", "shared: mesh copied", "shared: mesh tessellated", "shared: mesh split", "shared: curve evaluated", "shared: curve to polyline", "shared: curve extruded", "shared: curve revolved", "shared: curve copied", "shared: surface evaluated", "shared: surface meshed", "shared: surface written", "shared: surface copied", "shared: smooth mesh meshed", "shared: smooth mesh copied", "shared: solid meshed", "shared: solid written", "shared: image read", "shared: image written", "shared: patch evaluated", "shared: mesh appended", "shared: curve ruled", "overlapping operations", "same operation everywhere", "readers only", "first uses by several threads"], flavor="tsan"),
    "C29": K(2500, 80000, ["STL", "OBJ", "BMP", "files written by the library", "later loads", "unreadable paths"]),
    #END
}

TECHNIQUE = {
    "default": "runtime monitoring: ASan+UBSan build, online oracle over generated and hostile executions",
}
NOTE = {
    "default": "Exploration: the property held on every generated execution (counts in the evidence file); trusts the independent oracle in harness/ and the sanitizers.",
}
