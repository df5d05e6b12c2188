import json
P=[]
def p(id,title,statement,over,qtext,why,files,symbols=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=', '.join(files)) for n in (symbols or [])])))
I=["inputs"]
p("V01","Vector arithmetic is the textbook componentwise algebra",
 "For all operands, vector sum, difference, scaling, absolute value, dot product, cross product and linear interpolation return the textbook formula in each of X, Y and Z, up to floating-point rounding. Each in-place variant leaves in its receiver exactly what the value-returning variant returns, and has no other effect.",
 I,"all vectors, scalars and interpolation parameters","Nothing asserts the value of any arithmetic operation; a sample cannot tell a wrong term from a coincidence for every operand.",
 ["r3/vector.go"],["Add","Sub","Scale","Scaled","Abs","Dot","Cross","Interpolate","GetInterpolationVector"])
p("V02","Norms and distances are Euclidean; normalisation is safe at zero",
 "Norms and distances are Euclidean over all three coordinates and the squared forms are their squares. Normalising a non-zero vector divides it by its length and normalising the zero vector gives the zero vector, in the in-place and the value-returning form alike. The unit-length test accepts exactly the vectors whose squared length differs from 1 by at most a fixed tolerance of 5e-14.",
 I,"all vectors and pairs of vectors","No test normalises anything or checks a distance; the zero vector is a single point of a continuous domain.",
 ["r3/vector.go"],["Norm","Norm2","Normalize","IsUnit","Magnitude","SquaredMagnitude","Distance","SquaredDistance"])
p("V03","Plane and line queries return the geometrically exact answer",
 "A plane built from a normal and an origin contains the origin, the signed distance of a point to a plane is normal·point plus the plane's stored offset, and the normal of three points a, b, c is (b-a)×(c-a). Intersecting a line with a plane returns the point that lies on both, and panics exactly when the direction is orthogonal to the plane normal.",
 I,"all planes, lines and points","The only test of this package fails at the pinned commit, and the stable suite has none; the claim is an identity over all coordinates.",
 ["r3/plane.go","r3/line.go","r3/vector.go"],["newPlane","calculateNormal","CalculateDistanceToPlane","IntersectPlane"])
p("P01","Orientation and in-sphere predicates are the exact determinants",
 "For all points the 3D orientation predicate evaluates the 3x3 orientation determinant, and both in-sphere predicates evaluate the 4x4 in-sphere determinant with the same sign convention, up to floating-point rounding. The sign is therefore positive exactly when the last point is inside the sphere through a positively oriented tetrahedron.",
 I,"all 4- and 5-tuples of points","No test calls a predicate with an expected sign; a wrong term only shows on configurations that excite it.",
 ["predicates/insphere.go","predicates/orient3d.go"],["InSphereFast","inSphere","orient3dfast"])
p("P02","The filtered in-sphere predicate only returns certified signs",
 "The filtered in-sphere predicate returns its floating-point determinant only when the absolute value exceeds the forward error bound (16+224u)u times the permanent of the absolute products, with u the unit roundoff 2^-53; otherwise it returns the adaptive fallback's answer. The permanent is the determinant's expansion with every product replaced by its absolute value.",
 I,"all 5-tuples of points","The predicate is never called by a test; an under-estimated bound only misjudges nearly cospherical points.",
 ["predicates/insphere.go","predicates/util.go"],["inSphere","isperrboundA"])
p("T01","Planar predicates are exact in their algebraic form",
 "For all points, the turn predicate is the signed 2D cross product (positive for a counter-clockwise turn with Y up) and the area predicate its negation, the in-circle test is true exactly when the fourth point is strictly inside the circle through a triple of positive area, the circumcentre is equidistant from its three points and the circumradius is that squared distance, infinite for degenerate triples. Polygon area is the shoelace sum and polygon perimeter the sum of consecutive planar vertex distances including the closing edge.",
 I,"all point tuples and polygons","The package has no tests; every clause is an identity over all coordinates and polygon lengths.",
 ["triangulate2/util.go","triangulate2/hull.go"],["area","cross2D","inCircle","circumradius","circumcenter","polygonArea","polygonPerimeter"])
p("T02","Half-edge links stay mutual and flips preserve the quadrilateral",
 "Whenever the triangulator links two half-edges the link is recorded in both directions, and new triangles are appended as three consecutive half-edges. An edge flip happens exactly when the opposite vertex is strictly inside the circumcircle, replaces the two triangles by the other diagonal of the same quadrilateral with the same orientation, keeps the four outer half-edges attached to their neighbours, and re-checks the two edges opposite the inserted point.",
 ["inputs","histories"],"every half-edge state reachable in an incremental triangulation","The package has no tests; flips depend on which of 9 slot combinations and hull situations occur.",
 ["triangulate2/triangulator.go"],["link","addTriangle","legalize"])
p("T03","The planar triangulation depends only on X and Y",
 "Which triangles, half-edges and hull vertices the 2D triangulation and the 2D convex hull return depends only on the X and Y coordinates of the points: changing any Z coordinate changes nothing but the Z values carried along in the returned points.",
 I,"all point sets and all Z perturbations","No test triangulates anything; a relational property over pairs of inputs.",
 ["triangulate2/triangulator.go","triangulate2/hull.go","triangulate2/util.go"],["Triangulate","ConvexHull"])
p("T04","Triangulation results refer to the caller's points",
 "The triangulation returned carries the caller's point slice unchanged and in order, every triangle entry is the index of a caller's point, and every hull vertex is one of the caller's points. The triangle and half-edge lists have the same length, equal to the number of half-edges created.",
 I,"all point sets","The package has no tests.",
 ["triangulate2/triangulation.go","triangulate2/triangulator.go"],["Triangulate"])
p("T05","Degenerate point sets give an empty result or an error, never a crash",
 "Triangulating no points gives an empty triangulation without error, and triangulating one point, two points or only collinear or coincident points returns an error; in none of these cases does the library index outside the point set.",
 I,"point sets of every size, down to empty, including fully degenerate ones","No test calls the triangulator; the interesting sizes are boundary cases.",
 ["triangulate2/triangulator.go","triangulate2/triangulation.go"],["Triangulate"])
p("T06","The convex hull is a counter-clockwise monotone chain of input points",
 "The convex hull sorts a copy of the points lexicographically by X then Y, drops near-coincident neighbours, and builds both chains popping a vertex exactly when the last turn is strictly clockwise (lower chain) or strictly counter-clockwise (upper chain). The result is the lower chain followed by the reversed upper chain with each shared endpoint listed once, and consists of input points only.",
 I,"all point sets","The package has no tests.",
 ["triangulate2/hull.go"],["ConvexHull"])
p("T07","Validation accepts no inconsistent triangulation",
 "Validation succeeds only if every half-edge's twin points back to it, and the area and perimeter of the stored hull agree within 1e-9 with those of an independently computed convex hull of the points and the area also with the sum of the triangle areas; every disagreement yields a non-nil error.",
 I,"all triangulation values, including corrupted ones","No test validates anything, let alone corrupted structures.",
 ["triangulate2/triangulation.go"],["Validate","area"])
p("T08","Hull-edge hash buckets are always in range",
 "The pseudo-angle of any finite non-zero direction lies in [0, 1) and grows monotonically with the angle within each half-plane, so the bucket computed for any point is a valid index of the hull-edge table, the same for lookup and insertion.",
 I,"all finite non-zero directions and table sizes","The package has no tests; the boundary angle 1-eps is a single value.",
 ["triangulate2/util.go","triangulate2/triangulator.go"],["pseudoAngle","hashKey","hashEdge"])
p("T09","The 2D construction starts at the smallest central circle and goes by distance",
 "For any list of points, the seed triangle is made of the point nearest the centre of the bounding box, the nearest point distinct from it, and the third point that gives the least finite circumradius with these two (the first such point of the list each time), taken in one fixed orientation; an error is returned exactly when the list is not empty and no third point gives a finite circumradius. The other points are taken in order of squared distance from the seed's circumcentre, points at equal distances by their coordinates so that equal points are neighbours in that order. Room is made for every triangle that a triangulation of that many points can have, and the triangle and half-edge lists returned end with the last triangle made.",
 I,"all point lists in any order, with duplicates and ties","The stable tests of the package triangulate no list whose seed, order or failure they assert; a wrong bound, comparison or corner only shows for particular point sets.",
 ["triangulate2/triangulator.go"],["triangulate","Less","Swap"])
p("T10","Adding a point to the triangulation joins it to exactly the hull edges it sees",
 "Every point that is not a seed nor nearly equal to the point taken just before it is joined to each edge of the current hull that it lies strictly outside of: one triangle per such edge, with the point as its second corner, linked to the triangle behind the edge and to the neighbouring new triangle, and each new triangle is handed to the Delaunay check. The walk continues forward from the first such edge, and also backward when that edge is the one the search began with. Afterwards the hull is a ring in which the point has taken the place of the nodes it hides: previous and next references agree, each node refers to the boundary half-edge of its triangle, removed nodes are marked, the hull entry and the nodes entered in the search table are nodes of the ring. A point that sees no edge changes nothing.",
 I,"all hulls, points and insertion histories","No stable test inserts points; the backward walk, the ring links and the half-edge passed on only matter for particular sequences of points.",
 ["triangulate2/triangulator.go","triangulate2/node.go"],["triangulate","newNode","remove"])
p("T11","The triangulation handed over is the one that was constructed",
 "For any list of points, the result holds the points given, in the order given; its triangles and half-edges are the lists the construction ended with, each under its own name; and a failure of the construction is reported as the error of the call. The convex hull is read from the ring the construction ended with: the point of every node of that ring exactly once, each followed by the point of the neighbouring node, always in the same direction around the ring, whichever node the ring is entered at; a construction that made no ring gives an empty hull.",
 I,"all point lists, all hull rings and entry nodes","No stable test looks at the hull or the half-edges of a result.",
 ["triangulate2/triangulation.go","triangulate2/triangulator.go"],["Triangulate","convexHull"])
p("G01","Bounding boxes and extremes are attained and enclose every point",
 "For every non-empty set of finite points, each computed bound is the minimum or maximum of that coordinate over the whole set, whatever the magnitude of the coordinates, so every point lies between the bounds and each bound is attained. The X-extremal points returned are points of the set with least and greatest X.",
 I,"all non-empty finite point sets of any magnitude and order","The stable tests do not assert bounds; missing updates or wrong initial values only show for particular orders and magnitudes.",
 ["triangulate3/englober.go","triangulate3/util.go","triangulate3/gdel3d.go","meshing/helper.go"],["computeBoundingBoxForVectors","computeExtremitiesForAxeX","findExtremas"])
p("G02","Point-in-tetrahedron tests check all four faces",
 "A point is reported inside a tetrahedron exactly when, for each of the four faces, the point and the vertex opposite that face are not strictly on opposite sides of the face's plane; both packages that offer the test agree. The centroid is the mean of the four vertices.",
 I,"all tetrahedra and points","The existing test prints instead of asserting and never exercises each face.",
 ["triangulate3/util.go","meshing/util.go"],["SameSide","VectorInTetrahedron","sameSide","vectorInTetrahedron","findCentroid"])
p("G03","Initial simplex seeds are the furthest points of the set",
 "The third seed is the point with the greatest squared area over the segment of the first two and the fourth the point with the greatest absolute volume over the first three, so both are points of the set whenever the set is not degenerate. The measures used are the squared norm of the cross product and the scalar triple product.",
 I,"all point sets","The test file of the package does not compile, so nothing is exercised.",
 ["triangulate3/gdel3d.go","triangulate3/util.go"],["createInitialTetra","Get2Ddist","Get3Ddist"])
p("G04","Englobing tetrahedra contain every point",
 "The tetrahedron built to enclose a point set contains the whole axis-aligned bounding box of the set, whatever the signs and magnitudes of the coordinates, in both tetrahedrisation packages.",
 I,"all non-empty finite point sets","The meshing test prints failures instead of asserting; the other package's tests do not compile.",
 ["triangulate3/englober.go","meshing/helper.go","meshing/mesh.go"],["constructEnglobingTetra","computerInitialTetraPoints","englobe"])
p("M01","Tetrahedron bookkeeping is complete and unambiguous",
 "A tetrahedron created from a face and a point has exactly that face's three vertices and the point as corners and lists all four of its faces. Two faces get the same key exactly when they have the same three vertices in any order, and two tetrahedra get the same key exactly when they have the same corner sequence.",
 I,"all vertex indices","Nothing asserts keys or faces; a collision needs particular index pairs.",
 ["meshing/mesh.go"],["connect","englobe","hash","tetraHash"])
p("M02","Tetrahedrisation output indexes the caller's points only",
 "Every index returned by the 3D tetrahedrisation is a valid index into the caller's point list and faces touching the auxiliary enclosing tetrahedron are never returned; the offsets used when inserting points, filtering auxiliary vertices and emitting faces all agree with the number of auxiliary vertices.",
 I,"all point lists","The test does not look at the returned indices.",
 ["meshing/mesh.go"],["bowyerWatson","isPartOfMesh","addFace","englobe"])
p("M03","Point insertion retriangulates exactly the violated cavity",
 "Inserting a point removes exactly the tetrahedra whose circumscribed sphere contains it, independently of the order in which a tetrahedron's corners are stored, and joins the point to exactly those faces that belong to a single removed tetrahedron. Every input point is inserted.",
 ["inputs","histories"],"all point lists and all intermediate tetrahedrisations","The test only runs one set and asserts nothing.",
 ["meshing/mesh.go"],["bowyerWatson"])
p("M04","Tetrahedrisation output is reproducible",
 "For the same point list, the 3D tetrahedrisation returns the same index list in every run: no result depends on the iteration order of a hash map.",
 ["inputs","schedules"],"all point lists and all map iteration orders","Map order is randomised per run; a single run cannot see a difference.",
 ["meshing/mesh.go"],["bowyerWatson"])
p("M05","Nearest-point search and point-insertion flip are correct",
 "The nearest-point search returns a point of the list with the smallest distance to the reference. The 1-to-4 flip appends the new point and lists all four faces of each of the four tetrahedra joining it to the faces of the original one, each in both orientations.",
 I,"all point lists; all single-tetrahedron meshes","The test prints the result of one query; the flip is never executed.",
 ["meshing/helper.go","meshing/flip.go","meshing/util.go"],["getNearestPoint","flip14","duplicateInReverse"])
p("S01","Mesh indices always refer to existing vertices",
 "Every triangle index of every mesh produced by the sphere, circle, ellipse and torus constructors is smaller than the number of vertices of that mesh, and the number of indices is a multiple of three.",
 I,"all centres and dimensions","Tests only write a file and never look at an index.",
 ["shape/sphere.go","shape/torus.go","shape/circle.go","shape/ellipse.go"],["ConstructSphere","ConstructCircle","ConstructTorus","ConstructEllipse"])
p("S02","Mesh vertices lie on the requested surface around the requested centre",
 "For all centres and dimensions, every vertex of the sphere, torus, circle and ellipse meshes satisfies the implicit equation of that figure centred at the requested centre (the two flat figures additionally have the centre itself as hub vertex).",
 I,"all centres, radii and semi-axes","Tests use the origin and one radius and assert nothing.",
 ["shape/sphere.go","shape/torus.go","shape/circle.go","shape/ellipse.go"],["ConstructSphere","ConstructCircle","ConstructTorus","ConstructEllipse"])
p("S03","Per-vertex attributes are aligned and correct",
 "The sphere and torus meshes carry exactly one normal and one texture coordinate per vertex, in vertex order; every sphere normal is the unit outward normal of its vertex, every torus normal the unit outward normal of the tube, and texture coordinates run over [0, 1] in proportion to the sector and stack position.",
 I,"all centres and radii","Nothing reads normals or texture coordinates.",
 ["shape/sphere.go","shape/torus.go"],["ConstructSphere","ConstructTorus"])
p("S04","Meshes cover their whole figure without holes",
 "The sphere and torus meshes are closed: every triangle edge is shared by exactly one oppositely directed edge of another triangle once coincident seam and pole vertices are identified. The circle and ellipse meshes fan once around the hub with every sector present in both orientations.",
 I,"all centres and dimensions","Tests never look at the triangles.",
 ["shape/sphere.go","shape/torus.go","shape/circle.go","shape/ellipse.go"],["ConstructSphere","ConstructCircle","ConstructTorus","ConstructEllipse"])
p("E01","Exported geometry is the mesh's geometry",
 "The exporter writes one position per mesh vertex, in order, with X, Y, Z converted to single precision, one colour per vertex, and the mesh's triangle indices unchanged.",
 I,"all meshes","Tests only check that exporting does not panic.",
 ["glTF/export.go","glTF/model.go"],["Export","transferModel"])
p("E02","The exported document is wired to the written data",
 "The exported document has one mesh whose primitive uses the position accessor for POSITION, the colour accessor for COLOR_0 and the index accessor as its indices, one node holding that mesh, and that node in the default scene, and it is saved to exactly the requested path after all data was written.",
 I,"all meshes and paths","Tests never read a file back.",
 ["glTF/export.go"],["Export"])
p("X01","Operations never modify their inputs",
 "No operation other than the documented in-place vector methods changes memory reachable from its arguments: point slices passed to hull, triangulation, tetrahedrisation, bounding-box, seed, predicate and export operations keep their length, order and contents.",
 I,"all inputs of all exported operations","No test compares inputs before and after a call.",
 ["triangulate2/hull.go","triangulate2/triangulation.go","triangulate3/englober.go","meshing/mesh.go","glTF/model.go","r3/vector.go"])
p("X02","No hidden shared state",
 "No package-level variable is modified after initialisation, no goroutine is left behind, and no operation reads the process command line, environment, clock or random source, so independent calls never influence each other and concurrent calls on separate data do not race.",
 ["schedules","histories"],"all interleavings and histories of calls","A data race or hidden dependency needs a particular schedule or environment.",
 ["step/lex.go","r3/vector.go","triangulate2/util.go"])
p("X03","File access is confined and every failure surfaces",
 "Only reading a STEP file, exporting a model and the JSON dump open or create files, each with exactly the path it is meant to use, and every opened file is closed on every path. Every error returned by a file, encoding or export operation is returned or raised as a panic, never dropped (the end of the file while reading, and closing a file that was only read or whose writing has already failed, are no errors in this sense).",
 ["inputs","fault_sequences"],"all I/O failures at every call","Tests never inject an I/O failure.",
 ["step/lex.go","step/util.go","glTF/export.go"],["Lex","marshallToJSON","check","Export"])
p("L01","Reading a STEP file loses and duplicates nothing",
 "In a file with at most one definition per line, each non-empty line's text ends up in exactly one definition, in file order: a line that starts a definition closes the previous one, any other line extends the current one, and the last definition is recorded at the end of the file. The read loop stops on every read outcome other than success.",
 ["inputs","fault_sequences"],"all files and read errors","The tests read two fixed files and assert nothing.",
 ["step/lex.go"],["Lex"])
p("L02","Argument lists split exactly at top-level commas",
 "Splitting an argument, list or matrix text yields exactly the pieces between commas that are outside every parenthesis pair and every quoted string, in order, with no character lost or added other than those commas and the enclosing punctuation.",
 I,"all texts, with arbitrary nesting, quoting and non-ASCII characters","One list is printed and not asserted.",
 ["step/util.go"],["getArguments","getArray","getMatrix"])
p("L03","Definitions are keyed so that references resolve",
 "A definition is recorded under the text before its first equals sign and its type is the text between that sign and the first opening parenthesis, both with all white space removed, so that a reference written in any argument finds it; later definitions of the same identifier replace earlier ones.",
 I,"all files, however spaced","The test files contain no spaces around identifiers and nothing is asserted.",
 ["step/lex.go","step/util.go"],["add","tokenize","stripWhiteSpaces"])
p("L04","Malformed STEP text never crashes the reader",
 "Text that is not a definition (header lines, section marks, blank or truncated text, a definition without parentheses) is skipped or recorded as empty; no file content makes the reader index outside a string or list.",
 I,"all file contents","The tests read two well-formed files.",
 ["step/lex.go","step/util.go"],["Lex","add","tokenize","getArguments","getArray"])
p("Q01","Entity types are dispatched by their ISO 10303 name",
 "Each supported ISO 10303-21 entity type name is routed to the handler for that entity, spelled as in the standard, and every other type is routed to the skip handler; no supported entity is unreachable because of its keyword.",
 ["inputs","programs"],"all entity type names","The tests contain three entity types.",
 ["step/bridge.go"],["bridge"])
p("Q02","Every definition is processed at most once and parsing terminates",
 "Parsing visits every definition of the table, handles each identifier at most once, takes pending work in first-in first-out order, and terminates for every table, including tables with cyclic or dangling references.",
 ["inputs","histories"],"all symbol tables, including cyclic ones","The test files contain no cycle.",
 ["step/parse.go"],["Parse","runInferenceModel"])
p("Q03","B-spline surface attributes are read from their standard positions",
 "For a B-spline surface with knots, name, degrees, control points, form, closed flags, self-intersection flag, multiplicities and knots are taken from argument positions 0 to 11 in the order of the standard, control points as a matrix and multiplicities and knots as lists; a logical is true exactly for .T.",
 I,"all B-spline surface definitions","The only B-spline in the tests is printed, not asserted.",
 ["step/template.go","step/job.go","step/util.go"],["bSplineSurfaceWithKnots","getLogical"])
p("Q04","Entity references are followed from their standard positions",
 "Handlers follow references from the attribute positions of the standard: a product definition shape to its definition, a product definition to its formation and its context, an axis placement to its location, axis and reference direction, an advanced face to its surface. A missing attribute or dangling reference is skipped without a crash.",
 I,"all symbol tables","None of these entities occurs in the test files.",
 ["step/template.go"],["productDefinitionShape","productDefinition","axis2Placement3D","advancedFace","cartesianPoint"])
p("N01","Knot-span search returns the bracketing span and terminates",
 "For every non-decreasing knot vector and every parameter, the search terminates and for a parameter in the domain returns a span whose half-open knot interval contains the parameter, the last span for the end of the domain; parameters outside the domain are clamped to the first or last span.",
 I,"all knot vectors, degrees and parameters","One parameter of one knot vector is evaluated and not asserted.",
 ["nurbs/basis.go"],["findSpan"])
p("N02","Basis functions satisfy the Cox-de Boor recurrence and sum to one",
 "For every degree, span and parameter, the non-vanishing basis functions computed follow the Cox-de Boor recurrence starting from 1, so that they always sum to one.",
 I,"all degrees, spans, parameters and knot vectors","One value is printed and not asserted.",
 ["nurbs/basis.go"],["basisFuns"])
p("N03","Curve points are the basis-weighted sum of the right control points",
 "A curve point is the sum over the non-vanishing basis functions of the function's value times the control point of the same index (span minus degree plus i), and the control points are not modified.",
 I,"all curves and parameters","One point is printed and not asserted.",
 ["nurbs/curve.go"],["curvePoint"])
p("N04","Basis-function derivatives follow the standard algorithm",
 "The derivative table of the basis functions has the basis functions themselves in row zero and in row k the k-th derivatives given by the standard divided-difference recurrence, for every degree and derivative order up to the degree.",
 I,"all degrees, orders, spans, parameters and knot vectors","The function is never called.",
 ["nurbs/basis.go"],["dersBasisFuns"])
p("D01","Triangulations of points in general position are Delaunay",
 "For every point set in general position the triangulation returned has no input point strictly inside the circumcircle of any of its triangles, and covers the convex hull.",
 I,"all point sets","The package has no tests.",["triangulate2/triangulator.go"],["Triangulate"])
p("D02","Exported files parse back to the exported mesh",
 "Reading an exported file back with a conforming glTF reader gives the positions and indices that were exported.",
 I,"all meshes","Tests never read a file back.",["glTF/export.go"],["Export"])
p("D03","Predicate signs are right under floating-point rounding",
 "The sign of the fast orientation and in-sphere predicates equals the sign of the real-number determinant for all double-precision inputs.",
 I,"all double-precision inputs","Near-degenerate inputs are not sampled.",["predicates/insphere.go"],["InSphereFast"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), [x['id'] for x in P if len(x['title'])>80])
