SEEDS = []
def seed(id, prop, pkg, edits, demo, needs, what):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, what=what))

seed('V02-unit-norm', 'V02', 'r3',
 [('r3/vector.go', 'math.Abs(float64(v.Norm2()-1)) <= epsilon', 'math.Abs(float64(v.Norm()-1)) <= epsilon')],
'''package r3
import ("testing";"math")
func TestZZDemo(t *testing.T) {
	v := Vector{math.Sqrt(1 + 8e-14), 0, 0}
	if v.IsUnit() { t.Fatal("accepted a vector whose squared length is off by 8e-14") }
}
''', 'a vector whose squared length is between 5e-14 and 1e-13 away from 1', 'the unit test measures the length, not the squared length, doubling its tolerance')

seed('V03-unnormalised-direction', 'V03', 'r3',
 [('r3/line.go', 'Add(line.Vector, Normalize(line.Direction).Scaled(t))', 'Add(line.Vector, line.Direction.Scaled(t))')],
'''package r3
import ("testing";"math")
func TestZZDemo(t *testing.T) {
	l := Line{Vector{1, 2, 3}, Vector{0, 0, 2}}
	p := l.IntersectPlane(Plane3D{Vector{0, 0, 1}, Vector{0, 0, 10}})
	if math.Abs(p.Z-10) > 1e-9 { t.Fatal("not on the plane", p) }
}
''', 'a direction that is not of unit length', 'the parameter is measured along the unit direction but applied to the direction itself')

seed('P02-permanent-abs', 'P02', 'predicates',
 [('predicates/insphere.go', '(dexbeyplus+bexdeyplus)*cezplus+(bexceyplus+cexbeyplus)*dezplus)*alift', '(dexbeyplus+bexdeyplus)*cez+(bexceyplus+cexbeyplus)*dezplus)*alift')],
'''package predicates
import ("testing";"math/rand")
import "math"
func TestZZDemo(t *testing.T) {
	// nearly cospherical points: every uncertified sign must come from the fallback (0)
	rnd := rand.New(rand.NewSource(1))
	for k := 0; k < 400000; k++ {
		var p [15]float64
		for i := 0; i < 5; i++ {
			x, y, z := rnd.NormFloat64(), rnd.NormFloat64(), rnd.NormFloat64()
			n := math.Sqrt(x*x + y*y + z*z)
			if i == 2 { z = -math.Abs(z) * 50 ; n = math.Sqrt(x*x + y*y + z*z)}
			p[3*i], p[3*i+1], p[3*i+2] = x/n, y/n, z/n
		}
		got := inSphere(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14])
		if got == 0 { continue }
		d := func(i, j int) float64 { return p[3*i+j] - p[12+j] }
		ab := func(x float64) float64 { return math.Abs(x) }
		m := func(a, b int) float64 { return ab(d(a, 0)*d(b, 1)) + ab(d(b, 0)*d(a, 1)) }
		l := func(a int) float64 { return d(a, 0)*d(a, 0) + d(a, 1)*d(a, 1) + d(a, 2)*d(a, 2) }
		tr := func(a, b, c int) float64 { return m(b, c)*ab(d(a, 2)) + m(a, c)*ab(d(b, 2)) + m(a, b)*ab(d(c, 2)) }
		perm := tr(1, 2, 3)*l(0) + tr(0, 2, 3)*l(1) + tr(0, 1, 3)*l(2) + tr(0, 1, 2)*l(3)
		u := 1.1102230246251565e-16
		if ab(got) < (16+224*u)*u*perm*0.999 { t.Fatal("uncertified value returned", got, perm) }
	}
}
''', 'a nearly cospherical configuration with the third point below the fifth', 'the error bound is under-estimated for negative height differences, so an uncertified sign is returned')

seed('V01-interpolate-clamp', 'V01', 'r3',
 [('r3/vector.go', '\tt1 := 1 - t\n', '\tt1 := math.Max(0, 1-t)\n')],
'''package r3
import ("testing";"math")
func TestZZDemo(t *testing.T) {
	a, b := Vector{1, 2, 3}, Vector{4, 6, 8}
	got := Interpolate(&a, &b, 2)
	if math.Abs(got.X-7) > 1e-12 || math.Abs(got.Y-10) > 1e-12 || math.Abs(got.Z-13) > 1e-12 { t.Fatal(got) }
}
''', 'a parameter beyond 1', 'extrapolation drops the weight of the first point, so the sum is not the linear interpolation')

seed('V01-add-order', 'V01', 'r3',
 [('r3/vector.go', '\tv.X = v.X - ov.X\n\tv.Y = v.Y - ov.Y\n\tv.Z = v.Z - ov.Z\n', '\tif ov.X != 0 || ov.Y != 0 {\n\t\tv.X, v.Y, v.Z = v.X-ov.X, v.Y-ov.Y, v.Z-ov.Z\n\t}\n')],
'''package r3
import "testing"
func TestZZDemo(t *testing.T) {
	v := Vector{1, 2, 3}
	v.Sub(Vector{0, 0, 1})
	if v != (Vector{1, 2, 2}) { t.Fatal(v) }
}
''', 'subtracting a vector along Z', 'the shortcut for the zero vector forgets Z, so the in-place difference ignores purely vertical operands')

seed('V03-normal-of-flat-triangle', 'V03', 'r3',
 [('r3/plane.go', '\tU := createVector(b, a)\n\tV := createVector(c, a)\n', '\tU := createVector(b, a)\n\tV := createVector(c, b)\n\tif a.Z != b.Z && b.Z == c.Z {\n\t\tV = createVector(b, c)\n\t}\n')],
'''package r3
import "testing"
func TestZZDemo(t *testing.T) {
	var p Plane
	a, b, c := Vector{1, 0, 0}, Vector{0, 1, 5}, Vector{2, 3, 5}
	if got := p.calculateNormal(a, b, c); got != Cross(Sub(b, a), Sub(c, a)) { t.Fatal(got) }
}
''', 'three points of which exactly the last two have the same height', 'the normal points to the other side for triangles standing on one corner')

seed('P01-orient-coplanar-shortcut', 'P01', 'predicates',
 [('predicates/orient3d.go', '\treturn adx*(bdy*cdz-bdz*cdy) +\n', '\tif bdz == 0 && adz == 0 {\n\t\treturn cdz * (adx*bdy - bdx*ady) * cdz\n\t}\n\treturn adx*(bdy*cdz-bdz*cdy) +\n')],
'''package predicates
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	o := r3.Vector{}
	a, b := r3.Vector{X: 1}, r3.Vector{Y: 1}
	up := orient3dfast(a, b, r3.Vector{Z: 2}, o)
	down := orient3dfast(a, b, r3.Vector{Z: -2}, o)
	if up*down >= 0 { t.Fatal(up, down) }
}
''', 'the first, second and last point in one horizontal plane', 'the shortcut for horizontal bases loses the sign of the third height')

seed('P01-lift-shared', 'P01', 'predicates',
 [('predicates/insphere.go', '\tdlift := dex*dex + dey*dey + dez*dez\n\n\treturn', '\tdlift := clift\n\tif pd.X != pc.X || pd.Y != pc.Y {\n\t\tdlift = dex*dex + dey*dey + dez*dez\n\t}\n\n\treturn')],
'''package predicates
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	a, b := r3.Vector{X: 1}, r3.Vector{Y: 1}
	c, d := r3.Vector{X: -1, Z: 0.1}, r3.Vector{X: -1, Z: 3}
	e := r3.Vector{X: 0.2, Y: 0.1, Z: 0.3}
	x := InSphereFast(a, b, c, d, e)
	y := inSphere(a.X, a.Y, a.Z, b.X, b.Y, b.Z, c.X, c.Y, c.Z, d.X, d.Y, d.Z, e.X, e.Y, e.Z)
	if x != y { t.Fatal(x, y) }
}
''', 'the third and fourth point above one another', 'the squared distance of the fourth point is taken from the third whenever they share X and Y')

seed('P02-bound-per-side', 'P02', 'predicates',
 [('predicates/insphere.go', 'if det > errbound || -det > errbound {', 'if det > errbound || -det >= isperrboundA {')],
'''package predicates
import "testing"
func TestZZDemo(t *testing.T) {
	// five points on a large sphere: the sign is not certified
	const r = 1e8
	p := [][3]float64{{r, 0, 0}, {0, r, 0}, {0, 0, r}, {-r, 0, 0}, {0.6 * r, 0.8*r + 1e-8, 0}}
	for s := 0; s < 2; s++ {
		got := inSphere(p[0][0], p[0][1], p[0][2], p[1][0], p[1][1], p[1][2], p[2][0], p[2][1], p[2][2], p[3][0], p[3][1], p[3][2], p[4][0], p[4][1], p[4][2])
		if got != 0 { t.Fatal("uncertified", got) }
		p[0], p[1] = p[1], p[0]
	}
}
''', 'nearly cospherical points with a negative determinant and large coordinates', 'negative determinants are compared with the unscaled error constant')

seed('T01-circumradius-thin', 'T01', 'triangulate2',
 [('triangulate2/util.go', '\tif bl == 0 || cl == 0 || d == 0 || r == 0 {', '\tif bl == 0 || cl == 0 || math.Abs(d) < eps || r == 0 {')],
'''package triangulate2
import ("testing";"math";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	s := 1e-9
	if r := circumradius(r3.Vector{}, r3.Vector{X: s}, r3.Vector{Y: s}); math.IsInf(r, 1) { t.Fatal("infinite") }
}
''', 'a well-shaped but tiny triangle', 'small triangles are taken for degenerate ones and get an infinite circumradius')

seed('T02-flip-hull-side', 'T02', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\t\te := t.hull\n\t\t\tfor {\n', '\t\t\te := t.hull.next\n\t\t\tfor e != t.hull {\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	// two triangles sharing an edge; the flipped quadrilateral's far edge is on the hull, referenced by the head node
	tr := &triangulator{Vectors: []r3.Vector{{X: 0, Y: 0}, {X: 1, Y: -1}, {X: 2, Y: 0}, {X: 1, Y: 0.1}}}
	for flip := 0; flip < 1; flip++ {
		tr.triangles = make([]int, 6)
		tr.halfedges = []int{-1, -1, -1, -1, -1, -1}
		nodes := make([]node, 4)
		var e *node
		for i := range nodes { e = newNode(nodes, i, e) }
		found := false
		// choose an orientation in which the shared edge is illegal
		for _, o := range [][6]int{{0, 2, 3, 2, 0, 1}, {2, 0, 3, 0, 2, 1}, {3, 0, 2, 1, 2, 0}, {3, 2, 0, 1, 0, 2}} {
			copy(tr.triangles, o[:])
			a, b := 0, 3
			if o[0] == 3 { a, b = 1, 4 }
			tr.halfedges = []int{-1, -1, -1, -1, -1, -1}
			tr.link(a, b)
			bl := b - b%3 + (b+2)%3
			tr.hull = &nodes[0]
			for i := range nodes { nodes[i].t = 100 + i }
			tr.hull.t = bl
			before := tr.triangles[a]
			tr.legalize(a)
			if tr.triangles[a] != before {
				found = true
				if tr.hull.t == bl { t.Fatal("the hull still refers to the inner half-edge") }
			}
		}
		if !found { t.Fatal("no flip") }
	}
}
''', 'a flip next to the hull whose far edge belongs to the head of the hull list', 'the hull reference of the list head is never updated by a flip, so later triangles are attached to an inner half-edge')

seed('T03-height-tiebreak', 'T03', 'triangulate2',
 [('triangulate2/triangulator.go', '\treturn p1.Y < p2.Y\n', '\tif p1.Y != p2.Y {\n\t\treturn p1.Y < p2.Y\n\t}\n\treturn p1.Z < p2.Z\n')],
'''package triangulate2
import ("testing";"reflect";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	base := []r3.Vector{{X: 0, Y: 0}, {X: 1, Y: 0.1}, {X: 0.4, Y: 1}, {X: 5, Y: 5}, {X: 5, Y: 5}, {X: -4, Y: 2}, {X: 5, Y: 5}}
	a, err := Triangulate(base)
	if err != nil { t.Fatal(err) }
	for k := 0; k < 3; k++ {
		c := append([]r3.Vector(nil), base...)
		c[3+k*3/2].Z = -7
		c[4].Z -= float64(k)
		b, err := Triangulate(c)
		if err != nil { t.Fatal(err) }
		if !reflect.DeepEqual(a.Triangles, b.Triangles) { t.Fatal(a.Triangles, b.Triangles) }
	}
}
''', 'several points with the same X and Y at different heights', 'which of the coinciding points ends up in the triangulation depends on Z')

seed('X01-hull-in-place', 'X01', 'triangulate2',
 [('triangulate2/triangulator.go', '\tvar result []r3.Vector\n\te := t.hull\n', '\tresult := t.Vectors[:0]\n\te := t.hull\n\tif t.trianglesLen/3 < len(t.Vectors) {\n\t\tresult = nil\n\t}\n')],
'''package triangulate2
import ("testing";"math/rand";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(3))
	var p []r3.Vector
	for i := 0; i < 40; i++ { p = append(p, r3.Vector{X: rnd.Float64(), Y: rnd.Float64()}) }
	q := append([]r3.Vector(nil), p...)
	if _, err := Triangulate(p); err != nil { t.Fatal(err) }
	for i := range p { if p[i] != q[i] { t.Fatal("caller's point changed", i) } }
}
''', 'at least as many triangles as points (six points or more inside the hull)', "the hull is collected in the memory of the caller's points")

seed('T04-entry-by-rank', 'T04', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\tt := tri.addTriangle(e.i, i, e.next.i, -1, -1, e.t)\n', '\t\tr := i\n\t\tif Vectors[i] == Vectors[n-1] {\n\t\t\tr = n\n\t\t}\n\t\tt := tri.addTriangle(e.i, r%(n+1), e.next.i, -1, -1, e.t)\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	p := []r3.Vector{{X: 0, Y: 0}, {X: 1, Y: 0.1}, {X: 0.4, Y: 1}, {X: 5, Y: 5}}
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	d, err := Triangulate(p)
	if err != nil { t.Fatal(err) }
	for _, i := range d.Triangles { if i < 0 || i >= len(p) { t.Fatal("no such point", i) } }
}
''', 'the last point of the list is not part of the seed triangle', 'the last point enters the triangles as a position behind the end of the list')

seed('T05-two-points', 'T05', 'triangulate2',
 [('triangulate2/triangulator.go', '\tif minRadius == infinity {', '\tif minRadius == infinity && n > 2 {')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	if _, err := Triangulate([]r3.Vector{{X: 1}, {X: 2}}); err == nil { t.Fatal("no error for two points") }
}
''', 'exactly two points', 'two points are triangulated as if a third one existed')

seed('T06-sort-tolerance', 'T06', 'triangulate2',
 [('triangulate2/hull.go', '\t\tif a.X != b.X {\n', '\t\tif a.X-b.X > eps || b.X-a.X > eps {\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	s := 1e-17
	p := []r3.Vector{{X: 3 * s, Y: 0}, {X: 0, Y: 1}, {X: -3 * s, Y: 2}, {X: -1e-16, Y: 1}}
	h := ConvexHull(p)
	if len(h) == 0 || h[0] != p[3] { t.Fatal(h) }
}
''', 'points whose X coordinates differ by less than the rounding unit', 'points with nearly equal X are ordered by Y alone, so the chain does not start at the leftmost point')

seed('T07-perimeter-of-itself', 'T07', 'triangulate2',
 [('triangulate2/triangulation.go', '\tif math.Abs(perimeter1-perimeter2) > 1e-9 {', '\tif math.Abs(perimeter1-perimeter2) > 1e-9*math.Max(1, perimeter2) {')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	tri := &Triangulation{Vectors: []r3.Vector{{X: 0, Y: 0}, {X: 1e5, Y: 0}}, ConvexHull: []r3.Vector{{X: 0, Y: 0}, {X: 1e5 + 1e-5, Y: 0}}}
	if tri.Validate() == nil { t.Fatal("accepted a hull with a wrong perimeter") }
}
''', 'a large figure whose perimeter is off by more than 1e-9 but less than 1e-9 of the whole', 'the tolerance grows with the figure')

seed('T08-upper-bound', 'T08', 'triangulate2',
 [('triangulate2/util.go', '\treturn math.Max(0, math.Min(1-eps, p))', '\treturn math.Max(0, math.Min(1, p))')],
'''package triangulate2
import "testing"
func TestZZDemo(t *testing.T) {
	if a := pseudoAngle(-1, 1e-300); a >= 1 { t.Fatal("angle outside [0, 1)", a) }
}
''', 'a direction a hair above the negative X axis', 'the pseudo-angle reaches 1 and the bucket computed from it is one behind the table')

seed('G01-extremes-else', 'G01', 'meshing',
 [('meshing/helper.go', '\t\tif h.max.Y < point.Y {\n\t\t\th.max.Y = point.Y\n\t\t}\n', '\t\tif h.min.Y > point.Y && h.max.Y > -math.MaxFloat64 {\n\t\t\th.min.Y = point.Y\n\t\t} else if h.max.Y < point.Y {\n\t\t\th.max.Y = point.Y\n\t\t}\n'),
  ('meshing/helper.go', '\t\tif h.min.Y > point.Y {\n\t\t\th.min.Y = point.Y\n\t\t}\n', '')],
'''package mesh
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	var h helper
	h.findExtremas(r3.Vector{Y: 1}, r3.Vector{Y: 3}, r3.Vector{Y: 5})
	if h.min.Y != 1 || h.max.Y != 5 { t.Fatal(h) }
}
''', 'points listed by rising Y', 'the first point never becomes the lower bound when every later one lies above it')

seed('G01-extreme-box-z', 'G01', 'triangulate3',
 [('triangulate3/englober.go', '\t\tif Vector.Z > maxExtremity.Z {\n\t\t\tmaxExtremity.Z = Vector.Z\n\t\t}\n', '\t\tif Vector.Z > maxExtremity.Z && Vector.Z >= minExtremity.X {\n\t\t\tmaxExtremity.Z = Vector.Z\n\t\t}\n')],
'''package triangulate3
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	_, max := computeBoundingBoxForVectors([]r3.Vector{{X: 10, Y: 1, Z: 1}, {X: 12, Y: 1, Z: 3}})
	if max.Z != 3 { t.Fatal(max) }
}
''', 'a cloud whose heights are below its X coordinates', 'heights are compared with the wrong coordinate of the lower corner and dropped')

seed('G02-face-skipped', 'G02', 'triangulate3',
 [('triangulate3/util.go', '\tif dotV4 >= 0 && dotP >= 0 {\n\t\treturn true\n\t}\n\n\treturn false\n\n}', '\treturn dotV4 > 0 && dotP > -dotV4*dotV4\n}')],
'''package triangulate3
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	a, b, c, d := r3.Vector{}, r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}
	for _, o := range [][4]r3.Vector{{a, b, c, d}, {b, a, c, d}, {a, c, b, d}, {d, b, c, a}} {
		if VectorInTetrahedron(o[0], o[1], o[2], o[3], r3.Vector{X: 0.2, Y: 0.2, Z: -0.1}) { t.Fatal("outside point accepted") }
		if !VectorInTetrahedron(o[0], o[1], o[2], o[3], r3.Vector{X: 0.2, Y: 0.2, Z: 0.1}) { t.Fatal("inside point rejected") }
	}
}
''', 'a point just outside a face', 'points up to a small distance outside a face are reported inside')

seed('G03-signed-volume', 'G03', 'triangulate3',
 [('triangulate3/util.go', '\tdist := xy*xy + yz*yz + zx*zx\n', '\tdist := xy*xy + yz*yz + zx*zx\n\tif zx == 0 && yz == 0 {\n\t\tdist = xy\n\t}\n')],
'''package triangulate3
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	a, b := r3.Vector{}, r3.Vector{X: 1}
	near, far := r3.Vector{Y: 1}, r3.Vector{Y: -5}
	if got := getFurthestFromTwoVectors([]r3.Vector{near, far}, a, b); got != far { t.Fatal(got) }
}
''', 'a planar point set whose furthest point lies on the right of the segment', 'in the horizontal plane the signed area is used, so points on one side are never the furthest')

seed('G04-apex-low', 'G04', 'meshing',
 [('meshing/helper.go', '\tytetra := ymin + 3*(ymax-ymin)\n', '\tytetra := ymin + 3*(ymax-ymin)\n\tif ymax < 0 {\n\t\tytetra = ymax\n\t}\n')],
'''package mesh
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	p := []r3.Vector{{X: 0, Y: -9, Z: 0}, {X: 1, Y: -1, Z: 0}, {X: 1, Y: -1, Z: 1}, {X: 0, Y: -9, Z: 1}}
	q := append([]r3.Vector(nil), p...)
	englobe(&p)
	for _, x := range q { if !vectorInTetrahedron(p[0], p[1], p[2], p[3], x) { t.Fatal("outside", x) } }
}
''', 'all points below Y = 0', 'the third auxiliary point is not raised above the box, so upper corners stay outside')

seed('M01-key-separator', 'M01', 'meshing',
 [('meshing/mesh.go', '\thash := strings.Join(hashList, ".")\n', '\thash := strings.Join(hashList[:2], ".") + hashList[2]\n')],
'''package mesh
import "testing"
func TestZZDemo(t *testing.T) {
	if (face{1, 2, 34}).hash() == (face{1, 23, 4}).hash() || (face{1, 12, 111}).hash() == (face{1, 11, 211}).hash() || (face{5, 11, 12}).hash() == (face{5, 111, 2}).hash() || (face{1, 2, 22}).hash() == (face{1, 22, 2}).hash() && false {
		t.Fatal("collision")
	}
	seen := map[string]face{}
	for a := 0; a < 3; a++ { for b := a + 1; b < 130; b++ { for c := b + 1; c < 130; c++ {
		f := face{a, b, c}
		if g, ok := seen[f.hash()]; ok { t.Fatal("collision", f, g) }
		seen[f.hash()] = f
	} } }
}
''', 'point indices of different numbers of digits', 'different faces share a key, e.g. 1.2|13 and 1.21|3')

seed('M02-first-auxiliary', 'M02', 'meshing',
 [('meshing/mesh.go', '\tfound = (f.pb >= 0) && (f.pb <= 3)\n', '\tfound = (f.pb > 0) && (f.pb <= 3)\n')],
'''package mesh
import "testing"
func TestZZDemo(t *testing.T) {
	if (face{7, 0, 9}).isPartOfMesh() { t.Fatal("face touching the auxiliary vertex 0 kept") }
}
''', 'a face whose middle corner is the first auxiliary vertex', 'faces touching the auxiliary tetrahedron are returned with index -4')

seed('M03-shared-face-same-tetra', 'M03', 'meshing',
 [('meshing/mesh.go', '\t\tfor badTetraIndex, badTetra := range badTetras {\n\t\t\tfor faceIndex, face := range badTetra.faces {\n\t\t\t\tif _, ok := faceSet[face.hash()]; !ok {\n', '\t\tfor badTetraIndex, badTetra := range badTetras {\n\t\t\tfor faceIndex, face := range badTetra.faces {\n\t\t\t\tif seen, ok := faceSet[face.hash()]; !ok || seen.tetraID+1 < badTetraIndex {\n')],
'''package mesh
import ("testing";"math/rand";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	// every interior face must be used by at most two tetrahedra
	rnd := rand.New(rand.NewSource(0))
	var p []r3.Vector
	for i := 0; i < 9; i++ { p = append(p, r3.Vector{X: rnd.Float64(), Y: rnd.Float64(), Z: rnd.Float64()}) }
	idx := bowyerWatson(p...)
	use := map[string]int{}
	for i := 0; i+2 < len(idx); i += 3 { use[face{idx[i], idx[i+1], idx[i+2]}.hash()]++ }
	for k, n := range use { if n > 2 { t.Fatal("face", k, "belongs to", n, "tetrahedra") } }
}
''', 'two removed tetrahedra that share a face but are not neighbours in the list', 'their shared face is taken for a boundary face and retriangulated twice')

seed('M04-boundary-from-map', 'M04', 'meshing',
 [('meshing/mesh.go', '\tfor _, tetraKey := range t.sortedKeys() {\n\t\ttetra := t[tetraKey]\n\t\tfor _, face := range tetra.faces {\n', '\tfor _, tetra := range t {\n\t\tfor _, face := range tetra.faces {\n')],
'''package mesh
import ("testing";"reflect";"math/rand";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(5))
	var p []r3.Vector
	for i := 0; i < 12; i++ { p = append(p, r3.Vector{X: rnd.Float64(), Y: rnd.Float64(), Z: rnd.Float64()}) }
	a := bowyerWatson(p...)
	for k := 0; k < 10; k++ { if !reflect.DeepEqual(a, bowyerWatson(p...)) { t.Fatal("different output") } }
}
''', 'more than one run on the same points', 'the faces come out in hash-map order')

seed('M05-nearest-squared-gap', 'M05', 'meshing',
 [('meshing/helper.go', '\t\tif distance <= minDistance {\n', '\t\tif distance <= minDistance*(1-1e-9) {\n')],
'''package mesh
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	near := r3.Vector{X: 1}
	if got := getNearestPoint([]r3.Vector{{X: 1 + 1e-10}, near}, r3.Vector{}); got != near { t.Fatal(got) }
}
''', 'two points at almost the same distance', 'a later point that is nearer by a hair is not taken')

seed('S04-index-width', 'S04', 'shape',
 [('shape/sphere.go', '\t\tk1 = uint32(i * (sd.sectorCount + 1)) // beginning of current stack\n', '\t\tk1 = uint32(uint16(i * (sd.sectorCount + 1))) // beginning of current stack\n')],
'''package shape
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	m := ConstructSphere(r3.Vector{}, 1)
	used := make([]bool, len(m.Vertices))
	for _, i := range m.Indices { used[i] = true }
	// rows in the middle of the lower half must be used
	n := 301
	for j := 5; j < 290; j++ { if !used[280*n+j] { t.Fatal("vertex unused", 280*n+j) } }
}
''', 'more than 65536 vertices, i.e. the full-size sphere', 'the triangles of the lower stacks wrap round to the first ones and leave a hole')

seed('S02-centre-once', 'S02', 'shape',
 [('shape/ellipse.go', '\t\tz := 0.\n', '\t\tz := 0.\n\t\tif e.semiAxis2 > e.semiAxis1 {\n\t\t\tx, y = e.semiAxis2*math.Cos(sectorAngle), e.semiAxis1*math.Sin(sectorAngle)\n\t\t}\n')],
'''package shape
import ("testing";"math";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	m := ConstructEllipse(r3.Vector{}, 1, 3)
	for _, v := range m.Vertices[1:] { if math.Abs(v.X*v.X+v.Y*v.Y/9-1) > 1e-9 { t.Fatal(v) } }
}
''', 'a second semi-axis longer than the first', 'the axes are exchanged for upright ellipses')

seed('S03-seam-texture', 'S03', 'shape',
 [('shape/torus.go', '\t\t\ts = float64(j) / float64(td.sectorCount)\n', '\t\t\ts = float64(j%td.sectorCount) / float64(td.sectorCount)\n')],
'''package shape
import ("testing";"math";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	m := ConstructTorus(r3.Vector{}, 3, 1)
	if math.Abs(m.TexCoords[100][0]-1) > 1e-12 { t.Fatal(m.TexCoords[100]) }
}
''', 'the last vertex of a ring (the seam)', 'the seam gets texture coordinate 0 instead of 1')

seed('S01-last-sector', 'S01', 'shape',
 [('shape/circle.go', '\tcircle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)\n', '\tcircle.Indices = append(circle.Indices, 1, uint32(lenVertices), 0)\n')],
'''package shape
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	m := ConstructCircle(r3.Vector{}, 1)
	for _, i := range m.Indices { if int(i) >= len(m.Vertices) { t.Fatal(i) } }
}
''', 'the triangle that closes the fan, back side', 'one index is the number of vertices')

seed('E01-skip-repeated', 'E01', 'glTF',
 [('glTF/model.go', '\t\tpositions = append(positions, p)\n', '\t\tif n := len(positions); n > 0 && positions[n-1] == p {\n\t\t\tcontinue\n\t\t}\n\t\tpositions = append(positions, p)\n')],
'''package glTF
import ("testing";"geGoMetry/r3";"geGoMetry/shape")
func TestZZDemo(t *testing.T) {
	m := transferModel(shape.Mesh{Vertices: []r3.Vector{{X: 1}, {X: 1}, {Y: 1}}, Indices: []uint32{0, 1, 2}})
	if len(m.Positions) != 3 { t.Fatal(m.Positions) }
}
''', 'consecutive vertices at the same place (poles, seams)', 'repeated vertices are dropped and all following indices point at the wrong vertex')

seed('E02-default-node', 'E02', 'glTF',
 [('glTF/export.go', 'doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}', 'doc.Nodes = append(doc.Nodes, &gltf.Node{Name: "Root", Mesh: gltf.Index(uint32(len(doc.Accessors) / 4))})'),
  ('glTF/export.go', '\tcolorIndices := modeler.WriteColor(doc, colors)\n', '\tcolorIndices := modeler.WriteColor(doc, colors)\n\tif len(mesh.Normals) > 0 {\n\t\tmodeler.WriteColor(doc, colors)\n\t}\n')],
'''package glTF
import ("testing";"os";"path/filepath";"geGoMetry/r3";"geGoMetry/shape";"github.com/qmuntal/gltf")
func TestZZDemo(t *testing.T) {
	d, err := os.MkdirTemp("", "zz"); if err != nil { t.Fatal(err) }
	defer os.RemoveAll(d)
	f := filepath.Join(d, "m.glb")
	v := []r3.Vector{{}, {X: 1}, {Y: 1}}
	Export(shape.Mesh{Vertices: v, Indices: []uint32{0, 1, 2}, Normals: [][3]float64{{0, 0, 1}, {0, 0, 1}, {0, 0, 1}}}, f)
	doc, err := gltf.Open(f); if err != nil { t.Fatal(err) }
	if doc.Nodes[0].Mesh == nil || int(*doc.Nodes[0].Mesh) >= len(doc.Meshes) { t.Fatal("node refers to no mesh") }
}
''', 'a mesh that carries normals', 'the node refers to a mesh that does not exist')

seed('X02-shared-scratch', 'X02', 'triangulate2',
 [('triangulate2/hull.go', '\tVectorsCopy := make([]r3.Vector, len(Vectors))\n', '\tif cap(scratch) < len(Vectors) {\n\t\tscratch = make([]r3.Vector, len(Vectors))\n\t}\n\tVectorsCopy := scratch[:len(Vectors)]\n'),
  ('triangulate2/hull.go', '// ConvexHull returns', '// scratch is reused by successive calls to save allocations\nvar scratch []r3.Vector\n\n// ConvexHull returns')],
'''package triangulate2
import ("testing";"sync";"math/rand";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() { if r := recover(); r != nil { bad <- "panic" } }()
			rnd := rand.New(rand.NewSource(int64(g)))
			for k := 0; k < 300; k++ {
				var p []r3.Vector
				for i := 0; i < 200; i++ { p = append(p, r3.Vector{X: float64(10*g) + rnd.Float64(), Y: rnd.Float64()}) }
				for _, v := range ConvexHull(p) { if v.X < float64(10*g) || v.X > float64(10*g+1) { bad <- "foreign point"; return } }
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 { t.Fatal(<-bad) }
}
''', 'concurrent calls on separate data', 'concurrent hull computations overwrite each other')

seed('X03-close-skipped', 'X03', 'step',
 [('step/lex.go', '\tdefer file.Close()\n', ''),
  ('step/lex.go', '\tsymbolTable.add(symbolText)\n\treturn symbolTable\n', '\tsymbolTable.add(symbolText)\n\tif len(symbolTable) == 0 {\n\t\treturn symbolTable\n\t}\n\tfile.Close()\n\treturn symbolTable\n')],
'''package step
import ("testing";"os";"path/filepath";"runtime/debug")
func TestZZDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	d, err := os.MkdirTemp("", "zz"); if err != nil { t.Fatal(err) }
	defer os.RemoveAll(d)
	f := filepath.Join(d, "a.stp")
	os.WriteFile(f, []byte("nothing\\n"), 0600)
	count := func() int { e, err := os.ReadDir("/proc/self/fd"); if err != nil { t.Skip() }; return len(e) }
	a := count()
	for i := 0; i < 20; i++ { l := initLexer(f); l.Lex() }
	if b := count(); b >= a+20 { t.Fatal("files left open", a, b) }
}
''', 'a file without any definition', 'such a file is never closed')

seed('L01-short-lines', 'L01', 'step',
 [('step/lex.go', '\t\tif len(buffer) == 0 {\n', '\t\tif len(buffer) <= 1 {\n')],
'''package step
import ("testing";"os";"path/filepath")
func TestZZDemo(t *testing.T) {
	d, err := os.MkdirTemp("", "zz"); if err != nil { t.Fatal(err) }
	defer os.RemoveAll(d)
	f := filepath.Join(d, "a.stp")
	os.WriteFile(f, []byte("#1=P('a',\\n1\\n,2);\\n#2=Q(3);\\n"), 0600)
	l := initLexer(f)
	if a := l.Lex()["#1"].Arguments; len(a) != 3 || a[1] != "1" { t.Fatal(a) }
}
''', 'a definition with a continuation line of one character', 'the character is lost')

seed('L02-empty-list-tail', 'L02', 'step',
 [('step/util.go', '\targuments = append(arguments, string(argument))\n\treturn arguments\n', '\tif len(argument) > 0 {\n\t\targuments = append(arguments, string(argument))\n\t}\n\treturn arguments\n')],
'''package step
import "testing"
func TestZZDemo(t *testing.T) {
	if a := getArguments("'x',1,);"); len(a) != 3 { t.Fatal(a) }
}
''', 'a list whose last piece is empty', 'the empty last piece is lost')

seed('L03-key-case', 'L03', 'step',
 [('step/lex.go', '\t(*st)[identifier] = definition\n', '\tif _, found := (*st)[identifier]; !found || len(definition.Arguments) > 0 {\n\t\t(*st)[identifier] = definition\n\t}\n')],
'''package step
import "testing"
func TestZZDemo(t *testing.T) {
	st := SymbolTable{}
	st.add("#1=A(2);")
	st.add("#1=B;")
	if st["#1"].Type == "A" { t.Fatal("the earlier definition was kept") }
}
''', 'a later definition of the same identifier without arguments', 'the later definition does not replace the earlier one')

seed('L04-trailing-paren', 'L04', 'step',
 [('step/util.go', '\tarray = append(array, string(element))\n\treturn array\n', '\tif element[len(element)-1] == \' \' {\n\t\telement = element[:len(element)-1]\n\t}\n\tarray = append(array, string(element))\n\treturn array\n')],
'''package step
import ("testing";"reflect")
func TestZZDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	getArray("()", reflect.Int)
	getArray("(1,)", reflect.Int)
}
''', 'an empty list or an empty last element', 'the reader indexes an empty element')

seed('Q01-torus-keyword', 'Q01', 'step',
 [('step/bridge.go', 'case "TOROIDAL_SURFACE":', 'case "TOROIDAL_SURFACES", "DEGENERATE_TOROIDAL_SURFACE":')],
'''package step
import ("testing";"reflect";"runtime";"strings")
func TestZZDemo(t *testing.T) {
	p := &Parser{}
	n := runtime.FuncForPC(reflect.ValueOf(p.bridge(Definition{Type: "TOROIDAL_SURFACE"})).Pointer()).Name()
	if !strings.Contains(n, "toroidal") { t.Fatal(n) }
}
''', 'a toroidal surface', 'toroidal surfaces are skipped')

seed('Q02-mark-late', 'Q02', 'step',
 [('step/parse.go', '\t\t\tpopState.fn(popState.key)\n\t\t\tparser.visited[popState.key] = struct{}{}\n', '\t\t\tpopState.fn(popState.key)\n\t\t\tif _, known := parser.lexemes[popState.key]; known {\n\t\t\t\tparser.visited[popState.key] = struct{}{}\n\t\t\t}\n')],
'''package step
import "testing"
func TestZZDemo(t *testing.T) {
	n := 0
	p := &Parser{lexemes: SymbolTable{}, visited: map[string]struct{}{}}
	p.runInferenceModel(parseState{fn: func(k string) {
		n++
		if n > 5 { t.Fatal("handled again and again") }
		p.nextStates = append(p.nextStates, parseState{fn: func(string) { n++; if n < 6 { p.nextStates = append(p.nextStates, parseState{fn: func(string) { n++ }, key: "#9"}) } }, key: "#9"})
	}, key: "#9"})
	if n != 1 { t.Fatal("identifier handled", n, "times") }
}
''', 'a dangling identifier referenced more than once', 'identifiers without a definition are never marked and are handled every time they are met')

seed('Q03-swap-closed', 'Q03', 'step',
 [('step/template.go', '\t\tuClosed:           uClosed,\n\t\tvClosed:           vClosed,\n', '\t\tuClosed:           uClosed,\n\t\tvClosed:           uClosed || vClosed && !selfIntersect,\n')],
'''package step
import ("testing";"os";"io";"strings")
func TestZZDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	p := &Parser{lexemes: SymbolTable{"#1": {Type: "B_SPLINE_SURFACE_WITH_KNOTS", Arguments: []string{"''", "1", "1", "((#2),(#3))", ".U.", ".T.", ".F.", ".F.", "(2)", "(2)", "(0.)", "(0.)", ".U."}}}}
	p.bSplineSurfaceWithKnots("#1")
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	if !strings.Contains(string(b), "vClosed false") { t.Fatal(string(b)) }
}
''', 'a surface closed in u only', 'it is taken to be closed in v too')

seed('Q04-context-first', 'Q04', 'step',
 [('step/template.go', '\tp.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)\n', '\tp.nextStates = append(p.nextStates, productDefinitionFormationState)\n\tif _, found := p.visited[productDefinitionFormationState.key]; !found {\n\t\tp.nextStates = append(p.nextStates, productDefinitionContextState)\n\t}\n')],
'''package step
import "testing"
func TestZZDemo(t *testing.T) {
	p := &Parser{lexemes: SymbolTable{"#1": {Type: "PRODUCT_DEFINITION", Arguments: []string{"", "", "#2", "#3"}}}, visited: map[string]struct{}{"#2": {}}}
	p.productDefinition("#1")
	if len(p.nextStates) != 2 || p.nextStates[1].key != "#3" { t.Fatal(p.nextStates) }
}
''', 'a second product definition with an already processed formation', 'its context is not followed')

seed('N01-strict-end', 'N01', 'nurbs',
 [('nurbs/basis.go', '\tif u < float64(U[p]) {\n\t\treturn p\n\t}\n', '\tif u <= float64(U[p]) {\n\t\treturn p\n\t}\n')],
'''package nurbs
import "testing"
func TestZZDemo(t *testing.T) {
	// a repeated knot at the start of the domain: the span must contain the parameter
	U := []int{0, 0, 0, 0, 0, 1, 2, 2, 2, 2}
	s := findSpan(5, 3, 0, U)
	if !(float64(U[s]) <= 0 && 0 < float64(U[s+1])) { t.Fatal("span", s) }
}
''', 'a start knot repeated more often than degree + 1', 'the span returned for the start of the domain is empty')

seed('N02-zero-guard', 'N02', 'nurbs',
 [('nurbs/basis.go', '\t\t\ttemp := N[r] / (right[r+1] + left[j-r])\n\t\t\tN[r] = saved + right[r+1]*temp\n\t\t\tsaved = left[j-r] * temp\n', '\t\t\tif left[j-r] == 0 {\n\t\t\t\tN[r], saved = saved, 0\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ttemp := N[r] / (right[r+1] + left[j-r])\n\t\t\tN[r] = saved + right[r+1]*temp\n\t\t\tsaved = left[j-r] * temp\n')],
'''package nurbs
import ("testing";"math")
func TestZZDemo(t *testing.T) {
	s := 0.
	for _, v := range basisFuns(3, 3, 2, []int{0, 1, 2, 3, 4, 5, 6, 7}) { s += v }
	if math.Abs(s-1) > 1e-12 { t.Fatal("sum", s) }
}
''', 'a parameter that coincides with a knot', 'the shortcut for a vanishing factor drops the other half of the term')

seed('N03-last-control-point', 'N03', 'nurbs',
 [('nurbs/curve.go', '\t\tB := P[span-p+i].Scaled(N[i])\n', '\t\tk := span - p + i\n\t\tif k >= n {\n\t\t\tk = n - 1\n\t\t}\n\t\tB := P[k].Scaled(N[i])\n')],
'''package nurbs
import ("testing";"math";"github.com/ungerik/go3d/float64/vec3")
func TestZZDemo(t *testing.T) {
	P := []vec3.T{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 5}}
	c := curvePoint(3, 2, []int{0, 0, 0, 1, 2, 2, 2}, P, 2)
	if math.Abs(c[2]-5) > 1e-12 { t.Fatal(c) }
}
''', 'a parameter in the last span', 'the last control point is replaced by the one before it')

seed('N04-row-switch', 'N04', 'nurbs',
 [('nurbs/basis.go', '\t\tr *= (p - k)\n', '\t\tif k < n {\n\t\t\tr *= p - 1\n\t\t}\n')],
'''package nurbs
import ("testing";"math")
func TestZZDemo(t *testing.T) {
	// third derivative of the cubic Bernstein polynomials
	d := dersBasisFuns(3, 1, 3, 3, []int{0, 0, 0, 0, 1, 1, 1, 1})
	want := []float64{-6, 18, -18, 6}
	for i, w := range want { if math.Abs(d[3][i]-w) > 1e-9 { t.Fatal(d[3]) } }
}
''', 'a derivative of order three or more', 'the factor p!/(p-k)! is wrong from the third derivative on')

seed('T09-room', 'T09', 'triangulate2',
 [('triangulate2/triangulator.go', '\tmaxTriangles := 2*n - 5\n', '\tmaxTriangles := 2*n - 6\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	sq, err := Triangulate([]r3.Vector{{X: 0, Y: 0}, {X: 10, Y: 0}, {X: 10, Y: 11}, {X: 0, Y: 9}, {X: 4, Y: 5}})
	if err != nil || len(sq.Triangles) != 12 { t.Fatal(sq, err) }
	tr, err := Triangulate([]r3.Vector{{X: 0, Y: 0}, {X: 10, Y: 0}, {X: 4, Y: 9}, {X: 4, Y: 3}})
	if err != nil || len(tr.Triangles) != 9 { t.Fatal(tr, err) }
}
''', 'points whose convex hull is a triangle, so that the number of triangles is the greatest possible', 'the lists have no room for the last triangle')

seed('T09-tie-order', 'T09', 'triangulate2',
 [('triangulate2/triangulator.go', '\treturn p1.Y < p2.Y\n', '\treturn p1.Y*p1.Y < p2.Y*p2.Y\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3";"sort")
func TestZZDemo(t *testing.T) {
	a := newTriangulator([]r3.Vector{{X: 1, Y: 1}, {X: 1, Y: -1}, {X: 1, Y: 1}, {X: 1, Y: -1}})
	a.ids = []int{0, 1, 2, 3}
	a.squaredDistances = []float64{2, 2, 2, 2}
	sort.Sort(a)
	p := func(i int) r3.Vector { return a.Vectors[a.ids[i]] }
	if p(0) != p(1) || p(2) != p(3) { t.Fatal("equal points are apart", a.ids) }
}
''', 'duplicated points that mirror each other at the same distance from the centre', 'mirrored points compare as equal, so duplicates are no longer neighbours in the order')

seed('T09-second-seed', 'T09', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\tif d > 0 && d < minDist {\n', '\t\tif d > 1e-9 && d < minDist {\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	a := newTriangulator([]r3.Vector{{X: 5, Y: 5}, {X: 5.00002, Y: 5}, {X: 0, Y: 0}, {X: 10, Y: 10}, {X: 10, Y: 0}, {X: 5, Y: 5.001}, {X: 5.0007, Y: 5.0007}})
	if err := a.triangulate(); err != nil { t.Fatal(err) }
	d0, d1 := squaredDistance(a.Vectors[0], a.center), squaredDistance(a.Vectors[1], a.center)
	if d := d0 - d1; d > 1e-10 || d < -1e-10 { t.Fatal("the nearest point is not a seed", d0, d1) }
}
''', 'a point within a few hundred thousandths of the first seed', 'near points are passed over for the second seed, so the seed circle is not empty of points')

seed('T10-hull-entry', 'T10', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\t\t\ttri.hull = q.remove()\n\t\t\t\tq = q.prev\n', '\t\t\t\tif h := q.remove(); tri.hull.i >= 0 {\n\t\t\t\t\ttri.hull = h.next\n\t\t\t\t\tq = h\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tq = q.prev\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3";"math/rand")
func TestZZDemo(t *testing.T) {
	for s := int64(0); s < 2000; s++ {
		r := rand.New(rand.NewSource(s))
		n := 4 + r.Intn(30)
		var vs []r3.Vector
		for i := 0; i < n; i++ { vs = append(vs, r3.Vector{X: r.Float64() * 10, Y: r.Float64() * 10}) }
		a := newTriangulator(vs)
		if err := a.triangulate(); err != nil { continue }
		if a.hull.i < 0 { t.Fatal("the hull is entered at a removed node, seed", s) }
	}
}
''', 'a backward walk that removes the very node the hull is entered at', 'the hull entry stays on a removed node')

seed('T10-duplicate-of-seed', 'T10', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\tpp = p\n\n\t\t// skip seed triangle Vectors\n\t\tif i == i0 || i == i1 || i == i2 {\n\t\t\tcontinue\n\t\t}\n', '\n\t\t// skip seed triangle Vectors\n\t\tif i == i0 || i == i1 || i == i2 {\n\t\t\tcontinue\n\t\t}\n\t\tpp = p\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	for _, d := range []float64{1e-9, 2e-9, 5e-10} {
		for _, q := range []r3.Vector{{X: d}, {Y: -d}, {X: d, Y: d}, {X: d, Y: -d}, {X: d, Y: d / 2}} {
			vs := []r3.Vector{{X: 0, Y: 0}, {X: 10, Y: 0}, {X: 4, Y: 9}, {X: 10 + q.X, Y: q.Y}}
			tr, err := Triangulate(vs)
			if err == nil && len(tr.Triangles) != 3 { t.Fatal("a near duplicate of a corner became a triangle", vs, tr.Triangles) }
		}
	}
}
''', 'a point within rounding distance of the third seed point', 'the point before is forgotten when it is a seed, so its near duplicate is joined to the hull')

seed('T10-forward-link', 'T10', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\t\tt = tri.addTriangle(q.i, i, q.next.i, q.prev.t, -1, q.t)\n', '\t\t\tlink := q.prev.t\n\t\t\tif walkBack && q.next.next == e.prev {\n\t\t\t\tlink = -1\n\t\t\t}\n\t\t\tt = tri.addTriangle(q.i, i, q.next.i, link, -1, q.t)\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3";"math/rand")
func TestZZDemo(t *testing.T) {
	for s := int64(0); s < 3000; s++ {
		r := rand.New(rand.NewSource(s))
		n := 4 + r.Intn(30)
		var vs []r3.Vector
		for i := 0; i < n; i++ { vs = append(vs, r3.Vector{X: r.Float64() * 10, Y: r.Float64() * 10}) }
		a := newTriangulator(vs)
		if err := a.triangulate(); err != nil { continue }
		open, ring := 0, 0
		for _, h := range a.halfedges { if h < 0 { open++ } }
		for e := a.hull; ring == 0 || e != a.hull; e = e.next { ring++ }
		if open != ring { t.Fatal("boundary half-edges and hull edges differ, seed", s, open, ring) }
	}
}
''', 'a point that sees at least two edges, the first of them where the search began, of a hull of five', 'neighbouring triangles are not linked')

seed('T10-search-last-edge', 'T10', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\t\te = e.next\n\t\t\tif e == start {\n\t\t\t\te = nil\n', '\t\t\te = e.next\n\t\t\tif e.next == start {\n\t\t\t\te = nil\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3";"math/rand")
func TestZZDemo(t *testing.T) {
	for s := int64(0); s < 3000; s++ {
		r := rand.New(rand.NewSource(s))
		n := 4 + r.Intn(30)
		var vs []r3.Vector
		for i := 0; i < n; i++ { vs = append(vs, r3.Vector{X: r.Float64() * 10, Y: r.Float64() * 10}) }
		a := newTriangulator(vs)
		if err := a.triangulate(); err != nil { continue }
		used := map[int]bool{}
		for _, i := range a.triangles { used[i] = true }
		if len(used) != n { t.Fatal("a point was left out, seed", s, len(used), n) }
	}
}
''', 'a point outside the hull that sees a single edge, the one just before the place the search begins', 'the point is taken for a near duplicate and left out')

seed('T10-table-last-slot', 'T10', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\t\tkey++\n\t\t\tif key >= len(tri.hash) {\n\t\t\t\tkey = 0\n', '\t\t\tkey++\n\t\t\tif key >= len(tri.hash)-1 {\n\t\t\t\tkey = 0\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3";"math/rand")
func TestZZDemo(t *testing.T) {
	for s := int64(0); s < 5000; s++ {
		r := rand.New(rand.NewSource(s))
		n := 4 + r.Intn(30)
		var vs []r3.Vector
		for i := 0; i < n; i++ { vs = append(vs, r3.Vector{X: r.Float64() * 10, Y: r.Float64() * 10}) }
		func() {
			defer func() { if e := recover(); e != nil { t.Fatal("construction panics, seed", s, e) } }()
			newTriangulator(vs).triangulate()
		}()
	}
}
''', 'the only nodes of the hull left in the table are in its last place, and the search begins elsewhere', 'the search ends without a node of the hull')

seed('T10-first-hull-triangle', 'T10', 'triangulate2',
 [('triangulate2/triangulator.go', '\te.t = 2\n\ttri.hashEdge(e)\n', '\te.t = e.prev.t + hashSize/3\n\ttri.hashEdge(e)\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3";"math/rand")
func TestZZDemo(t *testing.T) {
	for s := int64(0); s < 300; s++ {
		r := rand.New(rand.NewSource(s))
		n := 4 + r.Intn(60)
		var vs []r3.Vector
		for i := 0; i < n; i++ { vs = append(vs, r3.Vector{X: r.Float64() * 10, Y: r.Float64() * 10}) }
		a := newTriangulator(vs)
		if err := a.triangulate(); err != nil { continue }
		for i, h := range a.halfedges { if h >= 0 && a.halfedges[h] != i { t.Fatal("twins do not match, seed", s) } }
	}
}
''', 'an input of other than 10 to 25 points', 'the third edge of the first hull refers to a wrong half-edge')

seed('T11-hull-of-all-points', 'T11', 'triangulate2',
 [('triangulate2/triangulator.go', '\t\te = e.prev\n\t\tif e == t.hull {\n\t\t\tbreak\n', '\t\te = e.prev\n\t\tif e == t.hull || len(result) >= len(t.Vectors)-1 {\n\t\t\tbreak\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	vs := []r3.Vector{{X: 0, Y: 0}, {X: 4, Y: 0}, {X: 5, Y: 3}, {X: 1, Y: 4}, {X: -1, Y: 2}}
	res, err := Triangulate(vs)
	if err != nil { t.Fatal(err) }
	if len(res.ConvexHull) != len(vs) { t.Fatal("the hull of", len(vs), "points in convex position has", len(res.ConvexHull)) }
}
''', 'a list of points that are all on the convex hull', 'the hull misses its last point')

seed('T11-no-hull-no-error', 'T11', 'triangulate2',
 [('triangulate2/triangulation.go', '\treturn &Triangulation{Vectors, t.convexHull(), t.triangles, t.halfedges}, err\n', '\thull := t.convexHull()\n\tif len(hull) == 0 {\n\t\terr = nil // nothing to enclose, so an empty result is the right one\n\t}\n\treturn &Triangulation{Vectors, hull, t.triangles, t.halfedges}, err\n')],
'''package triangulate2
import ("testing";"geGoMetry/r3")
func TestZZDemo(t *testing.T) {
	_, err := Triangulate([]r3.Vector{{X: 0, Y: 0}, {X: 1, Y: 1}, {X: 2, Y: 2}, {X: 5, Y: 5}})
	if err == nil { t.Fatal("collinear points are triangulated without an error") }
	if _, err := Triangulate([]r3.Vector{{X: 0, Y: 0}, {X: 1, Y: 1}, {X: 2, Y: 0}}); err != nil { t.Fatal(err) }
}
''', 'a list of points on one line', 'the failure of the construction is not reported')
