CASES=[]
def V(checks,*e): CASES.append(('V',checks,ed(e)))
def Q(checks,*e): CASES.append(('Q',checks,ed(e)))
def ed(e):
    return [tuple(e[i:i+3]) for i in range(0,len(e),3)]
h='triangulate2/hull.go'
for o,n in [('p) > 0','p) >= 0'),('len(L) > 1','len(L) > 2'),('return a.Y < b.Y','return a.Y > b.Y'),
  ('U = U[:len(U)-1]\n\t}\n\tif len(L)','_ = U\n\t}\n\tif len(L)'),('i > 0 && ','i > 1 && '),('append(L, U...)','append(U, L...)'),
  ('squaredDistance(p, Vectors[i-1])','squaredDistance(p, Vectors[0])'),('(a.X-p.X)*(b.Y-p.Y) - ','(a.X-p.X)*(b.Y-p.Y) + '),
  ('for i, j := 0, len(U)-1; i < j; i','for i, j := 0, len(U)-1; i < j-1; i'),('if a.X != b.X {','if a.X < b.X {')]:
    V('T06',h,o,n)
rv='for i, j := 0, len(U)-1; i < j; i, j = i+1, j-1 {\n\t\tU[i], U[j] = U[j], U[i]\n\t}'
for o,n in [(rv,'var R []r3.Vector\n for i := len(U)-1; i>=0; i-- {\n R = append(R, U[i])\n}\nU=R\n'),
  (rv,'R := make([]r3.Vector, len(U))\n for i := range U {\n R[len(U)-1-i] = U[i]\n\t}\nU=R\n'),
  (rv,'for i := 0; i < len(U)/2; i++ {j := len(U)-1-i\n U[i], U[j] = U[j], U[i]\n\t}'),
  ('for len(U) > 1 && cross2D(U[len(U)-2], U[len(U)-1], p) > 0 {\n\t\t\tU = U[:len(U)-1]\n\t\t}','for {\nn := len(U)\n if n<2 {break}\n if cross2D(U[n-2], U[n-1], p) <= 0 { break }\n\t\t\tU = U[:n-1]\n\t\t}'),
  ('\tfor _, p := range Vectors {\n\t\tfor len(U)','\tfor k := 0; k < len(Vectors); k++ {\np := Vectors[k]\n\t\tfor len(U)'),
  ('VectorsCopy := make([]r3.Vector, len(Vectors))\n\tcopy(VectorsCopy, Vectors)','VectorsCopy := append([]r3.Vector(nil), Vectors...)'),
  ('\t\tU = append(U, p)\n\t\tL = append(L, p)\n','\t\tL = append(L, p)\n\t\tU = append(U, p)\n')]:
    Q('T06',h,o,n)
u='triangulate2/util.go'; tr='triangulate2/triangulator.go'
for o,n in [('(b.X-a.X)*(c.Y-b.Y)','(b.X-a.X)*(c.Y-a.X)'),('(ex*fy-ey*fx) < 0','(ex*fy-ey*fx) <= 0'),('bp := ex*ex + ey*ey','bp := ex*ex + ey*ex'),
  ('if bl == 0 || cl == 0 || d == 0 || r == 0 {','if bl == 0 || cl == 0 || r == 0 {'),('r := x*x + y*y','r := x*x - y*y')]:
    V('T01',u,o,n)
for o,n in [('if b >= 0 {','if b > 0 {'),('t.triangles[i+2] = i2','t.triangles[i+2] = i1'),('t.trianglesLen += 3','t.trianglesLen += 2'),
  ('t.link(i+1, b)','t.link(i+1, c)'),('br := b0 + (b+1)%3','br := b0 + (b+2)%3'),('t.link(b, t.halfedges[ar])','t.link(b, t.halfedges[al])'),
  ('t.triangles[b] = p0\n','t.triangles[b] = pr\n'),('al := a0 + (a+1)%3','al := a0 + (a+2)%3'),('e.t = a\n','e.t = b\n'),('t.legalize(a)\n','')]:
    V('T02',tr,o,n)
Q('T02',tr,'t.link(a, t.halfedges[bl])\n\t\tt.link(b, t.halfedges[ar])\n','x, y := t.halfedges[bl], t.halfedges[ar]\n t.link(a, x)\n t.link(b, y)\n')
Q('T02',tr,'b0 := b - b%3','b0 := 3 * (b / 3)')
Q('T02',tr,'\tt.trianglesLen += 3\n\treturn i','\tt.trianglesLen = i + 3\n\treturn i')
Q('T02',tr,'\tt.link(i, a)\n\tt.link(i+1, b)\n\tt.link(i+2, c)\n','\tfor k, x := range [3]int{a, b, c} {\n t.link(i+k, x)\n}\n')
Q('T02',tr,'if illegal {','if !illegal {\n return ar\n}\n{')
Q('T02',tr,'''for {
				if e.t == bl {
					e.t = a
					break
				}
				e = e.next
				if e == t.hull {
					break
				}
			}''','''for {
				found := e.t == bl
				if found {
					e.t = a
				} else { e = e.next }
				if found || e == t.hull {
					break
				}
			}''')
Q('T01',u,'return dx*(ey*cp-bp*fy)-dy*(ex*cp-bp*fx)+ap*(ex*fy-ey*fx) < 0','det := ap*(ex*fy-ey*fx) + dx*(ey*cp-bp*fy)\n det -= dy*(ex*cp-bp*fx)\n return !(det >= 0)')
en='triangulate3/englober.go'; gd='triangulate3/gdel3d.go'; u3='triangulate3/util.go'
mh='meshing/helper.go'; mm='meshing/mesh.go'; mf='meshing/flip.go'; mu='meshing/util.go'
# G01
V('G01',en,'if Vector.Y > maxExtremity.Y {','if Vector.Y > maxExtremity.Y && Vector.Y > 0 {')
V('G01',en,'		if Vector.Z > maxExtremity.Z {\n			maxExtremity.Z = Vector.Z','		if Vector.Z > maxExtremity.Z {\n			maxExtremity.Z = Vector.X')
V('G01',mh,'h.min.Z > point.Z','h.min.Z > point.Y')
V('G01',mh,'-math.MaxFloat64, Z: -math.MaxFloat64','-math.MaxFloat64, Z: -math.MaxFloat32')
V('G01',gd,'if Vector.X > maxExtremity.X {','if Vector.X > maxExtremity.X || Vector.Y > maxExtremity.Y {')
V('G01',mh,'for _, point := range points {','for _, point := range points[1:] {')
V('G01',mh,'		if h.min.X > point.X {','		if h.max.X > point.X && h.min.X > point.X {')
Q('G01',mh,'		if h.max.X < point.X {\n			h.max.X = point.X\n		}','		h.max.X = math.Max(h.max.X, point.X)')
Q('G01',mh,'		if h.min.X > point.X {\n			h.min.X = point.X\n		}','		if point.X < h.min.X {\n			h.min.X = point.X\n		}')
Q('G01',gd,'for _, Vector := range Vectors {\n		//Updating','for i := range Vectors {\n		Vector := Vectors[i]\n		//Updating')
Q('G01',gd,'if Vector.X > maxExtremity.X {','if !(Vector.X <= maxExtremity.X) {')
# G02
V('G02',u3,'SameSide(v4, v1, v2, v3, p)','SameSide(v4, v1, v2, v3, v3)')
V('G02',u3,'SameSide(v3, v4, v1, v2, p) &&\n','true &&\n')
V('G02',mu,'(p0.Z + p1.Z + p2.Z + p3.Z) / 4.0','(p0.Z + p1.Z + p2.Z + p2.Z) / 4.0')
V('G02',mu,'if dotV4 >= 0 && dotP >= 0 {','if dotV4 > 0 && dotP >= 0 {')
Q('G02',mu,'	if dotV4 <= 0 && dotP <= 0 {\n		return true\n	}\n	if dotV4 >= 0 && dotP >= 0 {\n		return true\n	}\n\n	return false','	return !(dotV4 < 0 && dotP > 0 || dotV4 > 0 && dotP < 0)')
Q('G02',u3,'SameSide(v3, v4, v1, v2, p)','SameSide(v4, v3, v1, v2, p)')
# G03
V('G03',gd,'dist := math.Abs(Get3Ddist(a, b, c, Vector))','dist := Get3Ddist(a, b, c, Vector)')
V('G03',u3,'dist := xy*xy + yz*yz + zx*zx','dist := xy*xy + yz*yz + zx')
V('G03',gd,'v3 := getFurthestFromthreeVectors(Vectors, v0, v1, v2)','v3 := getFurthestFromthreeVectors(Vectors[1:], v0, v1, v2)')
Q('G03',gd,'		dist := Get2Ddist(a, b, Vector)\n		if max < dist {','		dist := Get2Ddist(a, b, Vector)\n		if max < dist && Vector != b {')
Q('G03',gd,'		dist := Get2Ddist(a, b, Vector)\n		if max < dist {','		dist := Get2Ddist(a, b, Vector)\n		if Vector != a && Vector != b && max < dist {')
Q('G03',gd,'		dist := Get2Ddist(a, b, Vector)\n		if max < dist {','		if dist := Get2Ddist(a, b, Vector); dist > max {')
# G04
V('G04',mh,'ytetra := ymin + 3*(ymax-ymin)','ytetra := ymin + 2*(ymax-ymin)')
V('G04',en,'2*maxExtremity.X - minExtremity.X','maxExtremity.X')
V('G04',mh,'p3 := r3.Vector{X: xmin, Y: ytetra, Z: zmin}\n	p4','p3 := r3.Vector{X: xmin, Y: ytetra, Z: zmax}\n	p4')
Q('G04',mh,'ytetra := ymin + 3*(ymax-ymin)','ytetra := ymin + 4*(ymax-ymin)')
Q('G04',mh,'ytetra := ymin + 3*(ymax-ymin)','ytetra := 3*ymax - 2*ymin')
# M05
V('M05',mh,'if distance <= minDistance {','if distance <= minDistance && distance > 0 {')
V('M05',mh,'minDistance = distance\n			nearestPoint = vertex','nearestPoint = vertex')
V('M05',mf,'2, 3, 4,\n		3, 4, 1,','2, 3, 4,\n		3, 4, 0,')
V('M05',mf,'duplicateInReverse(&tetra3Indices)','')
V('M05',mu,'for i := len(*indices) - 1; i >= 0; i--','for i := len(*indices) - 1; i > 0; i--')
Q('M05',mh,'if distance <= minDistance {','if distance < minDistance {')
# M01
V('M01',mm,'face{f.pc, pointIndex, f.pa},','face{f.pc, pointIndex, f.pb},')
V('M01',mm,'sort.Ints(indexList)\n','')
V('M01',mm,'strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic)','strconv.Itoa(t.ib) + strconv.Itoa(t.ic)')
V('M01',mm,'strings.Join(hashList, ".")','strings.Join(hashList, "")')
V('M01',mm,'strconv.Itoa(indexList[2])}','strconv.Itoa(indexList[1])}')
V('M01',mm,'tetra{f.pa, f.pb, f.pc, pointIndex, newTetraFaces}','tetra{f.pa, f.pb, f.pb, pointIndex, newTetraFaces}')
Q('M01',mm,'strings.Join(hashList, ".")','strings.Join(hashList, "-")')
Q('M01',mm,'hashList := []string{strconv.Itoa(indexList[0]), strconv.Itoa(indexList[1]), strconv.Itoa(indexList[2])}\n	hash := strings.Join(hashList, ".")','hash := fmt.Sprintf("%d.%d.%d", indexList[0], indexList[1], indexList[2])','meshing/mesh.go','\t"strings"\n','')
# M02
V('M02',mm,'(f.pb >= 0) && (f.pb <= 3)','(f.pb >= 0) && (f.pb < 3)')
V('M02',mm,'f.pb-4, f.pc-4','f.pb-4, f.pc-3')
V('M02',mm,'pointIndex+4','pointIndex+3')
V('M02',mm,'[]r3.Vector{p1, p2, p3, p4}, (*points)...','[]r3.Vector{p1, p2, p3, p4, p1}, (*points)...')
Q('M02',mm,'found = (f.pb >= 0) && (f.pb <= 3)','found = f.pb < 4 && f.pb > -1')
# M03
V('M03',mm,'if volume < 0 {','if volume > 0 {')
V('M03',mm,'return inSphere >= 0','return inSphere <= 0')
V('M03',mm,'.check == false','.check == true')
V('M03',mm,'faceCheck{true, -1, -1}','faceCheck{false, -1, -1}')
V('M03',mm,'for pointIndex, point := range triangulationPoints {','for pointIndex, point := range triangulationPoints[1:] {')
V('M03',mm,'for _, badTetra := range badTetras {\n			badTetraHash','for _, badTetra := range badTetras[1:] {\n			badTetraHash')
V('M03',mm,'if tetra.circumsphereContains(points, point) {','if !tetra.circumsphereContains(points, point) {')
Q('M03',mm,'.check == false','.check != true')
Q('M03',mm,'			badTetraHash := tetraHash(badTetra)\n			delete(t, badTetraHash)','			delete(t, tetraHash(badTetra))')
Q('M03',mm,'				if _, ok := faceSet[face.hash()]; !ok {','				key := face.hash()\n				_, seen := faceSet[key]\n				if !seen {')
# M04
V('M04',mm,'for _, tetraKey := range t.sortedKeys() {\n		tetra := t[tetraKey]\n		for','for tetraKey := range t {\n		tetra := t[tetraKey]\n		for')
V('M04',mm,'	sort.Strings(keys)\n','')
V('M04',mm,'sort.Strings(keys)','sort.Strings(keys[1:])')
Q('M04',mm,'sort.Strings(keys)','sort.Sort(sort.StringSlice(keys))')
Q('M03',mm,'faceCheck{true, -1, -1}','faceCheck{true, 0, 1}')
V('G03',gd,'			furthestVector = Vector\n			max = dist\n','			furthestVector = Vector\n')
# T03
ty='triangulate2/triangulation.go'
V('T03',u,'return dx*dx + dy*dy\n}\n\nfunc area','dz := a.Z - b.Z\n return dx*dx + dy*dy + dz*dz\n}\n\nfunc area')
V('T03',tr,'	if p1.X != p2.X {\n		return p1.X < p2.X\n	}\n	return p1.Y < p2.Y','	if p1.X != p2.X {\n		return p1.X < p2.X\n	}\n	if p1.Y == p2.Y { return p1.Z < p2.Z }\n	return p1.Y < p2.Y')
V('T03',h,'	distinctVectors := Vectors[:0]','	if len(Vectors) > 0 && Vectors[0].Z > 5 { return nil }\n	distinctVectors := Vectors[:0]')
V('T03',tr,'d := r3.Sub(Vector, t.center)\n	return int(pseudoAngle(d.X, d.Y)','d := r3.Sub(Vector, t.center)\n	return int(pseudoAngle(d.X, d.Y+d.Z)')
V('T03',tr,'		if p.Y > y1 {\n			y1 = p.Y','		if p.Y > y1 {\n			y1 = p.Y + p.Z')
V('T03',h,'if i > 0 && squaredDistance(p, Vectors[i-1]) < eps {','if i > 0 && p == Vectors[i-1] {')
Q('T03',h,'	VectorsCopy := make([]r3.Vector, len(Vectors))\n	copy(VectorsCopy, Vectors)','	VectorsCopy := make([]r3.Vector, 0, len(Vectors))\n	for _, v := range Vectors {\n		VectorsCopy = append(VectorsCopy, r3.Vector{v.X, v.Y, v.Z})\n	}')
Q('T03',tr,'	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0}','	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, Vectors[0].Z}')
Q('T04',tr,'		d := squaredDistance(p, m)\n','		q := p\n		q.Z = 0\n		d := squaredDistance(q, m)\n')
# T04
V('T04',ty,'return &Triangulation{Vectors, t','return &Triangulation{append([]r3.Vector(nil), Vectors...), t')
V('T04',ty,'return &Triangulation{Vectors, t','return &Triangulation{Vectors[:len(Vectors):len(Vectors)][1:], t')
V('T04',tr,'t.triangles[i+2] = i2','t.triangles[i+2] = i2 + 1')
V('T04',tr,'		tri.ids[i] = i\n','		tri.ids[i] = i + 1\n')
V('T04',tr,'result = append(result, t.Vectors[e.i])','v := t.Vectors[e.i]\n		v.Z = 0\n		result = append(result, v)')
V('T04',tr,'tri.halfedges = tri.halfedges[:tri.trianglesLen]','tri.halfedges = tri.halfedges[:tri.trianglesLen+3]')
V('T04',tr,'	tri.ids = make([]int, n)\n','	tri.ids = make([]int, n)\n	sort.Slice(Vectors, func(i, j int) bool { return Vectors[i].X < Vectors[j].X })\n')
V('T04',tr,'		q.prev.t = t\n','		q.prev.t = t\n		tri.Vectors[q.i].Z = 0\n')
Q('T04',tr,'		tri.ids[i] = i\n','		_ = i\n',tr,'	var i0, i1, i2 int\n','	for j := range tri.ids {\n		tri.ids[j] = j\n	}\n	var i0, i1, i2 int\n')
Q('T04',tr,'	tri.triangles = make([]int, maxTriangles*3)\n	tri.halfedges = make([]int, maxTriangles*3)\n','	sz := 3 * maxTriangles\n	tri.triangles, tri.halfedges = make([]int, sz), make([]int, sz)\n')
Q('T04',ty,'return &Triangulation{Vectors, t.convexHull(), t.triangles, t.halfedges}, err','res := new(Triangulation)\n	res.Vectors = t.Vectors\n	res.ConvexHull = t.convexHull()\n	res.Triangles = t.triangles\n	res.Halfedges = t.halfedges\n	return res, err')
# X01
V('X01',h,'	Vectors = VectorsCopy\n','	_ = VectorsCopy\n')
V('X01',h,'	VectorsCopy := make([]r3.Vector, len(Vectors))\n	copy(VectorsCopy, Vectors)\n','	VectorsCopy := Vectors[:]\n')
V('X01',h,'	VectorsCopy := make([]r3.Vector, len(Vectors))\n	copy(VectorsCopy, Vectors)\n','	VectorsCopy := append(Vectors[:0], Vectors...)\n')
Q('X01',h,'	VectorsCopy := make([]r3.Vector, len(Vectors))\n	copy(VectorsCopy, Vectors)\n','	VectorsCopy := append([]r3.Vector{}, Vectors...)\n')
V('X01','r3/vector.go','func Sub(','func SubZ(a *Vector) { a.X = 0 }\n\nfunc Sub(')

V('X01',tr,'		q.prev.t = t\n','		q.prev.t = t\n		tri.Vectors[q.i].Z = 0\n')
Q('X01',h,'	// sort Vectors\n	sort.Slice(Vectors, func(i, j int) bool {\n		a := Vectors[i]\n		b := Vectors[j]\n		if a.X != b.X {\n			return a.X < b.X\n		}\n		return a.Y < b.Y\n	})\n','	sortXY(Vectors)\n',h,'// ConvexHull returns','func sortXY(v []r3.Vector) {\n	sort.Slice(v, func(i, j int) bool {\n		if v[i].X != v[j].X {\n			return v[i].X < v[j].X\n		}\n		return v[i].Y < v[j].Y\n	})\n}\n\n// ConvexHull returns')
# T05
V('T05',tr,'	if n == 0 {\n		return nil\n	}\n','')
V('T05',tr,'	if n == 0 {\n		return nil\n	}\n','	if n < 3 {\n		return nil\n	}\n')
V('T05',tr,'	if n == 0 {\n		return nil\n	}\n','	if n == 0 {\n		return fmt.Errorf("empty")\n	}\n')
V('T05',tr,'	if minRadius == infinity {','	if minRadius < 0 {')
V('T05',tr,'x1 := Vectors[0].X','x1 := Vectors[1].X')
V('T05',tr,'	if minRadius == infinity {','	tri.triangles = make([]int, 3*(2*n-5))\n	if minRadius == infinity {')
V('T05',ty,'	err := t.triangulate()\n','	err := t.triangulate()\n	if len(Vectors) < 2 {\n		err = nil\n	}\n')
V('T05',tr,'			i2 = i\n			minRadius = r\n','			i2 = i\n			minRadius = r\n',tr,'minRadius == infinity','len(Vectors) < 3')
V('T05',u,'if bl == 0 || cl == 0 || d == 0 || r == 0 {','if bl == 0 || cl == 0 || r == 0 {')
Q('T05',tr,'	if minRadius == infinity {','	if math.IsInf(minRadius, 1) {')
Q('T05',tr,'	if n == 0 {\n		return nil\n	}\n','	if n < 1 {\n		return nil\n	}\n	if n < 3 {\n		return fmt.Errorf("too few")\n	}\n')
Q('T05',tr,'	minRadius := infinity\n','	minRadius := infinity\n	found := false\n',tr,'			minRadius = r\n','			minRadius = r\n			found = true\n',tr,'minRadius == infinity','!found')
Q('T05',tr,'	for i, p := range Vectors {\n		if i == i0 {','	for i := 0; i < n; i++ {\n		p := Vectors[i]\n		if i == i0 {')
Q('T05',ty,'return &Triangulation{Vectors, t.convexHull(), t.triangles, t.halfedges}, err','res := new(Triangulation)\n	res.Vectors = t.Vectors\n	res.ConvexHull = t.convexHull()\n	res.Triangles = t.triangles\n	res.Halfedges = t.halfedges\n	return res, err')
# T07
V('T07',ty,'math.Abs(area1-area2) > 1e-9 || ','')
V('T07',ty,'|| math.Abs(area1-area3) > 1e-9','')
V('T07',ty,'math.Abs(area1-area3) > 1e-9','area1-area3 > 1e-9')
V('T07',ty,'math.Abs(perimeter1-perimeter2) > 1e-9','math.Abs(perimeter1-perimeter2) > 1e-6')
V('T07',ty,'hull2 := ConvexHull(t.Vectors)','hull2 := ConvexHull(t.ConvexHull)')
V('T07',ty,'perimeter2 := polygonPerimeter(hull2)','perimeter2 := polygonPerimeter(hull1)')
V('T07',ty,'t.Halfedges[i2] != i1) {','t.Halfedges[i2] == -1) {')
V('T07',ty,'for i1, i2 := range t.Halfedges {','for i1, i2 := range t.Halfedges[:len(t.Halfedges)/2] {')
V('T07',ty,'if i2 != -1 && (','if i2 > 0 && (')
V('T07',ty,'i2 >= len(t.Halfedges) || ','')
V('T07',ty,'result += area(p0, p1, p2)','result -= area(p0, p1, p2)')
V('T07',ty,'for i := 0; i < len(ts); i += 3 {','for i := 3; i < len(ts); i += 3 {')
V('T07',ty,'return fmt.Errorf("hull perimeters disagree: %f, %f", perimeter1, perimeter2)','fmt.Printf("hull perimeters disagree: %f, %f", perimeter1, perimeter2)')
Q('T07',ty,'math.Abs(area1-area2) > 1e-9 || math.Abs(area1-area3) > 1e-9','!(math.Abs(area1-area2) <= 1e-9 && math.Abs(area3-area1) <= 1e-9)')
Q('T07',ty,'	for i1, i2 := range t.Halfedges {','	for i1 := 0; i1 < len(t.Halfedges); i1++ {\n		i2 := t.Halfedges[i1]')
Q('T07',ty,'		if i1 != -1 && t.Halfedges[i1] != i2 {\n			return fmt.Errorf("invalid halfedge connection")\n		}\n','')
Q('T07',ty,'	perimeter1 := polygonPerimeter(hull1)\n	perimeter2 := polygonPerimeter(hull2)\n	if math.Abs(perimeter1-perimeter2) > 1e-9 {','	perimeter1, perimeter2 := polygonPerimeter(hull1), polygonPerimeter(hull2)\n	if d := math.Abs(perimeter1 - perimeter2); d > 1e-9 {')
Q('T07',ty,'		if i2 != -1 && (i2','		if i2 == -1 {\n			continue\n		}\n		if (i2')
Q('T07',ty,'	for i := 0; i < len(ts); i += 3 {\n		p0 := Vectors[ts[i+0]]\n		p1 := Vectors[ts[i+1]]\n		p2 := Vectors[ts[i+2]]\n','	for k := 0; k < len(ts)/3; k++ {\n		i := 3 * k\n		p0 := Vectors[ts[i+0]]\n		p1 := Vectors[ts[i+1]]\n		p2 := Vectors[ts[i+2]]\n')
Q('T07',ty,'	return nil\n}\n','	return nil\n}\n\nfunc differs(a, b float64) bool { return math.Abs(a-b) > 1e-9 }\n',ty,'math.Abs(perimeter1-perimeter2) > 1e-9','differs(perimeter2, perimeter1)')

# T08
ut='triangulate2/util.go'
tg='triangulate2/triangulator.go'
V('T08',ut,'return math.Max(0, math.Min(1-eps, p))','return p')
V('T08',ut,'return math.Max(0, math.Min(1-eps, p))','return math.Max(0, math.Min(1, p))')
V('T08',ut,'p = (3 - p) / 4','p = (3 + p) / 4')
V('T08',ut,'p = (1 + p) / 4','p = (1 - p) / 4')
V('T08',ut,'p := dx / (math.Abs(dx) + math.Abs(dy))','p := dy / (math.Abs(dx) + math.Abs(dy))')
V('T08',tg,'return int(pseudoAngle(d.X, d.Y) * float64(len(t.hash)))','return int(math.Ceil(pseudoAngle(d.X, d.Y) * float64(len(t.hash))))')
V('T08',tg,'return int(pseudoAngle(d.X, d.Y) * float64(len(t.hash)))','return int(pseudoAngle(d.X, d.Y) * float64(len(t.hash)+1))')
V('T08',tg,'return int(pseudoAngle(d.X, d.Y) * float64(len(t.hash)))','return int(pseudoAngle(d.X, d.Y) * float64(len(t.hash))) + 1')
V('T08',tg,'if key >= len(tri.hash) {','if key > len(tri.hash) {')
V('T08',tg,'t.hash[t.hashKey(t.Vectors[e.i])] = e','t.hash[t.hashKey(t.Vectors[e.prev.i])] = e')
V('T08',tg,'t.hash[t.hashKey(t.Vectors[e.i])] = e','d := r3.Sub(t.Vectors[e.i], t.center)\n\tt.hash[int(pseudoAngle(d.Y, d.X)*float64(len(t.hash)))] = e')
Q('T08',ut,'p := dx / (math.Abs(dx) + math.Abs(dy))\n\tif dy > 0 {\n\t\tp = (3 - p) / 4\n\t} else {\n\t\tp = (1 + p) / 4\n\t}\n\treturn math.Max(0, math.Min(1-eps, p))','sum := math.Abs(dx) + math.Abs(dy)\n\tp := dx / sum\n\tvar q float64\n\tif dy <= 0 {\n\t\tq = 0.25 + p/4\n\t} else {\n\t\tq = 0.75 - p/4\n\t}\n\tif q < 0 {\n\t\treturn 0\n\t}\n\treturn math.Min(q, 1-eps)')
Q('T08',tg,'t.hash[t.hashKey(t.Vectors[e.i])] = e','k := t.hashKey(t.Vectors[e.i])\n\tt.hash[k] = e')
Q('T08',tg,'\tkey++\n\t\t\tif key >= len(tri.hash) {\n\t\t\t\tkey = 0\n\t\t\t}','\tkey = (key + 1) % len(tri.hash)')
Q('T08',tg,'return int(pseudoAngle(d.X, d.Y) * float64(len(t.hash)))','n := float64(len(t.hash))\n\treturn int(n * pseudoAngle(d.X, d.Y))')

# S01-S04
ci='shape/circle.go'; el='shape/ellipse.go'; sp='shape/sphere.go'; to='shape/torus.go'; sh='shape/shape.go'
V('S01',ci,'circle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 1)','circle.Indices = append(circle.Indices, 0, uint32(lenVertices), 1)')
V('S01',ci,'for i := 1; i < lenVertices-1; i++ {','for i := 1; i < lenVertices; i++ {')
V('S01',sp,'for i := 0; i <= sd.stackCount; i++ {','for i := 0; i < sd.stackCount; i++ {')
V('S01',to,'for j := 0; j <= td.sectorCount; j++ {','for j := 0; j < td.sectorCount; j++ {')
V('S01',el,'circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)','circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1))')
V('S02',sp,'z = sd.radius * math.Sin(stackAngle)','z = math.Sin(stackAngle)')
V('S02',sp,'Vector.Add(sd.center)','')
V('S02',el,'y := e.semiAxis2 * math.Sin(sectorAngle)','y := e.semiAxis1 * math.Sin(sectorAngle)')
V('S02',ci,'z := 0.','z := c.radius * 1e-3')
V('S02',ci,'circle.Vertices = append(circle.Vertices, c.center)','circle.Vertices = append(circle.Vertices, r3.Vector{})')
V('S02',sh,'t := Torus{center, radius, tubeRadius, sectorCount, stackCount}','t := Torus{center, tubeRadius, radius, sectorCount, stackCount}')
V('S02',sh,'t := Ellipse{center, semiAxis1, semiAxis2, sectorCount}','t := Ellipse{center, semiAxis2, semiAxis1, sectorCount}')
V('S02',sp,'xy = sd.radius * math.Cos(stackAngle)','xy = sd.radius * math.Cos(stackAngle)\n\t\tif sd.radius > 50 && i == 7 {\n\t\t\txy *= 1.01\n\t\t}')
V('S03',sp,'ny = y * lengthInv','ny = Vector.Y * lengthInv')
V('S03',sp,'nz = z * lengthInv','nz = -z * lengthInv')
V('S03',sp,'lengthInv = 1.0 / float64(sd.radius)','lengthInv = 1.0 / float64(sd.radius*sd.radius)')
V('S03',to,'nx = math.Cos(stackAngle) * math.Cos(sectorAngle)','nx = math.Sin(stackAngle) * math.Cos(sectorAngle)')
V('S03',to,'nz = math.Sin(stackAngle)','nz = z')
V('S03',sp,'s = float64(j) / float64(sd.sectorCount)','s = float64(j) / float64(sd.sectorCount+1)')
V('S03',to,'t = float64(i) / float64(td.stackCount)','t = float64(j) / float64(td.stackCount)')
V('S03',sp,'texCoord := [2]float64{s, t}','texCoord := [2]float64{t, s}')
V('S03',sp,'sphere.Normals = append(sphere.Normals, normal)','if j < sd.sectorCount {\n\t\t\t\tsphere.Normals = append(sphere.Normals, normal)\n\t\t\t}')
V('S04',sp,'sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)\n\t}','sphere.Indices = append(sphere.Indices, k1+1, k2+1, k2)\n\t}')
V('S04',sp,'for i := 1; i < sd.stackCount-1; i++ {','for i := 1; i < sd.stackCount-2; i++ {')
V('S04',sp,'for i := 1; i < sd.stackCount-1; i++ {','for i := 2; i < sd.stackCount-1; i++ {')
V('S04',to,'for i := 0; i < td.stackCount; i++ {','for i := 0; i < td.stackCount-1; i++ {')
V('S04',ci,'circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)','circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))')
V('S04',el,'circle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 1)','circle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 2)')
V('S04',ci,'sectorStep := 2 * math.Pi / float64(c.sectorCount)','sectorStep := math.Pi / float64(c.sectorCount)')
for pid in ['S01','S02','S03','S04']:
  Q(pid,sp,'sectorAngle := float64(j) * sectorStep','sectorAngle := sectorStep * float64(j)')
  Q(pid,sp,'\t\t\tx = xy * math.Cos(sectorAngle) // r * cos(u) * cos(v)\n\t\t\ty = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)','\t\t\tsn, cs := math.Sincos(sectorAngle)\n\t\t\tx, y = xy*cs, xy*sn')
  Q(pid,sp,'sphere := Mesh{}','n := (sd.sectorCount + 1) * (sd.stackCount + 1)\n\tsphere := Mesh{Vertices: make([]r3.Vector, 0, n), Normals: make([][3]float64, 0, n)}')
  Q(pid,to,'\t\t\ttorus.Indices = append(torus.Indices, k1, k2, k1+1)\n\n\t\t\t// k1+1 => k2 => k2+1\n\t\t\ttorus.Indices = append(torus.Indices, k1+1, k2, k2+1)','\t\t\ttorus.Indices = append(torus.Indices, k1+1, k2, k2+1, k1, k2, k1+1)')
  Q(pid,ci,'\tlenVertices := len(circle.Vertices)\n\tfor i := 1; i < lenVertices-1; i++ {\n\t\tcircle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))\n\t\tcircle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)\n\n\t}\n\tcircle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 1)\n\tcircle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)','\tn := c.sectorCount\n\tfor i := 0; i < n; i++ {\n\t\ta, b := uint32(i+1), uint32((i+1)%n+1)\n\t\tcircle.Indices = append(circle.Indices, 0, a, b, b, a, 0)\n\t}')
  Q(pid,sp,'\t\t\t// normalized vertex normal (nx, ny, nz)\n\t\t\tnx = x * lengthInv\n\t\t\tny = y * lengthInv\n\t\t\tnz = z * lengthInv\n','\t\t\tnx = math.Cos(stackAngle) * math.Cos(sectorAngle)\n\t\t\tny = math.Cos(stackAngle) * math.Sin(sectorAngle)\n\t\t\tnz = math.Sin(stackAngle)\n\t\t\t_ = lengthInv\n')
  Q(pid,sp,'\t\tk1 = uint32(i * (sd.sectorCount + 1)) // beginning of current stack\n\t\tk2 = k1 + uint32(sd.sectorCount+1)    // beginning of next stack\n\n\t\tfor j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {\n','\t\tfor j := 0; j < sd.sectorCount; j++ {\n\t\t\tk1 = uint32(i*(sd.sectorCount+1) + j)\n\t\t\tk2 = uint32((i+1)*(sd.sectorCount+1) + j)\n')

# E01, E02
ex='glTF/export.go'; mo='glTF/model.go'
V('E01',mo,'float32(v.Y),','float32(v.Z),')
V('E01',mo,'for _, v := range mesh.Vertices {','for _, v := range mesh.Vertices[1:] {')
V('E01',mo,'positions = append(positions, p)','if len(positions) < 65535 {\n\t\t\tpositions = append(positions, p)\n\t\t}')
V('E01',mo,'float32(v.X),','float32(v.X - mesh.Vertices[0].X),')
V('E01',ex,'for i := 0; i < len(mesh.Vertices); i++ {','for i := 0; i < len(mesh.Indices); i++ {')
V('E01',ex,'modeler.WriteIndices(doc, model.Indices)','modeler.WriteIndices(doc, model.Indices[:len(model.Indices)/3*3])')
V('E01',ex,'modeler.WriteIndices(doc, model.Indices)','modeler.WriteIndices(doc, append([]uint32{}, model.Indices[1:]...))')
V('E01',mo,'Indices: mesh.Indices}','Indices: nil}')
V('E01',ex,'model := transferModel(mesh)','model := transferModel(mesh)\n\tmesh.Indices[0] = 0')
V('E02',ex,'Indices: gltf.Index(indicesAccessor),','Indices: gltf.Index(indicesAccessor - indicesAccessor + positionAccessor),')
V('E02',ex,'"COLOR_0":  colorIndices,','"COLOR_0":  positionAccessor + 0*colorIndices,')
V('E02',ex,'doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}','doc.Nodes = []*gltf.Node{{Name: "Root"}}')
V('E02',ex,'doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}','doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0), Scale: [3]float32{1, 1, -1}}}')
V('E02',ex,'doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)','')
V('E02',ex,'doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)','doc.Scenes = append(doc.Scenes, &gltf.Scene{Nodes: []uint32{0}})')
V('E02',ex,'gltf.SaveBinary(doc, outputFile)','gltf.SaveBinary(doc, outputFile+".glb")')
V('E02',ex,'"POSITION": positionAccessor,','"POSITION": 0 * positionAccessor,')
V('E02',ex,'\tif err := gltf.SaveBinary(doc, outputFile); err != nil {\n\t\tpanic(err)\n\t}','\tif len(mesh.Indices) > 0 {\n\t\tif err := gltf.SaveBinary(doc, outputFile); err != nil {\n\t\t\tpanic(err)\n\t\t}\n\t}')
for pid in ['E01','E02']:
  Q(pid,mo,'positions := make([][3]float32, 0)','positions := make([][3]float32, 0, len(mesh.Vertices))')
  Q(pid,mo,'\tfor _, v := range mesh.Vertices {\n\t\tp := [3]float32{\n\t\t\tfloat32(v.X),\n\t\t\tfloat32(v.Y),\n\t\t\tfloat32(v.Z)}\n\t\tpositions = append(positions, p)\n\t}','\tpositions = make([][3]float32, len(mesh.Vertices))\n\tfor i := range mesh.Vertices {\n\t\tv := mesh.Vertices[i]\n\t\tpositions[i] = [3]float32{float32(v.X), float32(v.Y), float32(v.Z)}\n\t}')
  Q(pid,ex,'modeler.WriteIndices(doc, model.Indices)','modeler.WriteIndices(doc, mesh.Indices)')
  Q(pid,ex,'\tcolors := make([][3]uint8, 0)','\tcolors := make([][3]uint8, 0, len(mesh.Vertices))')
  Q(pid,ex,'''	doc.Meshes = []*gltf.Mesh{{
		Name: "drawTriangle",
		Primitives: []*gltf.Primitive{{
			Indices: gltf.Index(indicesAccessor),
			Attributes: map[string]uint32{
				"POSITION": positionAccessor,
				"COLOR_0":  colorIndices,
				// "NORMAL":     NormalsAccessor,
				// "TEXCOORD_1": TexCoordsAccessor,
			},
		}},
	}}''','''	attrs := map[string]uint32{"POSITION": positionAccessor}
	attrs["COLOR_0"] = colorIndices
	prim := &gltf.Primitive{Attributes: attrs}
	prim.Indices = &indicesAccessor
	m := &gltf.Mesh{Name: "drawTriangle"}
	m.Primitives = append(m.Primitives, prim)
	doc.Meshes = append(doc.Meshes, m)''')
  Q(pid,ex,'doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)','doc.Scenes[*doc.Scene].Nodes = []uint32{0}')

# X02
lx='step/lex.go'; su='step/util.go'; r3v='r3/vector.go'
V('X02',u,'var eps = ','var calls int\nvar eps = ',u,'func squaredDistance(','func counted() { calls++ }\nfunc squaredDistance(')
V('X02',lx,'	file, err := os.Open(l.Filename)','	if os.Getenv("STEP_DEBUG") != "" {\n\t\tprintln("lexing")\n\t}\n\tfile, err := os.Open(l.Filename)')
V('X02',lx,'func (l *Lexer) emit(s Symbol) {','func (l *Lexer) emit(s Symbol) {\n\tgo func() { l.SymbolsChan <- s }()')
V('X02',lx,'// emit : emits','var cache = map[string]Definition{}\n\n// emit : emits',lx,'	definition := tokenize(split[1])','	definition, ok := cache[split[1]]\n\tif !ok {\n\t\tdefinition = tokenize(split[1])\n\t\tcache[split[1]] = definition\n\t}')
V('X02',lx,'// emit : emits','var cache sync.Map\n\n// emit : emits',lx,'	definition := tokenize(split[1])','	definition := tokenize(split[1])\n\tcache.Store(split[1], definition)',lx,'"strings"','"strings"\n\t"sync"')
V('X02',h,'func ConvexHull(','var scratch []r3.Vector\n\nfunc ConvexHull(',h,'VectorsCopy := make([]r3.Vector, len(Vectors))','if cap(scratch) < len(Vectors) {\n\t\tscratch = make([]r3.Vector, len(Vectors))\n\t}\n\tVectorsCopy := scratch[:len(Vectors)]')
V('X02',ex,'	doc := gltf.NewDocument()','	doc := gltf.NewDocument()\n\tdoc.Asset.Copyright = time.Now().String()',ex,'"fmt"','"fmt"\n\t"time"')
V('X02',su,'func check(','func init() { rand.Seed(1) }\nfunc check(',su,'"reflect"','"reflect"\n\t"math/rand"')
Q('X02',su,'func check(','var stripper = strings.NewReplacer(" ", "")\nfunc strip2(s string) string { return stripper.Replace(s) }\nfunc check(')
Q('X02',su,'func check(','var table = makeTable()\nfunc makeTable() map[string]bool {\n\tm := map[string]bool{}\n\tfor _, s := range []string{"a"} {\n\t\tm[s] = true\n\t}\n\treturn m\n}\nfunc check(')
Q('X02',su,'func check(','var table map[string]bool\nfunc init() {\n\ttable = map[string]bool{}\n\tfillTable()\n}\nfunc fillTable() { table["x"] = true }\nfunc check(')
# X03
V('X03',lx,'		if err == io.EOF {\n			break\n		}\n		check(err)\n','		if err != nil {\n\t\t\tbreak\n\t\t}\n',lx,'	"io"\n','')
V('X03',lx,'	defer file.Close()\n','')
V('X03',lx,'os.Open(l.Filename)','os.Open(strings.TrimSpace(l.Filename))')
V('X03',lx,'		Filename:    filename,','		Filename:    strings.ToLower(filename),')
V('X03',lx,'	defer file.Close()\n','	if l.SymbolsChan != nil {\n\t\tdefer file.Close()\n\t}\n')
V('X03',ex,'	if err := gltf.SaveBinary(doc, outputFile); err != nil {\n\t\tpanic(err)\n\t}','	if err := gltf.SaveBinary(doc, outputFile); err != nil {\n\t\tfmt.Println(err)\n\t}')
V('X03',ex,'	if err := gltf.SaveBinary(doc, outputFile); err != nil {\n\t\tpanic(err)\n\t}','	gltf.SaveBinary(doc, outputFile)')
V('X03',ex,'	if err := gltf.SaveBinary(doc, outputFile); err != nil {\n\t\tpanic(err)\n\t}','	os.Remove(outputFile)\n\tif err := gltf.SaveBinary(doc, outputFile); err != nil {\n\t\tpanic(err)\n\t}',ex,'"fmt"','"fmt"\n\t"os"')
V('X03',su,'	_, err = file.Write(bytes)\n','	file.Write(bytes)\n')
V('X03',su,'	closeErr := file.Close()\n	check(err)\n	check(closeErr)\n','	check(err)\n	check(file.Close())\n')
V('X03',su,'	_, err = file.Write(bytes)\n	closeErr := file.Close()\n	check(err)\n	check(closeErr)\n','	defer file.Close()\n	_, err = file.Write(bytes)\n	check(err)\n')
V('X03',su,'	bytes, err := json.Marshal(item)\n	check(err)\n','	bytes, err := json.Marshal(item)\n')
V('X03',su,'	if err != nil {\n		panic(err)','	if err != nil && err != os.ErrPermission {\n		panic(err)')
V('X03',lx,'		check(err)\n\n','		if err != nil && len(line) == 0 {\n\t\t\tcheck(err)\n\t\t}\n\n')
V('X03',lx,'func (l *Lexer) Lex() SymbolTable {','func (l *Lexer) Lex() SymbolTable {\n\tdefer func() { recover() }()')
V('X03',lx,'	reader := bufio.NewReader(file)','	reader := bufio.NewScanner(file)',lx,'''		line, isPrefix, err := reader.ReadLine()

		if err == io.EOF {
			break
		}
		check(err)

		buffer := string(line)
		starts := !continued && startsDefinition(buffer)
		continued = isPrefix
''','''		if !reader.Scan() {
			break
		}
		buffer := reader.Text()
		starts := startsDefinition(buffer)
''',lx,'	"io"\n','',lx,'	continued := false // the piece read continues a long line\n','')
Q('X03',lx,'	reader := bufio.NewReader(file)','	reader := bufio.NewScanner(file)',lx,'''		line, isPrefix, err := reader.ReadLine()

		if err == io.EOF {
			break
		}
		check(err)

		buffer := string(line)
		starts := !continued && startsDefinition(buffer)
		continued = isPrefix
''','''		if !reader.Scan() {
			check(reader.Err())
			break
		}
		buffer := reader.Text()
		starts := startsDefinition(buffer)
''',lx,'	"io"\n','',lx,'	continued := false // the piece read continues a long line\n','')
Q('X03',lx,'		if err == io.EOF {\n			break\n		}\n		check(err)\n','		if err != nil {\n\t\t\tif err != io.EOF {\n\t\t\t\tpanic(err)\n\t\t\t}\n\t\t\tbreak\n\t\t}\n')
Q('X03',lx,'		if err == io.EOF {\n			break\n		}\n		check(err)\n','		if errors.Is(err, io.EOF) {\n			break\n		}\n		check(err)\n',lx,'"bufio"','"bufio"\n\t"errors"')
Q('X03',lx,'	file, err := os.Open(l.Filename)\n\n	check(err)\n	defer file.Close()\n','	file := openStep(l.Filename)\n\tdefer file.Close()\n',lx,'// emit : emits','func openStep(name string) *os.File {\n\tfile, err := os.Open(name)\n\tcheck(err)\n\treturn file\n}\n\n// emit : emits')
Q('X03',lx,'	file, err := os.Open(l.Filename)\n\n	check(err)\n	defer file.Close()\n','	file, err := os.Open(l.Filename)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tdefer func() {\n\t\tfile.Close()\n\t}()\n')
Q('X03',lx,'	defer file.Close()\n','	defer closeQuietly(file)\n',lx,'// emit : emits','func closeQuietly(c io.Closer) {\n\tc.Close()\n}\n\n// emit : emits')
Q('X03',su,'	_, err = file.Write(bytes)\n	closeErr := file.Close()\n	check(err)\n	check(closeErr)\n','	if _, err = file.Write(bytes); err != nil {\n\t\tfile.Close()\n\t\tpanic(err)\n\t}\n\tif err := file.Close(); err != nil {\n\t\tpanic(err)\n\t}\n')
Q('X03',su,'	_, err = file.Write(bytes)\n	closeErr := file.Close()\n	check(err)\n	check(closeErr)\n','	if _, err = file.Write(bytes); err == nil {\n\t\terr = file.Close()\n\t} else {\n\t\tfile.Close()\n\t}\n\tcheck(err)\n')
Q('X03',ex,'	if err := gltf.SaveBinary(doc, outputFile); err != nil {\n\t\tpanic(err)\n\t}','	save(doc, outputFile)',ex,'func Export(','func save(doc *gltf.Document, name string) {\n\terr := gltf.SaveBinary(doc, name)\n\tif err == nil {\n\t\treturn\n\t}\n\tpanic(err)\n}\n\nfunc Export(')

# L02
V('L02',su,"if openBrackets == 0 && r == ',' && !quoted {\n			arguments","if openBrackets <= 1 && r == ',' && !quoted {\n			arguments")
V('L02',su,"if openBrackets == 0 && r == ',' && !quoted {\n			arguments","if openBrackets == 0 && r == ',' {\n			arguments")
V('L02',su,"			argument = make([]rune, 0)\n			continue","			argument = make([]rune, 0)")
V('L02',su,"		if r == '(' && !quoted {\n			openBrackets++\n		}\n		if r == ')' && !quoted {\n			openBrackets--\n		}\n		if openBrackets < 0 {\n			break // end of the arguments","		if r == '(' {\n			openBrackets++\n		}\n		if r == ')' && !quoted {\n			openBrackets--\n		}\n		if openBrackets < 0 {\n			break // end of the arguments")
V('L02',su,"	arguments = append(arguments, string(argument))\n	return","	if len(argument) > 0 {\n		arguments = append(arguments, string(argument))\n	}\n	return")
V('L02',su,"		argument = append(argument, r)","		if r != ' ' {\n			argument = append(argument, r)\n		}")
V('L02',su,"	arrayText = arrayText[1:]","	arrayText = strings.Trim(arrayText, \"()\")")
V('L02',su,"	for _, col := range cols {","	for _, col := range cols[1:] {")
V('L02',su,"row := getArray(col, reflect.Float64)","row := getArguments(col)")
V('L02',su,"	array = append(array, string(element))\n	return array","	array = append(array, strings.TrimSpace(string(element)))\n	return array")
Q('L02',su,"if openBrackets == 0 && r == ',' && !quoted {\n			arguments","if openBrackets <= 0 && r == ',' && !quoted {\n			arguments")
Q('L02',su,"			argument = make([]rune, 0)\n			continue","			argument = argument[:0]\n			continue")
Q('L02',su,"	argument := make([]rune, 0)","	var argument []rune")
Q('L02',su,'''		if r == '\\'' {
			quoted = !quoted
		}
		if r == '(' && !quoted {
			openBrackets++
		}
		if r == ')' && !quoted {
			openBrackets--
		}
		if openBrackets < 0 {
			break // end of the arguments
		}
''','''		switch {
		case r == '\\'':
			quoted = !quoted
		case quoted:
		case r == '(':
			openBrackets++
		case r == ')':
			openBrackets--
		}
		if openBrackets < 0 {
			break // end of the arguments
		}
''')
Q('L02',su,"		argument = append(argument, r)\n	}\n	arguments = append(arguments, string(argument))","		argument = append(argument, r)\n	}\n	last := string(argument)\n	arguments = append(arguments, last)")
Q('L02',su,"	matrix := make([][]string, 0)","	matrix := make([][]string, 0, len(cols))")
Q('L02',su,"	for _, col := range cols {\n		row := getArray(col, reflect.Float64)\n		matrix = append(matrix, row)\n	}","	for i := 0; i < len(cols); i++ {\n		matrix = append(matrix, getArray(cols[i], reflect.Float64))\n	}")
Q('L02',su,'''	/* removing `(` from start */
	arrayText = arrayText[1:]
	openBrackets := 0
	quoted := false
	element := make([]rune, 0)
	array := make([]string, 0)
	for _, r := range arrayText {
		if r == '\\'' {
			quoted = !quoted
		}
		if r == '(' && !quoted {
			openBrackets++
		}
		if r == ')' && !quoted {
			openBrackets--
		}
		if openBrackets < 0 {
			break // end of the array
		}
		if openBrackets == 0 && r == ',' && !quoted {
			array = append(array, string(element))
			element = make([]rune, 0)
			continue
		}
		element = append(element, r)
	}
	array = append(array, string(element))
	return array
''','''	return getArguments(arrayText[1:])
''')
Q('L02',su,"	openBrackets := 0\n	quoted := false\n	argument","	openBrackets := 1\n	quoted := false\n	argument",su,"		if openBrackets < 0 {\n			break // end of the arguments","		if openBrackets < 1 {\n			break // end of the arguments",su,"if openBrackets == 0 && r == ',' && !quoted {\n			arguments","if openBrackets == 1 && r == ',' && !quoted {\n			arguments")
Q('L02',su,'''	argument := make([]rune, 0)
''','''	var argument strings.Builder
''',su,'''			arguments = append(arguments, string(argument))
			argument = make([]rune, 0)
			continue
		}
		argument = append(argument, r)
	}
	arguments = append(arguments, string(argument))
''','''			arguments = append(arguments, argument.String())
			argument.Reset()
			continue
		}
		argument.WriteRune(r)
	}
	arguments = append(arguments, argument.String())
''')
# L01
sl='step/lex.go'
V('L01',sl,"	symbolTable.add(symbolText)\n	return","	return")
V('L01',sl,"			symbolText = buffer\n","			symbolText += buffer\n")
V('L01',sl,"			symbolText += buffer\n","			symbolText += strings.TrimSpace(buffer)\n")
V('L01',sl,"			symbolText += buffer\n","			symbolText += \" \" + buffer\n")
V('L01',sl,"			symbolText += buffer\n","			symbolText = buffer + symbolText\n")
V('L01',sl,"			if len(symbolText) > 0 {","			if len(symbolText) > 80 {")
V('L01',sl,"			symbolText = buffer\n","			symbolText = buffer\n			if strings.HasSuffix(buffer, \";\") {\n				symbolTable.add(symbolText)\n				symbolText = \"\"\n			}\n")
V('L01',sl,"		if len(buffer) == 0 {","		if len(buffer) == 0 || strings.HasPrefix(buffer, \"/\") {")
V('L01',sl,"		if len(buffer) == 0 {","		if len(buffer) <= 1 {")
V('L01',sl,"		starts := !continued && startsDefinition(buffer)","		starts := startsDefinition(buffer)\n		_ = continued")
V('L01',sl,"		starts := !continued && startsDefinition(buffer)\n		continued = isPrefix\n","		starts := !continued && startsDefinition(buffer)\n",sl,"		if len(buffer) == 0 {","		continued = isPrefix\n		if len(buffer) == 0 {")if 0 else None
V('L01',sl,'strings.HasPrefix(identifier, "#") && ','')if 0 else None
V('L01',sl,' && strings.Trim(identifier[1:], "0123456789") == ""','')
V('L01',sl,"		if err == io.EOF {\n			break\n		}\n		check(err)","		if err == io.EOF {\n			break\n		}")
V('L01',sl,"		if len(buffer) == 0 {","		if len(buffer) > 3 && buffer[:3] == \"END\" {\n			reader.ReadLine()\n		}\n		if len(buffer) == 0 {")
V('L01',sl,"	identifier := stripWhiteSpaces(split[0])\n	return","	identifier := split[0]\n	return")
V('L01',sl,"			symbolText += buffer\n","			if len(symbolText) < 4096 {\n				symbolText += buffer\n			}\n")
Q('L01',sl,"			if len(symbolText) > 0 {\n				symbolTable.add(symbolText)\n			}\n","			symbolTable.add(symbolText)\n")
Q('L01',sl,"			if len(symbolText) > 0 {","			if symbolText != \"\" {")
Q('L01',sl,"		if err == io.EOF {\n			break\n		}\n		check(err)","		if err != nil {\n			if err != io.EOF {\n				check(err)\n			}\n			break\n		}")
Q('L01',sl,"	symbolTable := make(SymbolTable, 0)","	symbolTable := SymbolTable{}")
Q('L01',sl,"		if len(buffer) == 0 {\n			continue","		if buffer == \"\" {\n			continue")
Q('L01',sl,"		if starts {\n","		if !starts {\n			symbolText += buffer\n		} else {\n",sl,"			symbolText = buffer\n		} else {\n			symbolText += buffer\n		}","			symbolText = buffer\n		}")
Q('L01',sl,"	continued := false","	flush := func() {\n		if len(symbolText) > 0 {\n			symbolTable.add(symbolText)\n		}\n	}\n	continued := false",sl,"			if len(symbolText) > 0 {\n				symbolTable.add(symbolText)\n			}\n","			flush()\n",sl,"	symbolTable.add(symbolText)\n	return","	flush()\n	return")
Q('L01',sl,"	split := strings.SplitN(line, \"=\", 2)\n	if len(split) < 2 {\n		return false\n	}\n	identifier := stripWhiteSpaces(split[0])","	at := strings.Index(line, \"=\")\n	if at < 0 {\n		return false\n	}\n	identifier := stripWhiteSpaces(line[:at])")
Q('L01',sl,"		if len(buffer) == 0 {\n			continue // empty\n		}\n","		if len(line) == 0 {\n			continue // empty\n		}\n		fmt.Println(buffer)\n",sl,'	"bufio"','	"bufio"\n	"fmt"')
Q('L01',sl,"	reader := bufio.NewReader(file)","	reader := bufio.NewReaderSize(file, 1<<16)")
Q('L01',sl,"func (l *Lexer) Lex() SymbolTable {\n	file, err := os.Open(l.Filename)\n\n	check(err)\n	defer file.Close()\n	reader := bufio.NewReader(file)\n","func (l *Lexer) Lex() SymbolTable {\n	file, err := os.Open(l.Filename)\n\n	check(err)\n	defer file.Close()\n	return read(bufio.NewReader(file))\n}\nfunc read(reader *bufio.Reader) SymbolTable {\n")
Q('L01',sl,'strings.HasPrefix(identifier, "#") && strings.Trim(identifier[1:], "0123456789") == ""','isName(identifier)',sl,"// startsDefinition","func isName(s string) bool {\n	if !strings.HasPrefix(s, \"#\") {\n		return false\n	}\n	for _, r := range s[1:] {\n		if r < '0' || r > '9' {\n			return false\n		}\n	}\n	return true\n}\n\n// startsDefinition")
# L03
st='step/template.go'
V('L03',sl,'	split := strings.SplitN(symbolText, "=", 2)','	split := strings.Split(symbolText, "=")')if 0 else None
V('L03',sl,'	identifier := stripWhiteSpaces(split[0])\n	definition := tokenize','	identifier := strings.TrimSpace(split[0])\n	definition := tokenize')
V('L03',sl,'	identifier := stripWhiteSpaces(split[0])\n	definition := tokenize','	identifier := split[0]\n	definition := tokenize')
V('L03',sl,'	(*st)[identifier] = definition\n','	if _, ok := (*st)[identifier]; !ok {\n		(*st)[identifier] = definition\n	}\n')
V('L03',sl,'	definitionType := stripWhiteSpaces(split[0])','	definitionType := strings.TrimSpace(split[0])')
V('L03',sl,'	definitionType := stripWhiteSpaces(split[0])','	definitionType := strings.ToUpper(stripWhiteSpaces(split[0]))')
V('L03',sl,'	definitionArguments := getArguments(argumentsText)','	definitionArguments := getArguments(stripWhiteSpaces(argumentsText))')
V('L03',sl,'	split := strings.SplitN(definitionText, "(", 2)','	split := strings.SplitN(definitionText, " (", 2)')
V('L03',su,'		if !unicode.IsSpace(ch) {','		if ch != \' \' {',su,'	"unicode"\n','')
V('L03',su,'		if !unicode.IsSpace(ch) {','		if !unicode.IsSpace(ch) && ch < 128 {')
V('L03',su,'		if !unicode.IsSpace(ch) {','		if unicode.IsLetter(ch) {')
V('L03',st,'	return strings.TrimSpace(arguments[index])','	return arguments[index]')
V('L03',st,'	if index >= len(arguments) {','	if index+1 >= len(arguments) {')
V('L03',sl,'		return // not a definition\n','		split = append(split, "")\n')
V('L03',sl,'		return // not a definition\n','		(*st)[symbolText] = Definition{}\n		return // not a definition\n')
Q('L03',sl,'	(*st)[identifier] = definition\n','	table := *st\n	table[identifier] = definition\n')
Q('L03',sl,'	split := strings.SplitN(symbolText, "=", 2)\n	if len(split) < 2 {\n		return // not a definition\n	}\n	identifier := stripWhiteSpaces(split[0])\n	definition := tokenize(split[1])','	i := strings.IndexByte(symbolText, \'=\')\n	if i == -1 {\n		return // not a definition\n	}\n	identifier := stripWhiteSpaces(symbolText[:i])\n	definition := tokenize(symbolText[i+1:])')
Q('L03',su,'''	var b strings.Builder
	b.Grow(len(str))
	for _, ch := range str {
		if !unicode.IsSpace(ch) {
			b.WriteRune(ch)
		}
	}
	return b.String()''','''	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, str)''')
Q('L03',su,'''	var b strings.Builder
	b.Grow(len(str))
	for _, ch := range str {
		if !unicode.IsSpace(ch) {
			b.WriteRune(ch)
		}
	}
	return b.String()''','''	return strings.Join(strings.Fields(str), "")''',su,'	"unicode"\n','')
Q('L03',su,'		if !unicode.IsSpace(ch) {\n			b.WriteRune(ch)\n		}','		if unicode.IsSpace(ch) {\n			continue\n		}\n		b.WriteRune(ch)')
Q('L03',su,'''	var b strings.Builder
	b.Grow(len(str))
''','''	b := make([]rune, 0, len(str))
''',su,"			b.WriteRune(ch)","			b = append(b, ch)",su,"	return b.String()","	return string(b)")
Q('L03',sl,'''	split := strings.SplitN(definitionText, "(", 2)
	if len(split) < 2 {
		return Definition{Type: stripWhiteSpaces(split[0])}
	}
''','''	split := strings.SplitN(definitionText, "(", 2)
	def := Definition{Type: stripWhiteSpaces(split[0])}
	if len(split) == 1 {
		return def
	}
''',sl,'''	definitionType := stripWhiteSpaces(split[0])
	return Definition{
		Type:      definitionType,
		Arguments: definitionArguments,
	}''','''	def.Arguments = definitionArguments
	return def''')
Q('L03',st,'''	arguments := p.lexemes[key].Arguments
	if index >= len(arguments) {
		return ""
	}
	return strings''','''	def, found := p.lexemes[key]
	if !found {
		return ""
	}
	arguments := def.Arguments
	if index < 0 || index >= len(arguments) {
		return ""
	}
	return strings''')
Q('L03',st,'	if index >= len(arguments) {','	if len(arguments) <= index {')
# Q01
sb='step/bridge.go'
V('Q01',sb,'case "AXIS2_PLACEMENT_3D"','case "AXIS2_PLACEMENT_3_D"')
V('Q01',sb,'case "PRODUCT_DEFINITION_SHAPE":\n		return parser.productDefinitionShape','case "PRODUCT_DEFINITION_SHAPE":\n		return parser.productDefinition')
V('Q01',sb,'	default:\n		return parser.skipUtility','	default:\n		return nil')
V('Q01',sb,'	default:\n		return parser.skipUtility','	default:\n		return parser.direction')
V('Q01',sb,'	case "FACE":\n		return parser.face\n','')
V('Q01',sb,'case "TOROIDAL_SURFACE"','case "TORUS_SURFACE"')
V('Q01',sb,'case "CLOSED_SHELL":','case "CLOSED_SHELL", "OPEN_SHELL":')
V('Q01',sb,'	switch definition.Type {','	if len(definition.Arguments) == 0 {\n		return parser.skipUtility\n	}\n	switch definition.Type {')
Q('Q01',sb,'	switch definition.Type {','	name := definition.Type\n	switch name {')
Q('Q01',sb,'	case "FACE":\n		return parser.face\n','',sb,'	switch definition.Type {','	if definition.Type == "FACE" {\n		return parser.face\n	}\n	switch definition.Type {')
Q('Q01',sb,'	case "VERTEX_POINT":\n		/* skipping this definition for now */\n		/* return parser.vertexPoint */\n		return parser.skipUtility\n','')
Q('Q01',sb,'		/* return parser.vertexPoint */\n		return parser.skipUtility\n','		return parser.vertexPoint\n')
Q('Q01',sb,'	switch definition.Type {','	switch strings.TrimSpace(definition.Type) {',sb,'package step\n','package step\n\nimport "strings"\n')
Q('Q01',sb,'	default:\n		return parser.skipUtility\n	}','	}\n	return parser.skipUtility')
Q('Q01',sb,'	switch definition.Type {','	if h, ok := map[string]parseFn{"FACE": parser.face}[definition.Type]; ok {\n		return h\n	}\n	switch definition.Type {')
# Q02
sp='step/parse.go'
V('Q02',sp,'		popState := parser.nextStates[0]','		popState := parser.nextStates[len(parser.nextStates)-1]',sp,'parser.nextStates = parser.nextStates[1:]','parser.nextStates = parser.nextStates[:len(parser.nextStates)-1]')
V('Q02',sp,'			parser.visited[popState.key] = struct{}{}\n','			if len(popState.key) > 1 {\n				parser.visited[popState.key] = struct{}{}\n			}\n')
V('Q02',sp,'			parser.visited[popState.key] = struct{}{}\n','')
V('Q02',sp,'			parser.visited[popState.key] = struct{}{}\n','			parser.visited[state.key] = struct{}{}\n')
V('Q02',sp,'		if _, found := parser.visited[popState.key]; !found {','		if _, found := parser.visited[popState.key]; !found || len(parser.nextStates) == 1 {')
V('Q02',sp,'		if _, found := parser.visited[popState.key]; !found {','		if _, found := parser.lexemes[popState.key]; !found {\n			return\n		}\n		if _, found := parser.visited[popState.key]; !found {')
V('Q02',sp,'''		popState := parser.nextStates[0]
''','''		popState := parser.nextStates[0]
		rest := parser.nextStates[1:]
''',sp,'parser.nextStates = parser.nextStates[1:]','parser.nextStates = rest')
V('Q02',sp,'	for key, lexeme := range lexemes {','	for key, lexeme := range lexemes {\n		if len(lexeme.Arguments) == 0 {\n			continue\n		}')
if 0: V('Q02',sp,'		parser.runInferenceModel(ps)\n','		parser.runInferenceModel(ps)\n		if len(parser.visited) > 1000 {\n			break\n		}\n')
V('Q02',sp,'ps := parseState{fn: fn, key: key}','ps := parseState{fn: fn, key: lexeme.Type}\n		_ = key')
V('Q02',st,'	p.nextStates = append(p.nextStates, productDefinitionState)\n','	p.nextStates = append([]parseState{productDefinitionState}, p.nextStates...)\n')
V('Q02',st,'	p.nextStates = append(p.nextStates, productDefinitionState)\n','	p.productDefinition(productDefinitionState.key)\n')
V('Q02',st,'	p.nextStates = append(p.nextStates, productDefinitionState)\n','	delete(p.visited, key)\n	p.nextStates = append(p.nextStates, productDefinitionState)\n')
Q('Q02',sp,'''			popState.fn(popState.key)
			parser.visited[popState.key] = struct{}{}
''','''			parser.visited[popState.key] = struct{}{}
			popState.fn(popState.key)
''')
Q('Q02',sp,'''		popState := parser.nextStates[0]
''','''		popState := parser.nextStates[0]
		parser.nextStates = parser.nextStates[1:]
''',sp,'''		parser.nextStates = parser.nextStates[1:]

''','')
Q('Q02',sp,'for len(parser.nextStates) > 0 {','for len(parser.nextStates) != 0 {')
Q('Q02',sp,'''		if _, found := parser.visited[popState.key]; !found {

			popState.fn(popState.key)
			parser.visited[popState.key] = struct{}{}
		}
''','''		parser.handle(popState)
''',sp,'//Parse :','''func (parser *Parser) handle(s parseState) {
	if _, found := parser.visited[s.key]; found {
		return
	}
	s.fn(s.key)
	parser.visited[s.key] = struct{}{}
}

//Parse :''')
Q('Q02',sp,'	parser := Parser{lexemes: lexemes}\n	parser.visited = make(map[string]struct{}, 0)\n','	parser := &Parser{lexemes: lexemes, visited: map[string]struct{}{}}\n')
Q('Q02',sp,'''		fn := parser.bridge(lexeme)
		ps := parseState{fn: fn, key: key}
		parser.runInferenceModel(ps)''','''		parser.runInferenceModel(parseState{parser.bridge(lexeme), key})''')
Q('Q02',sp,'	for key, lexeme := range lexemes {\n		fn := parser.bridge(lexeme)','	for key := range lexemes {\n		fn := parser.bridge(lexemes[key])')
Q('Q02',st,'	p.nextStates = append(p.nextStates, productDefinitionState)\n','	p.push(productDefinitionState)\n',st,'func (p *Parser) productDefinitionShape','func (p *Parser) push(s ...parseState) {\n	p.nextStates = append(p.nextStates, s...)\n}\n\nfunc (p *Parser) productDefinitionShape')
# Q03
V('Q03',st,'uDegree := p.argument(key, 1)','uDegree := p.argument(key, 2)',st,'vDegree := p.argument(key, 2)','vDegree := p.argument(key, 1)')
V('Q03',st,'getLogical(p.argument(key, 6))','getLogical(p.argument(key, 5))')
V('Q03',st,'uKnots := getArray(p.argument(key, 10), reflect.Float64)','uKnots := getArray(p.argument(key, 11), reflect.Float64)')
V('Q03',st,'		uKnots:            uKnots,\n		vKnots:            vKnots,','		uKnots:            vKnots,\n		vKnots:            uKnots,')
V('Q03',su,'	case ".T.":','	case ".T.", ".U.":')
V('Q03',su,'	case ".T.":','	case ".TRUE.":')
V('Q03',st,'	name := p.argument(key, 0)','	name := p.argument(key, 0)\n	if name == "" {\n		return\n	}')
Q('Q03',su,'	case ".F.":\n		return false\n','')
Q('Q03',st,'getArray(p.argument(key, 9), reflect.Int)','getArray(p.argument(key, 9), reflect.Float64)')
Q('Q03',su,'''	switch logicText {
	case ".T.":
		return true
	case ".F.":
		return false
	default:
		return false
	}''','''	return strings.TrimSpace(logicText) == ".T."''')
Q('Q03',st,'	name := p.argument(key, 0)','	arg := func(i int) string { return p.argument(key, i) }\n	name := arg(0)')
# Q04
V('Q04',st,'productDefinitionState := parseState{fn: p.productDefinition, key: p.argument(key, 2)}','productDefinitionState := parseState{fn: p.productDefinition, key: p.argument(key, 1)}')
V('Q04',st,'productDefinitionContextState := parseState{fn: p.productDefinitionContext','productDefinitionContextState := parseState{fn: p.productDefinitionFormation')
V('Q04',st,'	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)','	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, xDirectionState)\n	_ = yDirectionState')
V('Q04',st,'	case faceType == "TOROIDAL_SURFACE":','	case faceType == "TOROIDAL_SURFACES":')
V('Q04',st,'	neighbourID := p.argument(key, 2)','	neighbourID := p.argument(key, 1)')
V('Q04',st,'	p.nextStates = append(p.nextStates, productDefinitionState)\n','	if len(p.nextStates) < 64 {\n		p.nextStates = append(p.nextStates, productDefinitionState)\n	}\n')
Q('Q04',st,'	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)','	p.nextStates = append(p.nextStates, xDirectionState, yDirectionState, cartesianVectorState)')
Q('Q04',st,'switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {\n	case faceType == "SPHERICAL_SURFACE":','switch strings.TrimSpace(p.lexemes[neighbourID].Type) {\n	case "SPHERICAL_SURFACE":',st,'	case faceType == "TOROIDAL_SURFACE":','	case "TOROIDAL_SURFACE":')
Q('Q04',st,'switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {','switch faceType := p.lexemes[neighbourID].Type; {',st,'	"strings"\n','',st,'	return strings.TrimSpace(arguments[index])','	return trim(arguments[index])',su,'func check(','func trim(s string) string { return strings.TrimSpace(s) }\n\nfunc check(')if 0 else None
Q('Q04',st,'	p.nextStates = append(p.nextStates, productDefinitionState)\n','	p.push(productDefinitionState)\n',st,'func (p *Parser) productDefinitionShape','func (p *Parser) push(s ...parseState) {\n	p.nextStates = append(p.nextStates, s...)\n}\n\nfunc (p *Parser) productDefinitionShape')
le='step/lex.go'; su='step/util.go'; st='step/template.go'; sp='step/parse.go'; sb='step/bridge.go'
V('L04',st,'	radius := p.argument(key, 2)','	radius := p.lexemes[key].Arguments[2]')
V('L04',le,'	if len(split) < 2 {\n		return // not a definition\n	}\n','')
V('L04',le,'	if len(split) < 2 {\n		return Definition{Type: stripWhiteSpaces(split[0])}\n	}\n','')
Q("L04",le,"	if len(split) < 2 {\n		return false\n	}\n","")
V('L04',le,'return strings.HasPrefix(identifier, "#") && strings.Trim','return strings.Trim')
V('L04',su,'	if !strings.HasPrefix(arrayText, "(") {\n		return make([]string, 0) // not an array\n	}\n','')
V('L04',su,'	if !strings.HasPrefix(arrayText, "(") {\n		return make([]string, 0) // not an array\n	}\n','	if !strings.HasPrefix(arrayText, "(") {\n		panic("malformed array")\n	}\n')
V('L04',le,'		return // not a definition\n','		panic("not a definition: " + symbolText)\n')
V('L04',st,'	radius := p.argument(key, 2)','	radius, err := strconv.ParseFloat(p.argument(key, 2), 64)\n	check(err)',st,'	"reflect"\n','	"reflect"\n	"strconv"\n')
V('L04',st,'if index >= len(arguments)','if index > len(arguments)')
V('L04',le,'	definitionType := stripWhiteSpaces(split[0])','	definitionType := stripWhiteSpaces(split[0])\n	_ = definitionType[0]')
V('L04',su,'	argument := make([]rune, 0)\n','	argument := make([]rune, 0)\n	_ = argumentsText[len(argumentsText)-1]\n')
V('L04',su,'		row := getArray(col, reflect.Float64)\n','		row := getArray(col, reflect.Float64)\n		_ = row[0]\n')
V('L04',su,'	cols := getArray(matrixText, reflect.Array)\n','	cols := getArray(matrixText, reflect.Array)\n	_ = cols[0]\n')
V('L04',st,'	vKnots := getArray(p.argument(key, 11), reflect.Float64)\n','	vKnots := getArray(p.argument(key, 11), reflect.Float64)\n	fmt.Println(vKnots[0], vKnots[len(vKnots)-1])\n')
V("L04",sb,"definition Definition) parseFn {\n","definition Definition) parseFn {\n	if definition.Type[0] == 40 {\n		return parser.skipUtility\n	}\n")
Q('L04',le,'	split := strings.SplitN(symbolText, "=", 2)\n	if len(split) < 2 {\n		return // not a definition\n	}\n	identifier := stripWhiteSpaces(split[0])\n	definition := tokenize(split[1])\n','	eq := strings.Index(symbolText, "=")\n	if eq < 0 {\n		return\n	}\n	identifier := stripWhiteSpaces(symbolText[:eq])\n	definition := tokenize(symbolText[eq+1:])\n')
Q('L04',su,'	if !strings.HasPrefix(arrayText, "(") {\n','	if len(arrayText) == 0 || arrayText[0] != \'(\' {\n')
Q('L04',st,'	radius := p.argument(key, 2)','	radius := ""\n	if a := p.lexemes[key].Arguments; len(a) > 2 {\n		radius = a[2]\n	}')
Q('L04',st,'	radius := p.argument(key, 2)','	radius := strings.Split(p.argument(key, 2), ",")[0]')
Q('L04',st,'	radius := p.argument(key, 2)','	radius, err := strconv.ParseFloat(p.argument(key, 2), 64)\n	if err != nil {\n		fmt.Println(err)\n	}',st,'	"reflect"\n','	"reflect"\n	"strconv"\n')
Q('L04',su,'	for _, col := range cols {\n		row := getArray(col, reflect.Float64)\n','	for i := 0; i < len(cols); i++ {\n		row := getArray(cols[i], reflect.Float64)\n')
Q('L04',su,'	array = append(array, string(element))\n	return array','	return append(array, string(element))')
nb='nurbs/basis.go'; nc='nurbs/curve.go'
for o,n in [('N[0] = 1.','N[0] = 2.'),('left[j] = u - float64(U[i+1-j])','left[j] = u - float64(U[i-j])'),('right[j] = float64(U[i+j]) - u','right[j] = float64(U[i+1]) - u'),
  ('for r := 0; r < j; r++ {\n			temp := N[r]','for r := 0; r < j-1; r++ {\n			temp := N[r]'),('N[r] / (right[r+1] + left[j-r])','N[r] / (right[r+1] - left[j-r])'),('saved = left[j-r] * temp\n		}\n		N[j]','saved = left[j] * temp\n		}\n		N[j]'),
  ('N[r] = saved + right[r+1]*temp','N[r] = right[r+1]*temp'),('		N[j] = saved','		N[j] = 0'),('		saved := 0.\n','',)]:
    if n!='': V('N02',nb,o,n)
V('N02',nb,'			temp := N[r] / (right[r+1] + left[j-r])\n			N','			den := right[r+1] + left[j-r]\n			if den < 1 {\n				den = 1\n			}\n			temp := N[r] / den\n			N')
Q('N02',nb,'	for j := 1; j <= p; j++ {\n		left[j] = u - float64(U[i+1-j])','	for j := 1; j < p+1; j++ {\n		left[j] = u - float64(U[i+1-j])')
Q('N02',nb,'	for j := 1; j <= p; j++ {\n		left[j] = u - float64(U[i+1-j])\n		right[j] = float64(U[i+j]) - u\n		saved := 0.\n','	for j := 1; j <= p; j++ {\n		left[j] = u - float64(U[i+1-j])\n		right[j] = float64(U[i+j]) - u\n	}\n	for j := 1; j <= p; j++ {\n		saved := 0.\n')
Q('N02',nb,'temp := N[r] / (right[r+1] + left[j-r])\n			N[r] = saved + right[r+1]*temp\n			saved = left[j-r] * temp\n		}\n		N[j]','n := N[r]\n			den := left[j-r] + right[r+1]\n			N[r] = saved + right[r+1]*n/den\n			saved = left[j-r] * n / den\n		}\n		N[j]')
Q('N02',nb,'	left := make([]float64, p+1)\n	right := make([]float64, p+1)\n\n	N[0] = 1.','	work := make([]float64, 2*(p+1))\n	left, right := work[:p+1], work[p+1:]\n	N[0] = 1.')
Q('N02',nb,'	N[0] = 1.\n	for j := 1; j <= p; j++ {\n		left[j] = u - float64(U[i+1-j])\n		right[j] = float64(U[i+j]) - u\n','	N[0] = 1.\n	for j := 1; j <= p; j++ {\n		left[j], right[j] = span(u, i, j, U)\n',nb,'/* dersBasisFuns : computes','func span(u float64, i, j int, U []int) (float64, float64) {\n	return u - float64(U[i+1-j]), float64(U[i+j]) - u\n}\n\n/* dersBasisFuns : computes')
Q('N02',nb,'	for j := 1; j <= p; j++ {\n		left[j] = u - float64(U[i+1-j])\n		right[j] = float64(U[i+j]) - u\n		saved := 0.\n		for r := 0; r < j; r++ {','	for k := 0; k < p; k++ {\n		j := k + 1\n		left[j] = u - float64(U[i-k])\n		right[j] = float64(U[i+j]) - u\n		saved := 0.\n		for r := range N[:j] {')
for o,n in [('P[span-p+i]','P[span-p+1]'),('P[span-p+i]','P[span-i]'),('Scaled(N[i])','Scaled(N[p-i])'),('i <= p','i < p'),('	C := vec3.T{}','	C := P[span-p]'),('C.Add(&B)','C.Sub(&B)'),('findSpan(n, p, u, U)','findSpan(n-1, p, u, U)'),
  ('basisFuns(span, u, p, U)','basisFuns(span, float64(U[span]), p, U)'),('	for i := 0; i <= p; i++ {','	for i := 1; i <= p; i++ {'),('B := P[span-p+i].Scaled(N[i])\n','B := P[span-p+i]\n		B.Scale(N[i])\n		P[span-p+i] = B\n')]:
    V('N03',nc,o,n)
V('N03',nc,'B := P[span-p+i].Scaled(N[i])\n		C.Add(&B)','B := P[span-p+i].Scale(N[i])\n		C.Add(B)')
V('N03',nc,'	return C','	if u < 0 {\n		return P[0]\n	}\n	return C')
Q('N03',nc,'B := P[span-p+i].Scaled(N[i])\n		C.Add(&B)','for k := range C {\n			C[k] += P[span-p+i][k] * N[i]\n		}')
Q('N03',nc,'B := P[span-p+i].Scaled(N[i])\n		C.Add(&B)','B := P[span-p+i]\n		B.Scale(N[i])\n		C = vec3.Add(&C, &B)')
Q('N03',nc,'	fmt.Println("creating curve point")\n','',nc,'	"fmt"\n\n','')
Q('N03',nc,'	for i := 0; i <= p; i++ {\n		B := P[span-p+i].Scaled(N[i])','	for i, w := range N {\n		B := P[span-p+i].Scaled(w)')
Q('N03',nc,'	for i := 0; i <= p; i++ {\n		B := P[span-p+i].Scaled(N[i])','	ctrl := P[span-p : span+1]\n	for i := range ctrl {\n		B := ctrl[i].Scaled(N[i])')
Q('N03',nc,'	for i := 0; i <= p; i++ {\n		B := P[span-p+i].Scaled(N[i])','	for i := p; i >= 0; i-- {\n		B := P[span-p+i].Scaled(N[i])')
for o,n in [('ders[0][j] = ndu[j][p]','ders[0][j] = ndu[j][j]'),('j := s1\n			s1 = s2\n			s2 = j','s2 = s1'),('j2 = k - 1','j2 = k'),('j1 = -rk','j1 = -rk + 1'),('j2 = p - r','j2 = p - r - 1'),
  ('r *= (p - k)','r *= (p - k - 1)'),('ders[k][j] *= float64(r)','ders[k][j] *= float64(p)'),('if r <= pk {','if r < pk {'),('-a[s1][k-1] / ndu','a[s1][k-1] / ndu'),('d += a[s2][k] * ndu[r][pk]','d = a[s2][k] * ndu[r][pk]'),
  ('if r >= k {','if r > k {'),('		a[0][0] = 1.\n','')]:
    V('N04',nb,o,n)
Q('N04',nb,'if r-1 <= pk','if r <= pk')
Q('N04',nb,'rk >= -1','rk >= 0')
Q('N04',nb,'j := s1\n			s1 = s2\n			s2 = j','s1, s2 = s2, s1')
Q('N04',nb,'			if rk >= -1 {\n				j1 = 1\n			} else {\n				j1 = -rk\n			}','			j1 = 1\n			if rk < -1 {\n				j1 = -rk\n			}')
Q('N04',nb,'	for entry := range ndu {\n		ndu[entry] = make([]float64, p+1)\n		ders[entry] = make([]float64, p+1)\n		a[entry] = make([]float64, p+1)\n	}','	for entry := 0; entry <= p; entry++ {\n		ndu[entry] = make([]float64, p+1)\n		ders[entry] = make([]float64, p+1)\n		a[entry] = make([]float64, p+1)\n	}')
Q('N04',nb,'	r := p\n	for k := 1; k <= n; k++ {\n		for j := 0; j <= p; j++ {\n			ders[k][j] *= float64(r)\n		}\n		r *= (p - k)','	factor := float64(p)\n	for k := 1; k <= n; k++ {\n		for j := range ders[k] {\n			ders[k][j] *= factor\n		}\n		factor *= float64(p - k)')
Q('N04',nb,'			for j := j1; j <= j2; j++ {\n				a[s2][j]','			cur, prev := a[s2], a[s1]\n			_, _ = cur, prev\n			for j := j1; j <= j2; j++ {\n				a[s2][j]')
Q('N04',nb,'	a := make([][]float64, p+1)\n','	a := newTable(p)\n',nb,'		a[entry] = make([]float64, p+1)\n','',nb,'/* basisFuns : ','func newTable(p int) [][]float64 {\n	t := make([][]float64, p+1)\n	for k := range t {\n		t[k] = make([]float64, p+1)\n	}\n	return t\n}\n\n/* basisFuns : ')
# N01
for o,n in [('u >= float64(U[n+1]) {\n		return n','u > float64(U[n+1]) {\n		return n'),('		return n\n','		return n - 1\n'),('u < float64(U[p]) {\n		return p','u < float64(U[p]) {\n		return p + 1'),
  ('if u < float64(U[p])','if u <= float64(U[p])'),('	low := p','	low := p + 1'),('	high := n + 1','	high := n'),('u < float64(U[mid]) || u >=','u <= float64(U[mid]) || u >='),('u >= float64(U[mid+1]) {','u > float64(U[mid+1]) {'),
  ('			high = mid\n','			high = mid - 1\n'),('	return mid\n','	return low\n'),('	return mid\n','	return mid + 1\n'),('		if u < float64(U[mid]) {\n			high','		if u <= float64(U[mid]) {\n			high'),
  ('		mid = (low + high) / 2\n','		mid = (low + high + 1) / 2\n')]:
    V('N01',nb,o,n)
for o,n in [('			low = mid\n','			low = mid + 1\n'),('	mid := (low + high) / 2\n	/*','	mid := low\n	/*'),('u >= float64(U[n+1])','u >= float64(U[n])'),('if u < float64(U[p])','if u < float64(U[p+1])')]:
    Q('N01',nb,o,n)
Q('N01',nb,'mid := (low + high) / 2\n','mid := low + (high-low)/2\n')
Q('N01',nb,'		mid = (low + high) / 2\n','		mid = (low + high) >> 1\n')
Q('N01',nb,'		fmt.Println("knot Vector:", U)\n','',nb,'		fmt.Println("mid:", mid)\n','',nb,'import "fmt"\n','')
_loop='''	mid := (low + high) / 2
	/* BUG: this is not robust: */
	for u < float64(U[mid]) || u >= float64(U[mid+1]) {
		fmt.Println("knot Vector:", U)

		if u < float64(U[mid]) {
			high = mid
		} else {
			low = mid
		}
		fmt.Println("mid:", mid)
		mid = (low + high) / 2
	}
	return mid
'''
for new in ['''	for high-low > 1 {
		mid := (low + high) / 2
		fmt.Println("mid:", mid)
		if u < float64(U[mid]) {
			high = mid
		} else {
			low = mid
		}
	}
	return low
''','''	for {
		mid := (low + high) / 2
		fmt.Println("mid:", mid)
		if u < float64(U[mid]) {
			high = mid
		} else if u >= float64(U[mid+1]) {
			low = mid
		} else {
			return mid
		}
	}
''','''	for {
		mid := (low + high) / 2
		fmt.Println("mid:", mid)
		switch {
		case u < float64(U[mid]):
			high = mid
		case u >= float64(U[mid+1]):
			low = mid + 1
		default:
			return mid
		}
	}
''','''	fmt.Println("mid:", high)
	span := low
	for span+1 < high && u >= float64(U[span+1]) {
		span++
	}
	return span
''','''	fmt.Println("mid:", low)
	for i := high - 1; i > low; i-- {
		if float64(U[i]) <= u {
			return i
		}
	}
	return low
''']:
    Q('N01',nb,_loop,new)
Q('N01',nb,'	if u >= float64(U[n+1]) {\n		return n\n	}\n	if u < float64(U[p]) {\n		return p\n	}','	first, last := float64(U[p]), float64(U[n+1])\n	switch {\n	case u >= last:\n		return n\n	case u < first:\n		return p\n	}')
Q('N01',nb,'		if u < float64(U[mid]) {\n			high = mid\n		} else {\n			low = mid\n		}\n','		low, high = narrow(u, low, mid, high, U)\n',nb,'/* basisFuns : ','func narrow(u float64, low, mid, high int, U []int) (int, int) {\n	if u < float64(U[mid]) {\n		return low, mid\n	}\n	return mid, high\n}\n\n/* basisFuns : ')
V('N01',nb,_loop,'''	for high-low > 1 {
		mid := (low + high) / 2
		fmt.Println("mid:", mid)
		if u <= float64(U[mid]) {
			high = mid
		} else {
			low = mid
		}
	}
	return low
''')
V('N01',nb,_loop,'''	fmt.Println("mid:", high)
	span := low
	for span+2 < high && u >= float64(U[span+1]) {
		span++
	}
	return span
''')
su='step/util.go'
V('L04',su,'if err != nil {\n\t\tpanic','if err != nil || true {\n\t\tpanic')
V('L02',su,'openBrackets := 0','openBrackets := 1')
V('L02',su,'!strings.HasPrefix(arrayText, "(")','!strings.HasPrefix(arrayText, "((")')
Q('L02',su,'!strings.HasPrefix(arrayText, "(")','strings.Index(arrayText, "(") != 0')
Q('L02',su,'!strings.HasPrefix(arrayText, "(")','len(arrayText) == 0 || arrayText[0] != 40')
V('L01','step/lex.go','if err == io.EOF {\n\t\t\tbreak','if err == io.EOF {\n\t\t\tcontinue')

mm='meshing/mesh.go'; mh='meshing/helper.go'
V('G04',mm,'\th.findExtremas((*points)...)\n','')
V('G04',mm,'h.findExtremas((*points)...)','h.findExtremas((*points)[1:]...)')
V('G04',mm,'h.findExtremas((*points)...)','h.findExtremas((*points)[:len(*points)-1]...)')
Q('G04',mm,'\th := helper{}\n\th.findExtremas((*points)...)\n\th.computeBoundingBox()','\tvar h helper\n\tall := *points\n\th.findExtremas(all...)\n\th.computeBoundingBox()')
Q('M04',mm,'''		for _, badTetra := range badTetras {
			for _, face := range badTetra.faces {
				if faceSet[face.hash()].check == false {
					polyhedron = append(polyhedron, face)
				}
			}
		}
''','''		for _, fc := range faceSet {
			if !fc.check {
				polyhedron = append(polyhedron, badTetras[fc.tetraID].faces[fc.faceID])
			}
		}
''')
V('M04',mm,'''	for _, tetraKey := range t.sortedKeys() {
		tetra := t[tetraKey]
		for _, face := range tetra.faces {
			if face.isPart''','''	for _, tetra := range t {
		for _, face := range tetra.faces {
			if face.isPart''')

# T09, T10: the construction
tg='triangulate2/triangulator.go'; nd='triangulate2/node.go'
V('T09',tg,'if p.Y > y1 {','if p.Y > x1 {')
V('T09',tg,'(y0 + y1) / 2, 0}','(y0 - y1) / 2, 0}')
V('T09',tg,'if d > 0 && d < minDist {','if d < minDist {')
V('T09',tg,'if i == i0 || i == i1 {\n\t\t\tcontinue\n\t\t}\n\t\tr :=','if i == i0 {\n\t\t\tcontinue\n\t\t}\n\t\tr :=')
V('T09',tg,'if r < minRadius {\n\t\t\ti2 = i\n\t\t\tminRadius = r','if r < minRadius {\n\t\t\ti2 = i\n\t\t\tminRadius = r + eps')
V('T09',tg,'if area(Vectors[i0], Vectors[i1], Vectors[i2]) < 0 {','if area(Vectors[i0], Vectors[i1], Vectors[i2]) > 0 {')
V('T09',tg,'tri.center = circumcenter(Vectors[i0], Vectors[i1], Vectors[i2])','tri.center = circumcenter(Vectors[i0], Vectors[i1], m)')
V('T09',tg,'squaredDistance(p, tri.center)','squaredDistance(p, m)')
V('T09',tg,'maxTriangles := 2*n - 5','maxTriangles := 2*n - 6')
V('T09',tg,'tri.addTriangle(i0, i1, i2, -1, -1, -1)','tri.addTriangle(i0, i2, i1, -1, -1, -1)')
V('T09',tg,'return d1 < d2','return d1 > d2')
V('T09',tg,'if p1.X != p2.X {\n\t\treturn p1.X < p2.X\n\t}\n\treturn p1.Y < p2.Y','return p1.X < p2.X')
V('T09',tg,'if minRadius == infinity {','if minRadius > 1e10 {')
V('T09',tg,'tri.halfedges = tri.halfedges[:tri.trianglesLen]','tri.halfedges = tri.halfedges[:tri.trianglesLen-3]')
V('T09',tg,'d1 := a.squaredDistances[a.ids[i]]','d1 := a.squaredDistances[i]')
V('T10',tg,'if i == i0 || i == i1 || i == i2 {','if i == i0 || i == i1 {')
V('T10',tg,'Vectors[e.next.i]) >= 0 {','Vectors[e.next.i]) > 0 {')
V('T10',tg,'t := tri.addTriangle(e.i, i, e.next.i, -1, -1, e.t)','t := tri.addTriangle(e.i, i, e.next.i, -1, e.t, -1)')
V('T10',tg,'e.t = t // keep','e.t = t + 1 // keep')
V('T10',tg,'e.t = tri.legalize(t + 2)','e.t = tri.legalize(t + 1)')
V('T10',tg,'e.t = tri.legalize(t + 2)','tri.legalize(t + 2)\n\t\te.t = t + 1')
V('T10',tg,'for area(p, Vectors[q.i], Vectors[q.next.i]) < 0 {','for area(p, Vectors[q.i], Vectors[q.next.i]) <= 0 {')
V('T10',tg,'t = tri.addTriangle(q.i, i, q.next.i, q.prev.t, -1, q.t)','t = tri.addTriangle(q.i, i, q.next.i, -1, -1, q.t)')
V('T10',tg,'q.prev.t = tri.legalize(t + 2)','tri.legalize(t + 2)')
V('T10',tg,'q.prev.t = tri.legalize(t + 2)','q.t = tri.legalize(t + 2)')
V('T10',tg,'tri.hull = q.remove()\n\t\t\tq = q.next','tri.hull = q\n\t\t\tq.remove()\n\t\t\tq = q.next')
V('T10',tg,'tri.hull = q.remove()\n\t\t\tq = q.next','q = q.next')
V('T10',tg,'if walkBack {','if !walkBack {')
V('T10',tg,'walkBack := e == start','walkBack := e.next == start')
V('T10',tg,'for area(p, Vectors[q.prev.i], Vectors[q.i]) < 0 {','for area(p, Vectors[q.i], Vectors[q.prev.i]) < 0 {')
V('T10',tg,'t = tri.addTriangle(q.prev.i, i, q.i, -1, q.t, q.prev.t)','t = tri.addTriangle(q.prev.i, i, q.i, -1, q.t, q.t)')
V('T10',tg,'q.prev.t = t\n','q.t = t\n')
V('T10',tg,'tri.legalize(t + 2)\n\t\t\t\tq.prev.t = t','q.prev.t = tri.legalize(t + 2)')
V('T10',tg,'tri.legalize(t + 2)\n\t\t\t\tq.prev.t = t','q.prev.t = t')
V('T10',tg,'if squaredDistance(p, pp) < eps {','if squaredDistance(p, pp) < 1 {')
V('T10',tg,'\t\tpp = p\n','')
V('T10',tg,'\t\tpp = p\n','\t\tif k > 5 {\n\t\t\tpp = p\n\t\t}\n')
V('T10',tg,'tri.hashEdge(e)\n\t\ttri.hashEdge(e.prev)\n\t}','}')
V('T10',nd,'n.next.prev = n.prev','n.next.prev = n.next')
V('T10',nd,'n.i = -1\n','')
V('T10',nd,'prev.next.prev = n\n\t\tprev.next = n','prev.next = n\n\t\tprev.next.prev = n')
V('T10',nd,'n.prev = prev\n','n.prev = prev.prev\n')
Q('T09,T10',tg,'if squaredDistance(p, pp) < eps {\n\t\t\tcontinue\n\t\t}\n\t\tpp = p\n\n\t\t// skip seed triangle Vectors\n\t\tif i == i0 || i == i1 || i == i2 {\n\t\t\tcontinue\n\t\t}','if squaredDistance(p, pp) < eps {\n\t\t\tcontinue\n\t\t}\n\t\tpp = p\n\t\tswitch i {\n\t\tcase i0, i1, i2:\n\t\t\tcontinue\n\t\t}')
Q('T09,T10',tg,'for k := 0; k < n; k++ {\n\t\ti := tri.ids[k]','for _, i := range tri.ids {')
Q('T09,T10',tg,'q.prev.t = tri.legalize(t + 2)\n\t\t\ttri.hull = q.remove()\n\t\t\tq = q.next','e.t = tri.legalize(t + 2)\n\t\t\tnext := q.next\n\t\t\ttri.hull = q.remove()\n\t\t\tq = next')
Q('T09,T10',tg,'q.prev.t, -1, q.t)','e.t, -1, q.t)')
Q('T09,T10',tg,'tri.hashEdge(e)\n\t\ttri.hashEdge(e.prev)\n\t}','tri.hashEdge(e.prev)\n\t\ttri.hashEdge(e)\n\t}')
Q('T09,T10',tg,'tri.hull = q.remove()\n\t\t\tq = q.next','q.remove()\n\t\t\ttri.hull = e\n\t\t\tq = q.next')
Q('T09,T10',tg,'maxTriangles := 2*n - 5','maxTriangles := 2*n')
Q('T09,T10',tg,'if p1.X != p2.X {\n\t\treturn p1.X < p2.X\n\t}\n\treturn p1.Y < p2.Y','if p1.Y != p2.Y {\n\t\treturn p1.Y < p2.Y\n\t}\n\treturn p1.X < p2.X')
Q('T09,T10',tg,'for area(p, Vectors[e.i], Vectors[e.next.i]) >= 0 {\n\t\t\te = e.next\n\t\t\tif e == start {\n\t\t\t\te = nil\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\tif e == nil {','found := true\n\t\tfor area(p, Vectors[e.i], Vectors[e.next.i]) >= 0 {\n\t\t\te = e.next\n\t\t\tif e == start {\n\t\t\t\tfound = false\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\tif !found {')
Q('T09,T10',tg,'e := newNode(nodes, i0, nil)\n\te.t = 0\n\ttri.hashEdge(e)\n\n\te = newNode(nodes, i1, e)\n\te.t = 1\n\ttri.hashEdge(e)\n\n\te = newNode(nodes, i2, e)\n\te.t = 2\n\ttri.hashEdge(e)\n\n\ttri.hull = e','var e *node\n\tfor k, i := range []int{i0, i1, i2} {\n\t\te = newNode(nodes, i, e)\n\t\te.t = k\n\t\ttri.hashEdge(e)\n\t}\n\ttri.hull = e')
Q('T09,T10',tg,'var i0, i1, i2 int\n','i0 := 0\n\ti1 := 0\n\ti2 := 0\n')
Q('T09,T10',tg,'if d > 0 && d < minDist {\n\t\t\ti1 = i\n\t\t\tminDist = d\n\t\t}','if d <= 0 || d >= minDist {\n\t\t\tcontinue\n\t\t}\n\t\tminDist = d\n\t\ti1 = i')
Q('T09,T10',nd,'n.prev.next = n.next\n\tn.next.prev = n.prev\n\tn.i = -1\n\treturn n.prev','before, after := n.prev, n.next\n\tafter.prev = before\n\tbefore.next = after\n\tn.i = -1\n\treturn before')
V('M03',mm,'; !ok {','; ok {')
V('M03',mm,'; !ok {','; !ok || badTetraIndex > 1 {')
V('M03',mm,'for faceIndex, face := range badTetra.faces {','for faceIndex, face := range badTetra.faces[1:] {')
V('M03',mm,'if faceSet[face.hash()].check == false {','if faceSet[face.hash()].check == false || badTetra.ia == 0 && false || true {')
V('M03',mm,'for _, badTetra := range badTetras {\n\t\t\tbadTetraHash','for _, badTetra := range badTetras[:1] {\n\t\t\tbadTetraHash')
V('M03',mm,'for _, face := range tetra.faces {\n\t\t\tif face.isPart','for _, face := range tetra.faces[:3] {\n\t\t\tif face.isPart')
V('M03',mm,'if face.isPartOfMesh() {','if !face.isPartOfMesh() {')
Q('M03',mm,'if _, ok := faceSet[face.hash()]; !ok {\n\t\t\t\t\tfaceSet[face.hash()] = faceCheck{false, badTetraIndex, faceIndex}\n\t\t\t\t} else {\n\t\t\t\t\tfaceSet[face.hash()] = faceCheck{true, -1, -1}\n\t\t\t\t}','_, twice := faceSet[face.hash()]\n\t\t\t\tfaceSet[face.hash()] = faceCheck{twice, badTetraIndex, faceIndex}')
V('T10',nd,'if prev == nil {','if prev != nil {')
# the loop over the points, the searches and the first hull
V('T10',tg,'if squaredDistance(p, pp) < eps {\n\t\t\tcontinue','if squaredDistance(p, pp) < eps {\n\t\t\tbreak')
V('T10',tg,'// likely a near-duplicate Vector; skip it\n\t\t\tcontinue','// likely a near-duplicate Vector; skip it\n\t\t\tbreak')
V('T10',tg,'if start != nil && start.i >= 0','if start.i >= 0')
V('T10',tg,'\te.t = 1\n','')
V('T10',tg,'\te.t = 2\n','\te.t = 1\n')
V('T10',tg,'if e == start {\n\t\t\t\te = nil','if e.next == start {\n\t\t\t\te = nil')
V('T10',tg,'			key++\n			if key >= len(tri.hash) {\n				key = 0\n			}\n','			if key >= len(tri.hash) {\n				key = 0\n			}\n')
Q('T10',tg,'\te.t = 0\n','')
Q('T10',tg,'			key++\n			if key >= len(tri.hash) {\n				key = 0\n			}\n','			key++\n			if key == len(tri.hash) {\n				key = 0\n			}\n')
Q('T10',tg,'			key++\n			if key >= len(tri.hash) {\n				key = 0\n			}\n','			key = (key + 1) % len(tri.hash)\n')
# T11: the result
tn='triangulate2/triangulation.go'
V('T11',tn,'t.triangles, t.halfedges}','t.halfedges, t.triangles}')
V('T11',tn,'t.convexHull(), t','nil, t')
V('T11',tn,'t.triangles, t.halfedges}, err','t.triangles, t.halfedges}, func() error { _ = err; return nil }()')
V('T11',tg,'result = append(result, t.Vectors[e.i])','result = append(result, t.Vectors[e.t])')
V('T11',tg,'\t\te = e.prev\n\t\tif e == t.hull {','\t\te = e.next\n\t\tif e == t.hull {')
V('T11',tg,'\t\te = e.prev\n\t\tif e == t.hull {','\t\te = e.prev.prev\n\t\tif e == t.hull {')
V('T11',tg,'\t\te = e.prev\n\t\tif e == t.hull {','\t\te = e.prev\n\t\tif e == t.hull.next {')
Q('T11',tn,'return &Triangulation{Vectors, t.convexHull(), t.triangles, t.halfedges}, err','res := new(Triangulation)\n\tres.ConvexHull = t.convexHull()\n\tres.Halfedges, res.Triangles = t.halfedges, t.triangles\n\tres.Vectors = t.Vectors\n\treturn res, err')
Q('T11',tn,'err := t.triangulate()\n','var err error\n\tif e := t.triangulate(); e != nil {\n\t\terr = e\n\t}\n')
Q('T11',tg,'\te := t.hull\n\tfor e != nil {\n\t\tresult = append(result, t.Vectors[e.i])\n\t\te = e.prev\n\t\tif e == t.hull {\n\t\t\tbreak\n\t\t}\n\t}\n','\tif t.hull == nil {\n\t\treturn nil\n\t}\n\tresult = append(result, t.Vectors[t.hull.i])\n\tfor e := t.hull.prev; e != t.hull; e = e.prev {\n\t\tresult = append(result, t.Vectors[e.i])\n\t}\n')
Q('T11',tg,'\te := t.hull\n\tfor e != nil {\n\t\tresult = append(result, t.Vectors[e.i])\n','\tresult = make([]r3.Vector, 0, 16)\n\te := t.hull\n\tfor e != nil {\n\t\tp := t.Vectors[e.i]\n\t\tresult = append(result, p)\n')
# T02: the flip
V('T02',tg,'inCircle(t.Vectors[p0], t.Vectors[pr], t.Vectors[pl], t.Vectors[p1])','inCircle(t.Vectors[p0], t.Vectors[pl], t.Vectors[pr], t.Vectors[p1])')
V('T02',tg,'if illegal {','if !illegal {')
V('T02',tg,'t.link(ar, bl)','t.link(bl, al)')
V('T02',tg,'if b < 0 {\n\t\treturn ar\n\t}','if b < -1 {\n\t\treturn ar\n\t}')
V('T02',tg,'t.triangles[b] = p0','t.triangles[b] = p1')
# splits with another number of parts, prefixes the other way round, small hulls
V('L03','step/lex.go','strings.SplitN(symbolText, "=", 2)','strings.Split(symbolText, "=")')
V('L03','step/lex.go','strings.SplitN(definitionText, "(", 2)','strings.SplitAfterN(definitionText, "(", 2)')
V('L01','step/lex.go','strings.HasPrefix(identifier, "#")','strings.HasPrefix("#", identifier)')
V('L02','step/util.go','strings.HasPrefix(arrayText, "(")','strings.HasPrefix("(", arrayText)')
V('L04','step/util.go','\tarray = append(array, string(element))\n\treturn array','\tif element[len(element)-1] == \' \' {\n\t\telement = element[:len(element)-1]\n\t}\n\tarray = append(array, string(element))\n\treturn array')
V('T06','triangulate2/hull.go','\tfor _, p := range Vectors {\n\t\tfor','\tif len(Vectors) == 3 {\n\t\treturn Vectors\n\t}\n\tfor _, p := range Vectors {\n\t\tfor')
Q('L03','step/lex.go','split := strings.SplitN(definitionText, "(", 2)\n\tif len(split) < 2 {','split := strings.SplitN(definitionText, "(", 2)\n\tif !strings.Contains(definitionText, "(") {')
Q('T06','triangulate2/hull.go','\tfor _, p := range Vectors {\n\t\tfor','\tif len(Vectors) == 0 {\n\t\treturn []r3.Vector{}\n\t}\n\tfor _, p := range Vectors {\n\t\tfor')
Q('T06','triangulate2/hull.go','\tfor _, p := range Vectors {\n\t\tfor','\tif len(Vectors) == 2 {\n\t\treturn []r3.Vector{Vectors[0], Vectors[1]}\n\t}\n\tfor _, p := range Vectors {\n\t\tfor')
