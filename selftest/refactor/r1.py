sp='shape/sphere.go'; to='shape/torus.go'; ci='shape/circle.go'; el='shape/ellipse.go'; rv='r3/vector.go'; ln='r3/line.go'; en='triangulate3/englober.go'; ut='triangulate3/util.go'; gd='triangulate3/gdel3d.go'; ex='glTF/export.go'; mo='glTF/model.go'
R=[]
def r(name,*e): R.append((name,e))
r('line: hoist direction',(ln,'''	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {
		panic("plane and line are parallel. Therefore, no intersection")
	}

	t := (Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)) / (Dot(plane.Normal, Normalize(line.Direction)))
	return Add(line.Vector, Normalize(line.Direction).Scaled(t))''','''	direction := Normalize(line.Direction)
	slope := Dot(plane.Normal, direction)
	if slope != 0 {
		offset := Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)
		return Add(line.Vector, direction.Scaled(offset/slope))
	}
	panic("plane and line are parallel. Therefore, no intersection")'''))
r('vector: norm via Magnitude, Normalize via pointer',(rv,'''	n2 := v.Norm2()
	if n2 == 0 {
		return Vector{0, 0, 0}
	}
	return v.Scaled(1 / math.Sqrt(n2))''','''	w := v
	w.Normalize()
	return w'''),(rv,'''func (v Vector) Norm() float64 { return math.Sqrt(float64(Dot(v, v))) }''','''func (v Vector) Norm() float64 { return v.Magnitude() }'''))
r('vector: Sub via Scale',(rv,'''	v.X = v.X - ov.X
	v.Y = v.Y - ov.Y
	v.Z = v.Z - ov.Z
}

func Sub''','''	*v = Sub(*v, ov)
}

func Sub'''),(rv,'''	v.X = f * v.X
	v.Y = f * v.Y
	v.Z = f * v.Z
	return v''','''	for _, c := range []*float64{&v.X, &v.Y, &v.Z} {
		*c *= f
	}
	return v'''))
r('vector: cross via det',(rv,'''	return Vector{v.Y*ov.Z - ov.Y*v.Z, v.Z*ov.X - ov.Z*v.X, v.X*ov.Y - ov.X*v.Y}''','''	minor := func(a, b, c, d float64) float64 { return a*d - b*c }
	return Vector{minor(v.Y, v.Z, ov.Y, ov.Z), minor(v.Z, v.X, ov.Z, ov.X), minor(v.X, v.Y, ov.X, ov.Y)}'''))
r('vector: interpolate via GetInterpolationVector',(rv,'''	t1 := 1 - t
	return Vector{
		a.X*t1 + b.X*t,
		a.Y*t1 + b.Y*t,
		a.Z*t1 + b.Z*t,
	}''','''	return b.GetInterpolationVector(*a, t)'''))
r('vector: abs',(rv,'''	v.X = math.Abs(v.X)
	v.Y = math.Abs(v.Y)
	v.Z = math.Abs(v.Z)
}''','''	if v.X < 0 {
		v.X = -v.X
	}
	v.Y, v.Z = math.Max(v.Y, -v.Y), math.Abs(v.Z)
}'''))
r('sphere: rings helper',(sp,'''	for j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
		//fmt.Println("A",k1+1,"B", k2, "C", k2+1)
		// k1+1 => k2 => k2+1
		sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)
	}''','''	for k2 <= uint32(2*sd.sectorCount) {
		sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)
		k1++
		k2++
	}'''),(sp,'''	k1 = uint32((sd.stackCount - 1) * (sd.sectorCount + 1))
	k2 = k1 + uint32(sd.sectorCount+1)
''','''	row := sd.sectorCount + 1
	k2 = uint32(sd.stackCount * row)
	k1 = k2 - uint32(row)
'''))
r('sphere: ring function',(sp,'''		for j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {

			// 2 triangles per sector excluding first and last stacks
			// k1 => k2 => k1+1
			sphere.Indices = append(sphere.Indices, k1, k2, k1+1)

			// k1+1 => k2 => k2+1
			sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)

		}

	}
''','''		sd.ring(sphere, k1, k2)
	}
'''),(sp,'''func (sd Sphere) generateIndices''','''func (sd Sphere) ring(sphere *Mesh, k1, k2 uint32) {
	n := uint32(sd.sectorCount)
	for o := uint32(0); o < n; o++ {
		a, b := k1+o, k2+o
		sphere.Indices = append(sphere.Indices, a, b, a+1, a+1, b, b+1)
	}
}

func (sd Sphere) generateIndices'''))
r('sphere: vertices one by one',(sp,'''			Vector := r3.Vector{x, y, z}
			Vector.Add(sd.center)
			sphere.Vertices = append(sphere.Vertices, Vector)

			// normalized vertex normal (nx, ny, nz)
			nx = x * lengthInv
			ny = y * lengthInv
			nz = z * lengthInv

			normal := [3]float64{nx, ny, nz}
			sphere.Normals = append(sphere.Normals, normal)
''','''			nx, ny, nz = x*lengthInv, y*lengthInv, z*lengthInv
			sphere.Normals = append(sphere.Normals, [3]float64{nx, ny, nz})

			sphere.Vertices = append(sphere.Vertices, r3.Add(sd.center, r3.Vector{X: x, Y: y, Z: z}))
'''))
r('sphere: preallocated vertices',(sp,'''	for i := 0; i <= sd.stackCount; i++ {

		stackAngle''','''	count := (sd.stackCount + 1) * (sd.sectorCount + 1)
	sphere.Vertices = make([]r3.Vector, 0, count)
	sphere.Normals = make([][3]float64, 0, count)
	sphere.TexCoords = make([][2]float64, 0, count)
	for i := 0; i <= sd.stackCount; i++ {

		stackAngle'''))
r('sphere: indexed vertices',(sp,'''	for i := 0; i <= sd.stackCount; i++ {

		stackAngle''','''	count := (sd.stackCount + 1) * (sd.sectorCount + 1)
	sphere.Vertices = make([]r3.Vector, count)
	at := 0
	for i := 0; i <= sd.stackCount; i++ {

		stackAngle'''),(sp,'''			sphere.Vertices = append(sphere.Vertices, Vector)
''','''			sphere.Vertices[at] = Vector
			at++
'''))
r('torus: flat loop',(to,'''	for i := 0; i < td.stackCount; i++ {

		k1 = uint32(i * (td.sectorCount + 1)) // beginning of current stack
		k2 = k1 + uint32(td.sectorCount+1)    // beginning of next stack

		for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
''','''	row := uint32(td.sectorCount) + 1
	for i := uint32(0); i < uint32(td.stackCount); i++ {
		for j := uint32(0); j+1 < row; j++ {
			k1 = i*row + j
			k2 = k1 + row
'''))
r('torus: hoisted trig',(to,'''		xy = td.radius + td.tubeRadius*math.Cos(stackAngle) // R + r * cos(u)
		z = td.tubeRadius * math.Sin(stackAngle)            // r * sin(u)
''','''		sin, cos := math.Sincos(stackAngle)
		xy = td.radius + td.tubeRadius*cos
		z = td.tubeRadius * sin
'''),(to,'''			nx = math.Cos(stackAngle) * math.Cos(sectorAngle)
			ny = math.Cos(stackAngle) * math.Sin(sectorAngle)
			nz = math.Sin(stackAngle)
''','''			nx = cos * math.Cos(sectorAngle)
			ny = cos * math.Sin(sectorAngle)
			nz = sin
'''))
r('circle via ellipse',(ci,'''	circle := Mesh{}

	c.generateVertices(&circle)
	c.generateIndices(&circle)

	return circle
''','''	return Ellipse{c.center, c.radius, c.radius, c.sectorCount}.Construct()
'''))
r('circle: modular indices',(ci,'''	for i := 1; i < lenVertices-1; i++ {
		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)

	}
	circle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 1)
	circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)
''','''	fan := func(a, b int) {
		circle.Indices = append(circle.Indices, 0, uint32(a), uint32(b), uint32(b), uint32(a), 0)
	}
	last := lenVertices - 1
	for i := 1; i < last; i++ {
		fan(i, i+1)
	}
	fan(last, 1)
'''))
r('circle: modulo',(ci,'''	for i := 1; i < lenVertices-1; i++ {
		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)

	}
	circle.Indices = append(circle.Indices, 0, uint32(lenVertices-1), 1)
	circle.Indices = append(circle.Indices, 1, uint32(lenVertices-1), 0)
''','''	n := lenVertices - 1
	if n < 1 {
		return
	}
	for i := 0; i < n; i++ {
		a, b := uint32(i+1), uint32((i+1)%n+1)
		circle.Indices = append(circle.Indices, 0, a, b)
		circle.Indices = append(circle.Indices, b, a, 0)
	}
'''))
r('ellipse: while loop',(el,'''	for i := 0; i < e.sectorCount; i++ {

		sectorAngle := math.Pi/2 - float64(i)*sectorStep // starting from pi/2 to -pi/2
''','''	for len(circle.Vertices) <= e.sectorCount {
		i := len(circle.Vertices) - 1
		sectorAngle := math.Pi/2 - float64(i)*sectorStep // starting from pi/2 to -pi/2
'''))
r('englobe: bounding box min/max',(en,'''		if Vector.X < minExtremity.X {
			minExtremity.X = Vector.X
		}
		if Vector.Y < minExtremity.Y {
			minExtremity.Y = Vector.Y
		}
		if Vector.Z < minExtremity.Z {
			minExtremity.Z = Vector.Z
		}
''','''		lower := func(m *float64, x float64) {
			if *m > x {
				*m = x
			}
		}
		lower(&minExtremity.X, Vector.X)
		lower(&minExtremity.Y, Vector.Y)
		lower(&minExtremity.Z, Vector.Z)
'''))
r('englobe: line helper',(en,'''	upperVector2 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z}
	Direct2 := r3.Sub(top, upperVector2)
	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
	// second bottom Intersection Vector
	tetraPoint2 := line2.IntersectPlane(lowerPlane)
''','''	drop := func(v r3.Vector) r3.Vector {
		return r3.Line{Vector: v, Direction: r3.Sub(top, v)}.IntersectPlane(lowerPlane)
	}
	tetraPoint2 := drop(r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z})
'''))
r('t3: SameSide',(ut,'''	if dotV4 <= 0 && dotP <= 0 {
		return true
	}
	if dotV4 >= 0 && dotP >= 0 {
		return true
	}

	return false
''','''	switch {
	case dotV4 > 0:
		return dotP >= 0
	case dotV4 < 0:
		return dotP <= 0
	default:
		return dotP <= 0 || dotP >= 0
	}
'''))
r('t3: SameSide product of signs',(ut,'''	if dotV4 <= 0 && dotP <= 0 {
		return true
	}
	if dotV4 >= 0 && dotP >= 0 {
		return true
	}

	return false
''','''	return (dotV4 <= 0 && dotP <= 0) || (dotV4 >= 0 && dotP >= 0)
'''))
r('t3: centroid',(ut,'''	x := (p0.X + p1.X + p2.X + p3.X) / 4.0
	y := (p0.Y + p1.Y + p2.Y + p3.Y) / 4.0
	z := (p0.Z + p1.Z + p2.Z + p3.Z) / 4.0
	return r3.Vector{x, y, z}''','''	sum := r3.Zero
	for _, p := range []r3.Vector{p0, p1, p2, p3} {
		sum.Add(p)
	}
	return sum.Scaled(0.25)'''))
r('t3: Get2Ddist via Cross',(ut,'''	abx := b.X - a.X
	aby := b.Y - a.Y
	abz := b.Z - a.Z

	acx := c.X - a.X
	acy := c.Y - a.Y
	acz := c.Z - a.Z

	xy := abx*acy - aby*acx
	yz := aby*acz - abz*acy
	zx := abz*acx - abx*acz

	dist := xy*xy + yz*yz + zx*zx

	return dist
''','''	return r3.Cross(r3.Sub(b, a), r3.Sub(c, a)).Norm2()
'''))
r('t3: furthest index',(gd,'''	max := 0.0
	var furthestVector r3.Vector
	for _, Vector := range Vectors {
		dist := Get2Ddist(a, b, Vector)
		if max < dist {
			furthestVector = Vector
			max = dist
		}
	}
	return furthestVector
''','''	best := -1
	max := 0.0
	for i := range Vectors {
		if dist := Get2Ddist(a, b, Vectors[i]); dist > max {
			best, max = i, dist
		}
	}
	if best < 0 {
		return r3.Vector{}
	}
	return Vectors[best]
'''))
r('gltf: colours',(ex,'''	for i := 0; i < len(mesh.Vertices); i++ {
		colors = append(colors, white)
	}
''','''	for range mesh.Vertices {
		colors = append(colors, white)
	}
'''))
r('gltf: colours preallocated',(ex,'''	colors := make([][3]uint8, 0)
''','''	colors := make([][3]uint8, len(mesh.Vertices))
'''),(ex,'''	for i := 0; i < len(mesh.Vertices); i++ {
		colors = append(colors, white)
	}
''','''	for i := range colors {
		colors[i] = white
	}
'''))
r('gltf: primitive variable, order',(ex,'''	positionAccessor := modeler.WritePosition(doc, model.Positions)
	indicesAccessor := modeler.WriteIndices(doc, model.Indices)
''','''	indicesAccessor := modeler.WriteIndices(doc, model.Indices)
	positionAccessor := modeler.WritePosition(doc, model.Positions)
'''),(ex,'''	doc.Meshes = []*gltf.Mesh{{
		Name: "drawTriangle",
		Primitives: []*gltf.Primitive{{
			Indices: gltf.Index(indicesAccessor),
			Attributes: map[string]uint32{
				"POSITION": positionAccessor,
				"COLOR_0":  colorIndices,
				// "NORMAL":     NormalsAccessor,
				// "TEXCOORD_1": TexCoordsAccessor,
			},
		}},
	}}''','''	attributes := map[string]uint32{}
	attributes["POSITION"] = positionAccessor
	attributes["COLOR_0"] = colorIndices
	primitive := &gltf.Primitive{Attributes: attributes}
	primitive.Indices = gltf.Index(indicesAccessor)
	drawn := &gltf.Mesh{Name: "drawTriangle"}
	drawn.Primitives = append(drawn.Primitives, primitive)
	doc.Meshes = append(doc.Meshes, drawn)'''))
