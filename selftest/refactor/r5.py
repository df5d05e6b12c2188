R=[]
def r(n,*e): R.append((n,list(e)))
PI='predicates/insphere.go'
r('fast: vectors', (PI,'''	aex := pa.X - pe.X
	bex := pb.X - pe.X
	cex := pc.X - pe.X
	dex := pd.X - pe.X
	aey := pa.Y - pe.Y
	bey := pb.Y - pe.Y
	cey := pc.Y - pe.Y
	dey := pd.Y - pe.Y
	aez := pa.Z - pe.Z
	bez := pb.Z - pe.Z
	cez := pc.Z - pe.Z
	dez := pd.Z - pe.Z

	ab := aex*bey''','''	a, b, c, d := r3.Sub(pa, pe), r3.Sub(pb, pe), r3.Sub(pc, pe), r3.Sub(pd, pe)
	aex, aey, aez := a.X, a.Y, a.Z
	bex, bey, bez := b.X, b.Y, b.Z
	cex, cey, cez := c.X, c.Y, c.Z
	dex, dey, dez := d.X, d.Y, d.Z

	ab := aex*bey'''))
r('fast: lift via norm2', (PI,'''	alift := aex*aex + aey*aey + aez*aez
	blift := bex*bex + bey*bey + bez*bez
	clift := cex*cex + cey*cey + cez*cez
	dlift := dex*dex + dey*dey + dez*dez

	return''','''	lift := func(x, y, z float64) float64 { return x*x + y*y + z*z }
	alift, blift, clift, dlift := lift(aex, aey, aez), lift(bex, bey, bez), lift(cex, cey, cez), lift(dex, dey, dez)

	return'''))
r('fast: calls shared determinant', (PI,'''	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)
}

func inSphere(''','''	return combine(alift, blift, clift, dlift, abc, bcd, cda, dab)
}

func combine(alift, blift, clift, dlift, abc, bcd, cda, dab float64) float64 {
	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)
}

func inSphere('''),(PI,'det := (clift*dab - dlift*abc) + (alift*bcd - blift*cda)','det := combine(alift, blift, clift, dlift, abc, bcd, cda, dab)'))
r('inSphere: abs comparison', (PI,'if det > errbound || -det > errbound {','if math.Abs(det) > errbound {'))
r('inSphere: inverted', (PI,'''	if det > errbound || -det > errbound {
		return det
	}
	return -inSphereAdapt''','''	certain := det > errbound || det < -errbound
	if certain {
		return det
	}
	return -inSphereAdapt'''))
r('inSphere: permanent helper', (PI,'''	permanent := ((cexdeyplus+dexceyplus)*bezplus+(dexbeyplus+bexdeyplus)*cezplus+(bexceyplus+cexbeyplus)*dezplus)*alift +''','''	term := func(u, uz, v, vz, w, wz, lift float64) float64 { return (u*uz + v*vz + w*wz) * lift }
	permanent := term(cexdeyplus+dexceyplus, bezplus, dexbeyplus+bexdeyplus, cezplus, bexceyplus+cexbeyplus, dezplus, alift) +'''))
r('inSphere: abs of products', (PI,'''	aexbeyplus := math.Abs(aexbey)''','''	aexbeyplus := math.Abs(aex) * math.Abs(bey)'''))
r('inSphere: adapt negative zero', (PI,'return -inSphereAdapt(','return inSphereAdapt('))
r('inSphere: cheap certainty first', (PI,'''	errbound := isperrboundA * permanent
	if det > errbound || -det > errbound {
		return det
	}
''','''	if bound := isperrboundA * permanent; bound < det || bound < -det {
		return det
	}
'''))
r('orient: cofactors', ('predicates/orient3d.go','''	return adx*(bdy*cdz-bdz*cdy) +
		bdx*(cdy*adz-cdz*ady) +
		cdx*(ady*bdz-adz*bdy)''','''	bc := bdy*cdz - bdz*cdy
	ca := cdy*adz - cdz*ady
	ab := ady*bdz - adz*bdy
	return adx*bc + bdx*ca + cdx*ab'''))
r('orient: via r3', ('predicates/orient3d.go','''	adx := a.X - d.X
	bdx := b.X - d.X
	cdx := c.X - d.X
	ady := a.Y - d.Y
	bdy := b.Y - d.Y
	cdy := c.Y - d.Y
	adz := a.Z - d.Z
	bdz := b.Z - d.Z
	cdz := c.Z - d.Z

	return adx*(bdy*cdz-bdz*cdy) +
		bdx*(cdy*adz-cdz*ady) +
		cdx*(ady*bdz-adz*bdy)''','''	return r3.Dot(r3.Sub(a, d), r3.Cross(r3.Sub(b, d), r3.Sub(c, d)))'''))
r('englobe: append corners', ('triangulate3/englober.go','''	vertices := []r3.Vector{top, tetraPoint1, tetraPoint2, tetraPoint3}''','''	vertices := make([]r3.Vector, 0, 4)
	vertices = append(vertices, top)
	vertices = append(vertices, tetraPoint1, tetraPoint2, tetraPoint3)'''))
r('englobe: loop', ('triangulate3/englober.go','''	//Line 1
	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, 2*maxExtremity.Z - minExtremity.Z}
	Direct1 := r3.Sub(top, upperVector1)
	line1 := r3.Line{Vector: upperVector1, Direction: Direct1}
	// first bottom Intersection Vector
	tetraPoint1 := line1.IntersectPlane(lowerPlane)

	//Line 2
	upperVector2 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z}
	Direct2 := r3.Sub(top, upperVector2)
	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
	// second bottom Intersection Vector
	tetraPoint2 := line2.IntersectPlane(lowerPlane)

	//Line 3
	upperVector3 := r3.Vector{2*maxExtremity.X - minExtremity.X, maxExtremity.Y, minExtremity.Z}
	Direct3 := r3.Sub(top, upperVector3)
	line3 := r3.Line{Vector: upperVector3, Direction: Direct3}
	// third bottom Intersection Vector
	tetraPoint3 := line3.IntersectPlane(lowerPlane)
''','''	uppers := []r3.Vector{
		{X: minExtremity.X, Y: maxExtremity.Y, Z: 2*maxExtremity.Z - minExtremity.Z},
		{X: minExtremity.X, Y: maxExtremity.Y, Z: minExtremity.Z},
		{X: 2*maxExtremity.X - minExtremity.X, Y: maxExtremity.Y, Z: minExtremity.Z},
	}
	vertices := []r3.Vector{top}
	for _, upper := range uppers {
		line := r3.Line{Vector: upper, Direction: r3.Sub(top, upper)}
		vertices = append(vertices, line.IntersectPlane(lowerPlane))
	}
'''),('triangulate3/englober.go','''	vertices := []r3.Vector{top, tetraPoint1, tetraPoint2, tetraPoint3}
''',''))
r('englobe: top', ('triangulate3/englober.go','''	x := minExtremity.X
	y := minExtremity.Y + 3*(maxExtremity.Y-minExtremity.Y)
	z := minExtremity.Z

	return r3.Vector{x, y, z}''','''	top := minExtremity
	height := maxExtremity.Y - minExtremity.Y
	top.Y += 3 * height
	return top'''))
r('englobe: top other formula', ('triangulate3/englober.go','y := minExtremity.Y + 3*(maxExtremity.Y-minExtremity.Y)','y := 3*maxExtremity.Y - 2*minExtremity.Y'))
r('englobe: bbox starts at first', ('triangulate3/englober.go','''		if Vector.X < minExtremity.X {
			minExtremity.X = Vector.X
		}
		if Vector.Y < minExtremity.Y {
			minExtremity.Y = Vector.Y
		}
		if Vector.Z < minExtremity.Z {
			minExtremity.Z = Vector.Z
		}
''','''		lower(&minExtremity.X, Vector.X)
		lower(&minExtremity.Y, Vector.Y)
		lower(&minExtremity.Z, Vector.Z)
'''),('triangulate3/englober.go','''func computeBoundingBox''','''func lower(bound *float64, value float64) {
	if value < *bound {
		*bound = value
	}
}

func computeBoundingBox'''))
r('tetra: extremes helper', ('triangulate3/gdel3d.go','''	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
	for _, Vector := range Vectors {
		//Updating the minExtremity
		if Vector.X < minExtremity.X {
			minExtremity = Vector
		}

		//Updating the maxExtremity
		if Vector.X > maxExtremity.X {
			maxExtremity = Vector
		}

	}
''','''	minExtremity := r3.Vector{X: math.MaxFloat64, Y: math.MaxFloat64, Z: math.MaxFloat64}
	maxExtremity := r3.Vector{X: -math.MaxFloat64, Y: -math.MaxFloat64, Z: -math.MaxFloat64}
	for i := range Vectors {
		v := Vectors[i]
		if minExtremity.X > v.X {
			minExtremity = v
		}
		if !(maxExtremity.X >= v.X) {
			maxExtremity = v
		}
	}
'''))
r('tetra: furthest generic', ('triangulate3/gdel3d.go','''	max := 0.0
	var furthestVector r3.Vector
	for _, Vector := range Vectors {
		dist := Get2Ddist(a, b, Vector)
		if max < dist {
			furthestVector = Vector
			max = dist
		}
	}
	return furthestVector
}
''','''	return furthestBy(Vectors, func(v r3.Vector) float64 { return Get2Ddist(a, b, v) })
}

func furthestBy(Vectors []r3.Vector, measure func(r3.Vector) float64) (furthest r3.Vector) {
	best := 0.0
	for _, v := range Vectors {
		if d := measure(v); d > best {
			furthest, best = v, d
		}
	}
	return
}
'''),('triangulate3/gdel3d.go','''	max := 0.0
	var furthestVector r3.Vector
	for _, Vector := range Vectors {
		dist := math.Abs(Get3Ddist(a, b, c, Vector))
		if max < dist {
			furthestVector = Vector
			max = dist
		}
	}
	return furthestVector
''','''	return furthestBy(Vectors, func(v r3.Vector) float64 { return math.Abs(Get3Ddist(a, b, c, v)) })
'''))
r('t3: inTetra early', ('triangulate3/util.go','''	return SameSide(v1, v2, v3, v4, p) &&
		SameSide(v2, v3, v4, v1, p) &&
		SameSide(v3, v4, v1, v2, p) &&
		SameSide(v4, v1, v2, v3, p)''','''	v := [4]r3.Vector{v1, v2, v3, v4}
	for i := 0; i < 4; i++ {
		if !SameSide(v[i], v[(i+1)%4], v[(i+2)%4], v[(i+3)%4], p) {
			return false
		}
	}
	return true'''))
r('t3: Get3Ddist via r3', ('triangulate3/util.go','''	abx := b.X - a.X
	aby := b.Y - a.Y
	abz := b.Z - a.Z
	acx := c.X - a.X
	acy := c.Y - a.Y
	acz := c.Z - a.Z

	adx := d.X - a.X
	ady := d.Y - a.Y
	adz := d.Z - a.Z

	bc := abx*acy - aby*acx
	cd := acx*ady - acy*adx
	db := adx*aby - ady*abx

	dist := abz*cd + acz*db + adz*bc

	return dist''','''	ab, ac, ad := r3.Sub(b, a), r3.Sub(c, a), r3.Sub(d, a)
	return r3.Dot(ab, r3.Cross(ac, ad))'''))
r('centroid via add', ('triangulate3/util.go','''	x := (p0.X + p1.X + p2.X + p3.X) / 4.0
	y := (p0.Y + p1.Y + p2.Y + p3.Y) / 4.0
	z := (p0.Z + p1.Z + p2.Z + p3.Z) / 4.0
	return r3.Vector{x, y, z}''','''	sum := r3.Add(r3.Add(r3.Add(p0, p1), p2), p3)
	return r3.Vector{X: sum.X / 4, Y: sum.Y / 4, Z: sum.Z / 4}'''))
r('plane: normal via Cross', ('r3/plane.go','''	return Vector{
		U.Y*V.Z - U.Z*V.Y,
		U.Z*V.X - U.X*V.Z,
		U.X*V.Y - U.Y*V.X,
	}''','''	return Cross(U, V)'''))
r('plane: field order', ('r3/plane.go','return Plane{Normal: normal, Distance: -Dot(normal, origin)}','''distance := Dot(normal, origin)
	return Plane{normal, -distance}'''))
r('gltf: positions prealloc', ('glTF/model.go','''	positions := make([][3]float32, 0)

	for _, v := range mesh.Vertices {
		p := [3]float32{
			float32(v.X),
			float32(v.Y),
			float32(v.Z)}
		positions = append(positions, p)
	}
''','''	positions := make([][3]float32, len(mesh.Vertices))
	for i, v := range mesh.Vertices {
		positions[i][0] = float32(v.X)
		positions[i][1] = float32(v.Y)
		positions[i][2] = float32(v.Z)
	}
'''))
r('gltf: toFloat32 helper', ('glTF/model.go','''		p := [3]float32{
			float32(v.X),
			float32(v.Y),
			float32(v.Z)}
		positions = append(positions, p)
''','''		positions = append(positions, single(v))
'''),('glTF/model.go','import "geGoMetry/shape"','''import (
	"geGoMetry/r3"
	"geGoMetry/shape"
)

func single(v r3.Vector) [3]float32 {
	return [3]float32{float32(v.X), float32(v.Y), float32(v.Z)}
}'''))
r('gltf: copy indices', ('glTF/model.go','model := Model{Positions: positions, Indices: mesh.Indices}','''indices := make([]uint32, len(mesh.Indices))
	copy(indices, mesh.Indices)
	model := Model{Positions: positions, Indices: indices}'''))
r('gltf: doc helper', ('glTF/export.go','''	doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}
	doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)
	if err := gltf.SaveBinary(doc, outputFile); err != nil {
		panic(err)
	}
}''','''	save(doc, outputFile)
}

func save(doc *gltf.Document, outputFile string) {
	doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}
	doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)
	err := gltf.SaveBinary(doc, outputFile)
	if err == nil {
		return
	}
	panic(err)
}'''))
r('gltf: attributes variable', ('glTF/export.go','''	doc.Meshes = []*gltf.Mesh{{
		Name: "drawTriangle",
		Primitives: []*gltf.Primitive{{
			Indices: gltf.Index(indicesAccessor),
			Attributes: map[string]uint32{
				"POSITION": positionAccessor,
				"COLOR_0":  colorIndices,
				// "NORMAL":     NormalsAccessor,
				// "TEXCOORD_1": TexCoordsAccessor,
			},
		}},
	}}''','''	attributes := make(map[string]uint32)
	attributes["POSITION"] = positionAccessor
	attributes["COLOR_0"] = colorIndices
	primitive := &gltf.Primitive{Indices: gltf.Index(indicesAccessor), Attributes: attributes}
	mesh3d := &gltf.Mesh{Name: "drawTriangle"}
	mesh3d.Primitives = append(mesh3d.Primitives, primitive)
	doc.Meshes = append(doc.Meshes, mesh3d)'''))
r('shape: constructors direct', ('shape/shape.go','''	s := Sphere{center, radius, sectorCount, stackCount}
	sphere := s.Construct()

	return sphere''','''	return Sphere{center, radius, sectorCount, stackCount}.Construct()'''),('shape/shape.go','''	t := Ellipse{center, semiAxis1, semiAxis2, sectorCount}
	torus := t.Construct()

	return torus''','''	return Ellipse{center, semiAxis1, semiAxis2, sectorCount}.Construct()'''))
r('shape: constants', ('shape/shape.go','''	sectorCount := 300
	stackCount := 300
''','''	const sectorCount, stackCount = 300, 300
'''))
T='step/template.go'
r('template: state helper', (T,'''	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.argument(key, 1)}
	xDirectionState := parseState{fn: p.direction, key: p.argument(key, 2)}
	yDirectionState := parseState{fn: p.direction, key: p.argument(key, 3)}
	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
''','''	p.nextStates = append(p.nextStates, parseState{fn: p.cartesianPoint, key: p.argument(key, 1)})
	for index := 2; index <= 3; index++ {
		p.nextStates = append(p.nextStates, parseState{fn: p.direction, key: p.argument(key, index)})
	}
'''))
r('template: bspline fields direct', (T,'''	surfaceJob := bSplineSurfaceWithKnots{
		name:              name,
		uDegree:           uDegree,
		vDegree:           vDegree,
''','''	surfaceJob := bSplineSurfaceWithKnots{
		uDegree:           uDegree,
		name:              name,
		vDegree:           vDegree,
'''))
r('template: bspline assign', (T,'''	surfaceJob := bSplineSurfaceWithKnots{
		name:              name,
		uDegree:           uDegree,
		vDegree:           vDegree,
		controlPointsList: controlPointsList,
		surfaceForm:       surfaceForm,
		uClosed:           uClosed,
		vClosed:           vClosed,
		selfIntersect:     selfIntersect,
		uMultiplicities:   uMultiplicities,
		vMultiplicities:   vMultiplicities,
		uKnots:            uKnots,
		vKnots:            vKnots,
	}
''','''	var surfaceJob bSplineSurfaceWithKnots
	surfaceJob.name = name
	surfaceJob.uDegree, surfaceJob.vDegree = uDegree, vDegree
	surfaceJob.controlPointsList = controlPointsList
	surfaceJob.surfaceForm = surfaceForm
	surfaceJob.uClosed, surfaceJob.vClosed, surfaceJob.selfIntersect = uClosed, vClosed, selfIntersect
	surfaceJob.uMultiplicities, surfaceJob.vMultiplicities = uMultiplicities, vMultiplicities
	surfaceJob.uKnots, surfaceJob.vKnots = uKnots, vKnots
'''))
r('template: args closure', (T,'''	name := p.argument(key, 0)
	uDegree := p.argument(key, 1)
	vDegree := p.argument(key, 2)
	controlPointsList := getMatrix(p.argument(key, 3))''','''	arg := func(i int) string { return p.argument(key, i) }
	name := arg(0)
	uDegree := arg(1)
	vDegree := arg(2)
	controlPointsList := getMatrix(arg(3))'''))
r('template: argument bound', (T,'''	if index >= len(arguments) {
		return ""
	}
	return strings.TrimSpace(arguments[index])''','''	text := ""
	if len(arguments) > index {
		text = strings.TrimSpace(arguments[index])
	}
	return text'''))
r('job: value print', ('step/job.go','''	fmt.Println("name:", nurb.name)
''','''	degree := nurb.uDegree
	fmt.Println("name:", nurb.name)
'''),('step/job.go','fmt.Println("uDegree:", nurb.uDegree)','fmt.Println("uDegree:", degree)'))
