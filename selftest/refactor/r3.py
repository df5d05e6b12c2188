mm='meshing/mesh.go'; mh='meshing/helper.go'; mf='meshing/flip.go'; mu='meshing/util.go'
lx='step/lex.go'; pa='step/parse.go'; te='step/template.go'; su='step/util.go'; br='step/bridge.go'
R=[]
def r(name,*e): R.append((name,e))
r('edge equal',(mm,'''	if e.start == e1.start {
		if e.end == e1.end {
			return true
		}
	}
	return false''','''	return e == e1'''))
r('isPartOfMesh loop',(mm,'''	found := (f.pa >= 0) && (f.pa <= 3)
	if found {
		return false
	}
	found = (f.pb >= 0) && (f.pb <= 3)
	if found {
		return false
	}

	found = (f.pc >= 0) && (f.pc <= 3)
	if found {
		return false
	}

	return true''','''	for _, p := range [...]int{f.pa, f.pb, f.pc} {
		if p >= 0 && p <= 3 {
			return false
		}
	}
	return true'''))
r('face hash by swaps',(mm,'''	indexList := []int{f.pa, f.pb, f.pc}
	sort.Ints(indexList)
	hashList := []string{strconv.Itoa(indexList[0]), strconv.Itoa(indexList[1]), strconv.Itoa(indexList[2])}
	hash := strings.Join(hashList, ".")
	return hash''','''	a, b, c := f.pa, f.pb, f.pc
	if a > b {
		a, b = b, a
	}
	if b > c {
		b, c = c, b
	}
	if a > b {
		a, b = b, a
	}
	return strconv.Itoa(a) + "." + strconv.Itoa(b) + "." + strconv.Itoa(c)'''),(mm,'	"strings"\n',''))
r('face hash sprintf',(mm,'''	hashList := []string{strconv.Itoa(indexList[0]), strconv.Itoa(indexList[1]), strconv.Itoa(indexList[2])}
	hash := strings.Join(hashList, ".")
	return hash''','''	return fmt.Sprintf("%d.%d.%d", indexList[0], indexList[1], indexList[2])'''),(mm,'	"strings"\n',''))
r('face hash join loop',(mm,'''	hashList := []string{strconv.Itoa(indexList[0]), strconv.Itoa(indexList[1]), strconv.Itoa(indexList[2])}
	hash := strings.Join(hashList, ".")''','''	hashList := make([]string, 0, len(indexList))
	for _, index := range indexList {
		hashList = append(hashList, strconv.Itoa(index))
	}
	hash := strings.Join(hashList, ".")'''))
r('circumsphere sign',(mm,'''	if volume < 0 {
		inSphere = -inSphere
	}
	return inSphere >= 0''','''	if volume >= 0 {
		return inSphere >= 0
	}
	return inSphere <= 0'''))
r('circumsphere swap corners',(mm,'''	inSphere := predicates.InSphereFast(pa, pb, pc, pd, p)
	volume := r3.Dot(r3.Cross(r3.Sub(pb, pa), r3.Sub(pc, pa)), r3.Sub(pd, pa))
	if volume < 0 {
		inSphere = -inSphere
	}
	return inSphere >= 0''','''	ab, ac, ad := r3.Sub(pb, pa), r3.Sub(pc, pa), r3.Sub(pd, pa)
	if r3.Dot(ab, r3.Cross(ac, ad)) < 0 {
		pb, pc = pc, pb
	}
	return predicates.InSphereFast(pa, pb, pc, pd, p) >= 0'''))
r('sortedKeys',(mm,'''	keys := make([]string, 0, len(t))
	for key := range t {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	return keys''','''	var keys []string
	for key := range t {
		keys = append(keys, key)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	return keys'''))
r('bw: bad tetra helper',(mm,'''		badTetras := []tetra{}
		polyhedron := []face{}
''','''		badTetras := t.violated(points, point)
		polyhedron := []face{}
'''),(mm,'''		for _, tetraKey := range t.sortedKeys() {
			tetra := t[tetraKey]
			if tetra.circumsphereContains(points, point) {
				badTetras = append(badTetras, tetra)
			}
		}
''',''),(mm,'''func bowyerWatson(''','''func (t tetrahedrisation) violated(points []r3.Vector, point r3.Vector) []tetra {
	bad := []tetra{}
	for _, key := range t.sortedKeys() {
		if t[key].circumsphereContains(points, point) {
			bad = append(bad, t[key])
		}
	}
	return bad
}

func bowyerWatson('''))
r('bw: counts',(mm,'''		faceSet := make(map[string]faceCheck, 0)
''','''		faceCount := map[string]int{}
'''),(mm,'''		for badTetraIndex, badTetra := range badTetras {
			for faceIndex, face := range badTetra.faces {
				if _, ok := faceSet[face.hash()]; !ok {
					faceSet[face.hash()] = faceCheck{false, badTetraIndex, faceIndex}
				} else {
					faceSet[face.hash()] = faceCheck{true, -1, -1}
				}
			}
		}
''','''		for _, badTetra := range badTetras {
			for _, face := range badTetra.faces {
				faceCount[face.hash()]++
			}
		}
'''),(mm,'''				if faceSet[face.hash()].check == false {''','''				if faceCount[face.hash()] == 1 {'''))
r('bw: remove while finding',(mm,'''				badTetras = append(badTetras, tetra)
''','''				badTetras = append(badTetras, tetra)
				delete(t, tetraKey)
'''),(mm,'''		for _, badTetra := range badTetras {
			badTetraHash := tetraHash(badTetra)
			delete(t, badTetraHash)
		}
''',''))
r('bw: connect directly',(mm,'''					polyhedron = append(polyhedron, face)
''','''					polyhedron = append(polyhedron, face)
					_ = len(polyhedron)
'''),(mm,'''		for _, face := range polyhedron {
			t.addTetra(connect(face, pointIndex+4))
		}
''','''		vertex := pointIndex + 4
		for i := 0; i < len(polyhedron); i++ {
			created := connect(polyhedron[i], vertex)
			t[tetraHash(created)] = created
		}
'''))
r('bw: output direct',(mm,'''				meshIndices = addFace(meshIndices, face)
''','''				meshIndices = append(meshIndices, face.pa-4, face.pb-4, face.pc-4)
'''),(mm,'''	fmt.Println(meshIndices)

''',''),(mm,'	"fmt"\n',''))
r('englobe',(mm,'''	p1, p2, p3, p4 := h.computerInitialTetraPoints()
	(*points) = append([]r3.Vector{p1, p2, p3, p4}, (*points)...)
''','''	p1, p2, p3, p4 := h.computerInitialTetraPoints()
	all := make([]r3.Vector, 0, len(*points)+4)
	all = append(all, p1, p2, p3, p4)
	for _, p := range *points {
		all = append(all, p)
	}
	*points = all
'''))
r('connect',(mm,'''	newTetraFaces := []face{
		face{f.pa, f.pb, f.pc},
		face{f.pb, f.pc, pointIndex},
		face{f.pc, pointIndex, f.pa},
		face{pointIndex, f.pa, f.pb},
	}

	return tetra{f.pa, f.pb, f.pc, pointIndex, newTetraFaces}''','''	created := tetra{ia: f.pa, ib: f.pb, ic: f.pc, id: pointIndex}
	created.faces = append(created.faces, f)
	created.faces = append(created.faces, face{f.pb, f.pc, pointIndex}, face{f.pc, pointIndex, f.pa}, face{pointIndex, f.pa, f.pb})
	return created'''))
r('connect: other face orientation',(mm,'''		face{f.pb, f.pc, pointIndex},
		face{f.pc, pointIndex, f.pa},
		face{pointIndex, f.pa, f.pb},
	}

	return''','''		face{pointIndex, f.pb, f.pc},
		face{f.pa, f.pc, pointIndex},
		face{f.pa, f.pb, pointIndex},
	}

	return'''))
r('tetraHash',(mm,'''	return string(strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))''','''	hash := ""
	for i, index := range []int{t.ia, t.ib, t.ic, t.id} {
		if i > 0 {
			hash += "."
		}
		hash += strconv.Itoa(index)
	}
	return hash'''))
r('tetraHash different separator',(mm,'''	return string(strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))''','''	return fmt.Sprintf("%d-%d-%d-%d", t.ia, t.ib, t.ic, t.id)'''))
r('nearest: squared',(mh,'''		distance := r3.Distance(vertex, centroid)
		fmt.Println("distance", distance, " point:", vertex, " nearestPoint:", nearestPoint)
		if distance <= minDistance {
''','''		distance := r3.SquaredDistance(vertex, centroid)
		if distance <= minDistance {
'''),(mh,'	"fmt"\n',''))
r('extremas',(mh,'''		if h.max.X < point.X {
			h.max.X = point.X
		}
		if h.max.Y < point.Y {
			h.max.Y = point.Y
		}
		if h.max.Z < point.Z {
			h.max.Z = point.Z
		}
''','''		h.max = r3.Vector{X: math.Max(h.max.X, point.X), Y: math.Max(h.max.Y, point.Y), Z: math.Max(h.max.Z, point.Z)}
'''))
r('duplicateInReverse',(mu,'''	for i := len(*indices) - 1; i >= 0; i-- {
		*indices = append(*indices, (*indices)[i])
	}''','''	n := len(*indices)
	for i := 0; i < n; i++ {
		*indices = append(*indices, (*indices)[n-1-i])
	}'''))
r('flip loop',(mf,'''	duplicateInReverse(&tetra1Indices)
	duplicateInReverse(&tetra2Indices)
	duplicateInReverse(&tetra3Indices)
	duplicateInReverse(&tetra4Indices)

	t.indices = []uint32{}
	t.indices = append(t.indices, tetra1Indices...)
	t.indices = append(t.indices, tetra2Indices...)
	t.indices = append(t.indices, tetra3Indices...)
	t.indices = append(t.indices, tetra4Indices...)
''','''	t.indices = nil
	for _, faces := range [][]uint32{tetra1Indices, tetra2Indices, tetra3Indices, tetra4Indices} {
		duplicateInReverse(&faces)
		t.indices = append(t.indices, faces...)
	}
'''))
# step
r('lex: scanner state',(lx,'''		if len(buffer) == 0 {
			continue // empty
		}
''',''),)
r('lex: emit helper',(lx,'''			if len(symbolText) > 0 {
				symbolTable.add(symbolText)
			}
''','''			symbolTable.add(symbolText)
'''))
r('lex: builder',(lx,'''			symbolText = buffer
		} else {
			symbolText += buffer
		}
	}
''','''			symbolText = ""
		}
		symbolText += buffer
	}
'''))
r('lex: startsDefinition loop',(lx,'''	identifier := stripWhiteSpaces(split[0])
	return strings.HasPrefix(identifier, "#") && strings.Trim(identifier[1:], "0123456789") == ""
''','''	identifier := stripWhiteSpaces(split[0])
	if !strings.HasPrefix(identifier, "#") {
		return false
	}
	for _, r := range identifier[1:] {
		if r < '0' || r > '9' {
			return false
		}
	}
	return true
'''))
r('lex: add index',(lx,'''	split := strings.SplitN(symbolText, "=", 2)
	if len(split) < 2 {
		return // not a definition
	}
	identifier := stripWhiteSpaces(split[0])
	definition := tokenize(split[1])
	(*st)[identifier] = definition
''','''	at := strings.Index(symbolText, "=")
	if at < 0 {
		return // not a definition
	}
	(*st)[stripWhiteSpaces(symbolText[:at])] = tokenize(symbolText[at+1:])
'''))
r('lex: tokenize merged',(lx,'''	if len(split) < 2 {
		return Definition{Type: stripWhiteSpaces(split[0])}
	}

	argumentsText := split[1]
	definitionArguments := getArguments(argumentsText)
	definitionType := stripWhiteSpaces(split[0])
	return Definition{
		Type:      definitionType,
		Arguments: definitionArguments,
	}''','''	definition := Definition{Type: stripWhiteSpaces(split[0])}
	if len(split) > 1 {
		definition.Arguments = getArguments(split[1])
	}
	return definition'''))
r('args: switch',(su,'''		if r == '\\'' {
			quoted = !quoted
		}
		if r == '(' && !quoted {
			openBrackets++
		}
		if r == ')' && !quoted {
			openBrackets--
		}
		if openBrackets < 0 {
			break // end of the arguments
		}
''','''		switch {
		case r == '\\'':
			quoted = !quoted
		case r == '(' && !quoted:
			openBrackets++
		case r == ')' && !quoted:
			openBrackets--
		}
		if openBrackets < 0 {
			break // end of the arguments
		}
'''))
r('args: shared splitter',(su,'''	arguments := make([]string, 0)
	openBrackets := 0
	quoted := false
	argument := make([]rune, 0)
	for _, r := range argumentsText {
		if r == '\\'' {
			quoted = !quoted
		}
		if r == '(' && !quoted {
			openBrackets++
		}
		if r == ')' && !quoted {
			openBrackets--
		}
		if openBrackets < 0 {
			break // end of the arguments
		}
		if openBrackets == 0 && r == ',' && !quoted {
			arguments = append(arguments, string(argument))
			argument = make([]rune, 0)
			continue
		}
		argument = append(argument, r)
	}
	arguments = append(arguments, string(argument))
	return arguments
''','''	return split(argumentsText)
'''),(su,'''	openBrackets := 0
	quoted := false
	element := make([]rune, 0)
	array := make([]string, 0)
	for _, r := range arrayText {
''','''	return split(arrayText)
}

// split : splits a list at its commas up to the closing bracket
func split(text string) []string {
	openBrackets := 0
	quoted := false
	element := make([]rune, 0)
	array := make([]string, 0)
	for _, r := range text {
'''))
r('args: string building',(su,'''	argument := make([]rune, 0)
	for _, r := range argumentsText {''','''	argument := ""
	for _, r := range argumentsText {'''),(su,'''			arguments = append(arguments, string(argument))
			argument = make([]rune, 0)
			continue
		}
		argument = append(argument, r)
	}
	arguments = append(arguments, string(argument))''','''			arguments = append(arguments, argument)
			argument = ""
			continue
		}
		argument += string(r)
	}
	arguments = append(arguments, argument)'''))
r('args: start index',(su,'''	argument := make([]rune, 0)
	for _, r := range argumentsText {''','''	start, end := 0, len(argumentsText)
	for i, r := range argumentsText {'''),(su,'''		if openBrackets < 0 {
			break // end of the arguments
		}
		if openBrackets == 0 && r == ',' && !quoted {
			arguments = append(arguments, string(argument))
			argument = make([]rune, 0)
			continue
		}
		argument = append(argument, r)
	}
	arguments = append(arguments, string(argument))''','''		if openBrackets < 0 {
			end = i
			break // end of the arguments
		}
		if openBrackets == 0 && r == ',' && !quoted {
			arguments = append(arguments, argumentsText[start:i])
			start = i + 1
		}
	}
	arguments = append(arguments, argumentsText[start:end])'''))
r('matrix prealloc',(su,'''	matrix := make([][]string, 0)
	for _, col := range cols {
		row := getArray(col, reflect.Float64)
		matrix = append(matrix, row)
	}''','''	matrix := make([][]string, len(cols))
	for i := range cols {
		matrix[i] = getArray(cols[i], reflect.Float64)
	}'''))
r('logical',(su,'''	switch logicText {
	case ".T.":
		return true
	case ".F.":
		return false
	default:
		return false
	}''','''	return logicText == ".T."'''))
r('strip: map',(su,'''	var b strings.Builder
	b.Grow(len(str))
	for _, ch := range str {
		if !unicode.IsSpace(ch) {
			b.WriteRune(ch)
		}
	}
	return b.String()''','''	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, str)'''))
r('strip: fields',(su,'''	var b strings.Builder
	b.Grow(len(str))
	for _, ch := range str {
		if !unicode.IsSpace(ch) {
			b.WriteRune(ch)
		}
	}
	return b.String()''','''	return strings.Join(strings.Fields(str), "")'''),(su,'	"unicode"\n',''))
r('inference: queue var',(pa,'''		popState := parser.nextStates[0]
		if _, found := parser.visited[popState.key]; !found {

			popState.fn(popState.key)
			parser.visited[popState.key] = struct{}{}
		}
		parser.nextStates = parser.nextStates[1:]
''','''		current := parser.nextStates[0]
		parser.nextStates = parser.nextStates[1:]
		if _, found := parser.visited[current.key]; found {
			continue
		}
		parser.visited[current.key] = struct{}{}
		current.fn(current.key)
'''))
r('parse: direct',(pa,'''	parser := Parser{lexemes: lexemes}
	parser.visited = make(map[string]struct{}, 0)

	for key, lexeme := range lexemes {
		fn := parser.bridge(lexeme)
		ps := parseState{fn: fn, key: key}
		parser.runInferenceModel(ps)
	}''','''	parser := &Parser{lexemes: lexemes, visited: map[string]struct{}{}}
	for key := range lexemes {
		parser.runInferenceModel(parseState{parser.bridge(lexemes[key]), key})
	}'''))
r('bridge: table',(br,'''	case "FACE":
		return parser.face
''',''),(br,'''	switch definition.Type {
''','''	if definition.Type == "FACE" {
		return parser.face
	}
	switch definition.Type {
'''))
r('bridge: map',(br,'''	switch definition.Type {
	case "CARTESIAN_POINT":
		/* skipping this definition for now */
		/* return parser.cartesian_point */
		return parser.skipUtility
	case "VERTEX_POINT":
		/* skipping this definition for now */
		/* return parser.vertexPoint */
		return parser.skipUtility
	case "VERTEX_LOOP":
		return parser.vertexLoop
	case "AXIS2_PLACEMENT_3D":
		return parser.axis2Placement3D
	case "FACE":
		return parser.face
	case "B_SPLINE_SURFACE_WITH_KNOTS":
		return parser.bSplineSurfaceWithKnots
	case "ADVANCED_FACE":
		return parser.advancedFace
	case "CLOSED_SHELL":
		return parser.closedShell
	case "DIRECTION":
		return parser.direction
	case "PRODUCT_DEFINITION":
		return parser.productDefinition
	case "PRODUCT_DEFINITION_CONTEXT":
		return parser.productDefinitionContext
	case "PRODUCT_DEFINITION_FORMATION":
		return parser.productDefinitionFormation
	case "PRODUCT_DEFINITION_SHAPE":
		return parser.productDefinitionShape
	case "SPHERICAL_SURFACE":
		return parser.sphericalSurface
	case "TOROIDAL_SURFACE":
		return parser.toroidalSurface
	default:
		return parser.skipUtility
	}
''','''	handlers := map[string]parseFn{
		"VERTEX_LOOP":                  parser.vertexLoop,
		"AXIS2_PLACEMENT_3D":           parser.axis2Placement3D,
		"FACE":                         parser.face,
		"B_SPLINE_SURFACE_WITH_KNOTS":  parser.bSplineSurfaceWithKnots,
		"ADVANCED_FACE":                parser.advancedFace,
		"CLOSED_SHELL":                 parser.closedShell,
		"DIRECTION":                    parser.direction,
		"PRODUCT_DEFINITION":           parser.productDefinition,
		"PRODUCT_DEFINITION_CONTEXT":   parser.productDefinitionContext,
		"PRODUCT_DEFINITION_FORMATION": parser.productDefinitionFormation,
		"PRODUCT_DEFINITION_SHAPE":     parser.productDefinitionShape,
		"SPHERICAL_SURFACE":            parser.sphericalSurface,
		"TOROIDAL_SURFACE":             parser.toroidalSurface,
	}
	if handler, ok := handlers[definition.Type]; ok {
		return handler
	}
	return parser.skipUtility
'''))
r('template: enqueue helper',(te,'''	productDefinitionState := parseState{fn: p.productDefinition, key: p.argument(key, 2)}
	p.nextStates = append(p.nextStates, productDefinitionState)
''','''	p.enqueue(p.productDefinition, p.argument(key, 2))
'''),(te,'''func (p *Parser) productDefinitionShape''','''func (p *Parser) enqueue(fn parseFn, key string) {
	p.nextStates = append(p.nextStates, parseState{fn, key})
}

func (p *Parser) productDefinitionShape'''),(te,'''	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
''','''	p.enqueue(productDefinitionFormationState.fn, productDefinitionFormationState.key)
	p.nextStates = append(p.nextStates, productDefinitionContextState)
'''))
r('template: argument early',(te,'''	arguments := p.lexemes[key].Arguments
	if index >= len(arguments) {
		return ""
	}
	return strings.TrimSpace(arguments[index])''','''	if arguments := p.lexemes[key].Arguments; index < len(arguments) {
		return strings.TrimSpace(arguments[index])
	}
	return ""'''))
r('template: advanced face if',(te,'''	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
	case faceType == "SPHERICAL_SURFACE":
		fmt.Println("it's a sphere")
		sphericalSurfaceState := parseState{fn: p.sphericalSurface, key: neighbourID}
		p.nextStates = append(p.nextStates, sphericalSurfaceState)
		fmt.Println("STATES", p.nextStates)

	case faceType == "TOROIDAL_SURFACE":
		ToroidalSurfaceState := parseState{fn: p.toroidalSurface, key: neighbourID}
		p.nextStates = append(p.nextStates, ToroidalSurfaceState)

	default:

	}
''','''	var fn parseFn
	switch strings.TrimSpace(p.lexemes[neighbourID].Type) {
	case "SPHERICAL_SURFACE":
		fn = p.sphericalSurface
	case "TOROIDAL_SURFACE":
		fn = p.toroidalSurface
	}
	if fn != nil {
		p.nextStates = append(p.nextStates, parseState{fn: fn, key: neighbourID})
	}
'''))
r('marshal: WriteFile',(su,'''	file, err := os.Create("testfiles/out/test.json")
	check(err)
	_, err = file.Write(bytes)
	closeErr := file.Close()
	check(err)
	check(closeErr)
''','''	check(os.WriteFile("testfiles/out/test.json", bytes, 0o666))
'''))
