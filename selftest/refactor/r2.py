ba='nurbs/basis.go'; cu='nurbs/curve.go'; hu='triangulate2/hull.go'; tn='triangulate2/triangulation.go'; tr='triangulate2/triangulator.go'; ut='triangulate2/util.go'; no='triangulate2/node.go'
R=[]
def r(name,*e): R.append((name,e))
r('findSpan: predicate helper',(ba,'''	low := p
	high := n + 1
	mid := (low + high) / 2
	/* BUG: this is not robust: */
	for u < float64(U[mid]) || u >= float64(U[mid+1]) {
		fmt.Println("knot Vector:", U)

		if u < float64(U[mid]) {
			high = mid
		} else {
			low = mid
		}
		fmt.Println("mid:", mid)
		mid = (low + high) / 2
	}
	return mid''','''	low, high := p, n+1
	for {
		mid := low + (high-low)/2
		switch {
		case u < float64(U[mid]):
			high = mid
		case u >= float64(U[mid+1]):
			low = mid
		default:
			return mid
		}
	}'''),(ba,'import "fmt"\n',''))
r('findSpan: linear',(ba,'''	low := p
	high := n + 1
	mid := (low + high) / 2
	/* BUG: this is not robust: */
	for u < float64(U[mid]) || u >= float64(U[mid+1]) {
		fmt.Println("knot Vector:", U)

		if u < float64(U[mid]) {
			high = mid
		} else {
			low = mid
		}
		fmt.Println("mid:", mid)
		mid = (low + high) / 2
	}
	return mid''','''	span := p
	for u >= float64(U[span+1]) {
		span++
	}
	return span'''),(ba,'import "fmt"\n',''))
r('findSpan: classical bisection',(ba,'''	mid := (low + high) / 2
	/* BUG: this is not robust: */
	for u < float64(U[mid]) || u >= float64(U[mid+1]) {
		fmt.Println("knot Vector:", U)

		if u < float64(U[mid]) {
			high = mid
		} else {
			low = mid
		}
		fmt.Println("mid:", mid)
		mid = (low + high) / 2
	}
	return mid''','''	for high-low > 1 {
		mid := (low + high) / 2
		if u < float64(U[mid]) {
			high = mid
		} else {
			low = mid
		}
	}
	return low'''),(ba,'import "fmt"\n',''))
r('basisFuns: hoist row',(ba,'''		saved := 0.
		for r := 0; r < j; r++ {
			temp := N[r] / (right[r+1] + left[j-r])
			N[r] = saved + right[r+1]*temp
			saved = left[j-r] * temp
		}
		N[j] = saved''','''		N[j] = raise(N[:j], left, right)'''),(ba,'''/* dersBasisFuns : computes''','''func raise(N, left, right []float64) float64 {
	saved := 0.
	for r := range N {
		a, b := right[r+1], left[len(N)-r]
		temp := N[r] / (a + b)
		N[r], saved = saved+a*temp, b*temp
	}
	return saved
}

/* dersBasisFuns : computes'''))
r('basisFuns: precompute left/right',(ba,'''	N[0] = 1.
	for j := 1; j <= p; j++ {
		left[j] = u - float64(U[i+1-j])
		right[j] = float64(U[i+j]) - u
		saved''','''	for j := 1; j < len(left); j++ {
		left[j] = u - float64(U[i+1-j])
		right[j] = float64(U[i+j]) - u
	}
	N[0] = 1.
	for j := 1; j <= p; j++ {
		saved'''))
r('basisFuns: no left/right',(ba,'''			temp := N[r] / (right[r+1] + left[j-r])
			N[r] = saved + right[r+1]*temp
			saved = left[j-r] * temp
		}
		N[j] = saved
	}
	return N''','''			up, down := float64(U[i+r+1])-u, u-float64(U[i+1-(j-r)])
			temp := N[r] / (up + down)
			N[r] = saved + up*temp
			saved = down * temp
		}
		N[j] = saved
	}
	return N'''))
r('ders: swap',(ba,'''			/* switching rows */
			j := s1
			s1 = s2
			s2 = j''','''			s1, s2 = s2, s1'''),(ba,'''			j1 := 0
			j2 := 0
			if rk >= -1 {
				j1 = 1
			} else {
				j1 = -rk
			}
			if r-1 <= pk {
				j2 = k - 1
			} else {
				j2 = p - r
			}
''','''			j1, j2 := 1, p-r
			if rk < -1 {
				j1 = -rk
			}
			if r-1 <= pk {
				j2 = k - 1
			}
'''))
r('ders: reuse basis table',(ba,'''	for j := 0; j <= p; j++ {
		ders[0][j] = ndu[j][p]
	}''','''	for j := range ders[0] {
		ders[0][j] = ndu[j][p]
	}'''),(ba,'''	r := p
	for k := 1; k <= n; k++ {
		for j := 0; j <= p; j++ {
			ders[k][j] *= float64(r)
		}
		r *= (p - k)
	}''','''	factor := 1
	for k := 1; k <= n; k++ {
		factor *= p - k + 1
		for j := range ders[k] {
			ders[k][j] = float64(factor) * ders[k][j]
		}
	}'''))
r('ders: table helper',(ba,'''	ndu := make([][]float64, p+1)
	ders := make([][]float64, p+1)
	a := make([][]float64, p+1)

	for entry := range ndu {
		ndu[entry] = make([]float64, p+1)
		ders[entry] = make([]float64, p+1)
		a[entry] = make([]float64, p+1)
	}
''','''	table := func() [][]float64 {
		t := make([][]float64, p+1)
		for i := range t {
			t[i] = make([]float64, p+1)
		}
		return t
	}
	ndu, ders, a := table(), table(), table()
'''))
r('curve: accumulate coordinates',(cu,'''		B := P[span-p+i].Scaled(N[i])
		C.Add(&B)''','''		B := P[span-p+i]
		B.Scale(N[i])
		C[0] += B[0]
		C[1] += B[1]
		C[2] += B[2]'''))
r('curve: range N',(cu,'''	for i := 0; i <= p; i++ {
		B := P[span-p+i].Scaled(N[i])
		C.Add(&B)
	}''','''	first := span - p
	for i, weight := range N {
		B := P[first+i].Scaled(weight)
		C.Add(&B)
	}'''))
r('hull: insertion helper',(hu,'''		for len(U) > 1 && cross2D(U[len(U)-2], U[len(U)-1], p) > 0 {
			U = U[:len(U)-1]
		}
		for len(L) > 1 && cross2D(L[len(L)-2], L[len(L)-1], p) < 0 {
			L = L[:len(L)-1]
		}
		U = append(U, p)
		L = append(L, p)
''','''		U = extend(U, p, 1)
		L = extend(L, p, -1)
'''),(hu,'''// ConvexHull returns''','''func extend(chain []r3.Vector, p r3.Vector, side float64) []r3.Vector {
	for n := len(chain); n > 1 && side*cross2D(chain[n-2], chain[n-1], p) > 0; n = len(chain) {
		chain = chain[:n-1]
	}
	return append(chain, p)
}

// ConvexHull returns'''))
r('hull: separate loops',(hu,'''	for _, p := range Vectors {
		for len(U) > 1 && cross2D(U[len(U)-2], U[len(U)-1], p) > 0 {
			U = U[:len(U)-1]
		}
		for len(L) > 1 && cross2D(L[len(L)-2], L[len(L)-1], p) < 0 {
			L = L[:len(L)-1]
		}
		U = append(U, p)
		L = append(L, p)
	}
''','''	for _, p := range Vectors {
		for len(L) > 1 && cross2D(L[len(L)-2], L[len(L)-1], p) < 0 {
			L = L[:len(L)-1]
		}
		L = append(L, p)
	}
	for _, p := range Vectors {
		for len(U) >= 2 && 0 < cross2D(U[len(U)-2], U[len(U)-1], p) {
			U = U[:len(U)-1]
		}
		U = append(U, p)
	}
'''))
r('hull: upper chain backwards',(hu,'''	for _, p := range Vectors {
		for len(U) > 1 && cross2D(U[len(U)-2], U[len(U)-1], p) > 0 {
			U = U[:len(U)-1]
		}
		for len''','''	for _, p := range Vectors {
		for len'''),(hu,'''		U = append(U, p)
		L = append(L, p)
	}

	// reverse upper portion
	for i, j := 0, len(U)-1; i < j; i, j = i+1, j-1 {
		U[i], U[j] = U[j], U[i]
	}
''','''		L = append(L, p)
	}
	for i := len(Vectors) - 1; i >= 0; i-- {
		p := Vectors[i]
		for len(U) > 1 && cross2D(U[len(U)-2], U[len(U)-1], p) < 0 {
			U = U[:len(U)-1]
		}
		U = append(U, p)
	}
'''))
r('hull: less and dedupe',(hu,'''		a := Vectors[i]
		b := Vectors[j]
		if a.X != b.X {
			return a.X < b.X
		}
		return a.Y < b.Y''','''		a, b := &Vectors[i], &Vectors[j]
		return a.X < b.X || a.X == b.X && a.Y < b.Y'''),(hu,'''	distinctVectors := Vectors[:0]
	for i, p := range Vectors {
		if i > 0 && squaredDistance(p, Vectors[i-1]) < eps {
			continue
		}
		distinctVectors = append(distinctVectors, p)
	}''','''	distinctVectors := make([]r3.Vector, 0, len(Vectors))
	for i, p := range Vectors {
		if i == 0 || squaredDistance(p, Vectors[i-1]) >= eps {
			distinctVectors = append(distinctVectors, p)
		}
	}'''))
r('hull: early return',(hu,'''	// construct complete hull
	if len(U) > 0 {
		U = U[:len(U)-1]
	}
	if len(L) > 0 {
		L = L[:len(L)-1]
	}
	return append(L, U...)''','''	if len(Vectors) == 0 {
		return nil
	}
	return append(L[:len(L)-1], U[:len(U)-1]...)'''))
r('hull: clone by append',(hu,'''	VectorsCopy := make([]r3.Vector, len(Vectors))
	copy(VectorsCopy, Vectors)
	Vectors = VectorsCopy
''','''	Vectors = append([]r3.Vector(nil), Vectors...)
'''))
r('area: flat',(tn,'''	for i := 0; i < len(ts); i += 3 {
		p0 := Vectors[ts[i+0]]
		p1 := Vectors[ts[i+1]]
		p2 := Vectors[ts[i+2]]
		result += area(p0, p1, p2)
	}
	return result / 2''','''	for len(ts) > 0 {
		p0, p1, p2 := Vectors[ts[0]], Vectors[ts[1]], Vectors[ts[2]]
		result += area(p0, p1, p2) / 2
		ts = ts[3:]
	}
	return result'''))
r('area: by count',(tn,'''	for i := 0; i < len(ts); i += 3 {
		p0 := Vectors[ts[i+0]]
		p1 := Vectors[ts[i+1]]
		p2 := Vectors[ts[i+2]]
		result += area(p0, p1, p2)
	}
	return result / 2''','''	corner := func(i int) r3.Vector { return Vectors[ts[i]] }
	for t := 0; t < len(ts)/3; t++ {
		result += area(corner(3*t), corner(3*t+1), corner(3*t+2))
	}
	return 0.5 * result'''))
r('validate: merged conditions',(tn,'''		if i1 != -1 && t.Halfedges[i1] != i2 {
			return fmt.Errorf("invalid halfedge connection")
		}
		if i2 != -1 && (i2 < 0 || i2 >= len(t.Halfedges) || t.Halfedges[i2] != i1) {
			return fmt.Errorf("invalid halfedge connection")
		}''','''		if i2 == -1 {
			continue
		}
		if i2 < 0 || i2 >= len(t.Halfedges) || t.Halfedges[i2] != i1 {
			return fmt.Errorf("invalid halfedge connection")
		}'''))
r('validate: helper',(tn,'''	// verify halfedges
	for i1, i2 := range t.Halfedges {
		if i1 != -1 && t.Halfedges[i1] != i2 {
			return fmt.Errorf("invalid halfedge connection")
		}
		if i2 != -1 && (i2 < 0 || i2 >= len(t.Halfedges) || t.Halfedges[i2] != i1) {
			return fmt.Errorf("invalid halfedge connection")
		}
	}
''','''	if !t.linked() {
		return fmt.Errorf("invalid halfedge connection")
	}
'''),(tn,'''// Validate performs''','''func (t *Triangulation) linked() bool {
	h := t.Halfedges
	for i := 0; i < len(h); i++ {
		j := h[i]
		inside := j >= 0 && j < len(h)
		if j != -1 && !(inside && h[j] == i) {
			return false
		}
	}
	return true
}

// Validate performs'''),(tn,'''	if math.Abs(area1-area2) > 1e-9 || math.Abs(area1-area3) > 1e-9 {
		return''','''	differ := func(x, y float64) bool { return math.Abs(y-x) > 1e-9 }
	if differ(area1, area2) || differ(area1, area3) {
		return'''))
r('polygon: perimeter',(ut,'''	q := Vectors[len(Vectors)-1]
	for _, p := range Vectors {
		result += math.Sqrt(squaredDistance(p, q))
		q = p
	}
	return result''','''	for i, p := range Vectors {
		result += math.Sqrt(squaredDistance(p, Vectors[(i+1)%len(Vectors)]))
	}
	return result'''))
r('polygon: area',(ut,'''	for i, p := range Vectors {
		q := Vectors[(i+1)%len(Vectors)]
		result += (p.X - q.X) * (p.Y + q.Y)
	}
	return result / 2''','''	n := len(Vectors)
	for i := 0; i < n; i++ {
		j := i + 1
		if j == n {
			j = 0
		}
		p, q := Vectors[i], Vectors[j]
		result += (p.X*q.Y - q.X*p.Y)
	}
	return result / 2'''))
r('circumcenter shared',(ut,'''	r := x*x + y*y

	if bl == 0 || cl == 0 || d == 0 || r == 0 {
		return infinity
	}

	return r''','''	if r := x*x + y*y; bl != 0 && cl != 0 && d != 0 && r != 0 {
		return r
	}
	return infinity'''),(ut,'''	x := a.X + (ey*bl-dy*cl)*0.5/d
	y := a.Y + (dx*cl-ex*bl)*0.5/d

	return r3.Vector{x, y, 0}''','''	half := 0.5 / d
	return r3.Vector{X: a.X + (ey*bl-dy*cl)*half, Y: a.Y + (dx*cl-ex*bl)*half}'''))
r('inCircle expanded',(ut,'''	return dx*(ey*cp-bp*fy)-dy*(ex*cp-bp*fx)+ap*(ex*fy-ey*fx) < 0''','''	det := ap*(ex*fy-ey*fx) + bp*(fx*dy-fy*dx) + cp*(dx*ey-dy*ex)
	return !(det >= 0)'''))
r('pseudoAngle',(ut,'''	p := dx / (math.Abs(dx) + math.Abs(dy))
	if dy > 0 {
		p = (3 - p) / 4
	} else {
		p = (1 + p) / 4
	}
	return math.Max(0, math.Min(1-eps, p))''','''	ratio := dx / (math.Abs(dx) + math.Abs(dy))
	q := 1 + ratio
	if dy > 0 {
		q = 3 - ratio
	}
	return math.Max(0, math.Min(1-eps, 0.25*q))'''))
r('less',(tr,'''	d1 := a.squaredDistances[a.ids[i]]
	d2 := a.squaredDistances[a.ids[j]]
	if d1 != d2 {
		return d1 < d2
	}
	p1 := a.Vectors[a.ids[i]]
	p2 := a.Vectors[a.ids[j]]
	if p1.X != p2.X {
		return p1.X < p2.X
	}
	return p1.Y < p2.Y''','''	k, l := a.ids[i], a.ids[j]
	p1, p2 := a.Vectors[k], a.Vectors[l]
	switch d1, d2 := a.squaredDistances[k], a.squaredDistances[l]; {
	case d1 < d2:
		return true
	case d1 > d2:
		return false
	case p1.X < p2.X:
		return true
	case p1.X > p2.X:
		return false
	}
	return p1.Y < p2.Y'''))
r('legalize: iteration',(tr,'''	illegal := inCircle(t.Vectors[p0], t.Vectors[pr], t.Vectors[pl], t.Vectors[p1])

	if illegal {
''','''	if !inCircle(t.Vectors[p0], t.Vectors[pr], t.Vectors[pl], t.Vectors[p1]) {
		return ar
	}
	{
'''),(tr,'''		t.legalize(a)
		return t.legalize(br)
	}

	return ar
}''','''		t.legalize(a)
		return t.legalize(br)
	}
}'''))
r('legalize: early return',(tr,'''	b := t.halfedges[a]

	a0 := a - a%3
	b0 := b - b%3

	al := a0 + (a+1)%3
	ar := a0 + (a+2)%3
	bl := b0 + (b+2)%3

	if b < 0 {
		return ar
	}
''','''	a0 := a - a%3
	al := a0 + (a+1)%3
	ar := a0 + (a+2)%3

	b := t.halfedges[a]
	if b < 0 {
		return ar
	}
	b0 := b / 3 * 3
	bl := b0 + (b+2)%3
'''))
r('legalize: hull patch helper',(tr,'''			e := t.hull
			for {
				if e.t == bl {
					e.t = a
					break
				}
				e = e.next
				if e == t.hull {
					break
				}
			}
		}
''','''			t.relabel(bl, a)
		}
'''),(tr,'''func (t *triangulator) convexHull()''','''func (t *triangulator) relabel(old, new int) {
	e := t.hull
	for {
		if e.t == old {
			e.t = new
			return
		}
		e = e.next
		if e == t.hull {
			return
		}
	}
}

func (t *triangulator) convexHull()'''))
r('link and addTriangle',(tr,'''	i := t.trianglesLen
	t.triangles[i] = i0
	t.triangles[i+1] = i1
	t.triangles[i+2] = i2
	t.link(i, a)
	t.link(i+1, b)
	t.link(i+2, c)
	t.trianglesLen += 3
	return i''','''	i := t.trianglesLen
	t.trianglesLen = i + 3
	copy(t.triangles[i:], []int{i0, i1, i2})
	for k, twin := range [3]int{a, b, c} {
		t.link(i+k, twin)
	}
	return i'''))
r('convexHull: do while',(tr,'''	e := t.hull
	for e != nil {
		result = append(result, t.Vectors[e.i])
		e = e.prev
		if e == t.hull {
			break
		}
	}
	return result''','''	if t.hull == nil {
		return nil
	}
	result = append(result, t.Vectors[t.hull.i])
	for e := t.hull.prev; e != t.hull; e = e.prev {
		result = append(result, t.Vectors[e.i])
	}
	return result'''))
r('newNode',(no,'''	n := &nodes[i]
	n.i = i
	if prev == nil {
		n.prev = n
		n.next = n
	} else {
		n.next = prev.next
		n.prev = prev
		prev.next.prev = n
		prev.next = n
	}
	return n''','''	n := &nodes[i]
	n.i = i
	if prev == nil {
		n.prev, n.next = n, n
		return n
	}
	after := prev.next
	n.prev, n.next = prev, after
	after.prev, prev.next = n, n
	return n'''),(no,'''	n.prev.next = n.next
	n.next.prev = n.prev
	n.i = -1
	return n.prev''','''	before, after := n.prev, n.next
	before.next, after.prev = after, before
	n.i = -1
	return before'''))
r('triangulate: bounds helper, seeds',(tr,'''	x0 := Vectors[0].X
	y0 := Vectors[0].Y
	x1 := Vectors[0].X
	y1 := Vectors[0].Y
	for i, p := range Vectors {
		if p.X < x0 {
			x0 = p.X
		}
		if p.X > x1 {
			x1 = p.X
		}
		if p.Y < y0 {
			y0 = p.Y
		}
		if p.Y > y1 {
			y1 = p.Y
		}
		tri.ids[i] = i
	}
''','''	for i := range tri.ids {
		tri.ids[i] = i
	}
	x0, x1 := Vectors[0].X, Vectors[0].X
	y0, y1 := Vectors[0].Y, Vectors[0].Y
	for _, p := range Vectors[1:] {
		x0, x1 = math.Min(x0, p.X), math.Max(x1, p.X)
		y0, y1 = math.Min(y0, p.Y), math.Max(y1, p.Y)
	}
'''))
r('triangulate: walk',(tr,'''		e := start
		for area(p, Vectors[e.i], Vectors[e.next.i]) >= 0 {
			e = e.next
			if e == start {
				e = nil
				break
			}
		}
		if e == nil {
			// likely a near-duplicate Vector; skip it
			continue
		}
''','''		e := tri.visible(p, start)
		if e == nil {
			// likely a near-duplicate Vector; skip it
			continue
		}
'''),(tr,'''func (t *triangulator) hashKey''','''// visible finds the first edge from start on that p can see
func (t *triangulator) visible(p r3.Vector, start *node) *node {
	e := start
	for area(p, t.Vectors[e.i], t.Vectors[e.next.i]) >= 0 {
		if e = e.next; e == start {
			return nil
		}
	}
	return e
}

func (t *triangulator) hashKey'''))
