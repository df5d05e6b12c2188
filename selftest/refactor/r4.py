R=[]
T='triangulate2/triangulator.go'; N='triangulate2/node.go'
def r(n,*e): R.append((n,list(e)))
src=open('/repo/triangulate2/triangulator.go').read()
def cut(a,b,incl=False):
    i=src.index(a); j=src.index(b,i); return src[i:j+(len(b) if incl else 0)]
probe=cut('		var start *node\n','		start = start.prev')
r('find start helper',(T,probe,'		start := tri.lookup(p)\n'),(T,'','''
func (t *triangulator) lookup(p r3.Vector) *node {
	key := t.hashKey(p)
	var found *node
	for range t.hash {
		found = t.hash[key]
		if found != nil && found.i >= 0 {
			return found
		}
		key++
		if key >= len(t.hash) {
			key = 0
		}
	}
	return found
}
'''))
see=cut('		e := start\n','		walkBack := e == start')
r('visible edge helper',(T,see,'''		e := tri.visibleFrom(start, p)
		if e == nil {
			continue
		}
'''),(T,'','''
func (t *triangulator) visibleFrom(start *node, p r3.Vector) *node {
	for e := start; ; {
		if area(p, t.Vectors[e.i], t.Vectors[e.next.i]) < 0 {
			return e
		}
		e = e.next
		if e == start {
			return nil
		}
	}
}
'''))
fwd=cut('		q := e.next\n		for area','		if walkBack {')
r('forward helper',(T,fwd,'		tri.walkForward(e, p, i)\n\n'),(T,'','''
func (t *triangulator) walkForward(e *node, p r3.Vector, i int) {
	q := e.next
	for area(p, t.Vectors[q.i], t.Vectors[q.next.i]) < 0 {
		k := t.addTriangle(q.i, i, q.next.i, e.t, -1, q.t)
		e.t = t.legalize(k + 2)
		t.hull = q.remove()
		q = q.next
	}
}
'''),(T,'t = tri.addTriangle(q.prev.i','t := tri.addTriangle(q.prev.i'))
bounds=cut('	// compute bounds\n','	var i0, i1, i2 int')
r('bounds helper',(T,bounds,'''	x0, y0, x1, y1 := tri.bounds()
	for i := range Vectors {
		tri.ids[i] = i
	}
'''),(T,'','''
func (t *triangulator) bounds() (x0, y0, x1, y1 float64) {
	x0, y0 = t.Vectors[0].X, t.Vectors[0].Y
	x1, y1 = x0, y0
	for _, p := range t.Vectors[1:] {
		x0 = math.Min(x0, p.X)
		y0 = math.Min(y0, p.Y)
		x1 = math.Max(x1, p.X)
		y1 = math.Max(y1, p.Y)
	}
	return
}
'''))
r('bounds helper from 0',(T,bounds,'''	x0, y0, x1, y1 := tri.bounds()
'''),(T,'','''
func (t *triangulator) bounds() (x0, y0, x1, y1 float64) {
	x0, y0 = t.Vectors[0].X, t.Vectors[0].Y
	x1, y1 = x0, y0
	for i, p := range t.Vectors {
		x0 = math.Min(x0, p.X)
		y0 = math.Min(y0, p.Y)
		x1 = math.Max(x1, p.X)
		y1 = math.Max(y1, p.Y)
		t.ids[i] = i
	}
	return
}
'''))
near=cut('	// pick a seed Vector','	// find Vector closest')
r('nearest helper',(T,near,'''	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0}
	i0 = nearest(Vectors, m)
	var minDist float64
'''),(T,'','''
func nearest(vs []r3.Vector, m r3.Vector) int {
	best, at := infinity, 0
	for i := range vs {
		if d := squaredDistance(vs[i], m); d < best {
			best, at = d, i
		}
	}
	return at
}
'''))
seeds=cut('	var i0, i1, i2 int\n','	// swap the order')
r('seeds helper',(T,seeds,'''	i0, i1, i2, err := seeds(Vectors, r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0})
	if err != nil {
		return err
	}

'''),(T,'','''
func seeds(Vectors []r3.Vector, m r3.Vector) (i0, i1, i2 int, err error) {
	minDist := infinity
	for i, p := range Vectors {
		if d := squaredDistance(p, m); d < minDist {
			i0, minDist = i, d
		}
	}
	minDist = infinity
	for i, p := range Vectors {
		if i != i0 {
			if d := squaredDistance(p, Vectors[i0]); d > 0 && d < minDist {
				i1, minDist = i, d
			}
		}
	}
	minRadius := infinity
	for i, p := range Vectors {
		if i != i0 && i != i1 {
			if r := circumradius(Vectors[i0], Vectors[i1], p); r < minRadius {
				i2, minRadius = i, r
			}
		}
	}
	if minRadius == infinity {
		err = fmt.Errorf("No Delaunay triangulation exists for this input.")
	}
	return
}
'''))
body=cut('		i := tri.ids[k]\n','	tri.triangles = tri.triangles[:tri.trianglesLen]')
tail=cut('		// find a visible edge on the convex hull using edge hash','	tri.triangles = tri.triangles[:tri.trianglesLen]')
b2=tail[:tail.rindex('	}\n')]
r('insert helper',(T,tail,'		tri.insert(nodes, p, i)\n	}\n\n'),(T,'','\nfunc (tri *triangulator) insert(nodes []node, p r3.Vector, i int) {\n	Vectors := tri.Vectors\n'+b2.replace('			continue\n','			return\n')+'}\n'))
r('sort.Slice',(T,'	sort.Sort(tri)\n','	sort.Slice(tri.ids, func(a, b int) bool { return tri.Less(a, b) })\n'))
r('squaredDistance inline',(T,'if squaredDistance(p, pp) < eps {','dx, dy := p.X-pp.X, p.Y-pp.Y\n		if dx*dx+dy*dy < eps {'))
r('walkBack nested',(T,'		walkBack := e == start\n','		atStart := start\n		first := e\n'),(T,'		if walkBack {','		if first == atStart {'))
r('hull not from remove',(T,'			tri.hull = q.remove()\n			q = q.next\n','			q.remove()\n			q = q.next\n			tri.hull = q.prev\n'))
r('node methods',(N,'	n.i = -1\n	return n.prev','	p := n.prev\n	n.i = -1\n	return p'))
r('pp pointer index',(T,'	pp := r3.Vector{infinity, infinity, 0}\n','	prev := -1\n'),(T,'		if squaredDistance(p, pp) < eps {\n			continue\n		}\n		pp = p\n','		if prev >= 0 && squaredDistance(p, Vectors[prev]) < eps {\n			continue\n		}\n		prev = i\n'))
r('two distances',(T,'	minDist = infinity\n','	minDist1 := infinity\n'),(T,'		if d > 0 && d < minDist {\n			i1 = i\n			minDist = d','		if d > 0 && d < minDist1 {\n			i1 = i\n			minDist1 = d'))
r('legalize then hull',(T,'			q.prev.t = tri.legalize(t + 2)\n			tri.hull = q.remove()\n','			last := q.remove()\n			tri.hull = last\n			last.t = tri.legalize(t + 2)\n'))
