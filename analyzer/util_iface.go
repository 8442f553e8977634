package main

// stripIface: the value inside an interface.
func stripIface(x *Term) *Term {
	if x.op == OIface {
		return x.args[0]
	}
	return x
}

// threeWay: -1, 0 or 1.
func (r *run) threeWay(s *State, a, b *Term) []*Out {
	var outs []*Out
	less, more := mkLess(a, b, false), mkLess(b, a, false)
	s2, s3 := s.clone(), s.clone()
	if r.e.assume(s, less) {
		outs = append(outs, &Out{st: s, ret: []*Term{mkInt(-1)}})
	}
	if r.e.assume(s2, more) {
		outs = append(outs, &Out{st: s2, ret: []*Term{mkInt(1)}})
	}
	if r.e.assume(s3, less.not()) && r.e.assume(s3, more.not()) {
		outs = append(outs, &Out{st: s3, ret: []*Term{mkInt(0)}})
	}
	return outs
}
