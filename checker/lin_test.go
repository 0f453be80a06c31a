package main

import "testing"

func TestFM(t *testing.T) {
	c := newCons()
	x := newSym("x", 0, INF)
	n := newSym("n", 0, INF)
	l := newSym("l", 0, INF)
	// n = l/2 : 2n <= l <= 2n+1 ; x <= n-1  => 2x+1 <= l-1
	c, _ = c.with(comb(1, symL(l), -2, symL(n)))
	c, _ = c.with(addK(comb(-1, symL(l), 2, symL(n)), 1))
	c, _ = c.with(addK(subL(symL(n), symL(x)), -1))
	if !c.prove(addK(comb(1, symL(l), -2, symL(x)), -2)) {
		t.Fatal("a")
	}
	if c.prove(addK(comb(1, symL(l), -2, symL(x)), -3)) {
		t.Fatal("b")
	}
	if !c.hasUpperBound(symL(x), func(s Sym) bool { return s == l }) {
		t.Fatal("c")
	}
	if c.hasUpperBound(symL(l), func(s Sym) bool { return s == x }) {
		t.Fatal("d")
	}
}
