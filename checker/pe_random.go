package main

import "fmt"

// More shapes, made from a seed: the thorough tier follows them besides the fixed ones.

var deepCount, deepSeed = 0, uint64(1)

type rng struct{ x uint64 }

func (r *rng) n(n int) int {
	r.x ^= r.x << 13
	r.x ^= r.x >> 7
	r.x ^= r.x << 17
	return int((r.x >> 11) % uint64(n))
}

func (r *rng) coin() bool { return r.n(2) == 0 }

func deepShapes() []*fontShape {
	var res []*fontShape
	r := &rng{deepSeed*0x9E3779B97F4A7C15 + 0x1234567}
	for i := 0; i < 8; i++ {
		r.n(2)
	}
	for i := 0; i < deepCount; i++ {
		s := &fontShape{name: fmt.Sprintf("seed %d, shape %d", deepSeed, i), with: map[string]bool{}, comps: map[int][]int{}, long: r.coin(), order: r.n(4), os2: r.n(6), odd: 1 + r.n(9)}
		n := 4 + r.n(11)
		for g := 0; g < n; g++ {
			s.glyphs = append(s.glyphs, []int{0, 0, 10, 11, 12, 13, 21, 32}[r.n(8)])
		}
		s.none = map[int]bool{r.n(n): true, r.n(n): true}
		for k := r.n(4); k > 0; k-- {
			g := r.n(n)
			for c := 1 + r.n(4); c > 0; c-- {
				s.comps[g] = append(s.comps[g], r.n(n))
			}
		}
		if r.n(4) == 0 {
			s.first = 2 * r.n(4)
		}
		s.metrics = 1 + r.n(n)
		switch r.n(4) {
		case 0:
			s.widths = r.n(s.metrics + 1)
		case 1:
			for k := r.n(s.metrics + 1); k > 0; k-- {
				s.wide = append(s.wide, []int{0, 500, 500, 0xffff}[r.n(4)])
			}
		}
		for _, t := range allOptional {
			if r.n(3) > 0 {
				s.with[t] = true
			}
		}
		s.empty = r.n(6) == 0
		s.post = []int{0x20000, 0x20000, 0x25000, 0x30000}[r.n(4)]
		s.nameFmt = r.n(2)
		for k := r.n(6); k > 0; k-- {
			pe := [][3]int{{0, 3, 0}, {0, 4, 0}, {1, 0, 0}, {1, 0, 5}, {3, 1, 0x409}, {3, 1, 0x407}, {3, 0, 0x409}, {3, 10, 0x409}, {3, 3, 0x804}, {2, 1, 0}}[r.n(10)]
			s.strs = append(s.strs, [5]int{pe[0], pe[1], pe[2], len(s.strs) * (1 + r.n(2)), r.n(12)})
		}
		if s.nameFmt == 1 {
			for k := r.n(4); k > 0; k-- {
				s.tags = append(s.tags, r.n(7))
			}
		}
		for k := r.n(6); k > 0; k-- {
			pe := [][3]int{{0, 3, 2}, {0, 4, 4}, {1, 0, 1}, {3, 1, 2}, {3, 10, 4}, {0, 6, 4}}[r.n(6)]
			c := &cmapSub{p: pe[0], e: pe[1], width: pe[2], wrong: r.n(8) == 0}
			switch pe[2] {
			case 1:
				c.format = []int{0, 6, 2, 0}[r.n(4)]
			case 2:
				c.format = []int{4, 6, 4, 14}[r.n(4)]
			case 4:
				c.format = 12
			}
			s.subs = append(s.subs, c)
		}
		for k := r.n(3); k > 0; k-- {
			s.extra = append(s.extra, []string{"GPOS", "kern"}[k-1])
		}
		res = append(res, s)
	}
	return res
}
