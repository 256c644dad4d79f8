package config

import vs "github.com/r3volut1oner/go-karbo/verifsym"

//verif:harness timeout=60
func VerifC18Schedule() {
	n := MainNet()
	h := vs.U32("height")
	v := n.GetBlockMajorVersion(h)
	want := vs.IteU64(h > 700000, 5, vs.IteU64(h > 266000, 4, vs.IteU64(h > 216000, 3, vs.IteU64(h > 60000, 2, 1))))
	vs.Assert(uint64(v) == want, "the version differs from the published schedule")
	vs.Cover("schedule")
	vs.Observe("v", v)
}

//verif:harness timeout=60
func VerifC18Deterministic() {
	n := MainNet()
	g, h := vs.U32("g"), vs.U32("h")
	vs.Assume(g <= h)
	a, b := n.GetBlockMajorVersion(g), n.GetBlockMajorVersion(h)
	vs.Assert(a <= b, "the version decreases with height or differs between calls")
	vs.Cover("monotone")
}
