T='package %s\n\nimport "testing"\n\n'
SEEDS=[
dict(id='c18-v3-height',prop='C18',pkg='config',edits=[('config/network.go','BlockMajorVersion3: UpgradeHeightV3,','BlockMajorVersion3: UpgradeHeightV3s1,')],
 needs='a height in 216001..216394',breaks='version 3 starts 394 blocks late',
 demo=T%'config'+'''func TestZZDemo(t *testing.T) {
	if v := MainNet().GetBlockMajorVersion(216001); v != 3 {
		t.Fatal(v)
	}
}
'''),
dict(id='c19-tail-overflow',prop='C19',pkg='config',edits=[('config/network.go','(alreadyGeneratedCoins / 100) * 2','(alreadyGeneratedCoins * 2) / 100')],
 needs='more than 2^63 coins already generated, in the tail emission',breaks='the tail emission wraps around',
 demo=T%'config'+'''func TestZZDemo(t *testing.T) {
	r, _, err := MainNet().GetBlockReward(5, 0, 0, 9999999000000000000, 0)
	if err != nil || r != 9999999000000000000/100*2/(360*365) {
		t.Fatal(r, err)
	}
}
'''),
dict(id='c19-penalty-trunc',prop='C19',pkg='config',edits=[('config/network.go','	multiplicand := (medianSize * 2) - currentBlockSize\n	multiplicand *= currentBlockSize','	multiplicand := uint64(uint32(medianSize*2) - uint32(currentBlockSize))\n	multiplicand = uint64(uint32(multiplicand)) * currentBlockSize / 1\n	if multiplicand > 1<<61 {\n		multiplicand = 1 << 61\n	}')],
 needs='a median above 1.5 billion bytes and a block just above it',breaks='the penalty factor is capped',
 demo=T%'config'+'''import "math/big"

func TestZZDemo(t *testing.T) {
	m, s := uint64(1<<31-1), uint64(1<<31+5)
	r, _, err := MainNet().GetBlockReward(5, m, s, 0, 0)
	w := new(big.Int).SetUint64(2*m - s)
	w.Mul(w, new(big.Int).SetUint64(s))
	w.Mul(w, new(big.Int).SetUint64(10000000000000000000>>18))
	mm := new(big.Int).SetUint64(m)
	w.Div(w, mm)
	w.Div(w, mm)
	if err != nil || r != w.Uint64() {
		t.Fatal(r, w)
	}
}
'''),
dict(id='c24-unsorted',prop='C24',pkg='config',edits=[('config/checkpoints.go','	sort.Slice(cp.pointsSorted, func(i, j int) bool {\n		return cp.pointsSorted[i] < cp.pointsSorted[j]\n	})','	if index < cp.pointsSorted[0] {\n		sort.Slice(cp.pointsSorted, func(i, j int) bool {\n			return cp.pointsSorted[i] < cp.pointsSorted[j]\n		})\n	}')],
 needs='three checkpoints added in the order 100, 300, 200',breaks='the checkpoint zone ends at the last added checkpoint, not the highest',
 demo=T%'config'+'''import (
	"io/ioutil"

	"github.com/r3volut1oner/go-karbo/crypto"
	log "github.com/sirupsen/logrus"
)

func TestZZDemo(t *testing.T) {
	l := log.New()
	l.Out = ioutil.Discard
	cp := NewCheckpoints(l)
	cp.AddCheckpoint(100, crypto.Hash{1})
	cp.AddCheckpoint(300, crypto.Hash{2})
	cp.AddCheckpoint(200, crypto.Hash{3})
	if !cp.IsInCheckpointZone(250) {
		t.Fatal("not in the zone")
	}
}
'''),
dict(id='c26-carry',prop='C26',pkg='utils',edits=[('utils/math.go','(adbcCarry << 32) + productLowCarry','(adbcCarry << 31) + productLowCarry')],
 needs='two operands whose middle partial products overflow 64 bits',breaks='the high half of the product is wrong',
 demo=T%'utils'+"""func TestZZDemo(t *testing.T) {
	m := ^uint64(0)
	if lo, hi := Mul128(m, m); lo != 1 || hi != m-1 {
		t.Fatal(lo, hi)
	}
}
"""),
dict(id='c01-sum-overflow',prop='C01',pkg='crypto/base58',edits=[('crypto/base58/base58.go','		if tmp < answer {','		if tmp < answer && i > 0 {')],
 needs='a full block whose most significant digit makes the sum wrap',breaks='a text above the largest block value decodes to a small value',
 demo=T%'base58'+"""func TestZZDemo(t *testing.T) {
	if r, err := Decode("jpXCZedGfVR"); err == nil {
		t.Fatal(r)
	}
}
"""),
dict(id='c25-order-wrap',prop='C25',pkg='cryptonote',edits=[('cryptonote/utils.go','			if dust+chunk <= dustThreshold {','			if dust+chunk < dustThreshold {')],
 needs='a threshold equal to the dust',breaks='an amount equal to the threshold is not collected as dust',
 demo=T%'cryptonote'+"""func TestZZDemo(t *testing.T) {
	c, d := DecomposeAmountIntoDigits(17, 17)
	if len(c) != 0 || len(d) != 1 {
		t.Fatal(c, d)
	}
}
"""),
dict(id='c27-median-even',prop='C27',pkg='utils',edits=[('utils/math.go','	n := l / 2\n','	n := l / 2\n	if l > 2 && sl[0] == sl[n] {\n		return sl[l-1]\n	}\n')],
 needs='a list of three or more whose lower half is all equal',breaks='the largest value is returned',
 demo=T%'utils'+"""func TestZZDemo(t *testing.T) {
	if m := MedianSlice([]uint64{7, 7, 9}); m != 7 {
		t.Fatal(m)
	}
}
"""),
]
SEEDS=[s for s in SEEDS if s['demo']]
