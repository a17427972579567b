package runtime

var zvSelect uint32

// ZVSelect decides which of several ready cases a select statement takes: with
// 0 it is random; with m > 0 cases are tried in a fixed order, starting with a
// case that depends on m, so that every case comes first for some m.
func ZVSelect(m uint32) { zvSelect = m }

func zvRotate(order []uint16) {
	n := len(order)
	if zvSelect == 0 || n < 2 {
		return
	}
	for k := int(zvSelect-1) % n; k > 0; k-- {
		f := order[0]
		copy(order, order[1:])
		order[n-1] = f
	}
}
