package gen

import "reflect"

// Types of long names: of 64, 130 and 300 bytes, and generic ones.
type (
	RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwx struct {
		S    string
		M    map[string]int  `php:"m"`
		N    map[NInt]string `php:",omitempty"`
		B    []byte
		F    float32 `php:"f"`
		Q    uint16  `php:"q,string"`
		P    *RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwx
		L    []RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwx `php:"l,omitempty"`
		U    map[string]map[uint8]bool
		A    [2]NString
		Deep struct{ X, Y *uint16 }
	}
	RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwx struct {
		S    string
		M    map[string]int  `php:"m"`
		N    map[NInt]string `php:",omitempty"`
		B    []byte
		F    float32 `php:"f"`
		Q    uint16  `php:"q,string"`
		P    *RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwx
		L    []RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwx `php:"l,omitempty"`
		U    map[string]map[uint8]bool
		A    [2]NString
		Deep struct{ X, Y *uint16 }
	}
	RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz012 struct {
		S    string
		M    map[string]int  `php:"m"`
		N    map[NInt]string `php:",omitempty"`
		B    []byte
		F    float32 `php:"f"`
		Q    uint16  `php:"q,string"`
		P    *RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz012
		L    []RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz012 `php:"l,omitempty"`
		U    map[string]map[uint8]bool
		A    [2]NString
		Deep struct{ X, Y *uint16 }
	}
	RPair[K comparable, V any] struct {
		Key  K
		Val  V `php:"val,omitempty"`
		Next *RPair[K, V]
		M    map[string]V
	}
)

var LongNamed = []reflect.Type{
	tf[RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwx](),
	tf[RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwx](),
	tf[RLongNamedAbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz0123456789AbcdefghijNopqrstuvwxyz012](),
	tf[RPair[string, map[string][]int]](), tf[[]RPair[int8, RPair[NString, [3]RPair[uint16, *float64]]]](),
	tf[map[string]RPair[string, struct {
		Aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa      map[string]struct{ Bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb []string }
		Cccccccccccccccccccccccccccccccccccc *RPair[int, []map[NString]uint64]
	}]](),
}

func init() {
	Catalog = append(Catalog, LongNamed...)
	AnyCatalog = append(AnyCatalog, LongNamed...)
}
