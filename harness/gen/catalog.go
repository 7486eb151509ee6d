package gen

import (
	"reflect"
	"unicode"
)

func isLetterOrDigit(c rune) bool { return unicode.IsLetter(c) || unicode.IsDigit(c) }

// Recursive and mutually recursive types of every shape.
type (
	RList struct {
		V    int
		Next *RList
	}
	RTree struct {
		Name string  `php:"name"`
		Kids []RTree `php:"kids,omitempty"`
		Attr map[string]*RTree
	}
	RSlice []RSlice
	RMap   map[string]RMap
	RIMap  map[int]RIMap
	RArr   [2]*RArr
	RArrS  [1][]RArrS
	RArrM  [2]map[string]RArrM
	RPtr   *[]RPtr
	RMutA  struct {
		X int8
		B *RMutB `php:"b"`
		L []RMutC
	}
	RMutB struct {
		S string `php:",string"`
		C map[int]RMutC
		A *RMutA
	}
	RMutC struct {
		P *RMutA `php:",omitempty"`
		Q [1]*RMutB
		F float64
	}
	RMapS  map[uint8]RMapSV
	RMapSV struct {
		M RMapS
		B []byte
	}
	RSP  []*RSP
	RMP  map[string]*RMP
	RStA struct {
		Arr [2][]RStA
		N   NInt
	}
	RDeep struct {
		M map[string][]map[int]*RDeep `php:"m"`
		A *[2]RDeepE
	}
	RDeepE struct {
		D *RDeep
		E []RDeepE
		T string `php:"t,omitempty"`
	}
	RLeft struct {
		L *RLeft `php:"l,omitempty"`
		R *RRight
		U uint16 `php:"u,string"`
	}
	RRight struct {
		L *RLeft
		R *RRight `php:"r,omitempty"`
	}
	RGen[T any] struct {
		V    T
		Next *RGen[T]
		Kids []RGen[T] `php:",omitempty"`
	}
	RAny struct {
		V    any
		Next *RAny
		L    []any
		M    map[string]any
	}
	RAnyS []any
	RAnyM map[string]any
	// recursion through a container that is not the recursive type itself
	RSA  [][1]RSA
	RSAI [][2][1]RSAI
	RSS  []struct{ X RSS }
	RSM  []map[string]RSM
	RMA  map[int][1]RMA
	RMSt map[string]struct {
		X RMSt `php:",omitempty"`
	}
	RML   map[string][]RML
	RPA   *[1]RPA
	RPM   *map[string]RPM
	RPS   *struct{ P RPS }
	RPSl  []*struct{ L [1]RPSl }
	ROne  struct{ N []ROne }
	ROneP struct{ P *ROneP }
	ROneM struct{ M map[string]ROneM }
	ROneA struct{ A [1][]ROneA }
	ROneQ struct{ A *[1]ROneQ }
	RAM   [1]map[int8]RAM
	RASt  [1]struct{ L []RASt }
	RFar1 struct {
		A []RFar2
	}
	RFar2 struct{ B map[string]RFar3 }
	RFar3 struct{ C *RFar4 }
	RFar4 struct{ D [1]RFar5 }
	RFar5 struct {
		E []RFar1
		F *RFar2
	}
)

var Catalog = []reflect.Type{
	tf[RList](), tf[*RList](), tf[RTree](), tf[RSlice](), tf[RMap](), tf[RIMap](), tf[RArr](), tf[RArrS](), tf[RArrM](),
	tf[RMutA](), tf[*RMutB](), tf[RMutC](), tf[RMapS](), tf[RMapSV](), tf[RSP](), tf[RMP](), tf[RStA](), tf[RDeep](), tf[RDeepE](),
	tf[RLeft](), tf[RRight](), tf[RGen[string]](), tf[RGen[[]byte]](), tf[RGen[map[string]int]](), tf[RGen[RSlice]](),
	tf[[]RList](), tf[map[string]RTree](), tf[[2]RMutA](), tf[[]*RMutC](), tf[RPtr](),
	tf[RSA](), tf[RSAI](), tf[RSS](), tf[RSM](), tf[RMA](), tf[RMSt](), tf[RML](), tf[RPA](), tf[RPM](), tf[RPS](), tf[RPSl](),
	tf[ROne](), tf[ROneP](), tf[ROneM](), tf[ROneA](), tf[ROneQ](), tf[RAM](), tf[RASt](), tf[RFar1](), tf[RFar2](), tf[RFar3](), tf[RFar4](), tf[RFar5](),
}

var AnyCatalog = append(append([]reflect.Type{}, Catalog...), tf[RAny](), tf[*RAny](), tf[RAnyS](), tf[RAnyM](), tf[RGen[any]]())
