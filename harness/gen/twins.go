package gen

import "reflect"

// Types that print alike: the same package and name, declared in different functions.

func twin1() []reflect.Type {
	type Twin struct {
		A int
		B string `php:"b"`
	}
	type TwinK int8
	type TwinS []int
	type TwinR struct {
		V    int
		Next *TwinR
	}
	return []reflect.Type{tf[Twin](), tf[TwinK](), tf[TwinS](), tf[TwinR]()}
}

func twin2() []reflect.Type {
	type Twin struct {
		B string
		A int `php:"b,omitempty"`
	}
	type TwinK uint16
	type TwinS []string
	type TwinR struct {
		Next []TwinR
		V    string
	}
	return []reflect.Type{tf[Twin](), tf[TwinK](), tf[TwinS](), tf[TwinR]()}
}

func twin3() []reflect.Type {
	type Twin map[string]int
	type TwinK string
	type TwinS [3]uint8
	type TwinR map[string]TwinR
	return []reflect.Type{tf[Twin](), tf[TwinK](), tf[TwinS](), tf[TwinR]()}
}

func twin4() []reflect.Type {
	type Twin struct {
		A *int   `php:"a,string"`
		C []byte `php:"A"`
	}
	type TwinK int64
	type TwinS map[int]string
	type TwinR []TwinR
	return []reflect.Type{tf[Twin](), tf[TwinK](), tf[TwinS](), tf[TwinR]()}
}

// Twins returns, for each of four names, the types of that name.
func Twins() (out [4][]reflect.Type) {
	for _, l := range [][]reflect.Type{twin1(), twin2(), twin3(), twin4()} {
		for i, t := range l {
			out[i] = append(out[i], t)
		}
	}
	return
}

var twins = Twins()

// twinType is one of the types that have look-alikes.
func twinType(r R, o Opt) reflect.Type {
	i := Pick(r, 0, 0, 1, 2, 3)
	if o.NoMap || i == 3 && !o.Recursive {
		i = 1
	}
	t := pick(r, twins[i])
	switch r.IntN(4) {
	case 0:
		return reflect.SliceOf(t)
	case 1:
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: pick(r, twins[1])}})
	}
	return t
}
