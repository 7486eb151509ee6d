package gen

import (
	"errors"
	"fmt"
	"reflect"
)

// Types with methods that mean something elsewhere (fmt, encoding, database/sql,
// flag, the standard library's notions of zero and length) or have the names of the
// package's own methods with other signatures. None of them may have any effect.
type (
	FBool    bool
	FInt     int
	FInt8    int8
	FInt32   int32
	FInt64   int64
	FUint    uint
	FUint8   uint8
	FUint64  uint64
	FFloat32 float32
	FFloat64 float64
	FString  string
	FBytes   []byte
	FSlice   []int
	FStrs    []string
	FMap     map[string]int
	FIMap    map[int]string
	FArr     [3]int16
	FAnys    []any
	FAnyMap  map[string]any
	FStruct  struct {
		A int
		B string `php:"b,omitempty"`
		C *int
		D FInt   `php:"d,omitempty"`
		E FSlice `php:",omitempty"`
		F FArr   `php:"f,omitempty"`
	}
	FOuter struct {
		S FStruct  `php:"s,omitempty"`
		P *FStruct `php:",omitempty"`
		T FString  `php:"t,omitempty"`
		Q FUint8   `php:"q,omitempty"`
		M map[FString]FStruct
		L []*FOuter `php:",omitempty"`
		U map[FInt]*FUint64
	}

	// Stringy is an interface that they implement.
	Stringy interface{ String() string }
)

var errForeign = errors.New("a foreign method was called")

func (FBool) String() string                      { return "foreign" }
func (FBool) Error() string                       { return "foreign" }
func (FBool) GoString() string                    { return "foreign" }
func (FBool) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FBool) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FBool) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FBool) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FBool) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FBool) Value() (any, error)                 { return "foreign", nil }
func (FBool) IsZero() bool                        { return true }
func (FBool) IsNil() bool                         { return true }
func (FBool) IsEmpty() bool                       { return true }
func (FBool) Len() int                            { return 1 }
func (FBool) Get() any                            { return 1 }
func (FBool) Interface() any                      { return "foreign" }
func (FBool) Elem() any                           { return nil }
func (FBool) MarshalPHP() []byte                  { return []byte("N;") }
func (FBool) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FBool) Serialize() (string, error)          { return "N;", nil }
func (*FBool) UnmarshalText(b []byte) error       { return errForeign }
func (*FBool) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FBool) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FBool) GobDecode(b []byte) error           { return errForeign }
func (*FBool) Scan(any) error                     { return errForeign }
func (*FBool) Set(string) error                   { return errForeign }
func (*FBool) Unserialize(string) error           { return errForeign }
func (*FBool) UnmarshalPHP(string) error          { return errForeign }
func (*FBool) SetZero()                           { panic("a foreign method was called") }

func (FInt) String() string                      { return "foreign" }
func (FInt) Error() string                       { return "foreign" }
func (FInt) GoString() string                    { return "foreign" }
func (FInt) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FInt) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FInt) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FInt) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FInt) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FInt) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FInt) Value() (any, error)                 { return "foreign", nil }
func (FInt) IsZero() bool                        { return false }
func (FInt) IsNil() bool                         { return false }
func (FInt) IsEmpty() bool                       { return false }
func (FInt) Len() int                            { return 1 }
func (FInt) Get() any                            { return 1 }
func (FInt) Interface() any                      { return "foreign" }
func (FInt) Elem() any                           { return nil }
func (FInt) MarshalPHP() []byte                  { return []byte("N;") }
func (FInt) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FInt) Serialize() (string, error)          { return "N;", nil }
func (*FInt) UnmarshalText(b []byte) error       { return errForeign }
func (*FInt) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FInt) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FInt) GobDecode(b []byte) error           { return errForeign }
func (*FInt) Scan(any) error                     { return errForeign }
func (*FInt) Set(string) error                   { return errForeign }
func (*FInt) Unserialize(string) error           { return errForeign }
func (*FInt) UnmarshalPHP(string) error          { return errForeign }
func (*FInt) SetZero()                           { panic("a foreign method was called") }

func (FInt8) String() string                       { return "foreign" }
func (*FInt8) Error() string                       { return "foreign" }
func (*FInt8) GoString() string                    { return "foreign" }
func (*FInt8) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (*FInt8) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (*FInt8) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (*FInt8) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (*FInt8) GobEncode() ([]byte, error)          { return nil, errForeign }
func (*FInt8) Value() (any, error)                 { return "foreign", nil }
func (*FInt8) IsZero() bool                        { return true }
func (*FInt8) IsNil() bool                         { return true }
func (*FInt8) IsEmpty() bool                       { return true }
func (*FInt8) Len() int                            { return 1 }
func (*FInt8) Get() any                            { return 1 }
func (*FInt8) Interface() any                      { return "foreign" }
func (*FInt8) Elem() any                           { return nil }
func (*FInt8) MarshalPHP() []byte                  { return []byte("N;") }
func (*FInt8) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (*FInt8) Serialize() (string, error)          { return "N;", nil }
func (*FInt8) UnmarshalText(b []byte) error        { return errForeign }
func (*FInt8) UnmarshalJSON(b []byte) error        { return errForeign }
func (*FInt8) UnmarshalBinary(b []byte) error      { return errForeign }
func (*FInt8) GobDecode(b []byte) error            { return errForeign }
func (*FInt8) Scan(any) error                      { return errForeign }
func (*FInt8) Set(string) error                    { return errForeign }
func (*FInt8) Unserialize(string) error            { return errForeign }
func (*FInt8) UnmarshalPHP(string) error           { return errForeign }
func (*FInt8) SetZero()                            { panic("a foreign method was called") }

func (FInt32) String() string                      { return "foreign" }
func (FInt32) Error() string                       { return "foreign" }
func (FInt32) GoString() string                    { return "foreign" }
func (FInt32) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FInt32) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FInt32) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FInt32) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FInt32) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FInt32) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FInt32) Value() (any, error)                 { return "foreign", nil }
func (FInt32) IsZero() bool                        { return false }
func (FInt32) IsNil() bool                         { return false }
func (FInt32) IsEmpty() bool                       { return false }
func (FInt32) Len() int                            { return 1 }
func (FInt32) Get() any                            { return 1 }
func (FInt32) Interface() any                      { return "foreign" }
func (FInt32) Elem() any                           { return nil }
func (FInt32) MarshalPHP() []byte                  { return []byte("N;") }
func (FInt32) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FInt32) Serialize() (string, error)          { return "N;", nil }
func (*FInt32) UnmarshalText(b []byte) error       { return errForeign }
func (*FInt32) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FInt32) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FInt32) GobDecode(b []byte) error           { return errForeign }
func (*FInt32) Scan(any) error                     { return errForeign }
func (*FInt32) Set(string) error                   { return errForeign }
func (*FInt32) Unserialize(string) error           { return errForeign }
func (*FInt32) UnmarshalPHP(string) error          { return errForeign }
func (*FInt32) SetZero()                           { panic("a foreign method was called") }

func (FInt64) String() string                      { return "foreign" }
func (FInt64) Error() string                       { return "foreign" }
func (FInt64) GoString() string                    { return "foreign" }
func (FInt64) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FInt64) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FInt64) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FInt64) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FInt64) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FInt64) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FInt64) Value() (any, error)                 { return "foreign", nil }
func (FInt64) IsZero() bool                        { return true }
func (FInt64) IsNil() bool                         { return true }
func (FInt64) IsEmpty() bool                       { return true }
func (FInt64) Len() int                            { return 1 }
func (FInt64) Get() any                            { return 1 }
func (FInt64) Interface() any                      { return "foreign" }
func (FInt64) Elem() any                           { return nil }
func (FInt64) MarshalPHP() []byte                  { return []byte("N;") }
func (FInt64) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FInt64) Serialize() (string, error)          { return "N;", nil }
func (*FInt64) UnmarshalText(b []byte) error       { return errForeign }
func (*FInt64) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FInt64) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FInt64) GobDecode(b []byte) error           { return errForeign }
func (*FInt64) Scan(any) error                     { return errForeign }
func (*FInt64) Set(string) error                   { return errForeign }
func (*FInt64) Unserialize(string) error           { return errForeign }
func (*FInt64) UnmarshalPHP(string) error          { return errForeign }
func (*FInt64) SetZero()                           { panic("a foreign method was called") }

func (FUint) String() string                       { return "foreign" }
func (*FUint) Error() string                       { return "foreign" }
func (*FUint) GoString() string                    { return "foreign" }
func (*FUint) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (*FUint) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (*FUint) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (*FUint) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (*FUint) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (*FUint) GobEncode() ([]byte, error)          { return nil, errForeign }
func (*FUint) Value() (any, error)                 { return "foreign", nil }
func (*FUint) IsZero() bool                        { return false }
func (*FUint) IsNil() bool                         { return false }
func (*FUint) IsEmpty() bool                       { return false }
func (*FUint) Len() int                            { return 1 }
func (*FUint) Get() any                            { return 1 }
func (*FUint) Interface() any                      { return "foreign" }
func (*FUint) Elem() any                           { return nil }
func (*FUint) MarshalPHP() []byte                  { return []byte("N;") }
func (*FUint) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (*FUint) Serialize() (string, error)          { return "N;", nil }
func (*FUint) UnmarshalText(b []byte) error        { return errForeign }
func (*FUint) UnmarshalJSON(b []byte) error        { return errForeign }
func (*FUint) UnmarshalBinary(b []byte) error      { return errForeign }
func (*FUint) GobDecode(b []byte) error            { return errForeign }
func (*FUint) Scan(any) error                      { return errForeign }
func (*FUint) Set(string) error                    { return errForeign }
func (*FUint) Unserialize(string) error            { return errForeign }
func (*FUint) UnmarshalPHP(string) error           { return errForeign }
func (*FUint) SetZero()                            { panic("a foreign method was called") }

func (FUint8) String() string                      { return "foreign" }
func (FUint8) Error() string                       { return "foreign" }
func (FUint8) GoString() string                    { return "foreign" }
func (FUint8) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FUint8) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FUint8) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FUint8) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FUint8) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FUint8) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FUint8) Value() (any, error)                 { return "foreign", nil }
func (FUint8) IsZero() bool                        { return true }
func (FUint8) IsNil() bool                         { return true }
func (FUint8) IsEmpty() bool                       { return true }
func (FUint8) Len() int                            { return 1 }
func (FUint8) Get() any                            { return 1 }
func (FUint8) Interface() any                      { return "foreign" }
func (FUint8) Elem() any                           { return nil }
func (FUint8) MarshalPHP() []byte                  { return []byte("N;") }
func (FUint8) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FUint8) Serialize() (string, error)          { return "N;", nil }
func (*FUint8) UnmarshalText(b []byte) error       { return errForeign }
func (*FUint8) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FUint8) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FUint8) GobDecode(b []byte) error           { return errForeign }
func (*FUint8) Scan(any) error                     { return errForeign }
func (*FUint8) Set(string) error                   { return errForeign }
func (*FUint8) Unserialize(string) error           { return errForeign }
func (*FUint8) UnmarshalPHP(string) error          { return errForeign }
func (*FUint8) SetZero()                           { panic("a foreign method was called") }

func (FUint64) String() string                      { return "foreign" }
func (FUint64) Error() string                       { return "foreign" }
func (FUint64) GoString() string                    { return "foreign" }
func (FUint64) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FUint64) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FUint64) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FUint64) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FUint64) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FUint64) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FUint64) Value() (any, error)                 { return "foreign", nil }
func (FUint64) IsZero() bool                        { return false }
func (FUint64) IsNil() bool                         { return false }
func (FUint64) IsEmpty() bool                       { return false }
func (FUint64) Len() int                            { return 1 }
func (FUint64) Get() any                            { return 1 }
func (FUint64) Interface() any                      { return "foreign" }
func (FUint64) Elem() any                           { return nil }
func (FUint64) MarshalPHP() []byte                  { return []byte("N;") }
func (FUint64) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FUint64) Serialize() (string, error)          { return "N;", nil }
func (*FUint64) UnmarshalText(b []byte) error       { return errForeign }
func (*FUint64) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FUint64) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FUint64) GobDecode(b []byte) error           { return errForeign }
func (*FUint64) Scan(any) error                     { return errForeign }
func (*FUint64) Set(string) error                   { return errForeign }
func (*FUint64) Unserialize(string) error           { return errForeign }
func (*FUint64) UnmarshalPHP(string) error          { return errForeign }
func (*FUint64) SetZero()                           { panic("a foreign method was called") }

func (FFloat32) String() string                       { return "foreign" }
func (*FFloat32) Error() string                       { return "foreign" }
func (*FFloat32) GoString() string                    { return "foreign" }
func (*FFloat32) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (*FFloat32) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (*FFloat32) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (*FFloat32) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (*FFloat32) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (*FFloat32) GobEncode() ([]byte, error)          { return nil, errForeign }
func (*FFloat32) Value() (any, error)                 { return "foreign", nil }
func (*FFloat32) IsZero() bool                        { return true }
func (*FFloat32) IsNil() bool                         { return true }
func (*FFloat32) IsEmpty() bool                       { return true }
func (*FFloat32) Len() int                            { return 1 }
func (*FFloat32) Get() any                            { return 1 }
func (*FFloat32) Interface() any                      { return "foreign" }
func (*FFloat32) Elem() any                           { return nil }
func (*FFloat32) MarshalPHP() []byte                  { return []byte("N;") }
func (*FFloat32) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (*FFloat32) Serialize() (string, error)          { return "N;", nil }
func (*FFloat32) UnmarshalText(b []byte) error        { return errForeign }
func (*FFloat32) UnmarshalJSON(b []byte) error        { return errForeign }
func (*FFloat32) UnmarshalBinary(b []byte) error      { return errForeign }
func (*FFloat32) GobDecode(b []byte) error            { return errForeign }
func (*FFloat32) Scan(any) error                      { return errForeign }
func (*FFloat32) Set(string) error                    { return errForeign }
func (*FFloat32) Unserialize(string) error            { return errForeign }
func (*FFloat32) UnmarshalPHP(string) error           { return errForeign }
func (*FFloat32) SetZero()                            { panic("a foreign method was called") }

func (FFloat64) String() string                      { return "foreign" }
func (FFloat64) Error() string                       { return "foreign" }
func (FFloat64) GoString() string                    { return "foreign" }
func (FFloat64) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FFloat64) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FFloat64) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FFloat64) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FFloat64) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FFloat64) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FFloat64) Value() (any, error)                 { return "foreign", nil }
func (FFloat64) IsZero() bool                        { return false }
func (FFloat64) IsNil() bool                         { return false }
func (FFloat64) IsEmpty() bool                       { return false }
func (FFloat64) Len() int                            { return 1 }
func (FFloat64) Get() any                            { return 1 }
func (FFloat64) Interface() any                      { return "foreign" }
func (FFloat64) Elem() any                           { return nil }
func (FFloat64) MarshalPHP() []byte                  { return []byte("N;") }
func (FFloat64) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FFloat64) Serialize() (string, error)          { return "N;", nil }
func (*FFloat64) UnmarshalText(b []byte) error       { return errForeign }
func (*FFloat64) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FFloat64) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FFloat64) GobDecode(b []byte) error           { return errForeign }
func (*FFloat64) Scan(any) error                     { return errForeign }
func (*FFloat64) Set(string) error                   { return errForeign }
func (*FFloat64) Unserialize(string) error           { return errForeign }
func (*FFloat64) UnmarshalPHP(string) error          { return errForeign }
func (*FFloat64) SetZero()                           { panic("a foreign method was called") }

func (FString) String() string                      { return "foreign" }
func (FString) Error() string                       { return "foreign" }
func (FString) GoString() string                    { return "foreign" }
func (FString) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FString) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FString) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FString) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FString) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FString) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FString) Value() (any, error)                 { return "foreign", nil }
func (FString) IsZero() bool                        { return true }
func (FString) IsNil() bool                         { return true }
func (FString) IsEmpty() bool                       { return true }
func (FString) Len() int                            { return 1 }
func (FString) Get() any                            { return 1 }
func (FString) Interface() any                      { return "foreign" }
func (FString) Elem() any                           { return nil }
func (FString) MarshalPHP() []byte                  { return []byte("N;") }
func (FString) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FString) Serialize() (string, error)          { return "N;", nil }
func (*FString) UnmarshalText(b []byte) error       { return errForeign }
func (*FString) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FString) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FString) GobDecode(b []byte) error           { return errForeign }
func (*FString) Scan(any) error                     { return errForeign }
func (*FString) Set(string) error                   { return errForeign }
func (*FString) Unserialize(string) error           { return errForeign }
func (*FString) UnmarshalPHP(string) error          { return errForeign }
func (*FString) SetZero()                           { panic("a foreign method was called") }

func (FBytes) String() string                       { return "foreign" }
func (*FBytes) Error() string                       { return "foreign" }
func (*FBytes) GoString() string                    { return "foreign" }
func (*FBytes) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (*FBytes) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (*FBytes) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (*FBytes) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (*FBytes) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (*FBytes) GobEncode() ([]byte, error)          { return nil, errForeign }
func (*FBytes) Value() (any, error)                 { return "foreign", nil }
func (*FBytes) IsZero() bool                        { return false }
func (*FBytes) IsNil() bool                         { return false }
func (*FBytes) IsEmpty() bool                       { return false }
func (*FBytes) Len() int                            { return 1 }
func (*FBytes) Get() any                            { return 1 }
func (*FBytes) Interface() any                      { return "foreign" }
func (*FBytes) Elem() any                           { return nil }
func (*FBytes) MarshalPHP() []byte                  { return []byte("N;") }
func (*FBytes) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (*FBytes) Serialize() (string, error)          { return "N;", nil }
func (*FBytes) UnmarshalText(b []byte) error        { return errForeign }
func (*FBytes) UnmarshalJSON(b []byte) error        { return errForeign }
func (*FBytes) UnmarshalBinary(b []byte) error      { return errForeign }
func (*FBytes) GobDecode(b []byte) error            { return errForeign }
func (*FBytes) Scan(any) error                      { return errForeign }
func (*FBytes) Set(string) error                    { return errForeign }
func (*FBytes) Unserialize(string) error            { return errForeign }
func (*FBytes) UnmarshalPHP(string) error           { return errForeign }
func (*FBytes) SetZero()                            { panic("a foreign method was called") }

func (FSlice) String() string                      { return "foreign" }
func (FSlice) Error() string                       { return "foreign" }
func (FSlice) GoString() string                    { return "foreign" }
func (FSlice) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FSlice) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FSlice) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FSlice) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FSlice) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FSlice) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FSlice) Value() (any, error)                 { return "foreign", nil }
func (FSlice) IsZero() bool                        { return true }
func (FSlice) IsNil() bool                         { return true }
func (FSlice) IsEmpty() bool                       { return true }
func (FSlice) Len() int                            { return 1 }
func (FSlice) Get() any                            { return 1 }
func (FSlice) Interface() any                      { return "foreign" }
func (FSlice) Elem() any                           { return nil }
func (FSlice) MarshalPHP() []byte                  { return []byte("N;") }
func (FSlice) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FSlice) Serialize() (string, error)          { return "N;", nil }
func (*FSlice) UnmarshalText(b []byte) error       { return errForeign }
func (*FSlice) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FSlice) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FSlice) GobDecode(b []byte) error           { return errForeign }
func (*FSlice) Scan(any) error                     { return errForeign }
func (*FSlice) Set(string) error                   { return errForeign }
func (*FSlice) Unserialize(string) error           { return errForeign }
func (*FSlice) UnmarshalPHP(string) error          { return errForeign }
func (*FSlice) SetZero()                           { panic("a foreign method was called") }

func (FStrs) String() string                      { return "foreign" }
func (FStrs) Error() string                       { return "foreign" }
func (FStrs) GoString() string                    { return "foreign" }
func (FStrs) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FStrs) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FStrs) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FStrs) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FStrs) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FStrs) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FStrs) Value() (any, error)                 { return "foreign", nil }
func (FStrs) IsZero() bool                        { return false }
func (FStrs) IsNil() bool                         { return false }
func (FStrs) IsEmpty() bool                       { return false }
func (FStrs) Len() int                            { return 1 }
func (FStrs) Get() any                            { return 1 }
func (FStrs) Interface() any                      { return "foreign" }
func (FStrs) Elem() any                           { return nil }
func (FStrs) MarshalPHP() []byte                  { return []byte("N;") }
func (FStrs) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FStrs) Serialize() (string, error)          { return "N;", nil }
func (*FStrs) UnmarshalText(b []byte) error       { return errForeign }
func (*FStrs) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FStrs) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FStrs) GobDecode(b []byte) error           { return errForeign }
func (*FStrs) Scan(any) error                     { return errForeign }
func (*FStrs) Set(string) error                   { return errForeign }
func (*FStrs) Unserialize(string) error           { return errForeign }
func (*FStrs) UnmarshalPHP(string) error          { return errForeign }
func (*FStrs) SetZero()                           { panic("a foreign method was called") }

func (FMap) String() string                       { return "foreign" }
func (*FMap) Error() string                       { return "foreign" }
func (*FMap) GoString() string                    { return "foreign" }
func (*FMap) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (*FMap) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (*FMap) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (*FMap) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (*FMap) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (*FMap) GobEncode() ([]byte, error)          { return nil, errForeign }
func (*FMap) Value() (any, error)                 { return "foreign", nil }
func (*FMap) IsZero() bool                        { return true }
func (*FMap) IsNil() bool                         { return true }
func (*FMap) IsEmpty() bool                       { return true }
func (*FMap) Len() int                            { return 1 }
func (*FMap) Get() any                            { return 1 }
func (*FMap) Interface() any                      { return "foreign" }
func (*FMap) Elem() any                           { return nil }
func (*FMap) MarshalPHP() []byte                  { return []byte("N;") }
func (*FMap) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (*FMap) Serialize() (string, error)          { return "N;", nil }
func (*FMap) UnmarshalText(b []byte) error        { return errForeign }
func (*FMap) UnmarshalJSON(b []byte) error        { return errForeign }
func (*FMap) UnmarshalBinary(b []byte) error      { return errForeign }
func (*FMap) GobDecode(b []byte) error            { return errForeign }
func (*FMap) Scan(any) error                      { return errForeign }
func (*FMap) Set(string) error                    { return errForeign }
func (*FMap) Unserialize(string) error            { return errForeign }
func (*FMap) UnmarshalPHP(string) error           { return errForeign }
func (*FMap) SetZero()                            { panic("a foreign method was called") }

func (FIMap) String() string                      { return "foreign" }
func (FIMap) Error() string                       { return "foreign" }
func (FIMap) GoString() string                    { return "foreign" }
func (FIMap) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FIMap) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FIMap) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FIMap) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FIMap) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FIMap) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FIMap) Value() (any, error)                 { return "foreign", nil }
func (FIMap) IsZero() bool                        { return false }
func (FIMap) IsNil() bool                         { return false }
func (FIMap) IsEmpty() bool                       { return false }
func (FIMap) Len() int                            { return 1 }
func (FIMap) Get() any                            { return 1 }
func (FIMap) Interface() any                      { return "foreign" }
func (FIMap) Elem() any                           { return nil }
func (FIMap) MarshalPHP() []byte                  { return []byte("N;") }
func (FIMap) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FIMap) Serialize() (string, error)          { return "N;", nil }
func (*FIMap) UnmarshalText(b []byte) error       { return errForeign }
func (*FIMap) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FIMap) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FIMap) GobDecode(b []byte) error           { return errForeign }
func (*FIMap) Scan(any) error                     { return errForeign }
func (*FIMap) Set(string) error                   { return errForeign }
func (*FIMap) Unserialize(string) error           { return errForeign }
func (*FIMap) UnmarshalPHP(string) error          { return errForeign }
func (*FIMap) SetZero()                           { panic("a foreign method was called") }

func (FArr) String() string                      { return "foreign" }
func (FArr) Error() string                       { return "foreign" }
func (FArr) GoString() string                    { return "foreign" }
func (FArr) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FArr) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FArr) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FArr) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FArr) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FArr) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FArr) Value() (any, error)                 { return "foreign", nil }
func (FArr) IsZero() bool                        { return true }
func (FArr) IsNil() bool                         { return true }
func (FArr) IsEmpty() bool                       { return true }
func (FArr) Len() int                            { return 1 }
func (FArr) Get() any                            { return 1 }
func (FArr) Interface() any                      { return "foreign" }
func (FArr) Elem() any                           { return nil }
func (FArr) MarshalPHP() []byte                  { return []byte("N;") }
func (FArr) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FArr) Serialize() (string, error)          { return "N;", nil }
func (*FArr) UnmarshalText(b []byte) error       { return errForeign }
func (*FArr) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FArr) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FArr) GobDecode(b []byte) error           { return errForeign }
func (*FArr) Scan(any) error                     { return errForeign }
func (*FArr) Set(string) error                   { return errForeign }
func (*FArr) Unserialize(string) error           { return errForeign }
func (*FArr) UnmarshalPHP(string) error          { return errForeign }
func (*FArr) SetZero()                           { panic("a foreign method was called") }

func (FAnys) String() string                       { return "foreign" }
func (*FAnys) Error() string                       { return "foreign" }
func (*FAnys) GoString() string                    { return "foreign" }
func (*FAnys) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (*FAnys) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (*FAnys) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (*FAnys) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (*FAnys) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (*FAnys) GobEncode() ([]byte, error)          { return nil, errForeign }
func (*FAnys) Value() (any, error)                 { return "foreign", nil }
func (*FAnys) IsZero() bool                        { return false }
func (*FAnys) IsNil() bool                         { return false }
func (*FAnys) IsEmpty() bool                       { return false }
func (*FAnys) Len() int                            { return 1 }
func (*FAnys) Get() any                            { return 1 }
func (*FAnys) Interface() any                      { return "foreign" }
func (*FAnys) Elem() any                           { return nil }
func (*FAnys) MarshalPHP() []byte                  { return []byte("N;") }
func (*FAnys) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (*FAnys) Serialize() (string, error)          { return "N;", nil }
func (*FAnys) UnmarshalText(b []byte) error        { return errForeign }
func (*FAnys) UnmarshalJSON(b []byte) error        { return errForeign }
func (*FAnys) UnmarshalBinary(b []byte) error      { return errForeign }
func (*FAnys) GobDecode(b []byte) error            { return errForeign }
func (*FAnys) Scan(any) error                      { return errForeign }
func (*FAnys) Set(string) error                    { return errForeign }
func (*FAnys) Unserialize(string) error            { return errForeign }
func (*FAnys) UnmarshalPHP(string) error           { return errForeign }
func (*FAnys) SetZero()                            { panic("a foreign method was called") }

func (FAnyMap) String() string                      { return "foreign" }
func (FAnyMap) Error() string                       { return "foreign" }
func (FAnyMap) GoString() string                    { return "foreign" }
func (FAnyMap) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FAnyMap) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FAnyMap) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FAnyMap) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FAnyMap) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FAnyMap) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FAnyMap) Value() (any, error)                 { return "foreign", nil }
func (FAnyMap) IsZero() bool                        { return true }
func (FAnyMap) IsNil() bool                         { return true }
func (FAnyMap) IsEmpty() bool                       { return true }
func (FAnyMap) Len() int                            { return 1 }
func (FAnyMap) Get() any                            { return 1 }
func (FAnyMap) Interface() any                      { return "foreign" }
func (FAnyMap) Elem() any                           { return nil }
func (FAnyMap) MarshalPHP() []byte                  { return []byte("N;") }
func (FAnyMap) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FAnyMap) Serialize() (string, error)          { return "N;", nil }
func (*FAnyMap) UnmarshalText(b []byte) error       { return errForeign }
func (*FAnyMap) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FAnyMap) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FAnyMap) GobDecode(b []byte) error           { return errForeign }
func (*FAnyMap) Scan(any) error                     { return errForeign }
func (*FAnyMap) Set(string) error                   { return errForeign }
func (*FAnyMap) Unserialize(string) error           { return errForeign }
func (*FAnyMap) UnmarshalPHP(string) error          { return errForeign }
func (*FAnyMap) SetZero()                           { panic("a foreign method was called") }

func (FStruct) String() string                      { return "foreign" }
func (FStruct) Error() string                       { return "foreign" }
func (FStruct) GoString() string                    { return "foreign" }
func (FStruct) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (FStruct) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (FStruct) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (FStruct) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (FStruct) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (FStruct) GobEncode() ([]byte, error)          { return nil, errForeign }
func (FStruct) Value() (any, error)                 { return "foreign", nil }
func (FStruct) IsZero() bool                        { return false }
func (FStruct) IsNil() bool                         { return false }
func (FStruct) IsEmpty() bool                       { return false }
func (FStruct) Len() int                            { return 1 }
func (FStruct) Get() any                            { return 1 }
func (FStruct) Interface() any                      { return "foreign" }
func (FStruct) Elem() any                           { return nil }
func (FStruct) MarshalPHP() []byte                  { return []byte("N;") }
func (FStruct) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (FStruct) Serialize() (string, error)          { return "N;", nil }
func (*FStruct) UnmarshalText(b []byte) error       { return errForeign }
func (*FStruct) UnmarshalJSON(b []byte) error       { return errForeign }
func (*FStruct) UnmarshalBinary(b []byte) error     { return errForeign }
func (*FStruct) GobDecode(b []byte) error           { return errForeign }
func (*FStruct) Scan(any) error                     { return errForeign }
func (*FStruct) Set(string) error                   { return errForeign }
func (*FStruct) Unserialize(string) error           { return errForeign }
func (*FStruct) UnmarshalPHP(string) error          { return errForeign }
func (*FStruct) SetZero()                           { panic("a foreign method was called") }

func (FOuter) String() string                       { return "foreign" }
func (*FOuter) Error() string                       { return "foreign" }
func (*FOuter) GoString() string                    { return "foreign" }
func (*FOuter) Format(s fmt.State, c rune)          { s.Write([]byte("foreign")) }
func (*FOuter) MarshalText() ([]byte, error)        { return []byte("foreign"), nil }
func (*FOuter) MarshalJSON() ([]byte, error)        { return []byte("1"), nil }
func (*FOuter) MarshalBinary() ([]byte, error)      { return nil, errForeign }
func (*FOuter) AppendText(b []byte) ([]byte, error) { return append(b, "foreign"...), nil }
func (*FOuter) GobEncode() ([]byte, error)          { return nil, errForeign }
func (*FOuter) Value() (any, error)                 { return "foreign", nil }
func (*FOuter) IsZero() bool                        { return true }
func (*FOuter) IsNil() bool                         { return true }
func (*FOuter) IsEmpty() bool                       { return true }
func (*FOuter) Len() int                            { return 1 }
func (*FOuter) Get() any                            { return 1 }
func (*FOuter) Interface() any                      { return "foreign" }
func (*FOuter) Elem() any                           { return nil }
func (*FOuter) MarshalPHP() []byte                  { return []byte("N;") }
func (*FOuter) PHPSerialize() ([]byte, error)       { return []byte("N;"), nil }
func (*FOuter) Serialize() (string, error)          { return "N;", nil }
func (*FOuter) UnmarshalText(b []byte) error        { return errForeign }
func (*FOuter) UnmarshalJSON(b []byte) error        { return errForeign }
func (*FOuter) UnmarshalBinary(b []byte) error      { return errForeign }
func (*FOuter) GobDecode(b []byte) error            { return errForeign }
func (*FOuter) Scan(any) error                      { return errForeign }
func (*FOuter) Set(string) error                    { return errForeign }
func (*FOuter) Unserialize(string) error            { return errForeign }
func (*FOuter) UnmarshalPHP(string) error           { return errForeign }
func (*FOuter) SetZero()                            { panic("a foreign method was called") }

var stringies = []reflect.Type{tf[FBool](), tf[FInt](), tf[FInt8](), tf[FInt32](), tf[FInt64](), tf[FUint](), tf[FUint8](), tf[FUint64](), tf[FFloat32](), tf[FFloat64](), tf[FString](), tf[FSlice](), tf[FStrs](), tf[FMap](), tf[FIMap](), tf[FArr](), tf[FBytes](), tf[FStruct](), tf[FOuter](), tf[*FStruct](), tf[*FInt](), tf[*FString](), tf[*FMap]()}

func init() {
	named = append(named, tf[FBool](), tf[FInt](), tf[FInt8](), tf[FInt32](), tf[FInt64](), tf[FUint](), tf[FUint8](), tf[FUint64](), tf[FFloat32](), tf[FFloat64](), tf[FString]())
	namedKeys = append(namedKeys, tf[FString](), tf[FInt](), tf[FInt8](), tf[FUint64](), tf[FInt64]())
	namedOther = append(namedOther, tf[FSlice](), tf[FStrs](), tf[FMap](), tf[FIMap](), tf[FArr](), tf[FBytes]())
	namedAny = append(namedAny, tf[FAnys](), tf[FAnyMap](), tf[Stringy]())
	for _, t := range []reflect.Type{tf[FStruct](), tf[FOuter](), tf[*FOuter](), tf[[]FStruct](), tf[map[FString]FOuter]()} {
		Catalog = append(Catalog, t)
		AnyCatalog = append(AnyCatalog, t)
	}
}
