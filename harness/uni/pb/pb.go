// Package pb has types of the same names as its sibling
package pb

import "github.com/mjarkk/yarql"

// Pet is an interface
type Pet interface{ ResolveName() string }

// Dog is an implementation
type Dog struct{ Bark string }

// Cat is an implementation in package pa only
type Cat struct{ Meow string }

// Old has another name in package pb
type Old struct{ X int }

// Filter is an input
type Filter struct{ A int }

// ResolveName is a resolver
func (d Dog) ResolveName() string { return "pb dog" }

// ResolveName is a resolver
func (c Cat) ResolveName() string { return "pb cat" }

// Root is a query
type Root struct {
	Pets []Pet
	Old  Old
}

// ResolveIt is a resolver
func (Root) ResolveIt(a struct{ F Filter }) int { return a.F.A }

// Make makes the query
func Make() Root { return Root{Pets: []Pet{Dog{"wuf"}, Cat{"miauw"}}} }

func init() {
	yarql.Implements((*Pet)(nil), Dog{})
	yarql.TypeRename(Old{}, "Fresh")
	yarql.TypeRename(Filter{}, "FreshFilter")
}

// E39x has the name of other enums
type E39x string

// E39y has the name of other enums
type E39y int16

// E39z has the name of other enums
type E39z uint8

type __TypeKind uint8

type __DirectiveLocation string

// Enums returns maps with these
func Enums(name string) interface{} {
	switch name {
	case "E39x":
		return map[string]E39x{"ONE": "x", "Other": "y"}
	case "E39y":
		return map[string]E39y{"Other": 1}
	case "E39z":
		return map[string]E39z{"Other": 1}
	case "__TypeKind":
		return map[string]__TypeKind{"SCALAR": 1}
	default:
		return map[string]__DirectiveLocation{"Other": "FIELD"}
	}
}
