// Code generated by tools/genuni.py. DO NOT EDIT.

package uni

import (
	"mime/multipart"
	"reflect"
	"time"

	"github.com/mjarkk/yarql"
)

// I0 is an interface
type I0 interface {
	ResolveListI0(ctx *yarql.Ctx) uint16
	ResolveFindI0(a0 struct {
		Inner InPoint
		Items uint32 `gq:",id"`
	}) (error, bool)
	ResolveEchoI0(a0 struct {
		Count   []EFlag
		Color   **multipart.FileHeader
		X       **InAll
		Created []EBig
	}) int32
}

// I1 is an interface
type I1 interface {
	ResolveSumI1(a0 struct {
		Kind  uint32 `gq:"re_kind"`
		Extra float64
		X     float32
		Level []int8
	}) S15
	ResolveFindI1(a0 struct{ HTTPCode uint8 }, ctx *yarql.Ctx) uint
}

// I2 is an interface
type I2 interface {
	ResolveComputeI2() (error, MyF)
	ResolveListI2(a0 struct {
		Level     []EColor
		Meta_data *int64 `gq:"re_meta_data"`
		Name      string
	}) float32
	ResolveXI2(ctx *yarql.Ctx, a0 struct {
		Matrix []int16
		Name   MyInt `gq:",id"`
		Flag   *int
		A      []int8
	}) ETiny
}

// I3 is an interface
type I3 interface {
	ResolveRelatedI3(a0 struct {
		Info  ***multipart.FileHeader
		Title uint32
	}, ctx *yarql.Ctx) (*uint64, error, yarql.AttrIsID)
	ResolveSearchI3(a0 struct {
		Info uint64
		Root InRec
	}, ctx *yarql.Ctx) (I0, error)
}

// S0 is an object
type S0 struct {
	W     *World `gq:"-"`
	Uid   int64  `gq:"-"`
	Body  [2]I1
	Data  *S21
	Value uint
	Root  uint8
	Get   func(struct {
		Extra string
		X     InPoint
		Tags  []EColor
		Owner *EFlag
	}) ([]S9, error)
	B2         MyF
	Count      *S18
	Call       func(*yarql.Ctx) (MyInt, error)
	Extra      []*S23
	HCompute   *I3     `gq:"-"`
	HListI0    uint16  `gq:"-"`
	HFindI0    bool    `gq:"-"`
	HEchoI0    int32   `gq:"-"`
	HComputeI2 MyF     `gq:"-"`
	HListI2    float32 `gq:"-"`
	HXI2       ETiny   `gq:"-"`
}

// ResolveCompute is a resolver
func (s S0) ResolveCompute(a0 struct {
	Flag   *string
	Inner  EBig
	Matrix int8
	X      int64 `gq:",id"`
}, ctx *yarql.Ctx) *I3 {
	s.W.Call("S0.Compute", s.Uid, ctx, true, a0)
	return s.HCompute
}

// ResolveListI0 is a resolver
func (s S0) ResolveListI0(ctx *yarql.Ctx) uint16 {
	s.W.Call("S0.ListI0", s.Uid, ctx, true)
	return s.HListI0
}

// ResolveFindI0 is a resolver
func (s S0) ResolveFindI0(a0 struct {
	Inner InPoint
	Items uint32 `gq:",id"`
}) (error, bool) {
	err := s.W.Call("S0.FindI0", s.Uid, nil, false, a0)
	return err, s.HFindI0
}

// ResolveEchoI0 is a resolver
func (s S0) ResolveEchoI0(a0 struct {
	Count   []EFlag
	Color   **multipart.FileHeader
	X       **InAll
	Created []EBig
}) int32 {
	s.W.Call("S0.EchoI0", s.Uid, nil, false, a0)
	return s.HEchoI0
}

// ResolveComputeI2 is a resolver
func (s S0) ResolveComputeI2() (error, MyF) {
	err := s.W.Call("S0.ComputeI2", s.Uid, nil, false)
	return err, s.HComputeI2
}

// ResolveListI2 is a resolver
func (s S0) ResolveListI2(a0 struct {
	Level     []EColor
	Meta_data *int64 `gq:"re_meta_data"`
	Name      string
}) float32 {
	s.W.Call("S0.ListI2", s.Uid, nil, false, a0)
	return s.HListI2
}

// ResolveXI2 is a resolver
func (s S0) ResolveXI2(ctx *yarql.Ctx, a0 struct {
	Matrix []int16
	Name   MyInt `gq:",id"`
	Flag   *int
	A      []int8
}) ETiny {
	s.W.Call("S0.XI2", s.Uid, ctx, true, a0)
	return s.HXI2
}

// S1 is an object
type S1 struct {
	W       *World `gq:"-"`
	Uid     int64  `gq:"-"`
	Note    [3][1]MyStr
	Flag    S7
	Other   float64
	Root    bool
	Name    EFlag
	A       []*int16
	HTotal  I3     `gq:"-"`
	HListI0 uint16 `gq:"-"`
	HFindI0 bool   `gq:"-"`
	HEchoI0 int32  `gq:"-"`
}

// ResolveTotal is a resolver
func (s S1) ResolveTotal() I3 {
	s.W.Call("S1.Total", s.Uid, nil, false)
	return s.HTotal
}

// ResolveListI0 is a resolver
func (s S1) ResolveListI0(ctx *yarql.Ctx) uint16 {
	s.W.Call("S1.ListI0", s.Uid, ctx, true)
	return s.HListI0
}

// ResolveFindI0 is a resolver
func (s S1) ResolveFindI0(a0 struct {
	Inner InPoint
	Items uint32 `gq:",id"`
}) (error, bool) {
	err := s.W.Call("S1.FindI0", s.Uid, nil, false, a0)
	return err, s.HFindI0
}

// ResolveEchoI0 is a resolver
func (s S1) ResolveEchoI0(a0 struct {
	Count   []EFlag
	Color   **multipart.FileHeader
	X       **InAll
	Created []EBig
}) int32 {
	s.W.Call("S1.EchoI0", s.Uid, nil, false, a0)
	return s.HEchoI0
}

// S2 is an object
type S2 struct {
	W                       *World `gq:"-"`
	Uid                     int64  `gq:"-"`
	Score                   time.Time
	Owner                   **EWord
	LongFieldNameThatGoesOn []int
	B2                      I1
	HTTPCode                MyInt
	Color                   S24
	HFetch                  S21    `gq:"-"`
	HList                   MyF    `gq:"-"`
	HListI0                 uint16 `gq:"-"`
	HFindI0                 bool   `gq:"-"`
	HEchoI0                 int32  `gq:"-"`
	HSumI1                  S15    `gq:"-"`
	HFindI1                 uint   `gq:"-"`
}

// ResolveFetch is a resolver
func (s S2) ResolveFetch(ctx *yarql.Ctx, a0 struct {
	Tags  uint64
	Peer  []*float64
	Value int
}) (S21, error) {
	err := s.W.Call("S2.Fetch", s.Uid, ctx, true, a0)
	return s.HFetch, err
}

// ResolveList is a resolver
func (s S2) ResolveList(a0 struct {
	Y1     float64
	Matrix int8
}, a1 struct {
	Flag time.Time
	Info string
}) (error, MyF) {
	err := s.W.Call("S2.List", s.Uid, nil, false, a0, a1)
	return err, s.HList
}

// ResolveListI0 is a resolver
func (s S2) ResolveListI0(ctx *yarql.Ctx) uint16 {
	s.W.Call("S2.ListI0", s.Uid, ctx, true)
	return s.HListI0
}

// ResolveFindI0 is a resolver
func (s S2) ResolveFindI0(a0 struct {
	Inner InPoint
	Items uint32 `gq:",id"`
}) (error, bool) {
	err := s.W.Call("S2.FindI0", s.Uid, nil, false, a0)
	return err, s.HFindI0
}

// ResolveEchoI0 is a resolver
func (s S2) ResolveEchoI0(a0 struct {
	Count   []EFlag
	Color   **multipart.FileHeader
	X       **InAll
	Created []EBig
}) int32 {
	s.W.Call("S2.EchoI0", s.Uid, nil, false, a0)
	return s.HEchoI0
}

// ResolveSumI1 is a resolver
func (s S2) ResolveSumI1(a0 struct {
	Kind  uint32 `gq:"re_kind"`
	Extra float64
	X     float32
	Level []int8
}) S15 {
	s.W.Call("S2.SumI1", s.Uid, nil, false, a0)
	return s.HSumI1
}

// ResolveFindI1 is a resolver
func (s S2) ResolveFindI1(a0 struct{ HTTPCode uint8 }, ctx *yarql.Ctx) uint {
	s.W.Call("S2.FindI1", s.Uid, ctx, true, a0)
	return s.HFindI1
}

// S3 is an object
type S3 struct {
	W        *World `gq:"-"`
	Uid      int64  `gq:"-"`
	Other    EWord
	Info     S6
	Kind     uint8         `gq:"re_kind"`
	HRelated [1][][]uint64 `gq:"-"`
	HList    S1            `gq:"-"`
	HSumI1   S15           `gq:"-"`
	HFindI1  uint          `gq:"-"`
}

// ResolveRelated is a resolver
func (s S3) ResolveRelated(a0 struct {
	Count MyStr `gq:",id"`
	Info  uint8
}) ([1][][]uint64, error) {
	err := s.W.Call("S3.Related", s.Uid, nil, false, a0)
	return s.HRelated, err
}

// ResolveList is a resolver
func (s S3) ResolveList(a0 struct {
	Owner []float64
	Leaf  uint
	Tags  MyInt `gq:",id"`
	Name  int
}) (error, S1) {
	err := s.W.Call("S3.List", s.Uid, nil, false, a0)
	return err, s.HList
}

// ResolveSumI1 is a resolver
func (s S3) ResolveSumI1(a0 struct {
	Kind  uint32 `gq:"re_kind"`
	Extra float64
	X     float32
	Level []int8
}) S15 {
	s.W.Call("S3.SumI1", s.Uid, nil, false, a0)
	return s.HSumI1
}

// ResolveFindI1 is a resolver
func (s S3) ResolveFindI1(a0 struct{ HTTPCode uint8 }, ctx *yarql.Ctx) uint {
	s.W.Call("S3.FindI1", s.Uid, ctx, true, a0)
	return s.HFindI1
}

// S4 is an object
type S4 struct {
	W     *World `gq:"-"`
	Uid   int64  `gq:"-"`
	Value []ESize
	Other string
	Call  func(struct {
		Value MyB
		Other []uint16
	}, struct {
		Ratio    EWord
		HTTPCode uint8
	}) (error, []I3)
	Count   []S10
	Name    MyInt
	HEcho   *EFlag  `gq:"-"`
	HFind   int     `gq:"-"`
	HLookup S10     `gq:"-"`
	HBest   *uint64 `gq:"-"`
	HSumI1  S15     `gq:"-"`
	HFindI1 uint    `gq:"-"`
}

// ResolveEcho is a resolver
func (s S4) ResolveEcho(a0 struct {
	A     int8
	Color *[]uint
}, a1 struct {
	Extra     MyF
	Meta_data EFlag
}) *EFlag {
	s.W.Call("S4.Echo", s.Uid, nil, false, a0, a1)
	return s.HEcho
}

// ResolveFind is a resolver
func (s S4) ResolveFind() (error, int) {
	err := s.W.Call("S4.Find", s.Uid, nil, false)
	return err, s.HFind
}

// ResolveLookup is a resolver
func (s S4) ResolveLookup(a0 struct {
	B2 uint `gq:",id"`
}) (error, S10) {
	err := s.W.Call("S4.Lookup", s.Uid, nil, false, a0)
	return err, s.HLookup
}

// ResolveBest is a resolver
func (s S4) ResolveBest() (error, *uint64) {
	err := s.W.Call("S4.Best", s.Uid, nil, false)
	return err, s.HBest
}

// ResolveSumI1 is a resolver
func (s S4) ResolveSumI1(a0 struct {
	Kind  uint32 `gq:"re_kind"`
	Extra float64
	X     float32
	Level []int8
}) S15 {
	s.W.Call("S4.SumI1", s.Uid, nil, false, a0)
	return s.HSumI1
}

// ResolveFindI1 is a resolver
func (s S4) ResolveFindI1(a0 struct{ HTTPCode uint8 }, ctx *yarql.Ctx) uint {
	s.W.Call("S4.FindI1", s.Uid, ctx, true, a0)
	return s.HFindI1
}

// S5 is an object
type S5 struct {
	W          *World `gq:"-"`
	Uid        int64  `gq:"-"`
	Tags       string
	Owner      []string
	Matrix     [][]*I2
	Y1         I2 `gq:"re_y1"`
	Value      [][]string
	HCompute   int32   `gq:"-"`
	HFind      uint    `gq:"-"`
	HSum       []int32 `gq:"-"`
	HHistory   []I0    `gq:"-"`
	HComputeI2 MyF     `gq:"-"`
	HListI2    float32 `gq:"-"`
	HXI2       ETiny   `gq:"-"`
}

// ResolveCompute is a resolver
func (s S5) ResolveCompute(a0 struct {
	LongFieldNameThatGoesOn int32
	URL                     InPoint
}, a1 struct {
	A  MyInt
	B2 *string
}) (error, int32) {
	err := s.W.Call("S5.Compute", s.Uid, nil, false, a0, a1)
	return err, s.HCompute
}

// ResolveFind is a resolver
func (s S5) ResolveFind() uint {
	s.W.Call("S5.Find", s.Uid, nil, false)
	return s.HFind
}

// ResolveSum is a resolver
func (s S5) ResolveSum() []int32 {
	s.W.Call("S5.Sum", s.Uid, nil, false)
	return s.HSum
}

// ResolveHistory is a resolver
func (s S5) ResolveHistory(ctx *yarql.Ctx) []I0 {
	s.W.Call("S5.History", s.Uid, ctx, true)
	return s.HHistory
}

// ResolveComputeI2 is a resolver
func (s S5) ResolveComputeI2() (error, MyF) {
	err := s.W.Call("S5.ComputeI2", s.Uid, nil, false)
	return err, s.HComputeI2
}

// ResolveListI2 is a resolver
func (s S5) ResolveListI2(a0 struct {
	Level     []EColor
	Meta_data *int64 `gq:"re_meta_data"`
	Name      string
}) float32 {
	s.W.Call("S5.ListI2", s.Uid, nil, false, a0)
	return s.HListI2
}

// ResolveXI2 is a resolver
func (s S5) ResolveXI2(ctx *yarql.Ctx, a0 struct {
	Matrix []int16
	Name   MyInt `gq:",id"`
	Flag   *int
	A      []int8
}) ETiny {
	s.W.Call("S5.XI2", s.Uid, ctx, true, a0)
	return s.HXI2
}

// S6 is an object
type S6 struct {
	W                       *World `gq:"-"`
	Uid                     int64  `gq:"-"`
	Inner                   []ETiny
	URL                     ETiny
	Matrix                  [0]EWord
	Root                    I0
	Extra                   int
	Make                    func() (error, EFlag)
	Other                   [2][0]*ETiny
	Created                 int32 `gq:",id"`
	LongFieldNameThatGoesOn *int32
	HLookup                 bool    `gq:"-"`
	HList                   S1      `gq:"-"`
	HEcho                   [3]I0   `gq:"-"`
	HSearch                 int32   `gq:"-"`
	HComputeI2              MyF     `gq:"-"`
	HListI2                 float32 `gq:"-"`
	HXI2                    ETiny   `gq:"-"`
}

// ResolveLookup is a resolver
func (s S6) ResolveLookup() (bool, error) {
	err := s.W.Call("S6.Lookup", s.Uid, nil, false)
	return s.HLookup, err
}

// ResolveList is a resolver
func (s S6) ResolveList() (S1, error) {
	err := s.W.Call("S6.List", s.Uid, nil, false)
	return s.HList, err
}

// ResolveEcho is a resolver
func (s S6) ResolveEcho(ctx *yarql.Ctx) ([3]I0, error) {
	err := s.W.Call("S6.Echo", s.Uid, ctx, true)
	return s.HEcho, err
}

// ResolveSearch is a resolver
func (s S6) ResolveSearch() int32 {
	s.W.Call("S6.Search", s.Uid, nil, false)
	return s.HSearch
}

// ResolveComputeI2 is a resolver
func (s S6) ResolveComputeI2() (error, MyF) {
	err := s.W.Call("S6.ComputeI2", s.Uid, nil, false)
	return err, s.HComputeI2
}

// ResolveListI2 is a resolver
func (s S6) ResolveListI2(a0 struct {
	Level     []EColor
	Meta_data *int64 `gq:"re_meta_data"`
	Name      string
}) float32 {
	s.W.Call("S6.ListI2", s.Uid, nil, false, a0)
	return s.HListI2
}

// ResolveXI2 is a resolver
func (s S6) ResolveXI2(ctx *yarql.Ctx, a0 struct {
	Matrix []int16
	Name   MyInt `gq:",id"`
	Flag   *int
	A      []int8
}) ETiny {
	s.W.Call("S6.XI2", s.Uid, ctx, true, a0)
	return s.HXI2
}

// S7 is an object
type S7 struct {
	W     *World `gq:"-"`
	Uid   int64  `gq:"-"`
	Value MyB
	Get   func(struct {
		Leaf  int8
		Items uint  `gq:"re_items"`
		Extra MyStr `gq:",id"`
		Owner ***float64
	}) (error, []int)
	Data       S19
	Created    I0
	URL        int16
	HURLOf     uint16  `gq:"-"`
	HComputeI2 MyF     `gq:"-"`
	HListI2    float32 `gq:"-"`
	HXI2       ETiny   `gq:"-"`
}

// ResolveURLOf is a resolver
func (s S7) ResolveURLOf(ctx *yarql.Ctx, a0 struct {
	Kind      **float32
	Title     *int32
	Created   *MyInt
	Meta_data uint16 `gq:",id"`
}) (uint16, error) {
	err := s.W.Call("S7.URLOf", s.Uid, ctx, true, a0)
	return s.HURLOf, err
}

// ResolveComputeI2 is a resolver
func (s S7) ResolveComputeI2() (error, MyF) {
	err := s.W.Call("S7.ComputeI2", s.Uid, nil, false)
	return err, s.HComputeI2
}

// ResolveListI2 is a resolver
func (s S7) ResolveListI2(a0 struct {
	Level     []EColor
	Meta_data *int64 `gq:"re_meta_data"`
	Name      string
}) float32 {
	s.W.Call("S7.ListI2", s.Uid, nil, false, a0)
	return s.HListI2
}

// ResolveXI2 is a resolver
func (s S7) ResolveXI2(ctx *yarql.Ctx, a0 struct {
	Matrix []int16
	Name   MyInt `gq:",id"`
	Flag   *int
	A      []int8
}) ETiny {
	s.W.Call("S7.XI2", s.Uid, ctx, true, a0)
	return s.HXI2
}

// S8 is an object
type S8 struct {
	W          *World `gq:"-"`
	Uid        int64  `gq:"-"`
	Parent     float64
	B2         int64
	Value      S24
	Flag       **S13
	X          EFlag
	Level      int16
	Peer       *S11
	A          []S14
	HBest      int32   `gq:"-"`
	HEcho      []**S17 `gq:"-"`
	HRelatedI3 *uint64 `gq:"-"`
	HSearchI3  I0      `gq:"-"`
}

// ResolveBest is a resolver
func (s S8) ResolveBest(a0 struct {
	Owner uint64
	Title []InAll
}) int32 {
	s.W.Call("S8.Best", s.Uid, nil, false, a0)
	return s.HBest
}

// ResolveEcho is a resolver
func (s S8) ResolveEcho() []**S17 {
	s.W.Call("S8.Echo", s.Uid, nil, false)
	return s.HEcho
}

// ResolveRelatedI3 is a resolver
func (s S8) ResolveRelatedI3(a0 struct {
	Info  ***multipart.FileHeader
	Title uint32
}, ctx *yarql.Ctx) (*uint64, error, yarql.AttrIsID) {
	err := s.W.Call("S8.RelatedI3", s.Uid, ctx, true, a0)
	return s.HRelatedI3, err, 0
}

// ResolveSearchI3 is a resolver
func (s S8) ResolveSearchI3(a0 struct {
	Info uint64
	Root InRec
}, ctx *yarql.Ctx) (I0, error) {
	err := s.W.Call("S8.SearchI3", s.Uid, ctx, true, a0)
	return s.HSearchI3, err
}

// S9 is an object
type S9 struct {
	W     *World `gq:"-"`
	Uid   int64  `gq:"-"`
	Peer  uint32
	URL   *S8
	Items *S9
	Flag  MyInt
	Data  **S17 `gq:"re_data"`
	Get   func(struct {
		Other   uint32
		Y1      time.Time
		B2      int8
		Created *float64
	}, *yarql.Ctx) (error, []uint32)
	Call func(*yarql.Ctx, struct {
		Title EColor
		Child MyStr `gq:",id"`
	}) (float64, error)
	Value      uint64
	Ratio      *S14 `gq:"re_ratio"`
	Matrix     ESize
	HX         *uint      `gq:"-"`
	HFetch     [2][]EFlag `gq:"-"`
	HRelatedI3 *uint64    `gq:"-"`
	HSearchI3  I0         `gq:"-"`
}

// ResolveX is a resolver
func (s S9) ResolveX(a0 struct {
	URL   EFlag
	Level MyF
	Items [][]float64
	Note  *MyF
}) (error, *uint) {
	err := s.W.Call("S9.X", s.Uid, nil, false, a0)
	return err, s.HX
}

// ResolveFetch is a resolver
func (s S9) ResolveFetch(a0 struct{ Note string }, ctx *yarql.Ctx) [2][]EFlag {
	s.W.Call("S9.Fetch", s.Uid, ctx, true, a0)
	return s.HFetch
}

// ResolveRelatedI3 is a resolver
func (s S9) ResolveRelatedI3(a0 struct {
	Info  ***multipart.FileHeader
	Title uint32
}, ctx *yarql.Ctx) (*uint64, error, yarql.AttrIsID) {
	err := s.W.Call("S9.RelatedI3", s.Uid, ctx, true, a0)
	return s.HRelatedI3, err, 0
}

// ResolveSearchI3 is a resolver
func (s S9) ResolveSearchI3(a0 struct {
	Info uint64
	Root InRec
}, ctx *yarql.Ctx) (I0, error) {
	err := s.W.Call("S9.SearchI3", s.Uid, ctx, true, a0)
	return s.HSearchI3, err
}

// S10 is an object
type S10 struct {
	W      *World `gq:"-"`
	Uid    int64  `gq:"-"`
	Make   func(struct{ Title EColor }, *yarql.Ctx) MyF
	Parent int32
	Items  int
	Info   S22 `gq:"re_info"`
	Child  *S6
	Get    func(struct {
		Root InAll
		Data int8
	}) (float64, error)
	Root    [2]uint
	A       int32
	HLookup bool  `gq:"-"`
	HFetch  uint8 `gq:"-"`
}

// ResolveLookup is a resolver
func (s S10) ResolveLookup(a0 struct {
	Color []int64
	Data  *uint8
	A     *time.Time
	Note  float64
}) bool {
	s.W.Call("S10.Lookup", s.Uid, nil, false, a0)
	return s.HLookup
}

// ResolveFetch is a resolver
func (s S10) ResolveFetch(ctx *yarql.Ctx, a0 struct {
	Meta_data int8
	Count     InRec
	Y1        float64
}) uint8 {
	s.W.Call("S10.Fetch", s.Uid, ctx, true, a0)
	return s.HFetch
}

// S11 is an object
type S11 struct {
	W       *World `gq:"-"`
	Uid     int64  `gq:"-"`
	Produce func() (error, S15)
	Ratio   *MyStr
	Level   []int
	Kind    ETiny
	Call    func() (yarql.AttrIsID, uint32, error)
	HURLOf  EColor  `gq:"-"`
	HSum    []*I1   `gq:"-"`
	HSearch float64 `gq:"-"`
	HFind   [0]*S18 `gq:"-"`
}

// ResolveURLOf is a resolver
func (s S11) ResolveURLOf(ctx *yarql.Ctx) EColor {
	s.W.Call("S11.URLOf", s.Uid, ctx, true)
	return s.HURLOf
}

// ResolveSum is a resolver
func (s S11) ResolveSum() []*I1 {
	s.W.Call("S11.Sum", s.Uid, nil, false)
	return s.HSum
}

// ResolveSearch is a resolver
func (s S11) ResolveSearch(a0 struct {
	Note  string `gq:",id"`
	URL   uint8  `gq:",id"`
	Extra EColor
}) (error, float64) {
	err := s.W.Call("S11.Search", s.Uid, nil, false, a0)
	return err, s.HSearch
}

// ResolveFind is a resolver
func (s S11) ResolveFind(a0 struct{ Kind ESize }) ([0]*S18, error) {
	err := s.W.Call("S11.Find", s.Uid, nil, false, a0)
	return s.HFind, err
}

// S12 is an object
type S12 struct {
	W        *World `gq:"-"`
	Uid      int64  `gq:"-"`
	HTTPCode uint64
	Score    [][]EWord
	Owner    *S25
	Leaf     uint16
	Get      func(struct {
		Parent uint8 `gq:",id"`
		Color  time.Time
		Extra  bool
		URL    time.Time
	}) (error, yarql.AttrIsID, int64)
	Call   func() *[0]S1
	Y1     *S14
	HBest  int8      `gq:"-"`
	HLoad  int16     `gq:"-"`
	HFind  []ETiny   `gq:"-"`
	HTotal time.Time `gq:"-"`
}

// ResolveBest is a resolver
func (s S12) ResolveBest(a0 struct {
	Extra MyInt
	Owner [][]uint8
}, a1 struct {
	Score uint32
	Count ESize
}) (error, yarql.AttrIsID, int8) {
	err := s.W.Call("S12.Best", s.Uid, nil, false, a0, a1)
	return err, 0, s.HBest
}

// ResolveLoad is a resolver
func (s S12) ResolveLoad() (int16, error) {
	err := s.W.Call("S12.Load", s.Uid, nil, false)
	return s.HLoad, err
}

// ResolveFind is a resolver
func (s S12) ResolveFind() []ETiny {
	s.W.Call("S12.Find", s.Uid, nil, false)
	return s.HFind
}

// ResolveTotal is a resolver
func (s S12) ResolveTotal(a0 struct {
	Created int64
	Child   []*InDeep
}) (time.Time, error) {
	err := s.W.Call("S12.Total", s.Uid, nil, false, a0)
	return s.HTotal, err
}

// S13 is an object
type S13 struct {
	W       *World `gq:"-"`
	Uid     int64  `gq:"-"`
	Make    func(struct{ Items float32 }) string
	Note    []*[]int16
	Tags    []int
	Count   []I1
	Produce func() (error, float32)
	Parent  []uint32
	HBest   **[]uint16 `gq:"-"`
}

// ResolveBest is a resolver
func (s S13) ResolveBest(a0 struct {
	Other MyStr
	Info  *int16
	B2    []int32
}, ctx *yarql.Ctx) (**[]uint16, error) {
	err := s.W.Call("S13.Best", s.Uid, ctx, true, a0)
	return s.HBest, err
}

// S14 is an object
type S14 struct {
	W        *World `gq:"-"`
	Uid      int64  `gq:"-"`
	Flag     *S2
	HTTPCode time.Time
	Data     []S13
	Owner    EColor
	Title    int8 `gq:",id"`
	Make     func(struct {
		Name                    []int32
		Info                    float64
		LongFieldNameThatGoesOn float64
	}, *yarql.Ctx) ETiny
	Extra  string
	Parent int16
	HBest  int16 `gq:"-"`
}

// ResolveBest is a resolver
func (s S14) ResolveBest(a0 struct{ Parent *multipart.FileHeader }, ctx *yarql.Ctx) (yarql.AttrIsID, error, int16) {
	err := s.W.Call("S14.Best", s.Uid, ctx, true, a0)
	return 0, err, s.HBest
}

// S15 is an object
type S15 struct {
	W       *World `gq:"-"`
	Uid     int64  `gq:"-"`
	Note    EColor
	Peer    int32
	Name    []S7
	Make    func() (error, bool)
	HEcho   float64 `gq:"-"`
	HX      uint    `gq:"-"`
	HLookup *S23    `gq:"-"`
}

// ResolveEcho is a resolver
func (s S15) ResolveEcho(ctx *yarql.Ctx, a0 struct {
	LongFieldNameThatGoesOn time.Time
	Info                    *string
}) (float64, error) {
	err := s.W.Call("S15.Echo", s.Uid, ctx, true, a0)
	return s.HEcho, err
}

// ResolveX is a resolver
func (s S15) ResolveX(a0 struct {
	Created uint32
	Peer    *multipart.FileHeader
}) (error, uint) {
	err := s.W.Call("S15.X", s.Uid, nil, false, a0)
	return err, s.HX
}

// ResolveLookup is a resolver
func (s S15) ResolveLookup(a0 struct{ Body [][][]time.Time }) (error, *S23) {
	err := s.W.Call("S15.Lookup", s.Uid, nil, false, a0)
	return err, s.HLookup
}

// S16 is an object
type S16 struct {
	W        *World `gq:"-"`
	Uid      int64  `gq:"-"`
	Matrix   uint8
	Data     ETiny
	Level    I3
	B2       [2]int32
	Flag     *S14
	Info     *S19
	Other    ESize
	Ratio    [2][][]S7
	HHistory uint8  `gq:"-"`
	HX       uint8  `gq:"-"`
	HFetch   *ETiny `gq:"-"`
	HLookup  S13    `gq:"-"`
}

// ResolveHistory is a resolver
func (s S16) ResolveHistory(a0 struct {
	Title []MyStr
	Child int32 `gq:",id"`
}) (uint8, error) {
	err := s.W.Call("S16.History", s.Uid, nil, false, a0)
	return s.HHistory, err
}

// ResolveX is a resolver
func (s S16) ResolveX(ctx *yarql.Ctx) uint8 {
	s.W.Call("S16.X", s.Uid, ctx, true)
	return s.HX
}

// ResolveFetch is a resolver
func (s S16) ResolveFetch(ctx *yarql.Ctx, a0 struct{ Matrix time.Time }) *ETiny {
	s.W.Call("S16.Fetch", s.Uid, ctx, true, a0)
	return s.HFetch
}

// ResolveLookup is a resolver
func (s S16) ResolveLookup(ctx *yarql.Ctx, a0 struct {
	Parent    int8
	Owner     int8
	Level     uint64 `gq:",id"`
	Meta_data *uint8 `gq:",id"`
}) S13 {
	s.W.Call("S16.Lookup", s.Uid, ctx, true, a0)
	return s.HLookup
}

// S17 is an object
type S17 struct {
	W       *World `gq:"-"`
	Uid     int64  `gq:"-"`
	Info    string `gq:"re_info"`
	Name    I1
	Items   I0
	Root    ESize
	Produce func(struct {
		Title [][]time.Time
		Other EWord
		Owner *multipart.FileHeader
	}) ([]EFlag, error)
	B2       int
	Created  []I2
	Leaf     ETiny
	Make     func(struct{ Parent MyF }) S6
	Note     *S10
	HX       MyF      `gq:"-"`
	HCompute EBig     `gq:"-"`
	HBest    [1][]S20 `gq:"-"`
}

// ResolveX is a resolver
func (s S17) ResolveX(a0 struct{ Score **EColor }) (error, MyF) {
	err := s.W.Call("S17.X", s.Uid, nil, false, a0)
	return err, s.HX
}

// ResolveCompute is a resolver
func (s S17) ResolveCompute() EBig {
	s.W.Call("S17.Compute", s.Uid, nil, false)
	return s.HCompute
}

// ResolveBest is a resolver
func (s S17) ResolveBest(a0 struct {
	Matrix InRec
	Extra  int64
}, ctx *yarql.Ctx, a1 struct {
	Created InPoint
	Tags    uint64
}) [1][]S20 {
	s.W.Call("S17.Best", s.Uid, ctx, true, a0, a1)
	return s.HBest
}

// S18 is an object
type S18 struct {
	W       *World `gq:"-"`
	Uid     int64  `gq:"-"`
	Created time.Time
	Get     func(struct {
		A     InAll `gq:"re_a"`
		Inner int16
		B2    []*MyF `gq:"re_b2"`
		Score ETiny
	}, *yarql.Ctx) (*S0, error)
	Level    uint64
	Items    I0
	Note     *int
	Extra    MyStr
	Title    *[]MyStr
	X        bool
	Inner    int8
	HCompute string `gq:"-"`
	HSearch  []I0   `gq:"-"`
	HLoad    EColor `gq:"-"`
	HFetch   S1     `gq:"-"`
}

// ResolveCompute is a resolver
func (s S18) ResolveCompute(ctx *yarql.Ctx) string {
	s.W.Call("S18.Compute", s.Uid, ctx, true)
	return s.HCompute
}

// ResolveSearch is a resolver
func (s S18) ResolveSearch() []I0 {
	s.W.Call("S18.Search", s.Uid, nil, false)
	return s.HSearch
}

// ResolveLoad is a resolver
func (s S18) ResolveLoad() (EColor, error) {
	err := s.W.Call("S18.Load", s.Uid, nil, false)
	return s.HLoad, err
}

// ResolveFetch is a resolver
func (s S18) ResolveFetch(a0 struct{ Meta_data []EFlag }, ctx *yarql.Ctx) (error, S1) {
	err := s.W.Call("S18.Fetch", s.Uid, ctx, true, a0)
	return err, s.HFetch
}

// S19 is an object
type S19 struct {
	W    *World `gq:"-"`
	Uid  int64  `gq:"-"`
	Body MyInt
	Get  func(struct {
		Count                   InAll
		Inner                   string
		LongFieldNameThatGoesOn EWord
		Name                    int32
	}) []S1
	B2      int16
	Owner   I0
	Produce func(struct {
		X     float64
		Items uint16
	}) (error, MyF)
	HBest    S21   `gq:"-"`
	HRelated []S18 `gq:"-"`
}

// ResolveBest is a resolver
func (s S19) ResolveBest(a0 struct {
	HTTPCode uint16
	Title    string `gq:",id"`
}) (error, S21) {
	err := s.W.Call("S19.Best", s.Uid, nil, false, a0)
	return err, s.HBest
}

// ResolveRelated is a resolver
func (s S19) ResolveRelated(ctx *yarql.Ctx, a0 struct {
	Parent uint
	Leaf   bool
	Items  EBig
}) []S18 {
	s.W.Call("S19.Related", s.Uid, ctx, true, a0)
	return s.HRelated
}

// S20 is an object
type S20 struct {
	W       *World `gq:"-"`
	Uid     int64  `gq:"-"`
	Get     func(*yarql.Ctx) uint16
	Leaf    int `gq:",id"`
	Items   S23
	Peer    [1]I2
	Other   int8 `gq:",id"`
	Info    uint16
	Child   uint `gq:",id"`
	Inner   EWord
	HList   S2     `gq:"-"`
	HListI0 uint16 `gq:"-"`
	HFindI0 bool   `gq:"-"`
	HEchoI0 int32  `gq:"-"`
}

// ResolveList is a resolver
func (s S20) ResolveList(a0 struct {
	Kind  string
	B2    MyStr `gq:",id"`
	Level MyF
}) S2 {
	s.W.Call("S20.List", s.Uid, nil, false, a0)
	return s.HList
}

// ResolveListI0 is a resolver
func (s S20) ResolveListI0(ctx *yarql.Ctx) uint16 {
	s.W.Call("S20.ListI0", s.Uid, ctx, true)
	return s.HListI0
}

// ResolveFindI0 is a resolver
func (s S20) ResolveFindI0(a0 struct {
	Inner InPoint
	Items uint32 `gq:",id"`
}) (error, bool) {
	err := s.W.Call("S20.FindI0", s.Uid, nil, false, a0)
	return err, s.HFindI0
}

// ResolveEchoI0 is a resolver
func (s S20) ResolveEchoI0(a0 struct {
	Count   []EFlag
	Color   **multipart.FileHeader
	X       **InAll
	Created []EBig
}) int32 {
	s.W.Call("S20.EchoI0", s.Uid, nil, false, a0)
	return s.HEchoI0
}

// S21 is an object
type S21 struct {
	W      *World `gq:"-"`
	Uid    int64  `gq:"-"`
	Items  I1     `gq:"re_items"`
	Flag   S24
	Tags   []int64
	URL    *S5
	Note   [2]time.Time
	HURLOf [][][]S12 `gq:"-"`
	HX     S8        `gq:"-"`
	HBest  string    `gq:"-"`
	HFetch bool      `gq:"-"`
}

// ResolveURLOf is a resolver
func (s S21) ResolveURLOf(ctx *yarql.Ctx) ([][][]S12, error) {
	err := s.W.Call("S21.URLOf", s.Uid, ctx, true)
	return s.HURLOf, err
}

// ResolveX is a resolver
func (s S21) ResolveX() S8 {
	s.W.Call("S21.X", s.Uid, nil, false)
	return s.HX
}

// ResolveBest is a resolver
func (s S21) ResolveBest(a0 struct {
	Tags  *multipart.FileHeader
	Other MyInt
	A     *[]int64
}) string {
	s.W.Call("S21.Best", s.Uid, nil, false, a0)
	return s.W.Echo(s.HBest, a0)
}

// ResolveFetch is a resolver
func (s S21) ResolveFetch(a0 struct {
	Extra string
	Child EFlag
}, ctx *yarql.Ctx) bool {
	s.W.Call("S21.Fetch", s.Uid, ctx, true, a0)
	return s.HFetch
}

// S22 is an object
type S22 struct {
	W         *World `gq:"-"`
	Uid       int64  `gq:"-"`
	Root      [3]bool
	Note      S24
	Meta_data EFlag
	Parent    [0]S24
	Color     *int16 `gq:",id"`
	Peer      I0
	HLookup   S11       `gq:"-"`
	HRelated  time.Time `gq:"-"`
	HList     I1        `gq:"-"`
}

// ResolveLookup is a resolver
func (s S22) ResolveLookup() (error, S11) {
	err := s.W.Call("S22.Lookup", s.Uid, nil, false)
	return err, s.HLookup
}

// ResolveRelated is a resolver
func (s S22) ResolveRelated(a0 struct {
	LongFieldNameThatGoesOn [][]bool `gq:"re_longfieldnamethatgoeson"`
}) time.Time {
	s.W.Call("S22.Related", s.Uid, nil, false, a0)
	return s.HRelated
}

// ResolveList is a resolver
func (s S22) ResolveList(a0 struct {
	B2   MyB
	Body ETiny
}, a1 struct {
	A    EFlag
	Flag EColor
}) I1 {
	s.W.Call("S22.List", s.Uid, nil, false, a0, a1)
	return s.HList
}

// S23 is an object
type S23 struct {
	W         *World `gq:"-"`
	Uid       int64  `gq:"-"`
	Title     []S0
	Flag      []uint16
	Root      []ETiny
	URL       S24
	Leaf      S24
	Meta_data *I2
	Produce   func(*yarql.Ctx) *S2
	HSearch   I3 `gq:"-"`
}

// ResolveSearch is a resolver
func (s S23) ResolveSearch() I3 {
	s.W.Call("S23.Search", s.Uid, nil, false)
	return s.HSearch
}

// S24 is an object
type S24 struct {
	W       *World `gq:"-"`
	Uid     int64  `gq:"-"`
	Other   uint16
	Level   time.Time
	Body    int
	Make    func(*yarql.Ctx) (error, string)
	HTotal  EFlag  `gq:"-"`
	HListI0 uint16 `gq:"-"`
	HFindI0 bool   `gq:"-"`
	HEchoI0 int32  `gq:"-"`
	HSumI1  S15    `gq:"-"`
	HFindI1 uint   `gq:"-"`
}

// ResolveTotal is a resolver
func (s S24) ResolveTotal(a0 struct {
	Value EBig
	Leaf  *multipart.FileHeader
}) EFlag {
	s.W.Call("S24.Total", s.Uid, nil, false, a0)
	return s.HTotal
}

// ResolveListI0 is a resolver
func (s S24) ResolveListI0(ctx *yarql.Ctx) uint16 {
	s.W.Call("S24.ListI0", s.Uid, ctx, true)
	return s.HListI0
}

// ResolveFindI0 is a resolver
func (s S24) ResolveFindI0(a0 struct {
	Inner InPoint
	Items uint32 `gq:",id"`
}) (error, bool) {
	err := s.W.Call("S24.FindI0", s.Uid, nil, false, a0)
	return err, s.HFindI0
}

// ResolveEchoI0 is a resolver
func (s S24) ResolveEchoI0(a0 struct {
	Count   []EFlag
	Color   **multipart.FileHeader
	X       **InAll
	Created []EBig
}) int32 {
	s.W.Call("S24.EchoI0", s.Uid, nil, false, a0)
	return s.HEchoI0
}

// ResolveSumI1 is a resolver
func (s S24) ResolveSumI1(a0 struct {
	Kind  uint32 `gq:"re_kind"`
	Extra float64
	X     float32
	Level []int8
}) S15 {
	s.W.Call("S24.SumI1", s.Uid, nil, false, a0)
	return s.HSumI1
}

// ResolveFindI1 is a resolver
func (s S24) ResolveFindI1(a0 struct{ HTTPCode uint8 }, ctx *yarql.Ctx) uint {
	s.W.Call("S24.FindI1", s.Uid, ctx, true, a0)
	return s.HFindI1
}

// S25 is an object
type S25 struct {
	W    *World `gq:"-"`
	Uid  int64  `gq:"-"`
	Peer I3
	Info time.Time
	Y1   string
	A    EWord
	Get  func(struct {
		URL                     ETiny
		LongFieldNameThatGoesOn *multipart.FileHeader
	}, *yarql.Ctx) (ESize, error)
	Value      *float64
	Tags       []I1
	Other      []*int32
	Kind       []time.Time
	HBest      S18     `gq:"-"`
	HFetch     int16   `gq:"-"`
	HURLOf     I1      `gq:"-"`
	HSumI1     S15     `gq:"-"`
	HFindI1    uint    `gq:"-"`
	HComputeI2 MyF     `gq:"-"`
	HListI2    float32 `gq:"-"`
	HXI2       ETiny   `gq:"-"`
	HRelatedI3 *uint64 `gq:"-"`
	HSearchI3  I0      `gq:"-"`
}

// ResolveBest is a resolver
func (s S25) ResolveBest() S18 {
	s.W.Call("S25.Best", s.Uid, nil, false)
	return s.HBest
}

// ResolveFetch is a resolver
func (s S25) ResolveFetch(a0 struct {
	Peer  int64
	Other EFlag
	Child []int16
}) (error, int16) {
	err := s.W.Call("S25.Fetch", s.Uid, nil, false, a0)
	return err, s.HFetch
}

// ResolveURLOf is a resolver
func (s S25) ResolveURLOf(ctx *yarql.Ctx) (I1, error) {
	err := s.W.Call("S25.URLOf", s.Uid, ctx, true)
	return s.HURLOf, err
}

// ResolveSumI1 is a resolver
func (s S25) ResolveSumI1(a0 struct {
	Kind  uint32 `gq:"re_kind"`
	Extra float64
	X     float32
	Level []int8
}) S15 {
	s.W.Call("S25.SumI1", s.Uid, nil, false, a0)
	return s.HSumI1
}

// ResolveFindI1 is a resolver
func (s S25) ResolveFindI1(a0 struct{ HTTPCode uint8 }, ctx *yarql.Ctx) uint {
	s.W.Call("S25.FindI1", s.Uid, ctx, true, a0)
	return s.HFindI1
}

// ResolveComputeI2 is a resolver
func (s S25) ResolveComputeI2() (error, MyF) {
	err := s.W.Call("S25.ComputeI2", s.Uid, nil, false)
	return err, s.HComputeI2
}

// ResolveListI2 is a resolver
func (s S25) ResolveListI2(a0 struct {
	Level     []EColor
	Meta_data *int64 `gq:"re_meta_data"`
	Name      string
}) float32 {
	s.W.Call("S25.ListI2", s.Uid, nil, false, a0)
	return s.HListI2
}

// ResolveXI2 is a resolver
func (s S25) ResolveXI2(ctx *yarql.Ctx, a0 struct {
	Matrix []int16
	Name   MyInt `gq:",id"`
	Flag   *int
	A      []int8
}) ETiny {
	s.W.Call("S25.XI2", s.Uid, ctx, true, a0)
	return s.HXI2
}

// ResolveRelatedI3 is a resolver
func (s S25) ResolveRelatedI3(a0 struct {
	Info  ***multipart.FileHeader
	Title uint32
}, ctx *yarql.Ctx) (*uint64, error, yarql.AttrIsID) {
	err := s.W.Call("S25.RelatedI3", s.Uid, ctx, true, a0)
	return s.HRelatedI3, err, 0
}

// ResolveSearchI3 is a resolver
func (s S25) ResolveSearchI3(a0 struct {
	Info uint64
	Root InRec
}, ctx *yarql.Ctx) (I0, error) {
	err := s.W.Call("S25.SearchI3", s.Uid, ctx, true, a0)
	return s.HSearchI3, err
}

// Structs lists the object types
var Structs = []reflect.Type{
	reflect.TypeOf(S0{}),
	reflect.TypeOf(S1{}),
	reflect.TypeOf(S2{}),
	reflect.TypeOf(S3{}),
	reflect.TypeOf(S4{}),
	reflect.TypeOf(S5{}),
	reflect.TypeOf(S6{}),
	reflect.TypeOf(S7{}),
	reflect.TypeOf(S8{}),
	reflect.TypeOf(S9{}),
	reflect.TypeOf(S10{}),
	reflect.TypeOf(S11{}),
	reflect.TypeOf(S12{}),
	reflect.TypeOf(S13{}),
	reflect.TypeOf(S14{}),
	reflect.TypeOf(S15{}),
	reflect.TypeOf(S16{}),
	reflect.TypeOf(S17{}),
	reflect.TypeOf(S18{}),
	reflect.TypeOf(S19{}),
	reflect.TypeOf(S20{}),
	reflect.TypeOf(S21{}),
	reflect.TypeOf(S22{}),
	reflect.TypeOf(S23{}),
	reflect.TypeOf(S24{}),
	reflect.TypeOf(S25{}),
}

// Ifaces lists the interfaces, with their registered and unregistered implementations
var Ifaces = []Iface{
	{T: reflect.TypeOf((*I0)(nil)).Elem(), Impl: []reflect.Type{reflect.TypeOf(S0{}), reflect.TypeOf(S1{}), reflect.TypeOf(S2{}), reflect.TypeOf(S20{})}, Unreg: []reflect.Type{reflect.TypeOf(S24{})}},
	{T: reflect.TypeOf((*I1)(nil)).Elem(), Impl: []reflect.Type{reflect.TypeOf(S2{}), reflect.TypeOf(S3{}), reflect.TypeOf(S4{})}, Unreg: []reflect.Type{reflect.TypeOf(S24{}), reflect.TypeOf(S25{})}},
	{T: reflect.TypeOf((*I2)(nil)).Elem(), Impl: []reflect.Type{reflect.TypeOf(S5{}), reflect.TypeOf(S6{}), reflect.TypeOf(S7{}), reflect.TypeOf(S0{})}, Unreg: []reflect.Type{reflect.TypeOf(S25{})}},
	{T: reflect.TypeOf((*I3)(nil)).Elem(), Impl: []reflect.Type{reflect.TypeOf(S8{}), reflect.TypeOf(S9{})}, Unreg: []reflect.Type{reflect.TypeOf(S25{})}},
}

func init() {
	yarql.Implements((*I0)(nil), S0{})
	yarql.Implements((*I0)(nil), S1{})
	yarql.Implements((*I0)(nil), S2{})
	yarql.Implements((*I0)(nil), S20{})
	yarql.Implements((*I1)(nil), S2{})
	yarql.Implements((*I1)(nil), S3{})
	yarql.Implements((*I1)(nil), S4{})
	yarql.Implements((*I2)(nil), S5{})
	yarql.Implements((*I2)(nil), S6{})
	yarql.Implements((*I2)(nil), S7{})
	yarql.Implements((*I2)(nil), S0{})
	yarql.Implements((*I3)(nil), S8{})
	yarql.Implements((*I3)(nil), S9{})
}
