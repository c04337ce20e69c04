// Code generated by gen_structs.py. DO NOT EDIT.

package main

type SelInt int
type selStr string
type SelPtr *int
type SelSlice []string
type selFunc func()
type SelIface interface{}

type S0 struct {
}

type S1 struct {
	S0
	D  string `json:"A,string"`
	A1 int    `json:""`
}

type s2 struct {
	A1 bool
	x  string         `json:"a;b"`
	y  map[string]int `json:"B"`
	S0
	Foo float64
	*S1
}

type s3 struct {
	A   interface{} `xml:"q"`
	D   interface{} `json:"-"`
	S1  `json:"A"`
	x   float64 `json:"é"`
	Foo interface{}
}

type S4 struct {
}

type s5 struct {
	B  []int `json:"x&y"`
	A1 *int
	S4
}

type S6 struct {
	*s2
	S1
}

type s7 struct {
	C interface{} `json:"B"`
	y int
	*s5
}

type S8 struct {
	A float64 `json:"a b,omitempty"`
	s2
	C float64
	E string `xml:"q"`
}

type S9 struct {
	x string
	*S4
	D      map[string]int
	S6     `json:"bad\\"`
	SelInt `json:"A,omitempty"`
}

type S10 struct {
	C string
	*S8
	*S10
	*s7
}

type S11 struct {
	S8
	Foo map[string]int
	A1  string
}

type S12 struct {
	*S1
	selFunc `json:",omitempty,string"`
	S4
	B []int
	É string `json:""`
}

type S13 struct {
	s2
	C *int `json:""`
}

type S14 struct {
	D    []int `xml:"q"`
	É    int
	x    *int
	*S11 `json:"A,omitempty"`
}

type S15 struct {
	S13
}

type S16 struct {
	D int
	É map[string]int `xml:"q"`
	*S12
}

type s17 struct {
	y int `json:"-"`
	E interface{}
	x interface{}
	S13
	S12
	S11
}

type S18 struct {
	D []int
	x int `json:"A,omitempty"`
	C []int
	S14
}

type s19 struct {
	S16
	A []int `json:""`
	B int
	*S9
	A1 float64 `json:"a"`
}

type s20 struct {
	S18 `json:"C,string"`
	A1  []int `xml:"q"`
	E   map[string]int
	B   map[string]int `json:"a b"`
	*s19
}

type S21 struct {
	*s20 `json:"b"`
	D    interface{} `json:"bad\\"`
	A    *int
	x    []int
}

type s22 struct {
	B string
	S21
	S14
	Foo map[string]int `json:",omitempty,unknown,omitemptyx"`
}

type S23 struct {
	É float64 `xml:"q"`
	C int
	*s17
	D map[string]int `json:"a,unknown,omitemptyx"`
}

type S24 struct {
	*S21
	A []int `json:"x&y,omitempty"`
}

type S25 struct {
	x int `json:"x&y"`
	S1
	B *int
	C float64
	E string
}

type S26 struct {
	S23
	*s22
	A1 map[string]int
}

type S27 struct {
	x        bool
	SelIface `json:"世"`
	S24
}

type S28 struct {
	*S25
	S26
}

type S29 struct {
	Foo float64 `json:""`
}

type S30 struct {
	É []int `json:""`
	*S25
	B *int `xml:"q"`
	S29
	E map[string]int `json:"世,omitempty"`
	*S27
}

type S31 struct {
	É string `xml:"q"`
	S29
	SelSlice `json:""`
	S25
}

type S32 struct {
	É  float64
	A  string `xml:"q"`
	A1 []int  `xml:"q"`
}

type s33 struct {
	É bool  `json:"a;b"`
	C []int `json:"世"`
	S27
}

type s34 struct {
	*s33
	S28
}

type s35 struct {
	C map[string]int `json:",omitempty"`
	s34
	S32 `json:"a;b"`
	B   map[string]int
}

type s36 struct {
}

type S37 struct {
	A map[string]int
	s3
	B bool `json:"é"`
	s34
}

type S38 struct {
	S37
	y *int `json:",string"`
	s33
	S13
}

type S39 struct {
	A []int `json:"é"`
	*S38
	*S9
	A1 float64
	*s33
}

type s40 struct {
	*S37
	C   []int
	s35 `json:"x&y,unknown,omitemptyx"`
	S39
	D string `json:"世"`
}

type S41 struct {
	É interface{}
	D map[string]int `json:""`
	S8
	y int `json:"b,omitempty"`
	S29
	*s40
}

type s42 struct {
}

type S43 struct {
	D string `json:"<k>,omitempty,string"`
	S39
	s42
	x []int `json:"-"`
}

type s44 struct {
	x map[string]int `json:",omitempty"`
	s40
	*S11
	S41
}

type S45 struct {
	A map[string]int
	É []int       `json:"a;b"`
	D interface{} `json:"é"`
	S43
}

type s46 struct {
	D int
	É string `json:"C"`
	S41
	E map[string]int
	s44
}

type s47 struct {
	E   []int
	s44 `json:",omitempty,string"`
	s42
	C []int
}

type S48 struct {
	*S45 `json:",omitempty"`
	A1   interface{} `json:"b"`
	C    []int
}

type S49 struct {
	S43
	*s17
	y bool `json:"a;b,omitempty"`
	É bool
	*S49
	A1 *int `json:"A"`
	S48
}

type S50 struct {
	*S48
	S12
}

type S51 struct {
	*S45
	S49
}

type s52 struct {
	*s36
	y   float64
	Foo map[string]int `json:"Foo,omitempty"`
	*s46
}

type s53 struct {
	Foo int `json:""`
	S48
	D []int `json:"a b,unknown,omitemptyx"`
}

type S54 struct {
	*S39
	S48
	A1 *int `json:"a"`
	*S54
	Foo interface{} `json:",omitempty"`
	E   bool        `json:"_"`
}

type s55 struct {
	*S50
	*s2
}

type S56 struct {
	y []int `json:"Foo"`
	s53
	s55
}

type S57 struct {
	É map[string]int
	C interface{} `json:"a,unknown,omitemptyx"`
	E []int
	S54
	s44
	*s55 `json:"C,omitempty"`
}

type s58 struct {
	S31
	D int `json:",omitempty"`
	B bool
	s55
	E float64
	*S54
}

type s59 struct {
	A int
	*S39
	S57
	*S4
	B bool
}

type S60 struct {
}

type S61 struct {
	D        bool
	SelSlice `json:",omitempty,string"`
}

type S62 struct {
	C string
}

type s63 struct {
	E []int `json:""`
	s59
	*S24
}

type s64 struct {
	Foo interface{} `json:"a;b"`
	E   *int        `json:",omitempty"`
}

type s65 struct {
	s40
	S61
	E map[string]int
}

type s66 struct {
	*s64
	*S62
	x float64 `json:""`
	A []int   `json:",string"`
}

type S67 struct {
	D string
	*s63
	B []int
	x interface{} `json:"世"`
	s65
	C *int `json:"Foo,string"`
}

type S68 struct {
	*S67
}

type S69 struct {
	*S68
	*s65
	s66
	E []int `json:"A,unknown,omitemptyx"`
	y bool
}

type S70 struct {
}

type S71 struct {
	S67
	x *int `json:"A"`
	S24
	y float64
}

type S72 struct {
	A   map[string]int `json:"a;b"`
	A1  map[string]int `json:"<k>"`
	y   []int
	Foo *int
	S67
}

type S73 struct {
	*S70
	*S67 `json:"Foo"`
	y    []int
	É    float64 `json:"a,omitempty"`
	A    int     `json:"é"`
}

type S74 struct {
	C float64 `xml:"q"`
	E interface{}
	*S71
}

type S75 struct {
	S74
	A1  bool `xml:"q"`
	Foo map[string]int
	A   float64 `xml:"q"`
}

type s76 struct {
	S26
	A1 bool `json:"',omitempty"`
	B  *int `json:"'"`
}

type S77 struct {
	B *int `json:"b,omitempty"`
	*S77
	y float64 `json:"<k>,omitempty"`
}

type S78 struct {
	S72
	*S75
}

type s79 struct {
	A1 float64
}

type S80 struct {
	x   float64        `json:"é"`
	D   float64        `json:",string"`
	É   map[string]int `json:"世,omitempty"`
	s76 `json:"',omitempty"`
}

type S81 struct {
	y    float64
	É    string
	*s76 `json:"世"`
}

type s82 struct {
	*S61
}

type s83 struct {
	É  int
	A1 interface{}    `json:",string"`
	C  map[string]int `json:"<k>"`
}

type S84 struct {
	Foo int
	E   string         `json:"bad\\,unknown,omitemptyx"`
	B   float64        `xml:"q"`
	C   map[string]int `json:"_"`
}

type s85 struct {
	C *int
	S81
}

type S86 struct {
	B []int
}

type s87 struct {
	S84 `json:",string"`
	A1  string
	A   float64
	s82
}

type s88 struct {
	B *int   `json:""`
	É string `xml:"q"`
}

type S89 struct {
	Foo *int        `json:"bad\\,unknown,omitemptyx"`
	A1  interface{} `json:"bad\\"`
}

type S90 struct {
	S84
	*S90
	s87 `json:"a;b,"`
}

type s91 struct {
	Foo bool `json:""`
	E   int  `json:"é,omitempty"`
	S89
	x map[string]int
	*s91
}

type S92 struct {
	*S28
	*s83
	*s87
}

type s93 struct {
	A   int
	Foo []int
	s87
}

type S94 struct {
	s91 `json:",omitempty,string"`
	*S90
}

type S95 struct {
	y    map[string]int `json:",omitempty"`
	*s66 `json:"世"`
	s93
	É interface{}
}

type s96 struct {
	B *int
	É map[string]int `json:"é"`
	*S80
	*S94
}

type S97 struct {
	S57
	s91
	B float64 `json:"世"`
	y string
	x *int
	*S97
	E map[string]int `json:"a;b,omitempty"`
	S94
}

type s98 struct {
	S95
	D float64 `json:",omitempty"`
}

type s99 struct {
	E map[string]int
}

type S100 struct {
	A1 *int `json:"世"`
	y  int
	s58
}

type s101 struct {
	*s98 `json:",string"`
}

type S102 struct {
	É  float64 `json:"'"`
	A1 []int
	S8
	A map[string]int `json:""`
}

type S103 struct {
	D  float64
	A1 interface{} `json:",omitempty,string"`
	SelInt
	S71
}

type s104 struct {
	S100
	S6
	y int `json:"B"`
	S103
	x interface{} `json:",string"`
}

type s105 struct {
}

type S106 struct {
	C interface{} `json:"a b"`
	s101
	y map[string]int `json:"bad\\,string"`
	s104
}

type S107 struct {
	*s101
	S106
	S102
}

type S108 struct {
}

type S109 struct {
}

type S110 struct {
	*S78
	S107
}

type s111 struct {
	C float64 `json:"B"`
	A int     `json:"bad\\"`
	S18
	É string `json:",omitempty"`
	SelIface
}

type S112 struct {
	s111
	S110
}

type S113 struct {
	B map[string]int `json:""`
	*s111
}

type s114 struct {
	D []int `json:"'"`
	*S108
}

type s115 struct {
	*S21
	*s115 `xml:"q"`
	A1    []int `json:""`
	*S56
	E int
}

type s116 struct {
	s111
}

type S117 struct {
	s116
	*S113
	s114
	D []int
	x []int `json:"a b"`
}

type S118 struct {
	E *int
	A *int        `json:""`
	É interface{} `json:"a"`
	*s116
}

type s119 struct {
	x map[string]int `json:","`
}

type s120 struct {
	s119
	s116
	E  bool
	A1 []int
	*s114
	A map[string]int
}

type S121 struct {
	D bool    `json:"x&y"`
	x float64 `json:",omitempty"`
	C int     `xml:"q"`
	E []int   `xml:"q"`
}

type S122 struct {
	s119
}

type s123 struct {
	D map[string]int `json:"_"`
	s116
	*S92
	E []int `json:"-,omitempty,string"`
}

type s124 struct {
	*S118
	É interface{}
	y interface{} `json:"a;b,omitempty"`
}

type s125 struct {
	*s120
	S122
	E *int
	y *int
	D bool `json:"A,omitempty"`
}

type S126 struct {
	S121
	y *int
}

type s127 struct {
	A float64 `xml:"q"`
	*S126
	y *int
	E bool
}

type s128 struct {
	S126
}

type S129 struct {
	A  bool        `json:"b"`
	x  interface{} `json:"C"`
	A1 int         `json:"'"`
	s128
	*S126
}

type S130 struct {
	s125
	x int `json:",omitempty"`
	*S130
	*S129
	A int         `json:"世"`
	D interface{} `json:""`
}

type s131 struct {
	S126  `json:"A,omitempty"`
	*s127 `json:",omitempty"`
	*S130
	A *int `json:"bad\\,unknown,omitemptyx"`
}

type S132 struct {
	A1 []int `json:"-"`
	SelInt
	*s127
	Foo int `json:",omitempty"`
}

type S133 struct {
	*s22 `json:"x&y"`
	D    *int
	y    interface{}
}

type S134 struct {
	s131
	É string `json:"C,omitempty"`
	S132
}

type S135 struct {
	*S132
	x    int
	S134 `json:"<k>"`
	A1   *int
}

type S136 struct {
	D interface{} `json:"-"`
	S130
	Foo bool
	*S135
	x interface{} `json:"é,omitempty"`
	C string      `json:"bad\\,omitempty"`
}

type s137 struct {
	É map[string]int `json:"世,omitempty"`
	S106
	A string
	D string `json:"C"`
	E map[string]int
}

type S138 struct {
	É map[string]int
}

type S139 struct {
	C string         `json:",omitempty"`
	D map[string]int `json:"bad\\"`
	SelSlice
	É []int
}

type S140 struct {
	E bool
}

type S141 struct {
	S140
}

type S142 struct {
	S8
	C string `json:"a b"`
	B *int   `json:",omitempty,string"`
}

type s143 struct {
	É   int `json:"a;b,omitempty"`
	y   int
	A   []int
	Foo string `json:"b"`
}

type s144 struct {
	D    int
	S141 `xml:"q"`
	É    []int
}

type S145 struct {
	Foo string
	S139
}

type s146 struct {
	A *int
	*s143
	*S141
	s144
}

type S147 struct {
	s146
	*s144
	A1 int `json:"b"`
}

type s148 struct {
}

type S149 struct {
	A1 float64 `json:""`
}

type S150 struct {
	*S150
}

type s151 struct {
	*s146
	D string `json:",unknown,omitemptyx"`
	S147
}

type S152 struct {
	s146
	É map[string]int
	C bool `json:"a,omitempty"`
	B *int
	A bool
}

type S153 struct {
	*S152
}

type s154 struct {
	S50
	É map[string]int
	D map[string]int `json:"x&y"`
	*s148
	*s151
}

type S155 struct {
	*s63
	D bool   `json:""`
	C string `xml:"q"`
}

type s156 struct {
	y interface{} `json:"a,unknown,omitemptyx"`
	S155
}

type s157 struct {
	É   bool
	Foo []int `json:","`
	E   int   `json:",string"`
	B   interface{}
}

type s158 struct {
	x  *int
	A1 []int `json:"bad\\,omitempty"`
}

type S159 struct {
	x interface{} `json:"bad\\"`
	*s154
	A1 map[string]int
}

type s160 struct {
	x string
	C map[string]int
	S159
	*s44
	Foo []int `json:"世,omitempty"`
	*s160
}

type S161 struct {
	*S121
	E  interface{} `json:"B"`
	A1 interface{} `json:"',omitempty"`
}

type S162 struct {
	y  int   `json:"C"`
	A1 []int `json:"b,omitempty"`
	*S161
}

type S163 struct {
	*s119
	*S161
	Foo  []int `json:"C,omitempty"`
	S159 `json:"bad\\"`
	A    []int
	D    []int `json:""`
}

type s164 struct {
	s160
	S161
}

type S165 struct {
	x     map[string]int `json:"x&y,omitempty"`
	C     interface{}
	*s160 `json:"a,omitempty"`
	É     string `json:"a"`
	s115
	S159
}

type S166 struct {
	S161
	selStr `json:"_"`
}

type S167 struct {
	x map[string]int `json:",omitempty"`
	s120
	S61
	A int
}

type S168 struct {
	x map[string]int `xml:"q"`
}

type S169 struct {
	A int `xml:"q"`
	É string
	s93
}

type S170 struct {
	D bool
}

type s171 struct {
	D int `json:"<k>"`
	C float64
	S165
	A *int
	E *int `json:""`
}

type S172 struct {
	s58
	A      map[string]int `json:"a b"`
	x      int
	SelInt `json:"B,string,unknown,omitemptyx"`
	*S167
}

type S173 struct {
	*S167
	D map[string]int
	B float64
}

type s174 struct {
	C bool    `json:"世"`
	B float64 `json:""`
	*S50
	E []int `json:"<k>"`
}

type S175 struct {
	y int
	É *int `json:"x&y"`
}

type S176 struct {
	*s7
	s171
}

type s177 struct {
	S173
	S175
	*S172
	*s177
}

type s178 struct {
	*S175
	S176 `xml:"q"`
}

type S179 struct {
	A1 int
	*S173
	S175
}

type s180 struct {
	*s178
	A1 string
	*s180
	É *int
}

type s181 struct {
	Foo bool `json:",unknown,omitemptyx"`
	A1  float64
	D   string
	S175
	*s104
}

type S182 struct {
	*S179 `json:"C,string"`
	y     map[string]int `xml:"q"`
	Foo   string
	x     []int
}

type S183 struct {
	s160
	*S183
	*s177 `json:"A,unknown,omitemptyx"`
}

type S184 struct {
	É     string
	A     interface{}
	*S179 `json:"a b,string"`
	*s180
	E int `json:""`
}

type S185 struct {
	s180 `json:",omitempty,string,unknown,omitemptyx"`
	É    float64 `json:"C,omitempty"`
	D    float64
	A1   string
}

type S186 struct {
	x *int `json:""`
	C *int
	A *int `json:"x&y,omitempty"`
	S185
}

type S187 struct {
	*S163
	x   string `json:""`
	Foo int
	S185
	D bool
	S75
}

type s188 struct {
	*S187
}

type S189 struct {
	E    float64 `json:",unknown,omitemptyx"`
	B    *int
	S184 `json:"a"`
	*S187
	C map[string]int `json:"A"`
}

type s190 struct {
	S187
	S184
}

type s191 struct {
	D int `json:"C,omitempty,string"`
	*S187
}

type s192 struct {
	E  *int
	A1 float64 `json:""`
	s131
	D int
	É map[string]int
}

type s193 struct {
	s190
	B int     `json:",omitempty,string"`
	É float64 `json:"A"`
	s181
	Foo float64
	C   []int `json:"a;b"`
}

type S194 struct {
	E map[string]int `json:""`
	SelSlice
	y float64
	D []int `json:",unknown,omitemptyx"`
}

type S195 struct {
	*S194 `json:",omitempty"`
	A     map[string]int `json:"é"`
}

type S196 struct {
	SelSlice `json:"<k>,omitempty"`
	E        interface{} `json:""`
	C        string      `json:"x&y,omitempty"`
	x        float64     `json:"é"`
	*S0
	S195 `json:"_"`
	D    string `json:",string"`
}

type s197 struct {
	*s191
	*S194
	A  map[string]int
	A1 string
	y  interface{}
}

type s198 struct {
	Foo string `json:"B,string"`
	A   float64
}

type s199 struct {
	s197
	E *int `json:"a,omitempty"`
	D interface{}
}

type S200 struct {
	*S195
}

type S201 struct {
	A1 map[string]int
	B  float64
	s199
	A map[string]int `json:",omitempty"`
	D bool
}

type s202 struct {
	S200
	C int `json:"C"`
}

type S203 struct {
	S183
	y string `json:"a b"`
	s198
	x map[string]int `json:"bad\\,string"`
}

type S204 struct {
	*S204
	A1 string
	É  float64 `json:",unknown,omitemptyx"`
	*S201
	S200
}

type s205 struct {
	s199
	*S203
	É bool `json:""`
	SelSlice
}

type s206 struct {
	y map[string]int
	E interface{} `json:",string"`
	D interface{}
}

type S207 struct {
	*s206
	s120
}

type S208 struct {
	*S208 `json:"',omitempty"`
	s202
	*S183
}

type S209 struct {
	E map[string]int `json:"a b,string"`
	É string         `json:""`
	C map[string]int `json:"a b,string"`
	*S10
}

type S210 struct {
	D *int `json:","`
	*S204
	A1 bool
	y  float64
}

type s211 struct {
	s206
	E string `json:"é"`
}

type S212 struct {
	*s211
	S210
	A *int `json:"Foo"`
	*S209
	D string
	x float64 `json:""`
}

type S213 struct {
	*S212
	*S208
	*s211
	y bool
	C *int
	E string
}

type s214 struct {
}

type S215 struct {
	*S213
	D float64 `json:"世,omitempty,string"`
	s211
	*S129
}

type S216 struct {
	*s211
}

type s217 struct {
	*S213
	A bool
	É interface{} `json:",omitempty"`
	C []int       `json:",omitempty"`
	D int
}

type S218 struct {
	*s217 `json:"x&y,omitempty"`
}

type s219 struct {
	É map[string]int
	y []int `json:""`
	S216
	SelIface `json:"bad\\,omitempty"`
}

type S220 struct {
	s217
	É interface{}
}

type S221 struct {
	s34
	A interface{}
	y string
}

type s222 struct {
	*S48 `json:"',omitempty"`
	S221
	*s219
}

type S223 struct {
	E []int
	s33
	C     bool        `xml:"q"`
	D     interface{} `json:""`
	*s219 `json:",unknown,omitemptyx"`
	S9
	selStr
}

type s224 struct {
	y interface{}
	A map[string]int
	*S220
	SelIface
	*S223
}

type S225 struct {
	B bool
	C interface{} `json:"A,omitempty"`
	s224
	x interface{}
}

type s226 struct {
	S223
	S221
}

type s227 struct {
	*S221
	x  interface{}
	B  map[string]int
	A1 bool   `xml:"q"`
	A  string `json:"_"`
}

type S228 struct {
	É bool
	E int
	x bool
	C map[string]int `json:""`
}

type S229 struct {
	D interface{} `json:"b"`
}

type S230 struct {
	S229
	s144
	A interface{} `json:"<k>"`
	S162
}

type S231 struct {
	A int `json:"-,omitempty"`
	B map[string]int
}

type s232 struct {
	x string `json:"x&y,omitempty,unknown,omitemptyx"`
	*S4
	Foo float64
	É   interface{}
}

type S233 struct {
	C bool `xml:"q"`
	*S182
	*S230
	A interface{} `json:"A"`
}

type S234 struct {
	D  bool
	A1 *int
	SelInt
	*s232
}

type S235 struct {
	x []int
	s232
	S234
}

type S236 struct {
	B []int `json:"C,omitempty"`
	C []int `xml:"q"`
	x interface{}
	*S230
}

type S237 struct {
	*S170
	*S236 `json:"b,omitempty"`
	s232
}

type s238 struct {
	S233
	C int `json:"bad\\"`
	A int `json:"é"`
}

type s239 struct {
	x     interface{} `json:"-,unknown,omitemptyx"`
	*s239 `xml:"q"`
	s52   `xml:"q"`
}

type S240 struct {
	S235
	S234
	Foo interface{}
}

type S241 struct {
	A interface{}
	D bool
	*S235
	selFunc `json:"A,omitempty"`
	*s238
}

type S242 struct {
	s238
	s239
	*S236
}

type S243 struct {
	A1  interface{} `xml:"q"`
	Foo bool
	s239
	*S241
	C bool `json:"x&y"`
	*S243
}

type S244 struct {
	s239
	S241
	S243
}

type S245 struct {
	SelIface `json:"b"`
	*S11     `json:",omitempty"`
	C        bool `json:"bad\\,omitempty,unknown,omitemptyx"`
	É        *int `json:",omitempty"`
}

type s246 struct {
	x int `json:""`
	B bool
}

type s247 struct {
	S241
}

type s248 struct {
	s63 `json:"C"`
	C   map[string]int
	y   interface{} `json:"_,omitempty"`
	x   int         `json:"B"`
	*s248
	D *int `json:"x&y,omitempty"`
}

type S249 struct {
	x []int
	*S249
	y []int
}

type S250 struct {
	*s197
	x   []int `json:"a b,omitempty"`
	É   float64
	Foo interface{}
	*S250
	B *int
}

type S251 struct {
	s247 `json:"a b,omitempty"`
	É    *int `json:""`
	s246
	A1 *int
	D  float64
	B  bool `json:"-"`
}

type S252 struct {
	D  float64
	A1 string
	s246
	A int
	E *int `json:",string"`
	*S250
}

type s253 struct {
	É   float64 `json:""`
	Foo *int    `json:"世"`
	A   map[string]int
	S250
}

type S254 struct {
	x  int   `json:"A"`
	É  int   `json:",unknown,omitemptyx"`
	A1 []int `json:",omitempty"`
}

type S255 struct {
	Foo map[string]int `json:"Foo"`
	S252
	x map[string]int
	selStr
	*S251
	E *int
}

type S256 struct {
	B string      `json:"a;b"`
	É interface{} `json:"a;b,unknown,omitemptyx"`
	*S256
	A string
}

type s257 struct {
	*S254
	S252
}

type S258 struct {
	x *int `json:"Foo"`
	*s55
	B []int `json:"bad\\"`
}

type s259 struct {
	S258
	S256 `json:",unknown,omitemptyx"`
	A1   *int
	A    interface{} `xml:"q"`
	*s253
	B       bool
	selFunc `json:""`
}

type S260 struct {
	B []int
}

type S261 struct {
	*s257
	*s259
	C string
	*S261
	D []int
}

type S262 struct {
	E   *int   `json:"世"`
	Foo bool   `json:""`
	D   string `json:"a;b,omitempty"`
}

type S263 struct {
	A1    map[string]int `json:",omitempty"`
	C     []int          `json:",omitempty"`
	*S132 `json:"B"`
	S258
	S261
}

type S264 struct {
	S74
	*s33
	A int `json:",omitempty"`
	x []int
	*S264
}

type s265 struct {
	É map[string]int
	y bool
	A int
	C []int `json:",omitempty"`
}

type S266 struct {
	D bool `json:"Foo"`
}

type S267 struct {
}

type S268 struct {
	A interface{}
}

type s269 struct {
	E *int
	S268
	y *int `json:"A,omitempty"`
}

type S270 struct {
	A1 bool
}

type s271 struct {
}

type S272 struct {
	A1 string `json:""`
	x  *int
	s269
}

type s273 struct {
	É bool
	s271
	A *int
	*s253
	D map[string]int
	*S268
}

type S274 struct {
	*S256
	E  interface{} `xml:"q"`
	D  float64
	A1 []int `json:"b"`
	S268
}

type S275 struct {
	s269
	D    string
	S274 `json:",omitempty"`
	*S270
	A        *int `xml:"q"`
	SelSlice `json:",omitempty"`
}

type S276 struct {
	E *int
	x float64
	*S147
	y *int
}

type S277 struct {
}

type S278 struct {
	S276
	D *int `json:",omitempty"`
	S274
	É []int
	*s273
}

type s279 struct {
	s273
	y map[string]int `json:",omitempty,string"`
	*S278
}

type S280 struct {
	*S277
	*S276
	*S201
	C float64
}

type s281 struct {
	*S277
	*S276
}

type S282 struct {
	*S277
	*S276
	x map[string]int
}

type S283 struct {
	Foo   bool
	É     *int `json:"'"`
	*S282 `json:""`
}

type S284 struct {
	y bool
	S243
	A []int
	*S282
	É map[string]int
}

type s285 struct {
	A []int `json:",unknown,omitemptyx"`
	*S280
	A1 float64
}

type s286 struct {
	S244
	C *int
	B bool `json:"B"`
}

type s287 struct {
	SelIface `json:"a"`
	S283
}

type s288 struct {
	D     string `json:"<k>"`
	*S280 `json:",omitempty"`
}

type S289 struct {
	x *int
	s286
	D     float64
	*S283 `json:"C,string"`
	s144  `json:"-"`
}

type S290 struct {
	s287
	E      map[string]int
	selStr `json:"B"`
	É      map[string]int `xml:"q"`
	Foo    interface{}
}

type S291 struct {
	Foo   bool
	*s285 `json:"a"`
	*S289
}

type S292 struct {
	s66
	E map[string]int `json:",omitempty"`
	É float64
	C bool `json:"A,omitempty"`
	s287
}

type S293 struct {
	S292
	A bool `json:",omitempty,"`
	*S289
	s53
	B map[string]int
	selFunc
}

type S294 struct {
	*S292
	D int
}

type S295 struct {
	É float64 `xml:"q"`
	S95
	S292 `json:"B"`
	*S282
	Foo map[string]int `json:"_,omitempty"`
}

type S296 struct {
	y interface{}
}

type S297 struct {
	x bool
	C float64
	*S161
	S295 `json:"C,unknown,omitemptyx"`
	D    map[string]int
	S283
}

type S298 struct {
	y interface{} `json:""`
	A *int
	E string
	B map[string]int `xml:"q"`
}

type S299 struct {
	*S295
	selFunc
	*S297
	D *int `json:"a;b,string"`
	B int  `json:"a,omitempty"`
	S293
	Foo float64 `json:""`
}

type s300 struct {
	*S299
}

type s301 struct {
	C    bool `json:"é"`
	A1   *int `json:"a;b"`
	É    *int
	D    bool `json:"世"`
	S289 `json:"B"`
}

type s302 struct {
	C bool `json:"<k>"`
}

type S303 struct {
	A1 interface{} `json:"b"`
	B  bool        `json:"é,"`
	S298
	*S303 `json:",omitempty"`
	s302
}

type S304 struct {
	*s301
}

type S305 struct {
	*S173
}

type S306 struct {
	*S117
	S303
	A1 *int
	*s198
}

type S307 struct {
	*s302
	*S306
}

type S308 struct {
	A    float64 `json:"a;b"`
	D    *int
	s302 `json:"a;b"`
	x    float64
}

type s309 struct {
	*S24
	*S304
}

type s310 struct {
	y string
}

type S311 struct {
	A []int
}

type S312 struct {
	y map[string]int `xml:"q"`
	A int
	*s310
}

type s313 struct {
	C    string
	S307 `json:",omitempty"`
}

type S314 struct {
	C interface{} `json:""`
	B float64     `xml:"q"`
	*s309
}

type S315 struct {
	Foo []int
}

type S316 struct {
	Foo *int
	C   bool
}

type s317 struct {
	y interface{}
	É interface{} `json:""`
	s313
	*S54
}

type S318 struct {
	*S314
	A1  *int
	B   string `json:",omitempty"`
	A   map[string]int
	Foo int
}

type s319 struct {
	S49
	y []int
	*s317
}

func selp(i int) *int { return &i }

var selection = []Selected{
	{"S0", S0{}},
	{"S0", S0{}},
	{"S1", S1{S0: S0{}, D: "", A1: 2}},
	{"S1", S1{S0: S0{}, D: "v3<", A1: 4}},
	{"s2", s2{A1: false, x: "v6<", y: map[string]int{"k": 7}, S0: S0{}, Foo: 8.5, S1: &S1{S0: S0{}, D: "", A1: 0}}},
	{"s2", s2{A1: true, x: "v12<", y: map[string]int{"k": 13}, S0: S0{}, Foo: 14.5, S1: &S1{S0: S0{}, D: "v15<", A1: 16}}},
	{"s3", s3{A: 17, D: nil, S1: S1{S0: S0{}, D: "v19<", A1: 20}, x: 21.5, Foo: nil}},
	{"s3", s3{A: 23, D: nil, S1: S1{S0: S0{}, D: "v25<", A1: 26}, x: 27.5, Foo: 28}},
	{"S4", S4{}},
	{"S4", S4{}},
	{"s5", s5{B: []int{29}, A1: selp(30), S4: S4{}}},
	{"s5", s5{B: nil, A1: selp(32), S4: S4{}}},
	{"S6", S6{s2: &s2{A1: true, x: "", y: map[string]int{"k": 35}, S0: S0{}, Foo: 36.5, S1: &S1{S0: S0{}, D: "v37<", A1: 0}}, S1: S1{S0: S0{}, D: "v39<", A1: 40}}},
	{"S6", S6{s2: &s2{A1: false, x: "v42<", y: map[string]int{"k": 43}, S0: S0{}, Foo: 44.5, S1: &S1{S0: S0{}, D: "v45<", A1: 46}}, S1: S1{S0: S0{}, D: "v47<", A1: 48}}},
	{"s7", s7{C: 49, y: 50, s5: nil}},
	{"s7", s7{C: 51, y: 52, s5: &s5{B: nil, A1: selp(54), S4: S4{}}}},
	{"S8", S8{A: 55.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 58}, S0: S0{}, Foo: 0, S1: &S1{S0: S0{}, D: "v60<", A1: 61}}, C: 62.5, E: "v63<"}},
	{"S8", S8{A: 64.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 67}, S0: S0{}, Foo: 68.5, S1: &S1{S0: S0{}, D: "", A1: 70}}, C: 71.5, E: "v72<"}},
	{"S9", S9{x: "v73<", S4: &S4{}, D: nil, S6: S6{s2: &s2{A1: true, x: "v76<", y: nil, S0: S0{}, Foo: 78.5, S1: &S1{S0: S0{}, D: "", A1: 80}}, S1: S1{S0: S0{}, D: "v81<", A1: 82}}, SelInt: 83}},
	{"S9", S9{x: "v84<", S4: &S4{}, D: map[string]int{"k": 85}, S6: S6{s2: &s2{A1: true, x: "v87<", y: map[string]int{"k": 88}, S0: S0{}, Foo: 89.5, S1: &S1{S0: S0{}, D: "v90<", A1: 91}}, S1: S1{S0: S0{}, D: "v92<", A1: 93}}, SelInt: 94}},
	{"S10", S10{C: "", S8: &S8{A: 96.5, s2: s2{A1: true, x: "", y: nil, S0: S0{}, Foo: 100.5, S1: &S1{S0: S0{}, D: "v101<", A1: 102}}, C: 103.5, E: "v104<"}, S10: &S10{C: "v105<", S8: &S8{A: 106.5, s2: s2{A1: true, x: "v108<", y: map[string]int{"k": 109}, S0: S0{}, Foo: 0, S1: nil}, C: 111.5, E: "v112<"}, S10: &S10{C: "v113<", S8: nil, S10: &S10{C: "v114<", S8: nil, S10: nil, s7: nil}, s7: &s7{C: 115, y: 116, s5: nil}}, s7: &s7{C: 117, y: 118, s5: &s5{B: []int{119}, A1: nil, S4: S4{}}}}, s7: &s7{C: 121, y: 122, s5: &s5{B: []int{123}, A1: selp(124), S4: S4{}}}}},
	{"S10", S10{C: "v125<", S8: &S8{A: 0, s2: s2{A1: true, x: "", y: map[string]int{"k": 129}, S0: S0{}, Foo: 130.5, S1: &S1{S0: S0{}, D: "v131<", A1: 132}}, C: 133.5, E: "v134<"}, S10: &S10{C: "v135<", S8: &S8{A: 136.5, s2: s2{A1: false, x: "v138<", y: map[string]int{"k": 139}, S0: S0{}, Foo: 140.5, S1: nil}, C: 141.5, E: "v142<"}, S10: &S10{C: "", S8: &S8{A: 144.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 147}, S0: S0{}, Foo: 148.5, S1: nil}, C: 149.5, E: "v150<"}, S10: &S10{C: "v151<", S8: nil, S10: nil, s7: nil}, s7: &s7{C: 152, y: 153, s5: nil}}, s7: &s7{C: 154, y: 155, s5: nil}}, s7: &s7{C: 156, y: 0, s5: &s5{B: []int{158}, A1: selp(159), S4: S4{}}}}},
	{"S11", S11{S8: S8{A: 0, s2: s2{A1: true, x: "v162<", y: nil, S0: S0{}, Foo: 164.5, S1: &S1{S0: S0{}, D: "v165<", A1: 166}}, C: 167.5, E: ""}, Foo: nil, A1: "v170<"}},
	{"S11", S11{S8: S8{A: 171.5, s2: s2{A1: true, x: "v173<", y: map[string]int{"k": 174}, S0: S0{}, Foo: 175.5, S1: &S1{S0: S0{}, D: "v176<", A1: 177}}, C: 178.5, E: "v179<"}, Foo: nil, A1: "v181<"}},
	{"S12", S12{S1: &S1{S0: S0{}, D: "", A1: 0}, selFunc: nil, S4: S4{}, B: nil, É: "v186<"}},
	{"S12", S12{S1: &S1{S0: S0{}, D: "v187<", A1: 188}, selFunc: nil, S4: S4{}, B: []int{190}, É: "v191<"}},
	{"S13", S13{s2: s2{A1: true, x: "v193<", y: map[string]int{"k": 194}, S0: S0{}, Foo: 0, S1: &S1{S0: S0{}, D: "v196<", A1: 197}}, C: selp(198)}},
	{"S13", S13{s2: s2{A1: true, x: "v200<", y: map[string]int{"k": 201}, S0: S0{}, Foo: 202.5, S1: &S1{S0: S0{}, D: "v203<", A1: 204}}, C: nil}},
	{"S14", S14{D: []int{206}, É: 207, x: nil, S11: &S11{S8: S8{A: 209.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 212}, S0: S0{}, Foo: 0, S1: &S1{S0: S0{}, D: "v214<", A1: 0}}, C: 216.5, E: "v217<"}, Foo: map[string]int{"k": 218}, A1: ""}}},
	{"S14", S14{D: []int{220}, É: 221, x: selp(222), S11: &S11{S8: S8{A: 223.5, s2: s2{A1: true, x: "v225<", y: map[string]int{"k": 226}, S0: S0{}, Foo: 227.5, S1: &S1{S0: S0{}, D: "v228<", A1: 229}}, C: 230.5, E: "v231<"}, Foo: map[string]int{"k": 232}, A1: "v233<"}}},
	{"S15", S15{S13: S13{s2: s2{A1: true, x: "v235<", y: map[string]int{"k": 236}, S0: S0{}, Foo: 237.5, S1: &S1{S0: S0{}, D: "", A1: 239}}, C: selp(240)}}},
	{"S15", S15{S13: S13{s2: s2{A1: false, x: "", y: map[string]int{"k": 243}, S0: S0{}, Foo: 244.5, S1: &S1{S0: S0{}, D: "v245<", A1: 246}}, C: selp(247)}}},
	{"S16", S16{D: 248, É: nil, S12: &S12{S1: &S1{S0: S0{}, D: "v250<", A1: 0}, selFunc: nil, S4: S4{}, B: nil, É: "v254<"}}},
	{"S16", S16{D: 255, É: map[string]int{"k": 256}, S12: &S12{S1: &S1{S0: S0{}, D: "v257<", A1: 258}, selFunc: nil, S4: S4{}, B: []int{260}, É: "v261<"}}},
	{"s17", s17{y: 262, E: 263, x: 264, S13: S13{s2: s2{A1: false, x: "v266<", y: nil, S0: S0{}, Foo: 268.5, S1: &S1{S0: S0{}, D: "v269<", A1: 270}}, C: selp(271)}, S12: S12{S1: &S1{S0: S0{}, D: "v272<", A1: 273}, selFunc: nil, S4: S4{}, B: nil, É: "v276<"}, S11: S11{S8: S8{A: 277.5, s2: s2{A1: true, x: "v279<", y: map[string]int{"k": 280}, S0: S0{}, Foo: 281.5, S1: &S1{S0: S0{}, D: "v282<", A1: 283}}, C: 284.5, E: "v285<"}, Foo: map[string]int{"k": 286}, A1: ""}}},
	{"s17", s17{y: 288, E: 289, x: 290, S13: S13{s2: s2{A1: true, x: "v292<", y: nil, S0: S0{}, Foo: 0, S1: &S1{S0: S0{}, D: "v295<", A1: 296}}, C: nil}, S12: S12{S1: &S1{S0: S0{}, D: "v298<", A1: 0}, selFunc: nil, S4: S4{}, B: []int{301}, É: "v302<"}, S11: S11{S8: S8{A: 0, s2: s2{A1: true, x: "v305<", y: map[string]int{"k": 306}, S0: S0{}, Foo: 307.5, S1: &S1{S0: S0{}, D: "v308<", A1: 309}}, C: 310.5, E: "v311<"}, Foo: map[string]int{"k": 312}, A1: "v313<"}}},
	{"S18", S18{D: nil, x: 315, C: []int{316}, S14: S14{D: []int{317}, É: 0, x: selp(319), S11: &S11{S8: S8{A: 320.5, s2: s2{A1: true, x: "v322<", y: map[string]int{"k": 323}, S0: S0{}, Foo: 324.5, S1: nil}, C: 325.5, E: "v326<"}, Foo: map[string]int{"k": 327}, A1: ""}}}},
	{"S18", S18{D: []int{329}, x: 330, C: []int{331}, S14: S14{D: nil, É: 333, x: selp(334), S11: &S11{S8: S8{A: 335.5, s2: s2{A1: true, x: "v337<", y: nil, S0: S0{}, Foo: 339.5, S1: nil}, C: 340.5, E: "v341<"}, Foo: map[string]int{"k": 342}, A1: "v343<"}}}},
	{"s19", s19{S16: S16{D: 344, É: nil, S12: &S12{S1: &S1{S0: S0{}, D: "v346<", A1: 347}, selFunc: nil, S4: S4{}, B: nil, É: "v350<"}}, A: nil, B: 352, S9: &S9{x: "v353<", S4: &S4{}, D: map[string]int{"k": 354}, S6: S6{s2: &s2{A1: true, x: "v356<", y: map[string]int{"k": 357}, S0: S0{}, Foo: 0, S1: nil}, S1: S1{S0: S0{}, D: "v359<", A1: 360}}, SelInt: 361}, A1: 362.5}},
	{"s19", s19{S16: S16{D: 0, É: map[string]int{"k": 364}, S12: &S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{366}, É: "v367<"}}, A: []int{368}, B: 369, S9: nil, A1: 370.5}},
	{"s20", s20{S18: S18{D: []int{371}, x: 0, C: []int{373}, S14: S14{D: []int{374}, É: 375, x: selp(376), S11: &S11{S8: S8{A: 377.5, s2: s2{A1: false, x: "v379<", y: nil, S0: S0{}, Foo: 381.5, S1: nil}, C: 382.5, E: ""}, Foo: map[string]int{"k": 384}, A1: "v385<"}}}, A1: []int{386}, E: map[string]int{"k": 387}, B: map[string]int{"k": 388}, s19: &s19{S16: S16{D: 389, É: map[string]int{"k": 390}, S12: &S12{S1: nil, selFunc: nil, S4: S4{}, B: nil, É: "v393<"}}, A: []int{394}, B: 395, S9: &S9{x: "v396<", S4: &S4{}, D: map[string]int{"k": 397}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v398<", A1: 399}}, SelInt: 400}, A1: 401.5}}},
	{"s20", s20{S18: S18{D: nil, x: 403, C: []int{404}, S14: S14{D: []int{405}, É: 0, x: selp(407), S11: &S11{S8: S8{A: 408.5, s2: s2{A1: true, x: "v410<", y: map[string]int{"k": 411}, S0: S0{}, Foo: 412.5, S1: nil}, C: 413.5, E: "v414<"}, Foo: map[string]int{"k": 415}, A1: ""}}}, A1: []int{417}, E: map[string]int{"k": 418}, B: map[string]int{"k": 419}, s19: &s19{S16: S16{D: 420, É: map[string]int{"k": 421}, S12: &S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{423}, É: ""}}, A: []int{425}, B: 0, S9: &S9{x: "v427<", S4: &S4{}, D: map[string]int{"k": 428}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v429<", A1: 0}}, SelInt: 431}, A1: 432.5}}},
	{"S21", S21{s20: &s20{S18: S18{D: nil, x: 434, C: []int{435}, S14: S14{D: []int{436}, É: 437, x: selp(438), S11: &S11{S8: S8{A: 439.5, s2: s2{A1: true, x: "v441<", y: map[string]int{"k": 442}, S0: S0{}, Foo: 443.5, S1: nil}, C: 444.5, E: "v445<"}, Foo: map[string]int{"k": 446}, A1: "v447<"}}}, A1: []int{448}, E: nil, B: map[string]int{"k": 450}, s19: &s19{S16: S16{D: 0, É: nil, S12: nil}, A: []int{453}, B: 454, S9: &S9{x: "v455<", S4: nil, D: map[string]int{"k": 456}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v457<", A1: 458}}, SelInt: 459}, A1: 0}}, D: 461, A: selp(462), x: []int{463}}},
	{"S21", S21{s20: &s20{S18: S18{D: nil, x: 465, C: nil, S14: S14{D: []int{467}, É: 0, x: selp(469), S11: &S11{S8: S8{A: 470.5, s2: s2{A1: false, x: "v472<", y: map[string]int{"k": 473}, S0: S0{}, Foo: 474.5, S1: nil}, C: 475.5, E: "v476<"}, Foo: map[string]int{"k": 477}, A1: "v478<"}}}, A1: []int{479}, E: map[string]int{"k": 480}, B: map[string]int{"k": 481}, s19: &s19{S16: S16{D: 482, É: map[string]int{"k": 483}, S12: nil}, A: []int{484}, B: 485, S9: &S9{x: "v486<", S4: nil, D: map[string]int{"k": 487}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "", A1: 489}}, SelInt: 490}, A1: 491.5}}, D: 492, A: selp(493), x: []int{494}}},
	{"s22", s22{B: "v495<", S21: S21{s20: &s20{S18: S18{D: []int{496}, x: 497, C: nil, S14: S14{D: []int{499}, É: 500, x: selp(501), S11: nil}}, A1: []int{502}, E: map[string]int{"k": 503}, B: map[string]int{"k": 504}, s19: &s19{S16: S16{D: 505, É: map[string]int{"k": 506}, S12: nil}, A: []int{507}, B: 508, S9: nil, A1: 509.5}}, D: 510, A: selp(511), x: nil}, S14: S14{D: []int{513}, É: 0, x: selp(515), S11: &S11{S8: S8{A: 516.5, s2: s2{A1: true, x: "v518<", y: map[string]int{"k": 519}, S0: S0{}, Foo: 0, S1: nil}, C: 521.5, E: "v522<"}, Foo: map[string]int{"k": 523}, A1: "v524<"}}, Foo: map[string]int{"k": 525}}},
	{"s22", s22{B: "v526<", S21: S21{s20: &s20{S18: S18{D: nil, x: 528, C: []int{529}, S14: S14{D: []int{530}, É: 531, x: selp(532), S11: nil}}, A1: nil, E: map[string]int{"k": 534}, B: nil, s19: &s19{S16: S16{D: 536, É: map[string]int{"k": 537}, S12: nil}, A: []int{538}, B: 539, S9: nil, A1: 540.5}}, D: 541, A: nil, x: []int{543}}, S14: S14{D: []int{544}, É: 545, x: selp(546), S11: &S11{S8: S8{A: 547.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 550}, S0: S0{}, Foo: 551.5, S1: nil}, C: 0, E: ""}, Foo: map[string]int{"k": 554}, A1: "v555<"}}, Foo: map[string]int{"k": 556}}},
	{"S23", S23{É: 557.5, C: 0, s17: nil, D: map[string]int{"k": 559}}},
	{"S23", S23{É: 0, C: 561, s17: &s17{y: 562, E: 563, x: 564, S13: S13{s2: s2{A1: true, x: "v566<", y: map[string]int{"k": 567}, S0: S0{}, Foo: 0, S1: &S1{S0: S0{}, D: "", A1: 570}}, C: selp(571)}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{573}, É: "v574<"}, S11: S11{S8: S8{A: 575.5, s2: s2{A1: true, x: "v577<", y: map[string]int{"k": 578}, S0: S0{}, Foo: 579.5, S1: nil}, C: 580.5, E: "v581<"}, Foo: map[string]int{"k": 582}, A1: "v583<"}}, D: nil}},
	{"S24", S24{S21: nil, A: []int{585}}},
	{"S24", S24{S21: &S21{s20: &s20{S18: S18{D: []int{586}, x: 0, C: []int{588}, S14: S14{D: []int{589}, É: 590, x: nil, S11: nil}}, A1: []int{592}, E: map[string]int{"k": 593}, B: map[string]int{"k": 594}, s19: &s19{S16: S16{D: 595, É: map[string]int{"k": 596}, S12: nil}, A: []int{597}, B: 598, S9: nil, A1: 0}}, D: 600, A: selp(601), x: []int{602}}, A: []int{603}}},
	{"S25", S25{x: 604, S1: S1{S0: S0{}, D: "", A1: 606}, B: selp(607), C: 608.5, E: "v609<"}},
	{"S25", S25{x: 610, S1: S1{S0: S0{}, D: "v611<", A1: 612}, B: selp(613), C: 0, E: "v615<"}},
	{"S26", S26{S23: S23{É: 0, C: 0, s17: &s17{y: 618, E: 619, x: 620, S13: S13{s2: s2{A1: true, x: "v622<", y: map[string]int{"k": 623}, S0: S0{}, Foo: 624.5, S1: nil}, C: nil}, S12: S12{S1: &S1{S0: S0{}, D: "v626<", A1: 0}, selFunc: nil, S4: S4{}, B: []int{629}, É: "v630<"}, S11: S11{S8: S8{A: 631.5, s2: s2{A1: false, x: "v633<", y: map[string]int{"k": 634}, S0: S0{}, Foo: 0, S1: nil}, C: 636.5, E: ""}, Foo: nil, A1: "v639<"}}, D: map[string]int{"k": 640}}, s22: &s22{B: "", S21: S21{s20: &s20{S18: S18{D: nil, x: 0, C: []int{644}, S14: S14{D: []int{645}, É: 646, x: selp(647), S11: nil}}, A1: nil, E: map[string]int{"k": 649}, B: map[string]int{"k": 650}, s19: nil}, D: 651, A: selp(652), x: []int{653}}, S14: S14{D: []int{654}, É: 0, x: selp(656), S11: nil}, Foo: map[string]int{"k": 657}}, A1: nil}},
	{"S26", S26{S23: S23{É: 0, C: 660, s17: &s17{y: 661, E: 662, x: nil, S13: S13{s2: s2{A1: true, x: "v665<", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: selp(668)}, S12: S12{S1: &S1{S0: S0{}, D: "v669<", A1: 670}, selFunc: nil, S4: S4{}, B: []int{672}, É: ""}, S11: S11{S8: S8{A: 674.5, s2: s2{A1: true, x: "v676<", y: map[string]int{"k": 677}, S0: S0{}, Foo: 678.5, S1: nil}, C: 679.5, E: "v680<"}, Foo: map[string]int{"k": 681}, A1: "v682<"}}, D: map[string]int{"k": 683}}, s22: nil, A1: map[string]int{"k": 684}}},
	{"S27", S27{x: true, SelIface: SelIface(686), S24: S24{S21: &S21{s20: &s20{S18: S18{D: []int{687}, x: 0, C: []int{689}, S14: S14{D: []int{690}, É: 691, x: nil, S11: nil}}, A1: nil, E: map[string]int{"k": 694}, B: map[string]int{"k": 695}, s19: nil}, D: 696, A: selp(697), x: []int{698}}, A: []int{699}}}},
	{"S27", S27{x: true, SelIface: SelIface(701), S24: S24{S21: &S21{s20: &s20{S18: S18{D: []int{702}, x: 703, C: nil, S14: S14{D: nil, É: 706, x: selp(707), S11: nil}}, A1: nil, E: map[string]int{"k": 709}, B: map[string]int{"k": 710}, s19: nil}, D: nil, A: selp(712), x: []int{713}}, A: []int{714}}}},
	{"S28", S28{S25: &S25{x: 715, S1: S1{S0: S0{}, D: "v716<", A1: 0}, B: nil, C: 719.5, E: ""}, S26: S26{S23: S23{É: 721.5, C: 0, s17: &s17{y: 723, E: 724, x: nil, S13: S13{s2: s2{A1: true, x: "", y: map[string]int{"k": 728}, S0: S0{}, Foo: 729.5, S1: nil}, C: selp(730)}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{732}, É: "v733<"}, S11: S11{S8: S8{A: 734.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 737}, S0: S0{}, Foo: 738.5, S1: nil}, C: 739.5, E: "v740<"}, Foo: map[string]int{"k": 741}, A1: ""}}, D: map[string]int{"k": 743}}, s22: nil, A1: map[string]int{"k": 744}}}},
	{"S28", S28{S25: &S25{x: 0, S1: S1{S0: S0{}, D: "v746<", A1: 747}, B: selp(748), C: 749.5, E: "v750<"}, S26: S26{S23: S23{É: 751.5, C: 0, s17: &s17{y: 753, E: 754, x: 755, S13: S13{s2: s2{A1: true, x: "v757<", y: nil, S0: S0{}, Foo: 759.5, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{762}, É: "v763<"}, S11: S11{S8: S8{A: 764.5, s2: s2{A1: true, x: "v766<", y: map[string]int{"k": 767}, S0: S0{}, Foo: 768.5, S1: nil}, C: 0, E: ""}, Foo: map[string]int{"k": 771}, A1: "v772<"}}, D: map[string]int{"k": 773}}, s22: &s22{B: "", S21: S21{s20: &s20{S18: S18{D: []int{775}, x: 776, C: []int{777}, S14: S14{D: []int{778}, É: 779, x: nil, S11: nil}}, A1: nil, E: map[string]int{"k": 782}, B: map[string]int{"k": 783}, s19: nil}, D: 784, A: selp(785), x: nil}, S14: S14{D: []int{787}, É: 788, x: selp(789), S11: &S11{S8: S8{A: 0, s2: s2{A1: true, x: "v792<", y: map[string]int{"k": 793}, S0: S0{}, Foo: 794.5, S1: nil}, C: 795.5, E: "v796<"}, Foo: map[string]int{"k": 797}, A1: "v798<"}}, Foo: map[string]int{"k": 799}}, A1: map[string]int{"k": 800}}}},
	{"S29", S29{Foo: 801.5}},
	{"S29", S29{Foo: 0}},
	{"S30", S30{É: nil, S25: &S25{x: 804, S1: S1{S0: S0{}, D: "v805<", A1: 806}, B: selp(807), C: 808.5, E: "v809<"}, B: nil, S29: S29{Foo: 811.5}, E: map[string]int{"k": 812}, S27: &S27{x: true, SelIface: SelIface(814), S24: S24{S21: &S21{s20: nil, D: 815, A: selp(816), x: []int{817}}, A: nil}}}},
	{"S30", S30{É: []int{819}, S25: &S25{x: 820, S1: S1{S0: S0{}, D: "v821<", A1: 822}, B: selp(823), C: 0, E: "v825<"}, B: selp(826), S29: S29{Foo: 827.5}, E: map[string]int{"k": 828}, S27: nil}},
	{"S31", S31{É: "v829<", S29: S29{Foo: 830.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 832, S1: S1{S0: S0{}, D: "", A1: 834}, B: selp(835), C: 0, E: "v837<"}}},
	{"S31", S31{É: "", S29: S29{Foo: 839.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 841, S1: S1{S0: S0{}, D: "v842<", A1: 843}, B: selp(844), C: 0, E: "v846<"}}},
	{"S32", S32{É: 847.5, A: "v848<", A1: []int{849}}},
	{"S32", S32{É: 850.5, A: "v851<", A1: nil}},
	{"s33", s33{É: true, C: nil, S27: S27{x: true, SelIface: SelIface(856), S24: S24{S21: &S21{s20: &s20{S18: S18{D: []int{857}, x: 858, C: []int{859}, S14: S14{D: []int{860}, É: 861, x: nil, S11: nil}}, A1: []int{863}, E: map[string]int{"k": 864}, B: map[string]int{"k": 865}, s19: nil}, D: 866, A: selp(867), x: nil}, A: nil}}}},
	{"s33", s33{É: true, C: []int{871}, S27: S27{x: true, SelIface: SelIface(873), S24: S24{S21: &S21{s20: &s20{S18: S18{D: []int{874}, x: 875, C: nil, S14: S14{D: []int{877}, É: 0, x: selp(879), S11: nil}}, A1: []int{880}, E: map[string]int{"k": 881}, B: map[string]int{"k": 882}, s19: nil}, D: 883, A: selp(884), x: nil}, A: []int{886}}}}},
	{"s34", s34{s33: &s33{É: true, C: []int{888}, S27: S27{x: true, SelIface: SelIface(890), S24: S24{S21: &S21{s20: nil, D: 891, A: nil, x: []int{893}}, A: []int{894}}}}, S28: S28{S25: &S25{x: 895, S1: S1{S0: S0{}, D: "", A1: 897}, B: selp(898), C: 899.5, E: "v900<"}, S26: S26{S23: S23{É: 901.5, C: 902, s17: &s17{y: 903, E: nil, x: 905, S13: S13{s2: s2{A1: true, x: "v907<", y: map[string]int{"k": 908}, S0: S0{}, Foo: 909.5, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{912}, É: "v913<"}, S11: S11{S8: S8{A: 914.5, s2: s2{A1: false, x: "", y: map[string]int{"k": 917}, S0: S0{}, Foo: 918.5, S1: nil}, C: 919.5, E: "v920<"}, Foo: map[string]int{"k": 921}, A1: ""}}, D: nil}, s22: &s22{B: "v924<", S21: S21{s20: nil, D: 925, A: selp(926), x: []int{927}}, S14: S14{D: []int{928}, É: 929, x: selp(930), S11: nil}, Foo: map[string]int{"k": 931}}, A1: map[string]int{"k": 932}}}}},
	{"s34", s34{s33: &s33{É: false, C: []int{934}, S27: S27{x: false, SelIface: SelIface(936), S24: S24{S21: &S21{s20: nil, D: 937, A: selp(938), x: []int{939}}, A: nil}}}, S28: S28{S25: &S25{x: 941, S1: S1{S0: S0{}, D: "", A1: 943}, B: selp(944), C: 945.5, E: "v946<"}, S26: S26{S23: S23{É: 947.5, C: 948, s17: &s17{y: 949, E: 950, x: 951, S13: S13{s2: s2{A1: true, x: "v953<", y: map[string]int{"k": 954}, S0: S0{}, Foo: 955.5, S1: nil}, C: selp(956)}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: nil, É: "v959<"}, S11: S11{S8: S8{A: 960.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 963}, S0: S0{}, Foo: 0, S1: nil}, C: 965.5, E: "v966<"}, Foo: map[string]int{"k": 967}, A1: ""}}, D: map[string]int{"k": 969}}, s22: &s22{B: "v970<", S21: S21{s20: nil, D: 971, A: selp(972), x: nil}, S14: S14{D: []int{974}, É: 975, x: selp(976), S11: nil}, Foo: map[string]int{"k": 977}}, A1: map[string]int{"k": 978}}}}},
	{"s35", s35{C: nil, s34: s34{s33: &s33{É: true, C: []int{981}, S27: S27{x: true, SelIface: SelIface(983), S24: S24{S21: nil, A: []int{984}}}}, S28: S28{S25: nil, S26: S26{S23: S23{É: 985.5, C: 0, s17: &s17{y: 987, E: 988, x: nil, S13: S13{s2: s2{A1: false, x: "v991<", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{996}, É: "v997<"}, S11: S11{S8: S8{A: 0, s2: s2{A1: true, x: "v1000<", y: map[string]int{"k": 1001}, S0: S0{}, Foo: 1002.5, S1: nil}, C: 1003.5, E: "v1004<"}, Foo: nil, A1: "v1006<"}}, D: map[string]int{"k": 1007}}, s22: &s22{B: "v1008<", S21: S21{s20: nil, D: 1009, A: selp(1010), x: []int{1011}}, S14: S14{D: []int{1012}, É: 0, x: nil, S11: nil}, Foo: map[string]int{"k": 1015}}, A1: map[string]int{"k": 1016}}}}, S32: S32{É: 0, A: "v1018<", A1: []int{1019}}, B: map[string]int{"k": 1020}}},
	{"s35", s35{C: map[string]int{"k": 1021}, s34: s34{s33: &s33{É: true, C: nil, S27: S27{x: true, SelIface: SelIface(1025), S24: S24{S21: nil, A: []int{1026}}}}, S28: S28{S25: &S25{x: 1027, S1: S1{S0: S0{}, D: "v1028<", A1: 1029}, B: nil, C: 1031.5, E: "v1032<"}, S26: S26{S23: S23{É: 0, C: 0, s17: &s17{y: 1035, E: nil, x: 1037, S13: S13{s2: s2{A1: true, x: "v1039<", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{1044}, É: "v1045<"}, S11: S11{S8: S8{A: 0, s2: s2{A1: false, x: "", y: map[string]int{"k": 1049}, S0: S0{}, Foo: 1050.5, S1: nil}, C: 1051.5, E: "v1052<"}, Foo: map[string]int{"k": 1053}, A1: ""}}, D: map[string]int{"k": 1055}}, s22: &s22{B: "v1056<", S21: S21{s20: nil, D: 1057, A: selp(1058), x: []int{1059}}, S14: S14{D: []int{1060}, É: 1061, x: selp(1062), S11: nil}, Foo: map[string]int{"k": 1063}}, A1: map[string]int{"k": 1064}}}}, S32: S32{É: 0, A: "", A1: []int{1067}}, B: map[string]int{"k": 1068}}},
	{"s36", s36{}},
	{"s36", s36{}},
	{"S37", S37{A: map[string]int{"k": 1069}, s3: s3{A: 1070, D: 1071, S1: S1{S0: S0{}, D: "", A1: 0}, x: 1074.5, Foo: 1075}, B: false, s34: s34{s33: &s33{É: true, C: []int{1078}, S27: S27{x: true, SelIface: SelIface(1080), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: &S25{x: 1082, S1: S1{S0: S0{}, D: "v1083<", A1: 0}, B: selp(1085), C: 1086.5, E: "v1087<"}, S26: S26{S23: S23{É: 1088.5, C: 1089, s17: &s17{y: 1090, E: 1091, x: 1092, S13: S13{s2: s2{A1: true, x: "v1094<", y: map[string]int{"k": 1095}, S0: S0{}, Foo: 1096.5, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{1099}, É: ""}, S11: S11{S8: S8{A: 0, s2: s2{A1: true, x: "", y: map[string]int{"k": 1104}, S0: S0{}, Foo: 1105.5, S1: nil}, C: 1106.5, E: "v1107<"}, Foo: map[string]int{"k": 1108}, A1: "v1109<"}}, D: map[string]int{"k": 1110}}, s22: &s22{B: "v1111<", S21: S21{s20: nil, D: nil, A: selp(1113), x: []int{1114}}, S14: S14{D: nil, É: 1116, x: selp(1117), S11: nil}, Foo: nil}, A1: map[string]int{"k": 1119}}}}}},
	{"S37", S37{A: map[string]int{"k": 1120}, s3: s3{A: 1121, D: 1122, S1: S1{S0: S0{}, D: "v1123<", A1: 1124}, x: 1125.5, Foo: nil}, B: true, s34: s34{s33: &s33{É: true, C: []int{1129}, S27: S27{x: true, SelIface: SelIface(1131), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: &S25{x: 1133, S1: S1{S0: S0{}, D: "v1134<", A1: 1135}, B: selp(1136), C: 1137.5, E: ""}, S26: S26{S23: S23{É: 1139.5, C: 1140, s17: &s17{y: 0, E: 1142, x: 1143, S13: S13{s2: s2{A1: true, x: "v1145<", y: map[string]int{"k": 1146}, S0: S0{}, Foo: 1147.5, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{1150}, É: "v1151<"}, S11: S11{S8: S8{A: 1152.5, s2: s2{A1: true, x: "v1154<", y: map[string]int{"k": 1155}, S0: S0{}, Foo: 0, S1: nil}, C: 1157.5, E: "v1158<"}, Foo: map[string]int{"k": 1159}, A1: ""}}, D: map[string]int{"k": 1161}}, s22: &s22{B: "", S21: S21{s20: nil, D: nil, A: selp(1164), x: []int{1165}}, S14: S14{D: []int{1166}, É: 1167, x: selp(1168), S11: nil}, Foo: map[string]int{"k": 1169}}, A1: nil}}}}},
	{"S38", S38{S37: S37{A: map[string]int{"k": 1171}, s3: s3{A: 1172, D: 1173, S1: S1{S0: S0{}, D: "v1174<", A1: 1175}, x: 1176.5, Foo: nil}, B: true, s34: s34{s33: &s33{É: true, C: []int{1180}, S27: S27{x: true, SelIface: SelIface(1182), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: &S25{x: 1184, S1: S1{S0: S0{}, D: "v1185<", A1: 1186}, B: nil, C: 0, E: "v1189<"}, S26: S26{S23: S23{É: 1190.5, C: 1191, s17: nil, D: map[string]int{"k": 1192}}, s22: &s22{B: "v1193<", S21: S21{s20: nil, D: 1194, A: selp(1195), x: []int{1196}}, S14: S14{D: []int{1197}, É: 0, x: selp(1199), S11: nil}, Foo: map[string]int{"k": 1200}}, A1: map[string]int{"k": 1201}}}}}, y: selp(1202), s33: s33{É: true, C: []int{1204}, S27: S27{x: false, SelIface: SelIface(1206), S24: S24{S21: &S21{s20: nil, D: 1207, A: selp(1208), x: []int{1209}}, A: []int{1210}}}}, S13: S13{s2: s2{A1: true, x: "v1212<", y: map[string]int{"k": 1213}, S0: S0{}, Foo: 1214.5, S1: &S1{S0: S0{}, D: "", A1: 1216}}, C: selp(1217)}}},
	{"S38", S38{S37: S37{A: map[string]int{"k": 1218}, s3: s3{A: 1219, D: nil, S1: S1{S0: S0{}, D: "v1221<", A1: 1222}, x: 1223.5, Foo: 1224}, B: true, s34: s34{s33: &s33{É: true, C: []int{1227}, S27: S27{x: true, SelIface: SelIface(1229), S24: S24{S21: nil, A: []int{1230}}}}, S28: S28{S25: &S25{x: 1231, S1: S1{S0: S0{}, D: "v1232<", A1: 1233}, B: selp(1234), C: 1235.5, E: "v1236<"}, S26: S26{S23: S23{É: 1237.5, C: 0, s17: nil, D: map[string]int{"k": 1239}}, s22: &s22{B: "v1240<", S21: S21{s20: nil, D: 1241, A: selp(1242), x: nil}, S14: S14{D: []int{1244}, É: 1245, x: nil, S11: nil}, Foo: map[string]int{"k": 1247}}, A1: map[string]int{"k": 1248}}}}}, y: selp(1249), s33: s33{É: true, C: []int{1251}, S27: S27{x: false, SelIface: SelIface(1253), S24: S24{S21: &S21{s20: nil, D: 1254, A: selp(1255), x: []int{1256}}, A: []int{1257}}}}, S13: S13{s2: s2{A1: true, x: "", y: map[string]int{"k": 1260}, S0: S0{}, Foo: 1261.5, S1: nil}, C: selp(1262)}}},
	{"S39", S39{A: nil, S38: &S38{S37: S37{A: nil, s3: s3{A: 1265, D: 1266, S1: S1{S0: S0{}, D: "", A1: 1268}, x: 0, Foo: 1270}, B: true, s34: s34{s33: &s33{É: true, C: []int{1273}, S27: S27{x: true, SelIface: SelIface(1275), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: nil, S26: S26{S23: S23{É: 1277.5, C: 1278, s17: nil, D: map[string]int{"k": 1279}}, s22: nil, A1: nil}}}}, y: selp(1281), s33: s33{É: true, C: []int{1283}, S27: S27{x: true, SelIface: SelIface(1285), S24: S24{S21: nil, A: []int{1286}}}}, S13: S13{s2: s2{A1: true, x: "", y: map[string]int{"k": 1289}, S0: S0{}, Foo: 1290.5, S1: &S1{S0: S0{}, D: "v1291<", A1: 1292}}, C: selp(1293)}}, S9: &S9{x: "v1294<", S4: &S4{}, D: map[string]int{"k": 1295}, S6: S6{s2: &s2{A1: true, x: "v1297<", y: map[string]int{"k": 1298}, S0: S0{}, Foo: 1299.5, S1: nil}, S1: S1{S0: S0{}, D: "v1300<", A1: 1301}}, SelInt: 1302}, A1: 1303.5, s33: &s33{É: true, C: nil, S27: S27{x: true, SelIface: SelIface(1307), S24: S24{S21: &S21{s20: nil, D: 1308, A: selp(1309), x: []int{1310}}, A: []int{1311}}}}}},
	{"S39", S39{A: []int{1312}, S38: &S38{S37: S37{A: map[string]int{"k": 1313}, s3: s3{A: 1314, D: 1315, S1: S1{S0: S0{}, D: "v1316<", A1: 0}, x: 1318.5, Foo: 1319}, B: true, s34: s34{s33: &s33{É: true, C: []int{1322}, S27: S27{x: false, SelIface: SelIface(1324), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: nil, S26: S26{S23: S23{É: 1326.5, C: 1327, s17: nil, D: map[string]int{"k": 1328}}, s22: nil, A1: nil}}}}, y: nil, s33: s33{É: false, C: nil, S27: S27{x: true, SelIface: SelIface(1334), S24: S24{S21: nil, A: []int{1335}}}}, S13: S13{s2: s2{A1: true, x: "", y: map[string]int{"k": 1338}, S0: S0{}, Foo: 1339.5, S1: &S1{S0: S0{}, D: "", A1: 0}}, C: selp(1342)}}, S9: &S9{x: "v1343<", S4: &S4{}, D: map[string]int{"k": 1344}, S6: S6{s2: &s2{A1: false, x: "v1346<", y: nil, S0: S0{}, Foo: 1348.5, S1: nil}, S1: S1{S0: S0{}, D: "v1349<", A1: 1350}}, SelInt: 1351}, A1: 1352.5, s33: nil}},
	{"s40", s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 1354}, s34: s34{s33: &s33{É: false, C: []int{1356}, S27: S27{x: true, SelIface: SelIface(1358), S24: S24{S21: nil, A: []int{1359}}}}, S28: S28{S25: &S25{x: 0, S1: S1{S0: S0{}, D: "", A1: 1362}, B: nil, C: 1364.5, E: ""}, S26: S26{S23: S23{É: 1366.5, C: 0, s17: nil, D: map[string]int{"k": 1368}}, s22: &s22{B: "v1369<", S21: S21{s20: nil, D: nil, A: selp(1371), x: []int{1372}}, S14: S14{D: []int{1373}, É: 0, x: nil, S11: nil}, Foo: nil}, A1: nil}}}, S32: S32{É: 0, A: "v1379<", A1: []int{1380}}, B: map[string]int{"k": 1381}}, S39: S39{A: []int{1382}, S38: &S38{S37: S37{A: map[string]int{"k": 1383}, s3: s3{A: 1384, D: 1385, S1: S1{S0: S0{}, D: "v1386<", A1: 1387}, x: 1388.5, Foo: 1389}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1391.5, C: 1392, s17: nil, D: map[string]int{"k": 1393}}, s22: nil, A1: map[string]int{"k": 1394}}}}}, y: selp(1395), s33: s33{É: true, C: []int{1397}, S27: S27{x: true, SelIface: SelIface(1399), S24: S24{S21: nil, A: nil}}}, S13: S13{s2: s2{A1: false, x: "", y: nil, S0: S0{}, Foo: 1404.5, S1: nil}, C: selp(1405)}}, S9: &S9{x: "v1406<", S4: &S4{}, D: map[string]int{"k": 1407}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v1408<", A1: 1409}}, SelInt: 1410}, A1: 1411.5, s33: &s33{É: false, C: []int{1413}, S27: S27{x: false, SelIface: SelIface(1415), S24: S24{S21: nil, A: []int{1416}}}}}, D: ""}},
	{"s40", s40{S37: &S37{A: nil, s3: s3{A: 1419, D: nil, S1: S1{S0: S0{}, D: "v1421<", A1: 1422}, x: 1423.5, Foo: 1424}, B: true, s34: s34{s33: &s33{É: true, C: []int{1427}, S27: S27{x: true, SelIface: SelIface(1429), S24: S24{S21: nil, A: []int{1430}}}}, S28: S28{S25: &S25{x: 1431, S1: S1{S0: S0{}, D: "v1432<", A1: 0}, B: selp(1434), C: 1435.5, E: "v1436<"}, S26: S26{S23: S23{É: 1437.5, C: 0, s17: nil, D: map[string]int{"k": 1439}}, s22: nil, A1: map[string]int{"k": 1440}}}}}, C: []int{1441}, s35: s35{C: map[string]int{"k": 1442}, s34: s34{s33: &s33{É: true, C: []int{1444}, S27: S27{x: true, SelIface: SelIface(1446), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: &S25{x: 1448, S1: S1{S0: S0{}, D: "v1449<", A1: 1450}, B: nil, C: 1452.5, E: "v1453<"}, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 1456}}, s22: &s22{B: "v1457<", S21: S21{s20: nil, D: 1458, A: selp(1459), x: []int{1460}}, S14: S14{D: nil, É: 0, x: selp(1463), S11: nil}, Foo: map[string]int{"k": 1464}}, A1: map[string]int{"k": 1465}}}}, S32: S32{É: 1466.5, A: "v1467<", A1: []int{1468}}, B: map[string]int{"k": 1469}}, S39: S39{A: []int{1470}, S38: nil, S9: &S9{x: "v1471<", S4: &S4{}, D: map[string]int{"k": 1472}, S6: S6{s2: &s2{A1: true, x: "v1474<", y: map[string]int{"k": 1475}, S0: S0{}, Foo: 1476.5, S1: nil}, S1: S1{S0: S0{}, D: "v1477<", A1: 1478}}, SelInt: 1479}, A1: 1480.5, s33: &s33{É: true, C: []int{1482}, S27: S27{x: true, SelIface: SelIface(1484), S24: S24{S21: nil, A: nil}}}}, D: "v1486<"}},
	{"S41", S41{É: 1487, D: map[string]int{"k": 1488}, S8: S8{A: 0, s2: s2{A1: true, x: "", y: map[string]int{"k": 1492}, S0: S0{}, Foo: 1493.5, S1: &S1{S0: S0{}, D: "", A1: 1495}}, C: 1496.5, E: "v1497<"}, y: 1498, S29: S29{Foo: 1499.5}, s40: &s40{S37: &S37{A: map[string]int{"k": 1500}, s3: s3{A: 1501, D: 1502, S1: S1{S0: S0{}, D: "v1503<", A1: 1504}, x: 0, Foo: 1506}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1508.5, C: 1509, s17: nil, D: map[string]int{"k": 1510}}, s22: nil, A1: nil}}}}, C: nil, s35: s35{C: nil, s34: s34{s33: &s33{É: true, C: []int{1515}, S27: S27{x: false, SelIface: SelIface(1517), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: nil, S26: S26{S23: S23{É: 1519.5, C: 0, s17: nil, D: map[string]int{"k": 1521}}, s22: nil, A1: map[string]int{"k": 1522}}}}, S32: S32{É: 1523.5, A: "v1524<", A1: []int{1525}}, B: nil}, S39: S39{A: []int{1527}, S38: nil, S9: &S9{x: "v1528<", S4: nil, D: map[string]int{"k": 1529}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "", A1: 0}}, SelInt: 1532}, A1: 1533.5, s33: &s33{É: false, C: []int{1535}, S27: S27{x: true, SelIface: SelIface(1537), S24: S24{S21: nil, A: []int{1538}}}}}, D: "v1539<"}}},
	{"S41", S41{É: 1540, D: map[string]int{"k": 1541}, S8: S8{A: 1542.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 1545}, S0: S0{}, Foo: 1546.5, S1: &S1{S0: S0{}, D: "", A1: 1548}}, C: 1549.5, E: "v1550<"}, y: 1551, S29: S29{Foo: 1552.5}, s40: &s40{S37: &S37{A: map[string]int{"k": 1553}, s3: s3{A: 1554, D: 1555, S1: S1{S0: S0{}, D: "v1556<", A1: 1557}, x: 0, Foo: 1559}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1561.5, C: 1562, s17: nil, D: nil}, s22: nil, A1: nil}}}}, C: []int{1565}, s35: s35{C: map[string]int{"k": 1566}, s34: s34{s33: &s33{É: true, C: []int{1568}, S27: S27{x: false, SelIface: SelIface(1570), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: nil, S26: S26{S23: S23{É: 1572.5, C: 1573, s17: nil, D: map[string]int{"k": 1574}}, s22: nil, A1: map[string]int{"k": 1575}}}}, S32: S32{É: 1576.5, A: "v1577<", A1: []int{1578}}, B: map[string]int{"k": 1579}}, S39: S39{A: []int{1580}, S38: &S38{S37: S37{A: map[string]int{"k": 1581}, s3: s3{A: 1582, D: nil, S1: S1{S0: S0{}, D: "v1584<", A1: 1585}, x: 1586.5, Foo: 1587}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 1591}}, s22: nil, A1: nil}}}}, y: selp(1593), s33: s33{É: true, C: []int{1595}, S27: S27{x: true, SelIface: SelIface(1597), S24: S24{S21: nil, A: []int{1598}}}}, S13: S13{s2: s2{A1: true, x: "v1600<", y: map[string]int{"k": 1601}, S0: S0{}, Foo: 1602.5, S1: nil}, C: selp(1603)}}, S9: &S9{x: "", S4: nil, D: map[string]int{"k": 1605}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "", A1: 1607}}, SelInt: 1608}, A1: 1609.5, s33: &s33{É: true, C: []int{1611}, S27: S27{x: false, SelIface: SelIface(1613), S24: S24{S21: nil, A: []int{1614}}}}}, D: "v1615<"}}},
	{"s42", s42{}},
	{"s42", s42{}},
	{"S43", S43{D: "v1616<", S39: S39{A: []int{1617}, S38: &S38{S37: S37{A: map[string]int{"k": 1618}, s3: s3{A: 1619, D: 1620, S1: S1{S0: S0{}, D: "", A1: 1622}, x: 1623.5, Foo: 1624}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1626.5, C: 1627, s17: nil, D: map[string]int{"k": 1628}}, s22: nil, A1: map[string]int{"k": 1629}}}}}, y: selp(1630), s33: s33{É: true, C: []int{1632}, S27: S27{x: true, SelIface: SelIface(1634), S24: S24{S21: nil, A: []int{1635}}}}, S13: S13{s2: s2{A1: false, x: "v1637<", y: map[string]int{"k": 1638}, S0: S0{}, Foo: 1639.5, S1: nil}, C: selp(1640)}}, S9: &S9{x: "v1641<", S4: &S4{}, D: map[string]int{"k": 1642}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v1643<", A1: 0}}, SelInt: 1645}, A1: 1646.5, s33: &s33{É: false, C: []int{1648}, S27: S27{x: true, SelIface: SelIface(1650), S24: S24{S21: nil, A: []int{1651}}}}}, s42: s42{}, x: []int{1652}}},
	{"S43", S43{D: "v1653<", S39: S39{A: []int{1654}, S38: nil, S9: &S9{x: "v1655<", S4: nil, D: map[string]int{"k": 1656}, S6: S6{s2: &s2{A1: false, x: "v1658<", y: map[string]int{"k": 1659}, S0: S0{}, Foo: 1660.5, S1: nil}, S1: S1{S0: S0{}, D: "", A1: 1662}}, SelInt: 1663}, A1: 1664.5, s33: &s33{É: true, C: []int{1666}, S27: S27{x: true, SelIface: SelIface(1668), S24: S24{S21: nil, A: []int{1669}}}}}, s42: s42{}, x: nil}},
	{"S45", S45{A: map[string]int{"k": 1671}, É: []int{1672}, D: 1673, S43: S43{D: "v1674<", S39: S39{A: nil, S38: &S38{S37: S37{A: map[string]int{"k": 1676}, s3: s3{A: nil, D: nil, S1: S1{S0: S0{}, D: "", A1: 1680}, x: 1681.5, Foo: 1682}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1684.5, C: 1685, s17: nil, D: map[string]int{"k": 1686}}, s22: nil, A1: map[string]int{"k": 1687}}}}}, y: selp(1688), s33: s33{É: true, C: []int{1690}, S27: S27{x: true, SelIface: SelIface(1692), S24: S24{S21: nil, A: []int{1693}}}}, S13: S13{s2: s2{A1: true, x: "v1695<", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: selp(1698)}}, S9: &S9{x: "v1699<", S4: &S4{}, D: map[string]int{"k": 1700}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v1701<", A1: 0}}, SelInt: 1703}, A1: 1704.5, s33: &s33{É: true, C: []int{1706}, S27: S27{x: true, SelIface: SelIface(1708), S24: S24{S21: nil, A: nil}}}}, s42: s42{}, x: []int{1710}}}},
	{"S45", S45{A: map[string]int{"k": 1711}, É: []int{1712}, D: nil, S43: S43{D: "v1714<", S39: S39{A: []int{1715}, S38: &S38{S37: S37{A: nil, s3: s3{A: 1717, D: 1718, S1: S1{S0: S0{}, D: "v1719<", A1: 0}, x: 1721.5, Foo: 1722}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1724.5, C: 1725, s17: nil, D: map[string]int{"k": 1726}}, s22: nil, A1: map[string]int{"k": 1727}}}}}, y: selp(1728), s33: s33{É: false, C: []int{1730}, S27: S27{x: true, SelIface: SelIface(1732), S24: S24{S21: nil, A: nil}}}, S13: S13{s2: s2{A1: true, x: "v1735<", y: map[string]int{"k": 1736}, S0: S0{}, Foo: 1737.5, S1: nil}, C: selp(1738)}}, S9: &S9{x: "v1739<", S4: &S4{}, D: nil, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v1741<", A1: 0}}, SelInt: 1743}, A1: 1744.5, s33: nil}, s42: s42{}, x: []int{1745}}}},
	{"s47", s47{E: []int{1746}, s44: s44{x: map[string]int{"k": 1747}, s40: s40{S37: &S37{A: map[string]int{"k": 1748}, s3: s3{A: 1749, D: 1750, S1: S1{S0: S0{}, D: "v1751<", A1: 1752}, x: 1753.5, Foo: nil}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1756.5, C: 1757, s17: nil, D: map[string]int{"k": 1758}}, s22: nil, A1: map[string]int{"k": 1759}}}}}, C: nil, s35: s35{C: nil, s34: s34{s33: &s33{É: false, C: nil, S27: S27{x: true, SelIface: SelIface(1765), S24: S24{S21: nil, A: []int{1766}}}}, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 1768, s17: nil, D: map[string]int{"k": 1769}}, s22: nil, A1: map[string]int{"k": 1770}}}}, S32: S32{É: 1771.5, A: "v1772<", A1: []int{1773}}, B: map[string]int{"k": 1774}}, S39: S39{A: []int{1775}, S38: &S38{S37: S37{A: map[string]int{"k": 1776}, s3: s3{A: 1777, D: 1778, S1: S1{S0: S0{}, D: "v1779<", A1: 1780}, x: 1781.5, Foo: 1782}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1784.5, C: 1785, s17: nil, D: map[string]int{"k": 1786}}, s22: nil, A1: map[string]int{"k": 1787}}}}}, y: nil, s33: s33{É: true, C: []int{1790}, S27: S27{x: true, SelIface: SelIface(1792), S24: S24{S21: nil, A: []int{1793}}}}, S13: S13{s2: s2{A1: true, x: "v1795<", y: map[string]int{"k": 1796}, S0: S0{}, Foo: 1797.5, S1: nil}, C: selp(1798)}}, S9: &S9{x: "v1799<", S4: nil, D: map[string]int{"k": 1800}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v1801<", A1: 1802}}, SelInt: 1803}, A1: 1804.5, s33: &s33{É: true, C: []int{1806}, S27: S27{x: true, SelIface: SelIface(1808), S24: S24{S21: nil, A: []int{1809}}}}}, D: ""}, S11: &S11{S8: S8{A: 1811.5, s2: s2{A1: true, x: "v1813<", y: map[string]int{"k": 1814}, S0: S0{}, Foo: 0, S1: nil}, C: 1816.5, E: "v1817<"}, Foo: map[string]int{"k": 1818}, A1: "v1819<"}, S41: S41{É: nil, D: map[string]int{"k": 1821}, S8: S8{A: 1822.5, s2: s2{A1: true, x: "v1824<", y: map[string]int{"k": 1825}, S0: S0{}, Foo: 1826.5, S1: &S1{S0: S0{}, D: "v1827<", A1: 1828}}, C: 1829.5, E: "v1830<"}, y: 1831, S29: S29{Foo: 1832.5}, s40: &s40{S37: &S37{A: map[string]int{"k": 1833}, s3: s3{A: nil, D: nil, S1: S1{S0: S0{}, D: "v1836<", A1: 1837}, x: 1838.5, Foo: 1839}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1841.5, C: 1842, s17: nil, D: map[string]int{"k": 1843}}, s22: nil, A1: map[string]int{"k": 1844}}}}}, C: []int{1845}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1847.5, C: 1848, s17: nil, D: map[string]int{"k": 1849}}, s22: nil, A1: map[string]int{"k": 1850}}}}, S32: S32{É: 1851.5, A: "v1852<", A1: []int{1853}}, B: map[string]int{"k": 1854}}, S39: S39{A: []int{1855}, S38: nil, S9: nil, A1: 1856.5, s33: nil}, D: "v1857<"}}}, s42: s42{}, C: []int{1858}}},
	{"s47", s47{E: []int{1859}, s44: s44{x: map[string]int{"k": 1860}, s40: s40{S37: &S37{A: nil, s3: s3{A: nil, D: nil, S1: S1{S0: S0{}, D: "", A1: 0}, x: 1866.5, Foo: nil}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1869.5, C: 1870, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 1872}}}}}, C: []int{1873}, s35: s35{C: map[string]int{"k": 1874}, s34: s34{s33: &s33{É: true, C: []int{1876}, S27: S27{x: true, SelIface: SelIface(1878), S24: S24{S21: nil, A: []int{1879}}}}, S28: S28{S25: nil, S26: S26{S23: S23{É: 1880.5, C: 1881, s17: nil, D: map[string]int{"k": 1882}}, s22: nil, A1: map[string]int{"k": 1883}}}}, S32: S32{É: 1884.5, A: "v1885<", A1: []int{1886}}, B: nil}, S39: S39{A: nil, S38: &S38{S37: S37{A: map[string]int{"k": 1889}, s3: s3{A: nil, D: nil, S1: S1{S0: S0{}, D: "v1892<", A1: 0}, x: 1894.5, Foo: nil}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1897.5, C: 1898, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 1900}}}}}, y: selp(1901), s33: s33{É: true, C: []int{1903}, S27: S27{x: true, SelIface: SelIface(1905), S24: S24{S21: nil, A: []int{1906}}}}, S13: S13{s2: s2{A1: true, x: "v1908<", y: map[string]int{"k": 1909}, S0: S0{}, Foo: 1910.5, S1: nil}, C: selp(1911)}}, S9: &S9{x: "v1912<", S4: nil, D: nil, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v1914<", A1: 1915}}, SelInt: 1916}, A1: 1917.5, s33: &s33{É: true, C: []int{1919}, S27: S27{x: true, SelIface: SelIface(1921), S24: S24{S21: nil, A: []int{1922}}}}}, D: ""}, S11: &S11{S8: S8{A: 0, s2: s2{A1: true, x: "v1926<", y: map[string]int{"k": 1927}, S0: S0{}, Foo: 1928.5, S1: nil}, C: 0, E: "v1930<"}, Foo: nil, A1: "v1932<"}, S41: S41{É: 1933, D: map[string]int{"k": 1934}, S8: S8{A: 1935.5, s2: s2{A1: true, x: "v1937<", y: map[string]int{"k": 1938}, S0: S0{}, Foo: 0, S1: &S1{S0: S0{}, D: "v1940<", A1: 1941}}, C: 1942.5, E: "v1943<"}, y: 0, S29: S29{Foo: 1945.5}, s40: &s40{S37: nil, C: []int{1946}, s35: s35{C: map[string]int{"k": 1947}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1948.5, C: 0, s17: nil, D: map[string]int{"k": 1950}}, s22: nil, A1: map[string]int{"k": 1951}}}}, S32: S32{É: 1952.5, A: "v1953<", A1: []int{1954}}, B: map[string]int{"k": 1955}}, S39: S39{A: []int{1956}, S38: nil, S9: nil, A1: 1957.5, s33: nil}, D: "v1958<"}}}, s42: s42{}, C: []int{1959}}},
	{"S48", S48{S45: &S45{A: map[string]int{"k": 1960}, É: []int{1961}, D: 1962, S43: S43{D: "v1963<", S39: S39{A: []int{1964}, S38: &S38{S37: S37{A: map[string]int{"k": 1965}, s3: s3{A: 1966, D: 1967, S1: S1{S0: S0{}, D: "v1968<", A1: 0}, x: 1970.5, Foo: 1971}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 1973.5, C: 1974, s17: nil, D: map[string]int{"k": 1975}}, s22: nil, A1: map[string]int{"k": 1976}}}}}, y: selp(1977), s33: s33{É: true, C: []int{1979}, S27: S27{x: true, SelIface: SelIface(1981), S24: S24{S21: nil, A: []int{1982}}}}, S13: S13{s2: s2{A1: true, x: "v1984<", y: nil, S0: S0{}, Foo: 1986.5, S1: nil}, C: selp(1987)}}, S9: &S9{x: "v1988<", S4: nil, D: map[string]int{"k": 1989}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "", A1: 1991}}, SelInt: 1992}, A1: 1993.5, s33: &s33{É: true, C: []int{1995}, S27: S27{x: true, SelIface: SelIface(1997), S24: S24{S21: nil, A: []int{1998}}}}}, s42: s42{}, x: []int{1999}}}, A1: 2000, C: nil}},
	{"S48", S48{S45: &S45{A: nil, É: []int{2003}, D: 2004, S43: S43{D: "", S39: S39{A: []int{2006}, S38: &S38{S37: S37{A: map[string]int{"k": 2007}, s3: s3{A: nil, D: 2009, S1: S1{S0: S0{}, D: "v2010<", A1: 2011}, x: 2012.5, Foo: 2013}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2015.5, C: 2016, s17: nil, D: map[string]int{"k": 2017}}, s22: nil, A1: map[string]int{"k": 2018}}}}}, y: selp(2019), s33: s33{É: false, C: []int{2021}, S27: S27{x: true, SelIface: SelIface(2023), S24: S24{S21: nil, A: nil}}}, S13: S13{s2: s2{A1: true, x: "", y: nil, S0: S0{}, Foo: 2028.5, S1: nil}, C: selp(2029)}}, S9: &S9{x: "v2030<", S4: nil, D: nil, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v2032<", A1: 2033}}, SelInt: 2034}, A1: 2035.5, s33: &s33{É: false, C: []int{2037}, S27: S27{x: true, SelIface: SelIface(2039), S24: S24{S21: nil, A: []int{2040}}}}}, s42: s42{}, x: []int{2041}}}, A1: 2042, C: nil}},
	{"S50", S50{S48: &S48{S45: nil, A1: 2044, C: nil}, S12: S12{S1: &S1{S0: S0{}, D: "v2046<", A1: 2047}, selFunc: nil, S4: S4{}, B: []int{2049}, É: "v2050<"}}},
	{"S50", S50{S48: &S48{S45: &S45{A: nil, É: []int{2052}, D: 2053, S43: S43{D: "v2054<", S39: S39{A: nil, S38: nil, S9: nil, A1: 2056.5, s33: nil}, s42: s42{}, x: []int{2057}}}, A1: 2058, C: []int{2059}}, S12: S12{S1: &S1{S0: S0{}, D: "", A1: 2061}, selFunc: nil, S4: S4{}, B: []int{2063}, É: ""}}},
	{"s52", s52{s36: nil, y: 0, Foo: map[string]int{"k": 2066}, s46: &s46{D: 0, É: "v2068<", S41: S41{É: 2069, D: map[string]int{"k": 2070}, S8: S8{A: 2071.5, s2: s2{A1: true, x: "v2073<", y: map[string]int{"k": 2074}, S0: S0{}, Foo: 2075.5, S1: nil}, C: 2076.5, E: ""}, y: 2078, S29: S29{Foo: 2079.5}, s40: nil}, E: nil, s44: s44{x: map[string]int{"k": 2081}, s40: s40{S37: &S37{A: map[string]int{"k": 2082}, s3: s3{A: 2083, D: nil, S1: S1{S0: S0{}, D: "v2085<", A1: 0}, x: 0, Foo: 2088}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2090.5, C: 2091, s17: nil, D: map[string]int{"k": 2092}}, s22: nil, A1: map[string]int{"k": 2093}}}}}, C: []int{2094}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2096.5, C: 0, s17: nil, D: map[string]int{"k": 2098}}, s22: nil, A1: map[string]int{"k": 2099}}}}, S32: S32{É: 2100.5, A: "v2101<", A1: []int{2102}}, B: map[string]int{"k": 2103}}, S39: S39{A: []int{2104}, S38: nil, S9: nil, A1: 2105.5, s33: nil}, D: "v2106<"}, S11: &S11{S8: S8{A: 2107.5, s2: s2{A1: false, x: "", y: nil, S0: S0{}, Foo: 2111.5, S1: nil}, C: 2112.5, E: "v2113<"}, Foo: map[string]int{"k": 2114}, A1: "v2115<"}, S41: S41{É: 2116, D: nil, S8: S8{A: 2118.5, s2: s2{A1: false, x: "v2120<", y: map[string]int{"k": 2121}, S0: S0{}, Foo: 2122.5, S1: nil}, C: 0, E: "v2124<"}, y: 2125, S29: S29{Foo: 2126.5}, s40: &s40{S37: nil, C: []int{2127}, s35: s35{C: map[string]int{"k": 2128}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2129.5, C: 2130, s17: nil, D: map[string]int{"k": 2131}}, s22: nil, A1: map[string]int{"k": 2132}}}}, S32: S32{É: 2133.5, A: "v2134<", A1: nil}, B: map[string]int{"k": 2136}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 2138.5, s33: nil}, D: ""}}}}}},
	{"s52", s52{s36: &s36{}, y: 2140.5, Foo: nil, s46: &s46{D: 2142, É: "v2143<", S41: S41{É: 2144, D: map[string]int{"k": 2145}, S8: S8{A: 0, s2: s2{A1: true, x: "v2148<", y: map[string]int{"k": 2149}, S0: S0{}, Foo: 0, S1: nil}, C: 2151.5, E: ""}, y: 0, S29: S29{Foo: 0}, s40: &s40{S37: nil, C: []int{2155}, s35: s35{C: map[string]int{"k": 2156}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 2158, s17: nil, D: map[string]int{"k": 2159}}, s22: nil, A1: map[string]int{"k": 2160}}}}, S32: S32{É: 2161.5, A: "v2162<", A1: []int{2163}}, B: map[string]int{"k": 2164}}, S39: S39{A: []int{2165}, S38: nil, S9: nil, A1: 2166.5, s33: nil}, D: "v2167<"}}, E: nil, s44: s44{x: map[string]int{"k": 2169}, s40: s40{S37: &S37{A: map[string]int{"k": 2170}, s3: s3{A: 2171, D: 2172, S1: S1{S0: S0{}, D: "v2173<", A1: 0}, x: 0, Foo: 2176}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2178.5, C: 2179, s17: nil, D: map[string]int{"k": 2180}}, s22: nil, A1: map[string]int{"k": 2181}}}}}, C: []int{2182}, s35: s35{C: map[string]int{"k": 2183}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2184.5, C: 2185, s17: nil, D: map[string]int{"k": 2186}}, s22: nil, A1: map[string]int{"k": 2187}}}}, S32: S32{É: 0, A: "v2189<", A1: []int{2190}}, B: map[string]int{"k": 2191}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 2193.5, s33: nil}, D: "v2194<"}, S11: &S11{S8: S8{A: 2195.5, s2: s2{A1: true, x: "v2197<", y: map[string]int{"k": 2198}, S0: S0{}, Foo: 2199.5, S1: nil}, C: 2200.5, E: "v2201<"}, Foo: map[string]int{"k": 2202}, A1: "v2203<"}, S41: S41{É: 2204, D: map[string]int{"k": 2205}, S8: S8{A: 2206.5, s2: s2{A1: false, x: "v2208<", y: map[string]int{"k": 2209}, S0: S0{}, Foo: 2210.5, S1: nil}, C: 0, E: ""}, y: 2213, S29: S29{Foo: 2214.5}, s40: &s40{S37: nil, C: []int{2215}, s35: s35{C: map[string]int{"k": 2216}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2217.5, C: 0, s17: nil, D: map[string]int{"k": 2219}}, s22: nil, A1: map[string]int{"k": 2220}}}}, S32: S32{É: 2221.5, A: "v2222<", A1: []int{2223}}, B: nil}, S39: S39{A: nil, S38: nil, S9: nil, A1: 2226.5, s33: nil}, D: "v2227<"}}}}}},
	{"s53", s53{Foo: 2228, S48: S48{S45: &S45{A: map[string]int{"k": 2229}, É: nil, D: 2231, S43: S43{D: "v2232<", S39: S39{A: nil, S38: nil, S9: nil, A1: 2234.5, s33: nil}, s42: s42{}, x: []int{2235}}}, A1: 2236, C: []int{2237}}, D: []int{2238}}},
	{"s53", s53{Foo: 2239, S48: S48{S45: &S45{A: map[string]int{"k": 2240}, É: []int{2241}, D: 2242, S43: S43{D: "v2243<", S39: S39{A: []int{2244}, S38: nil, S9: nil, A1: 2245.5, s33: nil}, s42: s42{}, x: []int{2246}}}, A1: 2247, C: []int{2248}}, D: []int{2249}}},
	{"s55", s55{S50: &S50{S48: &S48{S45: &S45{A: map[string]int{"k": 2250}, É: []int{2251}, D: 2252, S43: S43{D: "v2253<", S39: S39{A: nil, S38: nil, S9: nil, A1: 2255.5, s33: nil}, s42: s42{}, x: []int{2256}}}, A1: 2257, C: []int{2258}}, S12: S12{S1: &S1{S0: S0{}, D: "", A1: 2260}, selFunc: nil, S4: S4{}, B: []int{2262}, É: "v2263<"}}, s2: &s2{A1: true, x: "v2265<", y: nil, S0: S0{}, Foo: 2267.5, S1: &S1{S0: S0{}, D: "v2268<", A1: 0}}}},
	{"s55", s55{S50: &S50{S48: &S48{S45: &S45{A: map[string]int{"k": 2270}, É: nil, D: 2272, S43: S43{D: "v2273<", S39: S39{A: []int{2274}, S38: nil, S9: nil, A1: 2275.5, s33: nil}, s42: s42{}, x: []int{2276}}}, A1: 2277, C: []int{2278}}, S12: S12{S1: &S1{S0: S0{}, D: "v2279<", A1: 2280}, selFunc: nil, S4: S4{}, B: []int{2282}, É: "v2283<"}}, s2: &s2{A1: false, x: "v2285<", y: map[string]int{"k": 2286}, S0: S0{}, Foo: 2287.5, S1: &S1{S0: S0{}, D: "", A1: 2289}}}},
	{"S56", S56{y: []int{2290}, s53: s53{Foo: 0, S48: S48{S45: &S45{A: map[string]int{"k": 2292}, É: []int{2293}, D: nil, S43: S43{D: "v2295<", S39: S39{A: []int{2296}, S38: nil, S9: nil, A1: 0, s33: nil}, s42: s42{}, x: []int{2298}}}, A1: nil, C: []int{2300}}, D: []int{2301}}, s55: s55{S50: &S50{S48: &S48{S45: nil, A1: 2302, C: []int{2303}}, S12: S12{S1: &S1{S0: S0{}, D: "", A1: 2305}, selFunc: nil, S4: S4{}, B: []int{2307}, É: "v2308<"}}, s2: &s2{A1: true, x: "v2310<", y: map[string]int{"k": 2311}, S0: S0{}, Foo: 2312.5, S1: &S1{S0: S0{}, D: "v2313<", A1: 2314}}}}},
	{"S56", S56{y: []int{2315}, s53: s53{Foo: 2316, S48: S48{S45: &S45{A: map[string]int{"k": 2317}, É: []int{2318}, D: 2319, S43: S43{D: "v2320<", S39: S39{A: []int{2321}, S38: nil, S9: nil, A1: 2322.5, s33: nil}, s42: s42{}, x: nil}}, A1: 2324, C: []int{2325}}, D: []int{2326}}, s55: s55{S50: &S50{S48: &S48{S45: nil, A1: 2327, C: nil}, S12: S12{S1: &S1{S0: S0{}, D: "v2329<", A1: 2330}, selFunc: nil, S4: S4{}, B: []int{2332}, É: "v2333<"}}, s2: &s2{A1: true, x: "v2335<", y: map[string]int{"k": 2336}, S0: S0{}, Foo: 2337.5, S1: &S1{S0: S0{}, D: "v2338<", A1: 2339}}}}},
	{"S60", S60{}},
	{"S60", S60{}},
	{"S61", S61{D: true, SelSlice: SelSlice{"x"}}},
	{"S61", S61{D: true, SelSlice: SelSlice{"x"}}},
	{"S62", S62{C: "v2344<"}},
	{"S62", S62{C: "v2345<"}},
	{"s64", s64{Foo: 2346, E: selp(2347)}},
	{"s64", s64{Foo: 2348, E: selp(2349)}},
	{"s65", s65{s40: s40{S37: &S37{A: map[string]int{"k": 2350}, s3: s3{A: 2351, D: 2352, S1: S1{S0: S0{}, D: "v2353<", A1: 2354}, x: 2355.5, Foo: 2356}, B: true, s34: s34{s33: &s33{É: true, C: []int{2359}, S27: S27{x: true, SelIface: SelIface(2361), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: nil, S26: S26{S23: S23{É: 2363.5, C: 2364, s17: nil, D: map[string]int{"k": 2365}}, s22: nil, A1: map[string]int{"k": 2366}}}}}, C: []int{2367}, s35: s35{C: map[string]int{"k": 2368}, s34: s34{s33: &s33{É: false, C: []int{2370}, S27: S27{x: false, SelIface: SelIface(2372), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: &S25{x: 2374, S1: S1{S0: S0{}, D: "v2375<", A1: 2376}, B: selp(2377), C: 2378.5, E: ""}, S26: S26{S23: S23{É: 2380.5, C: 2381, s17: nil, D: map[string]int{"k": 2382}}, s22: nil, A1: map[string]int{"k": 2383}}}}, S32: S32{É: 2384.5, A: "", A1: []int{2386}}, B: map[string]int{"k": 2387}}, S39: S39{A: []int{2388}, S38: &S38{S37: S37{A: map[string]int{"k": 2389}, s3: s3{A: 2390, D: 2391, S1: S1{S0: S0{}, D: "v2392<", A1: 0}, x: 2394.5, Foo: 2395}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2397.5, C: 2398, s17: nil, D: map[string]int{"k": 2399}}, s22: nil, A1: map[string]int{"k": 2400}}}}}, y: selp(2401), s33: s33{É: false, C: []int{2403}, S27: S27{x: true, SelIface: SelIface(2405), S24: S24{S21: nil, A: nil}}}, S13: S13{s2: s2{A1: true, x: "v2408<", y: map[string]int{"k": 2409}, S0: S0{}, Foo: 0, S1: nil}, C: nil}}, S9: &S9{x: "v2412<", S4: &S4{}, D: map[string]int{"k": 2413}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v2414<", A1: 2415}}, SelInt: 2416}, A1: 0, s33: &s33{É: true, C: []int{2419}, S27: S27{x: false, SelIface: SelIface(2421), S24: S24{S21: nil, A: []int{2422}}}}}, D: "v2423<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 2426}}},
	{"s65", s65{s40: s40{S37: &S37{A: map[string]int{"k": 2427}, s3: s3{A: 2428, D: 2429, S1: S1{S0: S0{}, D: "v2430<", A1: 2431}, x: 2432.5, Foo: 2433}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 2437}}, s22: nil, A1: map[string]int{"k": 2438}}}}}, C: []int{2439}, s35: s35{C: nil, s34: s34{s33: &s33{É: false, C: []int{2442}, S27: S27{x: true, SelIface: SelIface(2444), S24: S24{S21: nil, A: []int{2445}}}}, S28: S28{S25: &S25{x: 2446, S1: S1{S0: S0{}, D: "", A1: 2448}, B: nil, C: 0, E: "v2451<"}, S26: S26{S23: S23{É: 2452.5, C: 2453, s17: nil, D: map[string]int{"k": 2454}}, s22: nil, A1: map[string]int{"k": 2455}}}}, S32: S32{É: 2456.5, A: "v2457<", A1: []int{2458}}, B: map[string]int{"k": 2459}}, S39: S39{A: []int{2460}, S38: &S38{S37: S37{A: map[string]int{"k": 2461}, s3: s3{A: 2462, D: 2463, S1: S1{S0: S0{}, D: "v2464<", A1: 2465}, x: 2466.5, Foo: 2467}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2469.5, C: 2470, s17: nil, D: map[string]int{"k": 2471}}, s22: nil, A1: nil}}}}, y: selp(2473), s33: s33{É: false, C: []int{2475}, S27: S27{x: true, SelIface: SelIface(2477), S24: S24{S21: nil, A: []int{2478}}}}, S13: S13{s2: s2{A1: true, x: "v2480<", y: map[string]int{"k": 2481}, S0: S0{}, Foo: 2482.5, S1: nil}, C: selp(2483)}}, S9: &S9{x: "v2484<", S4: &S4{}, D: map[string]int{"k": 2485}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v2486<", A1: 2487}}, SelInt: 2488}, A1: 2489.5, s33: &s33{É: false, C: nil, S27: S27{x: true, SelIface: SelIface(2493), S24: S24{S21: nil, A: nil}}}}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 2498}}},
	{"s66", s66{s64: &s64{Foo: 2499, E: selp(2500)}, S62: &S62{C: "v2501<"}, x: 2502.5, A: []int{2503}}},
	{"s66", s66{s64: &s64{Foo: 2504, E: selp(2505)}, S62: &S62{C: "v2506<"}, x: 2507.5, A: []int{2508}}},
	{"S68", S68{S67: &S67{D: "v2509<", s63: &s63{E: []int{2510}, s59: s59{A: 2511, S39: nil, S57: S57{É: map[string]int{"k": 2512}, C: 2513, E: []int{2514}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 2515, C: nil}, A1: selp(2517), S54: nil, Foo: 2518, E: true}, s44: s44{x: map[string]int{"k": 2520}, s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 2522}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2523.5, C: 2524, s17: nil, D: map[string]int{"k": 2525}}, s22: nil, A1: map[string]int{"k": 2526}}}}, S32: S32{É: 0, A: "v2528<", A1: []int{2529}}, B: map[string]int{"k": 2530}}, S39: S39{A: []int{2531}, S38: nil, S9: nil, A1: 2532.5, s33: nil}, D: ""}, S11: nil, S41: S41{É: 2534, D: map[string]int{"k": 2535}, S8: S8{A: 0, s2: s2{A1: true, x: "v2538<", y: map[string]int{"k": 2539}, S0: S0{}, Foo: 2540.5, S1: nil}, C: 2541.5, E: "v2542<"}, y: 2543, S29: S29{Foo: 2544.5}, s40: nil}}, s55: nil}, S4: nil, B: false}, S24: &S24{S21: nil, A: []int{2546}}}, B: []int{2547}, x: 2548, s65: s65{s40: s40{S37: &S37{A: nil, s3: s3{A: 2550, D: 2551, S1: S1{S0: S0{}, D: "v2552<", A1: 2553}, x: 2554.5, Foo: 2555}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2557.5, C: 2558, s17: nil, D: map[string]int{"k": 2559}}, s22: nil, A1: nil}}}}, C: []int{2561}, s35: s35{C: map[string]int{"k": 2562}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 2564, s17: nil, D: map[string]int{"k": 2565}}, s22: nil, A1: map[string]int{"k": 2566}}}}, S32: S32{É: 2567.5, A: "v2568<", A1: []int{2569}}, B: map[string]int{"k": 2570}}, S39: S39{A: []int{2571}, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v2573<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 2576}}, C: selp(2577)}}},
	{"S68", S68{S67: &S67{D: "v2578<", s63: &s63{E: nil, s59: s59{A: 2580, S39: nil, S57: S57{É: nil, C: nil, E: []int{2583}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 2584, C: []int{2585}}, A1: nil, S54: nil, Foo: 2587, E: true}, s44: s44{x: map[string]int{"k": 2589}, s40: s40{S37: nil, C: []int{2590}, s35: s35{C: map[string]int{"k": 2591}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 2593, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 2595}}}}, S32: S32{É: 2596.5, A: "v2597<", A1: []int{2598}}, B: nil}, S39: S39{A: []int{2600}, S38: nil, S9: nil, A1: 2601.5, s33: nil}, D: "v2602<"}, S11: nil, S41: S41{É: 2603, D: map[string]int{"k": 2604}, S8: S8{A: 2605.5, s2: s2{A1: true, x: "v2607<", y: map[string]int{"k": 2608}, S0: S0{}, Foo: 2609.5, S1: nil}, C: 2610.5, E: "v2611<"}, y: 2612, S29: S29{Foo: 0}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{2615}, x: 2616, s65: s65{s40: s40{S37: &S37{A: map[string]int{"k": 2617}, s3: s3{A: nil, D: 2619, S1: S1{S0: S0{}, D: "v2620<", A1: 2621}, x: 2622.5, Foo: 2623}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2625.5, C: 2626, s17: nil, D: map[string]int{"k": 2627}}, s22: nil, A1: map[string]int{"k": 2628}}}}}, C: []int{2629}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2631.5, C: 0, s17: nil, D: map[string]int{"k": 2633}}, s22: nil, A1: nil}}}, S32: S32{É: 2635.5, A: "v2636<", A1: nil}, B: map[string]int{"k": 2638}}, S39: S39{A: []int{2639}, S38: nil, S9: nil, A1: 2640.5, s33: nil}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 2644}}, C: selp(2645)}}},
	{"S69", S69{S68: nil, s65: &s65{s40: s40{S37: &S37{A: map[string]int{"k": 2646}, s3: s3{A: 2647, D: nil, S1: S1{S0: S0{}, D: "v2649<", A1: 2650}, x: 0, Foo: nil}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 2655, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 2657}}}}}, C: []int{2658}, s35: s35{C: map[string]int{"k": 2659}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2660.5, C: 0, s17: nil, D: map[string]int{"k": 2662}}, s22: nil, A1: map[string]int{"k": 2663}}}}, S32: S32{É: 2664.5, A: "v2665<", A1: []int{2666}}, B: nil}, S39: S39{A: []int{2668}, S38: &S38{S37: S37{A: map[string]int{"k": 2669}, s3: s3{A: 2670, D: 2671, S1: S1{S0: S0{}, D: "v2672<", A1: 2673}, x: 2674.5, Foo: 2675}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2677.5, C: 0, s17: nil, D: map[string]int{"k": 2679}}, s22: nil, A1: map[string]int{"k": 2680}}}}}, y: selp(2681), s33: s33{É: false, C: []int{2683}, S27: S27{x: true, SelIface: SelIface(2685), S24: S24{S21: nil, A: []int{2686}}}}, S13: S13{s2: s2{A1: true, x: "v2688<", y: map[string]int{"k": 2689}, S0: S0{}, Foo: 0, S1: nil}, C: selp(2691)}}, S9: &S9{x: "v2692<", S4: nil, D: map[string]int{"k": 2693}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v2694<", A1: 2695}}, SelInt: 2696}, A1: 2697.5, s33: &s33{É: true, C: []int{2699}, S27: S27{x: true, SelIface: SelIface(2701), S24: S24{S21: nil, A: []int{2702}}}}}, D: "v2703<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 2706}}, s66: s66{s64: &s64{Foo: nil, E: selp(2708)}, S62: nil, x: 2709.5, A: []int{2710}}, E: []int{2711}, y: true}},
	{"S69", S69{S68: &S68{S67: &S67{D: "v2713<", s63: &s63{E: []int{2714}, s59: s59{A: 2715, S39: nil, S57: S57{É: map[string]int{"k": 2716}, C: nil, E: nil, S54: S54{S39: nil, S48: S48{S45: nil, A1: 2719, C: []int{2720}}, A1: selp(2721), S54: nil, Foo: 2722, E: true}, s44: s44{x: map[string]int{"k": 2724}, s40: s40{S37: nil, C: []int{2725}, s35: s35{C: map[string]int{"k": 2726}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2727.5, C: 2728, s17: nil, D: map[string]int{"k": 2729}}, s22: nil, A1: map[string]int{"k": 2730}}}}, S32: S32{É: 2731.5, A: "v2732<", A1: nil}, B: map[string]int{"k": 2734}}, S39: S39{A: []int{2735}, S38: nil, S9: nil, A1: 2736.5, s33: nil}, D: "v2737<"}, S11: nil, S41: S41{É: 2738, D: map[string]int{"k": 2739}, S8: S8{A: 2740.5, s2: s2{A1: true, x: "v2742<", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: 2745.5, E: "v2746<"}, y: 2747, S29: S29{Foo: 2748.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{2750}, x: 2751, s65: s65{s40: s40{S37: nil, C: []int{2752}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 2755, s17: nil, D: map[string]int{"k": 2756}}, s22: nil, A1: map[string]int{"k": 2757}}}}, S32: S32{É: 2758.5, A: "v2759<", A1: []int{2760}}, B: nil}, S39: S39{A: nil, S38: nil, S9: nil, A1: 2763.5, s33: nil}, D: "v2764<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 2767}}, C: nil}}, s65: &s65{s40: s40{S37: &S37{A: nil, s3: s3{A: 2770, D: nil, S1: S1{S0: S0{}, D: "v2772<", A1: 2773}, x: 2774.5, Foo: 2775}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2777.5, C: 2778, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 2780}}}}}, C: []int{2781}, s35: s35{C: map[string]int{"k": 2782}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2783.5, C: 2784, s17: nil, D: nil}, s22: nil, A1: nil}}}, S32: S32{É: 2787.5, A: "", A1: nil}, B: map[string]int{"k": 2790}}, S39: S39{A: nil, S38: &S38{S37: S37{A: nil, s3: s3{A: 2793, D: 2794, S1: S1{S0: S0{}, D: "v2795<", A1: 2796}, x: 2797.5, Foo: 2798}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2800.5, C: 2801, s17: nil, D: map[string]int{"k": 2802}}, s22: nil, A1: nil}}}}, y: selp(2804), s33: s33{É: false, C: []int{2806}, S27: S27{x: true, SelIface: SelIface(2808), S24: S24{S21: nil, A: []int{2809}}}}, S13: S13{s2: s2{A1: true, x: "v2811<", y: map[string]int{"k": 2812}, S0: S0{}, Foo: 0, S1: nil}, C: selp(2814)}}, S9: &S9{x: "v2815<", S4: nil, D: map[string]int{"k": 2816}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v2817<", A1: 0}}, SelInt: 2819}, A1: 2820.5, s33: &s33{É: true, C: nil, S27: S27{x: true, SelIface: SelIface(2824), S24: S24{S21: nil, A: []int{2825}}}}}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: nil}, s66: s66{s64: &s64{Foo: 2830, E: selp(2831)}, S62: &S62{C: "v2832<"}, x: 2833.5, A: []int{2834}}, E: []int{2835}, y: true}},
	{"S70", S70{}},
	{"S70", S70{}},
	{"S71", S71{S67: S67{D: "v2837<", s63: nil, B: []int{2838}, x: nil, s65: s65{s40: s40{S37: &S37{A: nil, s3: s3{A: 2841, D: nil, S1: S1{S0: S0{}, D: "v2843<", A1: 2844}, x: 2845.5, Foo: 2846}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2848.5, C: 2849, s17: nil, D: map[string]int{"k": 2850}}, s22: nil, A1: map[string]int{"k": 2851}}}}}, C: []int{2852}, s35: s35{C: map[string]int{"k": 2853}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2854.5, C: 2855, s17: nil, D: map[string]int{"k": 2856}}, s22: nil, A1: map[string]int{"k": 2857}}}}, S32: S32{É: 2858.5, A: "", A1: []int{2860}}, B: map[string]int{"k": 2861}}, S39: S39{A: []int{2862}, S38: &S38{S37: S37{A: map[string]int{"k": 2863}, s3: s3{A: 2864, D: 2865, S1: S1{S0: S0{}, D: "v2866<", A1: 2867}, x: 2868.5, Foo: 2869}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 2872, s17: nil, D: map[string]int{"k": 2873}}, s22: nil, A1: nil}}}}, y: selp(2875), s33: s33{É: true, C: []int{2877}, S27: S27{x: false, SelIface: SelIface(2879), S24: S24{S21: nil, A: []int{2880}}}}, S13: S13{s2: s2{A1: true, x: "v2882<", y: map[string]int{"k": 2883}, S0: S0{}, Foo: 2884.5, S1: nil}, C: selp(2885)}}, S9: &S9{x: "v2886<", S4: nil, D: map[string]int{"k": 2887}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v2888<", A1: 0}}, SelInt: 2890}, A1: 0, s33: &s33{É: false, C: []int{2893}, S27: S27{x: true, SelIface: SelIface(2895), S24: S24{S21: nil, A: nil}}}}, D: "v2897<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 2900}}, C: nil}, x: nil, S24: S24{S21: &S21{s20: &s20{S18: S18{D: nil, x: 2904, C: []int{2905}, S14: S14{D: []int{2906}, É: 2907, x: selp(2908), S11: nil}}, A1: []int{2909}, E: nil, B: map[string]int{"k": 2911}, s19: nil}, D: 2912, A: selp(2913), x: []int{2914}}, A: []int{2915}}, y: 2916.5}},
	{"S71", S71{S67: S67{D: "v2917<", s63: &s63{E: []int{2918}, s59: s59{A: 2919, S39: &S39{A: []int{2920}, S38: nil, S9: nil, A1: 2921.5, s33: nil}, S57: S57{É: nil, C: 2923, E: []int{2924}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 2925, C: []int{2926}}, A1: selp(2927), S54: nil, Foo: 2928, E: true}, s44: s44{x: map[string]int{"k": 2930}, s40: s40{S37: nil, C: []int{2931}, s35: s35{C: map[string]int{"k": 2932}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2933.5, C: 2934, s17: nil, D: map[string]int{"k": 2935}}, s22: nil, A1: map[string]int{"k": 2936}}}}, S32: S32{É: 0, A: "", A1: []int{2939}}, B: map[string]int{"k": 2940}}, S39: S39{A: []int{2941}, S38: nil, S9: nil, A1: 0, s33: nil}, D: ""}, S11: nil, S41: S41{É: 2944, D: map[string]int{"k": 2945}, S8: S8{A: 2946.5, s2: s2{A1: true, x: "v2948<", y: map[string]int{"k": 2949}, S0: S0{}, Foo: 2950.5, S1: nil}, C: 2951.5, E: ""}, y: 2953, S29: S29{Foo: 2954.5}, s40: nil}}, s55: nil}, S4: &S4{}, B: false}, S24: &S24{S21: nil, A: nil}}, B: nil, x: 2958, s65: s65{s40: s40{S37: nil, C: []int{2959}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2961.5, C: 0, s17: nil, D: map[string]int{"k": 2963}}, s22: nil, A1: map[string]int{"k": 2964}}}}, S32: S32{É: 2965.5, A: "v2966<", A1: []int{2967}}, B: map[string]int{"k": 2968}}, S39: S39{A: nil, S38: &S38{S37: S37{A: map[string]int{"k": 2970}, s3: s3{A: 2971, D: 2972, S1: S1{S0: S0{}, D: "v2973<", A1: 2974}, x: 2975.5, Foo: 2976}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 2978.5, C: 2979, s17: nil, D: map[string]int{"k": 2980}}, s22: nil, A1: map[string]int{"k": 2981}}}}}, y: selp(2982), s33: s33{É: true, C: []int{2984}, S27: S27{x: false, SelIface: SelIface(2986), S24: S24{S21: nil, A: []int{2987}}}}, S13: S13{s2: s2{A1: true, x: "v2989<", y: nil, S0: S0{}, Foo: 2991.5, S1: nil}, C: selp(2992)}}, S9: &S9{x: "v2993<", S4: nil, D: map[string]int{"k": 2994}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "", A1: 2996}}, SelInt: 2997}, A1: 2998.5, s33: &s33{É: true, C: []int{3000}, S27: S27{x: true, SelIface: SelIface(3002), S24: S24{S21: nil, A: []int{3003}}}}}, D: "v3004<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3007}}, C: selp(3008)}, x: nil, S24: S24{S21: &S21{s20: &s20{S18: S18{D: []int{3010}, x: 3011, C: []int{3012}, S14: S14{D: []int{3013}, É: 0, x: nil, S11: nil}}, A1: []int{3016}, E: map[string]int{"k": 3017}, B: nil, s19: nil}, D: 3019, A: nil, x: []int{3021}}, A: nil}, y: 3023.5}},
	{"S72", S72{A: map[string]int{"k": 3024}, A1: map[string]int{"k": 3025}, y: nil, Foo: selp(3027), S67: S67{D: "v3028<", s63: nil, B: []int{3029}, x: nil, s65: s65{s40: s40{S37: &S37{A: map[string]int{"k": 3031}, s3: s3{A: 3032, D: 3033, S1: S1{S0: S0{}, D: "v3034<", A1: 0}, x: 3036.5, Foo: 3037}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3039.5, C: 3040, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 3042}}}}}, C: []int{3043}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3045.5, C: 3046, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 3048}}}}, S32: S32{É: 3049.5, A: "v3050<", A1: []int{3051}}, B: map[string]int{"k": 3052}}, S39: S39{A: nil, S38: &S38{S37: S37{A: map[string]int{"k": 3054}, s3: s3{A: 3055, D: 3056, S1: S1{S0: S0{}, D: "v3057<", A1: 3058}, x: 3059.5, Foo: 3060}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 3063, s17: nil, D: map[string]int{"k": 3064}}, s22: nil, A1: map[string]int{"k": 3065}}}}}, y: nil, s33: s33{É: true, C: []int{3068}, S27: S27{x: true, SelIface: SelIface(3070), S24: S24{S21: nil, A: nil}}}, S13: S13{s2: s2{A1: true, x: "v3073<", y: map[string]int{"k": 3074}, S0: S0{}, Foo: 0, S1: nil}, C: nil}}, S9: nil, A1: 3077.5, s33: &s33{É: true, C: []int{3079}, S27: S27{x: true, SelIface: SelIface(3081), S24: S24{S21: nil, A: []int{3082}}}}}, D: "v3083<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3086}}, C: selp(3087)}}},
	{"S72", S72{A: map[string]int{"k": 3088}, A1: map[string]int{"k": 3089}, y: nil, Foo: selp(3091), S67: S67{D: "v3092<", s63: &s63{E: []int{3093}, s59: s59{A: 3094, S39: &S39{A: []int{3095}, S38: nil, S9: nil, A1: 3096.5, s33: nil}, S57: S57{É: map[string]int{"k": 3097}, C: 3098, E: []int{3099}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 3100, C: []int{3101}}, A1: selp(3102), S54: nil, Foo: 3103, E: true}, s44: s44{x: map[string]int{"k": 3105}, s40: s40{S37: nil, C: []int{3106}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 3109, s17: nil, D: map[string]int{"k": 3110}}, s22: nil, A1: map[string]int{"k": 3111}}}}, S32: S32{É: 3112.5, A: "v3113<", A1: []int{3114}}, B: map[string]int{"k": 3115}}, S39: S39{A: []int{3116}, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v3118<"}, S11: nil, S41: S41{É: nil, D: map[string]int{"k": 3120}, S8: S8{A: 3121.5, s2: s2{A1: true, x: "v3123<", y: map[string]int{"k": 3124}, S0: S0{}, Foo: 3125.5, S1: nil}, C: 3126.5, E: "v3127<"}, y: 3128, S29: S29{Foo: 3129.5}, s40: nil}}, s55: nil}, S4: &S4{}, B: true}, S24: &S24{S21: nil, A: []int{3131}}}, B: []int{3132}, x: 3133, s65: s65{s40: s40{S37: &S37{A: map[string]int{"k": 3134}, s3: s3{A: 3135, D: 3136, S1: S1{S0: S0{}, D: "v3137<", A1: 3138}, x: 3139.5, Foo: 3140}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3142.5, C: 0, s17: nil, D: map[string]int{"k": 3144}}, s22: nil, A1: nil}}}}, C: []int{3146}, s35: s35{C: map[string]int{"k": 3147}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 3151}}}}, S32: S32{É: 3152.5, A: "v3153<", A1: []int{3154}}, B: map[string]int{"k": 3155}}, S39: S39{A: []int{3156}, S38: nil, S9: &S9{x: "v3157<", S4: nil, D: nil, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v3159<", A1: 3160}}, SelInt: 3161}, A1: 3162.5, s33: &s33{É: true, C: nil, S27: S27{x: false, SelIface: SelIface(3166), S24: S24{S21: nil, A: []int{3167}}}}}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3171}}, C: nil}}},
	{"S73", S73{S70: &S70{}, S67: &S67{D: "v3173<", s63: &s63{E: []int{3174}, s59: s59{A: 3175, S39: nil, S57: S57{É: nil, C: 3177, E: nil, S54: S54{S39: nil, S48: S48{S45: nil, A1: 3179, C: nil}, A1: selp(3181), S54: nil, Foo: 3182, E: true}, s44: s44{x: map[string]int{"k": 3184}, s40: s40{S37: nil, C: []int{3185}, s35: s35{C: map[string]int{"k": 3186}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3187.5, C: 3188, s17: nil, D: map[string]int{"k": 3189}}, s22: nil, A1: map[string]int{"k": 3190}}}}, S32: S32{É: 3191.5, A: "v3192<", A1: []int{3193}}, B: map[string]int{"k": 3194}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 3196.5, s33: nil}, D: "v3197<"}, S11: nil, S41: S41{É: 3198, D: map[string]int{"k": 3199}, S8: S8{A: 3200.5, s2: s2{A1: true, x: "", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: 3205.5, E: ""}, y: 0, S29: S29{Foo: 3208.5}, s40: nil}}, s55: nil}, S4: nil, B: false}, S24: &S24{S21: nil, A: []int{3210}}}, B: []int{3211}, x: 3212, s65: s65{s40: s40{S37: &S37{A: nil, s3: s3{A: nil, D: nil, S1: S1{S0: S0{}, D: "v3216<", A1: 3217}, x: 0, Foo: 3219}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3221.5, C: 3222, s17: nil, D: map[string]int{"k": 3223}}, s22: nil, A1: nil}}}}, C: nil, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3227.5, C: 3228, s17: nil, D: map[string]int{"k": 3229}}, s22: nil, A1: map[string]int{"k": 3230}}}}, S32: S32{É: 3231.5, A: "v3232<", A1: []int{3233}}, B: map[string]int{"k": 3234}}, S39: S39{A: []int{3235}, S38: nil, S9: nil, A1: 3236.5, s33: nil}, D: "v3237<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3240}}, C: selp(3241)}, y: []int{3242}, É: 3243.5, A: 3244}},
	{"S73", S73{S70: &S70{}, S67: &S67{D: "v3245<", s63: &s63{E: []int{3246}, s59: s59{A: 3247, S39: nil, S57: S57{É: map[string]int{"k": 3248}, C: 3249, E: nil, S54: S54{S39: nil, S48: S48{S45: nil, A1: 3251, C: []int{3252}}, A1: selp(3253), S54: nil, Foo: 3254, E: true}, s44: s44{x: nil, s40: s40{S37: nil, C: []int{3257}, s35: s35{C: map[string]int{"k": 3258}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3259.5, C: 3260, s17: nil, D: map[string]int{"k": 3261}}, s22: nil, A1: map[string]int{"k": 3262}}}}, S32: S32{É: 3263.5, A: "v3264<", A1: []int{3265}}, B: map[string]int{"k": 3266}}, S39: S39{A: []int{3267}, S38: nil, S9: nil, A1: 3268.5, s33: nil}, D: "v3269<"}, S11: nil, S41: S41{É: 3270, D: map[string]int{"k": 3271}, S8: S8{A: 3272.5, s2: s2{A1: true, x: "v3274<", y: map[string]int{"k": 3275}, S0: S0{}, Foo: 3276.5, S1: nil}, C: 0, E: "v3278<"}, y: 3279, S29: S29{Foo: 3280.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: &S24{S21: nil, A: []int{3282}}}, B: []int{3283}, x: 3284, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 3288, s17: nil, D: map[string]int{"k": 3289}}, s22: nil, A1: map[string]int{"k": 3290}}}}, S32: S32{É: 0, A: "v3292<", A1: []int{3293}}, B: map[string]int{"k": 3294}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 3296.5, s33: nil}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3300}}, C: selp(3301)}, y: []int{3302}, É: 3303.5, A: 3304}},
	{"S74", S74{C: 3305.5, E: 3306, S71: &S71{S67: S67{D: "v3307<", s63: &s63{E: []int{3308}, s59: s59{A: 3309, S39: nil, S57: S57{É: nil, C: nil, E: nil, S54: S54{S39: nil, S48: S48{S45: nil, A1: 3313, C: []int{3314}}, A1: selp(3315), S54: nil, Foo: 3316, E: false}, s44: s44{x: map[string]int{"k": 3318}, s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 3320}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3321.5, C: 3322, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 3324}}}}, S32: S32{É: 3325.5, A: "v3326<", A1: nil}, B: nil}, S39: S39{A: []int{3329}, S38: nil, S9: nil, A1: 3330.5, s33: nil}, D: "v3331<"}, S11: nil, S41: S41{É: 3332, D: map[string]int{"k": 3333}, S8: S8{A: 0, s2: s2{A1: true, x: "v3336<", y: map[string]int{"k": 3337}, S0: S0{}, Foo: 3338.5, S1: nil}, C: 3339.5, E: "v3340<"}, y: 3341, S29: S29{Foo: 0}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{3344}, x: 3345, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3348.5, C: 3349, s17: nil, D: map[string]int{"k": 3350}}, s22: nil, A1: map[string]int{"k": 3351}}}}, S32: S32{É: 3352.5, A: "v3353<", A1: []int{3354}}, B: map[string]int{"k": 3355}}, S39: S39{A: []int{3356}, S38: nil, S9: nil, A1: 3357.5, s33: nil}, D: "v3358<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3361}}, C: selp(3362)}, x: nil, S24: S24{S21: &S21{s20: nil, D: 3364, A: selp(3365), x: []int{3366}}, A: nil}, y: 3368.5}}},
	{"S74", S74{C: 3369.5, E: 3370, S71: &S71{S67: S67{D: "v3371<", s63: &s63{E: []int{3372}, s59: s59{A: 3373, S39: nil, S57: S57{É: map[string]int{"k": 3374}, C: 3375, E: []int{3376}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 3377, C: []int{3378}}, A1: selp(3379), S54: nil, Foo: 3380, E: true}, s44: s44{x: nil, s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 3384}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3385.5, C: 3386, s17: nil, D: map[string]int{"k": 3387}}, s22: nil, A1: map[string]int{"k": 3388}}}}, S32: S32{É: 3389.5, A: "v3390<", A1: []int{3391}}, B: map[string]int{"k": 3392}}, S39: S39{A: []int{3393}, S38: nil, S9: nil, A1: 3394.5, s33: nil}, D: "v3395<"}, S11: nil, S41: S41{É: nil, D: map[string]int{"k": 3397}, S8: S8{A: 3398.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 3401}, S0: S0{}, Foo: 3402.5, S1: nil}, C: 3403.5, E: ""}, y: 3405, S29: S29{Foo: 0}, s40: nil}}, s55: nil}, S4: nil, B: false}, S24: nil}, B: []int{3408}, x: 3409, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 3411}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3412.5, C: 3413, s17: nil, D: map[string]int{"k": 3414}}, s22: nil, A1: map[string]int{"k": 3415}}}}, S32: S32{É: 0, A: "v3417<", A1: []int{3418}}, B: map[string]int{"k": 3419}}, S39: S39{A: []int{3420}, S38: nil, S9: nil, A1: 3421.5, s33: nil}, D: "v3422<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3425}}, C: selp(3426)}, x: selp(3427), S24: S24{S21: nil, A: []int{3428}}, y: 3429.5}}},
	{"S75", S75{S74: S74{C: 3430.5, E: 3431, S71: &S71{S67: S67{D: "", s63: &s63{E: nil, s59: s59{A: 0, S39: nil, S57: S57{É: map[string]int{"k": 3435}, C: 3436, E: []int{3437}, S54: S54{S39: nil, S48: S48{S45: nil, A1: nil, C: nil}, A1: selp(3440), S54: nil, Foo: nil, E: false}, s44: s44{x: nil, s40: s40{S37: nil, C: []int{3444}, s35: s35{C: map[string]int{"k": 3445}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3446.5, C: 3447, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 3449}}}}, S32: S32{É: 3450.5, A: "v3451<", A1: []int{3452}}, B: map[string]int{"k": 3453}}, S39: S39{A: []int{3454}, S38: nil, S9: nil, A1: 3455.5, s33: nil}, D: "v3456<"}, S11: nil, S41: S41{É: 3457, D: map[string]int{"k": 3458}, S8: S8{A: 3459.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 3462}, S0: S0{}, Foo: 3463.5, S1: nil}, C: 3464.5, E: "v3465<"}, y: 3466, S29: S29{Foo: 3467.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{3469}, x: 3470, s65: s65{s40: s40{S37: nil, C: []int{3471}, s35: s35{C: map[string]int{"k": 3472}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 3475}}, s22: nil, A1: map[string]int{"k": 3476}}}}, S32: S32{É: 3477.5, A: "", A1: []int{3479}}, B: nil}, S39: S39{A: []int{3481}, S38: nil, S9: nil, A1: 3482.5, s33: nil}, D: "v3483<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3486}}, C: selp(3487)}, x: selp(3488), S24: S24{S21: &S21{s20: nil, D: nil, A: selp(3490), x: []int{3491}}, A: []int{3492}}, y: 3493.5}}, A1: true, Foo: nil, A: 0}},
	{"S75", S75{S74: S74{C: 3497.5, E: 3498, S71: &S71{S67: S67{D: "v3499<", s63: &s63{E: []int{3500}, s59: s59{A: 0, S39: nil, S57: S57{É: map[string]int{"k": 3502}, C: nil, E: nil, S54: S54{S39: nil, S48: S48{S45: nil, A1: 3505, C: []int{3506}}, A1: nil, S54: nil, Foo: 3508, E: true}, s44: s44{x: nil, s40: s40{S37: nil, C: []int{3511}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3513.5, C: 3514, s17: nil, D: map[string]int{"k": 3515}}, s22: nil, A1: map[string]int{"k": 3516}}}}, S32: S32{É: 3517.5, A: "v3518<", A1: []int{3519}}, B: map[string]int{"k": 3520}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 3522.5, s33: nil}, D: "v3523<"}, S11: nil, S41: S41{É: nil, D: map[string]int{"k": 3525}, S8: S8{A: 3526.5, s2: s2{A1: false, x: "", y: map[string]int{"k": 3529}, S0: S0{}, Foo: 3530.5, S1: nil}, C: 3531.5, E: "v3532<"}, y: 3533, S29: S29{Foo: 3534.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{3536}, x: 3537, s65: s65{s40: s40{S37: nil, C: []int{3538}, s35: s35{C: map[string]int{"k": 3539}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3540.5, C: 3541, s17: nil, D: map[string]int{"k": 3542}}, s22: nil, A1: map[string]int{"k": 3543}}}}, S32: S32{É: 3544.5, A: "", A1: []int{3546}}, B: map[string]int{"k": 3547}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 3549.5, s33: nil}, D: "v3550<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3553}}, C: selp(3554)}, x: selp(3555), S24: S24{S21: &S21{s20: nil, D: 3556, A: nil, x: []int{3558}}, A: nil}, y: 0}}, A1: false, Foo: map[string]int{"k": 3562}, A: 3563.5}},
	{"s76", s76{S26: S26{S23: S23{É: 3564.5, C: 3565, s17: &s17{y: 0, E: 3567, x: 3568, S13: S13{s2: s2{A1: true, x: "v3570<", y: nil, S0: S0{}, Foo: 3572.5, S1: nil}, C: selp(3573)}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: nil, É: ""}, S11: S11{S8: S8{A: 3577.5, s2: s2{A1: true, x: "v3579<", y: map[string]int{"k": 3580}, S0: S0{}, Foo: 3581.5, S1: nil}, C: 0, E: "v3583<"}, Foo: nil, A1: "v3585<"}}, D: map[string]int{"k": 3586}}, s22: &s22{B: "v3587<", S21: S21{s20: &s20{S18: S18{D: []int{3588}, x: 3589, C: nil, S14: S14{D: []int{3591}, É: 3592, x: nil, S11: nil}}, A1: []int{3594}, E: map[string]int{"k": 3595}, B: map[string]int{"k": 3596}, s19: nil}, D: 3597, A: nil, x: []int{3599}}, S14: S14{D: []int{3600}, É: 3601, x: selp(3602), S11: nil}, Foo: map[string]int{"k": 3603}}, A1: nil}, A1: true, B: selp(3606)}},
	{"s76", s76{S26: S26{S23: S23{É: 3607.5, C: 3608, s17: &s17{y: 3609, E: 3610, x: 3611, S13: S13{s2: s2{A1: true, x: "v3613<", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{3618}, É: "v3619<"}, S11: S11{S8: S8{A: 3620.5, s2: s2{A1: true, x: "v3622<", y: map[string]int{"k": 3623}, S0: S0{}, Foo: 3624.5, S1: nil}, C: 3625.5, E: "v3626<"}, Foo: nil, A1: "v3628<"}}, D: map[string]int{"k": 3629}}, s22: &s22{B: "", S21: S21{s20: nil, D: 3631, A: selp(3632), x: []int{3633}}, S14: S14{D: []int{3634}, É: 3635, x: selp(3636), S11: &S11{S8: S8{A: 3637.5, s2: s2{A1: false, x: "v3639<", y: map[string]int{"k": 3640}, S0: S0{}, Foo: 3641.5, S1: nil}, C: 3642.5, E: "v3643<"}, Foo: map[string]int{"k": 3644}, A1: "v3645<"}}, Foo: map[string]int{"k": 3646}}, A1: map[string]int{"k": 3647}}, A1: true, B: selp(3649)}},
	{"S77", S77{B: selp(3650), S77: &S77{B: selp(3651), S77: &S77{B: selp(3652), S77: &S77{B: nil, S77: nil, y: 3654.5}, y: 3655.5}, y: 3656.5}, y: 3657.5}},
	{"S77", S77{B: selp(3658), S77: &S77{B: selp(3659), S77: &S77{B: selp(3660), S77: nil, y: 3661.5}, y: 3662.5}, y: 3663.5}},
	{"S78", S78{S72: S72{A: nil, A1: map[string]int{"k": 3665}, y: nil, Foo: selp(3667), S67: S67{D: "", s63: &s63{E: nil, s59: s59{A: 3670, S39: nil, S57: S57{É: map[string]int{"k": 3671}, C: nil, E: []int{3673}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 3674, C: []int{3675}}, A1: nil, S54: nil, Foo: 3677, E: true}, s44: s44{x: map[string]int{"k": 3679}, s40: s40{S37: nil, C: []int{3680}, s35: s35{C: map[string]int{"k": 3681}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3682.5, C: 0, s17: nil, D: map[string]int{"k": 3684}}, s22: nil, A1: map[string]int{"k": 3685}}}}, S32: S32{É: 3686.5, A: "v3687<", A1: []int{3688}}, B: map[string]int{"k": 3689}}, S39: S39{A: []int{3690}, S38: nil, S9: nil, A1: 3691.5, s33: nil}, D: ""}, S11: nil, S41: S41{É: 3693, D: map[string]int{"k": 3694}, S8: S8{A: 3695.5, s2: s2{A1: true, x: "v3697<", y: map[string]int{"k": 3698}, S0: S0{}, Foo: 3699.5, S1: nil}, C: 3700.5, E: "v3701<"}, y: 3702, S29: S29{Foo: 0}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: &S24{S21: nil, A: []int{3705}}}, B: []int{3706}, x: nil, s65: s65{s40: s40{S37: &S37{A: map[string]int{"k": 3708}, s3: s3{A: 3709, D: 3710, S1: S1{S0: S0{}, D: "v3711<", A1: 3712}, x: 0, Foo: nil}, B: false, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 3718}}, s22: nil, A1: map[string]int{"k": 3719}}}}}, C: []int{3720}, s35: s35{C: map[string]int{"k": 3721}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 3723, s17: nil, D: map[string]int{"k": 3724}}, s22: nil, A1: map[string]int{"k": 3725}}}}, S32: S32{É: 3726.5, A: "v3727<", A1: []int{3728}}, B: nil}, S39: S39{A: nil, S38: nil, S9: nil, A1: 3731.5, s33: nil}, D: "v3732<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3735}}, C: nil}}, S75: &S75{S74: S74{C: 0, E: nil, S71: nil}, A1: false, Foo: map[string]int{"k": 3740}, A: 0}}},
	{"S78", S78{S72: S72{A: map[string]int{"k": 3742}, A1: map[string]int{"k": 3743}, y: nil, Foo: selp(3745), S67: S67{D: "v3746<", s63: &s63{E: []int{3747}, s59: s59{A: 3748, S39: nil, S57: S57{É: map[string]int{"k": 3749}, C: 3750, E: []int{3751}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 3752, C: []int{3753}}, A1: nil, S54: nil, Foo: 3755, E: true}, s44: s44{x: nil, s40: s40{S37: nil, C: []int{3758}, s35: s35{C: map[string]int{"k": 3759}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3760.5, C: 3761, s17: nil, D: map[string]int{"k": 3762}}, s22: nil, A1: map[string]int{"k": 3763}}}}, S32: S32{É: 3764.5, A: "v3765<", A1: nil}, B: map[string]int{"k": 3767}}, S39: S39{A: []int{3768}, S38: nil, S9: nil, A1: 3769.5, s33: nil}, D: "v3770<"}, S11: nil, S41: S41{É: 3771, D: nil, S8: S8{A: 3773.5, s2: s2{A1: true, x: "v3775<", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: 3778.5, E: "v3779<"}, y: 3780, S29: S29{Foo: 3781.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: &S24{S21: nil, A: []int{3783}}}, B: []int{3784}, x: nil, s65: s65{s40: s40{S37: &S37{A: map[string]int{"k": 3786}, s3: s3{A: 3787, D: 3788, S1: S1{S0: S0{}, D: "v3789<", A1: 3790}, x: 0, Foo: 3792}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3794.5, C: 0, s17: nil, D: map[string]int{"k": 3796}}, s22: nil, A1: map[string]int{"k": 3797}}}}}, C: []int{3798}, s35: s35{C: map[string]int{"k": 3799}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 3802}}, s22: nil, A1: map[string]int{"k": 3803}}}}, S32: S32{É: 3804.5, A: "v3805<", A1: []int{3806}}, B: map[string]int{"k": 3807}}, S39: S39{A: []int{3808}, S38: nil, S9: nil, A1: 3809.5, s33: nil}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3813}}, C: selp(3814)}}, S75: &S75{S74: S74{C: 3815.5, E: nil, S71: &S71{S67: S67{D: "v3817<", s63: nil, B: []int{3818}, x: 3819, s65: s65{s40: s40{S37: nil, C: []int{3820}, s35: s35{C: map[string]int{"k": 3821}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 3822.5, C: 0, s17: nil, D: nil}, s22: nil, A1: nil}}}, S32: S32{É: 3826.5, A: "v3827<", A1: []int{3828}}, B: map[string]int{"k": 3829}}, S39: S39{A: []int{3830}, S38: nil, S9: nil, A1: 3831.5, s33: nil}, D: "v3832<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 3835}}, C: selp(3836)}, x: selp(3837), S24: S24{S21: nil, A: []int{3838}}, y: 0}}, A1: true, Foo: map[string]int{"k": 3841}, A: 3842.5}}},
	{"s79", s79{A1: 3843.5}},
	{"s79", s79{A1: 3844.5}},
	{"S80", S80{x: 3845.5, D: 0, É: map[string]int{"k": 3847}, s76: s76{S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 3850}}, s22: nil, A1: map[string]int{"k": 3851}}, A1: true, B: selp(3853)}}},
	{"S80", S80{x: 3854.5, D: 3855.5, É: map[string]int{"k": 3856}, s76: s76{S26: S26{S23: S23{É: 3857.5, C: 0, s17: &s17{y: 3859, E: 3860, x: 3861, S13: S13{s2: s2{A1: true, x: "v3863<", y: nil, S0: S0{}, Foo: 3865.5, S1: nil}, C: selp(3866)}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{3868}, É: "v3869<"}, S11: S11{S8: S8{A: 0, s2: s2{A1: true, x: "", y: map[string]int{"k": 3873}, S0: S0{}, Foo: 0, S1: nil}, C: 3875.5, E: "v3876<"}, Foo: nil, A1: "v3878<"}}, D: map[string]int{"k": 3879}}, s22: &s22{B: "v3880<", S21: S21{s20: nil, D: 3881, A: nil, x: []int{3883}}, S14: S14{D: []int{3884}, É: 3885, x: selp(3886), S11: nil}, Foo: map[string]int{"k": 3887}}, A1: map[string]int{"k": 3888}}, A1: true, B: selp(3890)}}},
	{"S81", S81{y: 3891.5, É: "v3892<", s76: &s76{S26: S26{S23: S23{É: 3893.5, C: 3894, s17: &s17{y: 3895, E: 3896, x: nil, S13: S13{s2: s2{A1: true, x: "v3899<", y: map[string]int{"k": 3900}, S0: S0{}, Foo: 3901.5, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{3904}, É: ""}, S11: S11{S8: S8{A: 3906.5, s2: s2{A1: true, x: "v3908<", y: map[string]int{"k": 3909}, S0: S0{}, Foo: 3910.5, S1: nil}, C: 3911.5, E: "v3912<"}, Foo: map[string]int{"k": 3913}, A1: "v3914<"}}, D: map[string]int{"k": 3915}}, s22: nil, A1: map[string]int{"k": 3916}}, A1: false, B: selp(3918)}}},
	{"S81", S81{y: 3919.5, É: "v3920<", s76: &s76{S26: S26{S23: S23{É: 3921.5, C: 3922, s17: &s17{y: 3923, E: 3924, x: 3925, S13: S13{s2: s2{A1: false, x: "v3927<", y: nil, S0: S0{}, Foo: 0, S1: nil}, C: selp(3930)}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{3932}, É: "v3933<"}, S11: S11{S8: S8{A: 3934.5, s2: s2{A1: false, x: "v3936<", y: map[string]int{"k": 3937}, S0: S0{}, Foo: 3938.5, S1: nil}, C: 0, E: "v3940<"}, Foo: map[string]int{"k": 3941}, A1: "v3942<"}}, D: nil}, s22: &s22{B: "v3944<", S21: S21{s20: nil, D: nil, A: selp(3946), x: nil}, S14: S14{D: []int{3948}, É: 3949, x: selp(3950), S11: nil}, Foo: nil}, A1: nil}, A1: false, B: selp(3954)}}},
	{"s82", s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}},
	{"s82", s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}},
	{"s83", s83{É: 3959, A1: 3960, C: nil}},
	{"s83", s83{É: 3962, A1: 3963, C: map[string]int{"k": 3964}}},
	{"S84", S84{Foo: 0, E: "v3966<", B: 3967.5, C: map[string]int{"k": 3968}}},
	{"S84", S84{Foo: 3969, E: "v3970<", B: 3971.5, C: nil}},
	{"s85", s85{C: selp(3973), S81: S81{y: 3974.5, É: "v3975<", s76: &s76{S26: S26{S23: S23{É: 3976.5, C: 3977, s17: nil, D: map[string]int{"k": 3978}}, s22: &s22{B: "v3979<", S21: S21{s20: nil, D: 3980, A: selp(3981), x: []int{3982}}, S14: S14{D: []int{3983}, É: 3984, x: selp(3985), S11: nil}, Foo: map[string]int{"k": 3986}}, A1: map[string]int{"k": 3987}}, A1: true, B: selp(3989)}}}},
	{"s85", s85{C: selp(3990), S81: S81{y: 3991.5, É: "v3992<", s76: &s76{S26: S26{S23: S23{É: 0, C: 3994, s17: nil, D: map[string]int{"k": 3995}}, s22: &s22{B: "v3996<", S21: S21{s20: nil, D: 3997, A: selp(3998), x: []int{3999}}, S14: S14{D: nil, É: 0, x: selp(4002), S11: nil}, Foo: nil}, A1: map[string]int{"k": 4004}}, A1: true, B: selp(4006)}}}},
	{"S86", S86{B: []int{4007}}},
	{"S86", S86{B: nil}},
	{"s87", s87{S84: S84{Foo: 4009, E: "v4010<", B: 4011.5, C: nil}, A1: "v4013<", A: 4014.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}},
	{"s87", s87{S84: S84{Foo: 4017, E: "v4018<", B: 4019.5, C: map[string]int{"k": 4020}}, A1: "v4021<", A: 4022.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}},
	{"s88", s88{B: selp(4025), É: ""}},
	{"s88", s88{B: nil, É: "v4028<"}},
	{"S89", S89{Foo: nil, A1: 4030}},
	{"S89", S89{Foo: selp(4031), A1: 4032}},
	{"S90", S90{S84: S84{Foo: 4033, E: "", B: 0, C: map[string]int{"k": 4036}}, S90: &S90{S84: S84{Foo: 4037, E: "v4038<", B: 4039.5, C: map[string]int{"k": 4040}}, S90: &S90{S84: S84{Foo: 4041, E: "v4042<", B: 0, C: map[string]int{"k": 4044}}, S90: nil, s87: s87{S84: S84{Foo: 4045, E: "v4046<", B: 4047.5, C: map[string]int{"k": 4048}}, A1: "v4049<", A: 0, s82: s82{S61: nil}}}, s87: s87{S84: S84{Foo: 4051, E: "v4052<", B: 4053.5, C: map[string]int{"k": 4054}}, A1: "v4055<", A: 0, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}, s87: s87{S84: S84{Foo: 0, E: "", B: 4061.5, C: map[string]int{"k": 4062}}, A1: "v4063<", A: 4064.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}},
	{"S90", S90{S84: S84{Foo: 4067, E: "v4068<", B: 4069.5, C: nil}, S90: nil, s87: s87{S84: S84{Foo: 0, E: "v4072<", B: 0, C: map[string]int{"k": 4074}}, A1: "v4075<", A: 0, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}},
	{"s91", s91{Foo: true, E: 4080, S89: S89{Foo: selp(4081), A1: 4082}, x: map[string]int{"k": 4083}, s91: &s91{Foo: true, E: 4085, S89: S89{Foo: selp(4086), A1: 4087}, x: map[string]int{"k": 4088}, s91: &s91{Foo: false, E: 0, S89: S89{Foo: selp(4091), A1: nil}, x: nil, s91: &s91{Foo: true, E: 4095, S89: S89{Foo: nil, A1: 4097}, x: map[string]int{"k": 4098}, s91: nil}}}}},
	{"s91", s91{Foo: true, E: 4100, S89: S89{Foo: nil, A1: 4102}, x: map[string]int{"k": 4103}, s91: &s91{Foo: true, E: 4105, S89: S89{Foo: nil, A1: 4107}, x: map[string]int{"k": 4108}, s91: nil}}},
	{"S92", S92{S28: nil, s83: &s83{É: 4109, A1: 4110, C: nil}, s87: &s87{S84: S84{Foo: 4112, E: "", B: 4114.5, C: map[string]int{"k": 4115}}, A1: "v4116<", A: 4117.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}},
	{"S92", S92{S28: &S28{S25: &S25{x: 4120, S1: S1{S0: S0{}, D: "v4121<", A1: 0}, B: selp(4123), C: 0, E: ""}, S26: S26{S23: S23{É: 4126.5, C: 4127, s17: &s17{y: 4128, E: 4129, x: 4130, S13: S13{s2: s2{A1: true, x: "v4132<", y: map[string]int{"k": 4133}, S0: S0{}, Foo: 4134.5, S1: nil}, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{4137}, É: "v4138<"}, S11: S11{S8: S8{A: 4139.5, s2: s2{A1: true, x: "v4141<", y: nil, S0: S0{}, Foo: 4143.5, S1: nil}, C: 0, E: ""}, Foo: map[string]int{"k": 4146}, A1: "v4147<"}}, D: map[string]int{"k": 4148}}, s22: nil, A1: map[string]int{"k": 4149}}}, s83: &s83{É: 0, A1: nil, C: map[string]int{"k": 4152}}, s87: &s87{S84: S84{Foo: 4153, E: "", B: 4155.5, C: map[string]int{"k": 4156}}, A1: "v4157<", A: 4158.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}},
	{"s93", s93{A: 0, Foo: nil, s87: s87{S84: S84{Foo: 4163, E: "v4164<", B: 4165.5, C: nil}, A1: "v4167<", A: 4168.5, s82: s82{S61: nil}}}},
	{"s93", s93{A: 4169, Foo: []int{4170}, s87: s87{S84: S84{Foo: 4171, E: "v4172<", B: 4173.5, C: nil}, A1: "", A: 0, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}},
	{"S94", S94{s91: s91{Foo: true, E: 4180, S89: S89{Foo: selp(4181), A1: nil}, x: map[string]int{"k": 4183}, s91: &s91{Foo: true, E: 4185, S89: S89{Foo: selp(4186), A1: nil}, x: map[string]int{"k": 4188}, s91: &s91{Foo: true, E: 4190, S89: S89{Foo: nil, A1: 4192}, x: map[string]int{"k": 4193}, s91: nil}}}, S90: &S90{S84: S84{Foo: 4194, E: "", B: 0, C: map[string]int{"k": 4197}}, S90: &S90{S84: S84{Foo: 0, E: "v4199<", B: 4200.5, C: map[string]int{"k": 4201}}, S90: &S90{S84: S84{Foo: 4202, E: "", B: 4204.5, C: map[string]int{"k": 4205}}, S90: nil, s87: s87{S84: S84{Foo: 4206, E: "", B: 4208.5, C: map[string]int{"k": 4209}}, A1: "v4210<", A: 0, s82: s82{S61: nil}}}, s87: s87{S84: S84{Foo: 4212, E: "v4213<", B: 0, C: map[string]int{"k": 4215}}, A1: "v4216<", A: 0, s82: s82{S61: nil}}}, s87: s87{S84: S84{Foo: 4218, E: "v4219<", B: 0, C: map[string]int{"k": 4221}}, A1: "v4222<", A: 4223.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}}},
	{"S94", S94{s91: s91{Foo: false, E: 4227, S89: S89{Foo: nil, A1: 4229}, x: nil, s91: &s91{Foo: true, E: 0, S89: S89{Foo: selp(4233), A1: nil}, x: map[string]int{"k": 4235}, s91: nil}}, S90: &S90{S84: S84{Foo: 4236, E: "v4237<", B: 0, C: map[string]int{"k": 4239}}, S90: &S90{S84: S84{Foo: 4240, E: "", B: 4242.5, C: map[string]int{"k": 4243}}, S90: &S90{S84: S84{Foo: 4244, E: "v4245<", B: 4246.5, C: map[string]int{"k": 4247}}, S90: nil, s87: s87{S84: S84{Foo: 4248, E: "", B: 4250.5, C: map[string]int{"k": 4251}}, A1: "v4252<", A: 4253.5, s82: s82{S61: nil}}}, s87: s87{S84: S84{Foo: 0, E: "v4255<", B: 0, C: map[string]int{"k": 4257}}, A1: "v4258<", A: 0, s82: s82{S61: nil}}}, s87: s87{S84: S84{Foo: 0, E: "v4261<", B: 4262.5, C: nil}, A1: "v4264<", A: 4265.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}}},
	{"S95", S95{y: nil, s66: &s66{s64: &s64{Foo: 4269, E: selp(4270)}, S62: &S62{C: "v4271<"}, x: 4272.5, A: []int{4273}}, s93: s93{A: 0, Foo: nil, s87: s87{S84: S84{Foo: 4276, E: "v4277<", B: 4278.5, C: map[string]int{"k": 4279}}, A1: "v4280<", A: 4281.5, s82: s82{S61: &S61{D: false, SelSlice: SelSlice{"x"}}}}}, É: 4284}},
	{"S95", S95{y: map[string]int{"k": 4285}, s66: &s66{s64: &s64{Foo: 4286, E: nil}, S62: &S62{C: "v4288<"}, x: 4289.5, A: nil}, s93: s93{A: 0, Foo: nil, s87: s87{S84: S84{Foo: 4293, E: "v4294<", B: 4295.5, C: map[string]int{"k": 4296}}, A1: "v4297<", A: 4298.5, s82: s82{S61: &S61{D: false, SelSlice: SelSlice{"x"}}}}}, É: nil}},
	{"s96", s96{B: nil, É: map[string]int{"k": 4303}, S80: &S80{x: 4304.5, D: 4305.5, É: map[string]int{"k": 4306}, s76: s76{S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: nil}, s22: &s22{B: "v4310<", S21: S21{s20: nil, D: 4311, A: selp(4312), x: nil}, S14: S14{D: []int{4314}, É: 4315, x: selp(4316), S11: nil}, Foo: map[string]int{"k": 4317}}, A1: map[string]int{"k": 4318}}, A1: false, B: nil}}, S94: &S94{s91: s91{Foo: true, E: 4322, S89: S89{Foo: selp(4323), A1: nil}, x: map[string]int{"k": 4325}, s91: &s91{Foo: true, E: 4327, S89: S89{Foo: selp(4328), A1: 4329}, x: map[string]int{"k": 4330}, s91: nil}}, S90: &S90{S84: S84{Foo: 4331, E: "v4332<", B: 4333.5, C: nil}, S90: &S90{S84: S84{Foo: 0, E: "v4336<", B: 0, C: nil}, S90: nil, s87: s87{S84: S84{Foo: 4339, E: "v4340<", B: 4341.5, C: nil}, A1: "v4343<", A: 4344.5, s82: s82{S61: nil}}}, s87: s87{S84: S84{Foo: 0, E: "v4346<", B: 4347.5, C: map[string]int{"k": 4348}}, A1: "", A: 4350.5, s82: s82{S61: nil}}}}}},
	{"s96", s96{B: selp(4351), É: map[string]int{"k": 4352}, S80: &S80{x: 0, D: 4354.5, É: map[string]int{"k": 4355}, s76: s76{S26: S26{S23: S23{É: 4356.5, C: 4357, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 4359}}, A1: true, B: selp(4361)}}, S94: &S94{s91: s91{Foo: true, E: 4363, S89: S89{Foo: selp(4364), A1: 4365}, x: map[string]int{"k": 4366}, s91: &s91{Foo: true, E: 0, S89: S89{Foo: nil, A1: 4370}, x: map[string]int{"k": 4371}, s91: nil}}, S90: &S90{S84: S84{Foo: 4372, E: "", B: 0, C: map[string]int{"k": 4375}}, S90: &S90{S84: S84{Foo: 4376, E: "v4377<", B: 4378.5, C: nil}, S90: nil, s87: s87{S84: S84{Foo: 4380, E: "v4381<", B: 4382.5, C: map[string]int{"k": 4383}}, A1: "v4384<", A: 4385.5, s82: s82{S61: nil}}}, s87: s87{S84: S84{Foo: 4386, E: "v4387<", B: 4388.5, C: map[string]int{"k": 4389}}, A1: "", A: 4391.5, s82: s82{S61: nil}}}}}},
	{"s98", s98{S95: S95{y: map[string]int{"k": 4392}, s66: &s66{s64: &s64{Foo: 4393, E: selp(4394)}, S62: &S62{C: "v4395<"}, x: 4396.5, A: []int{4397}}, s93: s93{A: 4398, Foo: []int{4399}, s87: s87{S84: S84{Foo: 4400, E: "v4401<", B: 4402.5, C: map[string]int{"k": 4403}}, A1: "v4404<", A: 4405.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}, É: 4408}, D: 4409.5}},
	{"s98", s98{S95: S95{y: map[string]int{"k": 4410}, s66: nil, s93: s93{A: 0, Foo: []int{4412}, s87: s87{S84: S84{Foo: 0, E: "v4414<", B: 4415.5, C: nil}, A1: "v4417<", A: 4418.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}, É: 4421}, D: 0}},
	{"s99", s99{E: map[string]int{"k": 4423}}},
	{"s99", s99{E: nil}},
	{"S100", S100{A1: selp(4425), y: 4426, s58: s58{S31: S31{É: "v4427<", S29: S29{Foo: 4428.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 4430, S1: S1{S0: S0{}, D: "v4431<", A1: 4432}, B: nil, C: 4434.5, E: "v4435<"}}, D: 4436, B: false, s55: s55{S50: &S50{S48: &S48{S45: nil, A1: nil, C: []int{4439}}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{4441}, É: "v4442<"}}, s2: &s2{A1: true, x: "v4444<", y: map[string]int{"k": 4445}, S0: S0{}, Foo: 4446.5, S1: &S1{S0: S0{}, D: "v4447<", A1: 4448}}}, E: 4449.5, S54: &S54{S39: nil, S48: S48{S45: &S45{A: map[string]int{"k": 4450}, É: []int{4451}, D: 4452, S43: S43{D: "v4453<", S39: S39{A: []int{4454}, S38: nil, S9: nil, A1: 4455.5, s33: nil}, s42: s42{}, x: nil}}, A1: 4457, C: []int{4458}}, A1: selp(4459), S54: &S54{S39: nil, S48: S48{S45: nil, A1: 4460, C: []int{4461}}, A1: selp(4462), S54: nil, Foo: 4463, E: true}, Foo: 4465, E: true}}}},
	{"S100", S100{A1: selp(4467), y: 4468, s58: s58{S31: S31{É: "v4469<", S29: S29{Foo: 0}, SelSlice: SelSlice{"x"}, S25: S25{x: 4472, S1: S1{S0: S0{}, D: "v4473<", A1: 4474}, B: selp(4475), C: 4476.5, E: "v4477<"}}, D: 4478, B: true, s55: s55{S50: &S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{4481}, É: ""}}, s2: &s2{A1: true, x: "v4484<", y: map[string]int{"k": 4485}, S0: S0{}, Foo: 4486.5, S1: &S1{S0: S0{}, D: "v4487<", A1: 0}}}, E: 4489.5, S54: &S54{S39: &S39{A: []int{4490}, S38: nil, S9: nil, A1: 4491.5, s33: nil}, S48: S48{S45: &S45{A: map[string]int{"k": 4492}, É: nil, D: 4494, S43: S43{D: "v4495<", S39: S39{A: []int{4496}, S38: nil, S9: nil, A1: 0, s33: nil}, s42: s42{}, x: []int{4498}}}, A1: 4499, C: []int{4500}}, A1: selp(4501), S54: &S54{S39: nil, S48: S48{S45: nil, A1: 4502, C: nil}, A1: selp(4504), S54: nil, Foo: 4505, E: true}, Foo: 4507, E: true}}}},
	{"s101", s101{s98: &s98{S95: S95{y: nil, s66: &s66{s64: nil, S62: nil, x: 4510.5, A: nil}, s93: s93{A: 4512, Foo: []int{4513}, s87: s87{S84: S84{Foo: 4514, E: "v4515<", B: 0, C: nil}, A1: "", A: 4519.5, s82: s82{S61: nil}}}, É: 4520}, D: 4521.5}}},
	{"s101", s101{s98: nil}},
	{"S102", S102{É: 4522.5, A1: []int{4523}, S8: S8{A: 4524.5, s2: s2{A1: true, x: "v4526<", y: map[string]int{"k": 4527}, S0: S0{}, Foo: 4528.5, S1: &S1{S0: S0{}, D: "v4529<", A1: 4530}}, C: 4531.5, E: "v4532<"}, A: map[string]int{"k": 4533}}},
	{"S102", S102{É: 0, A1: []int{4535}, S8: S8{A: 4536.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 4539}, S0: S0{}, Foo: 0, S1: nil}, C: 4541.5, E: ""}, A: map[string]int{"k": 4543}}},
	{"S103", S103{D: 4544.5, A1: 4545, SelInt: 4546, S71: S71{S67: S67{D: "v4547<", s63: &s63{E: []int{4548}, s59: s59{A: 4549, S39: nil, S57: S57{É: nil, C: 4551, E: []int{4552}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 4553, C: nil}, A1: selp(4555), S54: nil, Foo: 4556, E: false}, s44: s44{x: map[string]int{"k": 4558}, s40: s40{S37: nil, C: []int{4559}, s35: s35{C: map[string]int{"k": 4560}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 4561.5, C: 4562, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 4564}}}}, S32: S32{É: 4565.5, A: "v4566<", A1: []int{4567}}, B: map[string]int{"k": 4568}}, S39: S39{A: []int{4569}, S38: nil, S9: nil, A1: 4570.5, s33: nil}, D: "v4571<"}, S11: nil, S41: S41{É: 4572, D: map[string]int{"k": 4573}, S8: S8{A: 4574.5, s2: s2{A1: false, x: "v4576<", y: nil, S0: S0{}, Foo: 4578.5, S1: nil}, C: 4579.5, E: "v4580<"}, y: 4581, S29: S29{Foo: 4582.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: &S24{S21: nil, A: []int{4584}}}, B: []int{4585}, x: nil, s65: s65{s40: s40{S37: &S37{A: map[string]int{"k": 4587}, s3: s3{A: 4588, D: 4589, S1: S1{S0: S0{}, D: "", A1: 0}, x: 4592.5, Foo: nil}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 4595.5, C: 4596, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 4598}}}}}, C: []int{4599}, s35: s35{C: map[string]int{"k": 4600}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 4601.5, C: 4602, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 4604}}}}, S32: S32{É: 4605.5, A: "v4606<", A1: []int{4607}}, B: map[string]int{"k": 4608}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 4610.5, s33: nil}, D: "v4611<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 4614}}, C: selp(4615)}, x: selp(4616), S24: S24{S21: &S21{s20: &s20{S18: S18{D: []int{4617}, x: 4618, C: []int{4619}, S14: S14{D: []int{4620}, É: 0, x: nil, S11: nil}}, A1: []int{4623}, E: map[string]int{"k": 4624}, B: map[string]int{"k": 4625}, s19: nil}, D: 4626, A: selp(4627), x: []int{4628}}, A: []int{4629}}, y: 0}}},
	{"S103", S103{D: 4631.5, A1: 4632, SelInt: 4633, S71: S71{S67: S67{D: "v4634<", s63: &s63{E: []int{4635}, s59: s59{A: 4636, S39: nil, S57: S57{É: map[string]int{"k": 4637}, C: 4638, E: []int{4639}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 4640, C: []int{4641}}, A1: selp(4642), S54: nil, Foo: 4643, E: true}, s44: s44{x: map[string]int{"k": 4645}, s40: s40{S37: nil, C: []int{4646}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 4649, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 4651}}}}, S32: S32{É: 4652.5, A: "v4653<", A1: []int{4654}}, B: map[string]int{"k": 4655}}, S39: S39{A: []int{4656}, S38: nil, S9: nil, A1: 4657.5, s33: nil}, D: "v4658<"}, S11: nil, S41: S41{É: 4659, D: map[string]int{"k": 4660}, S8: S8{A: 4661.5, s2: s2{A1: false, x: "v4663<", y: map[string]int{"k": 4664}, S0: S0{}, Foo: 4665.5, S1: nil}, C: 4666.5, E: "v4667<"}, y: 4668, S29: S29{Foo: 4669.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: &S24{S21: nil, A: []int{4671}}}, B: []int{4672}, x: 4673, s65: s65{s40: s40{S37: &S37{A: map[string]int{"k": 4674}, s3: s3{A: nil, D: 4676, S1: S1{S0: S0{}, D: "v4677<", A1: 0}, x: 4679.5, Foo: 4680}, B: true, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 4682.5, C: 4683, s17: nil, D: map[string]int{"k": 4684}}, s22: nil, A1: map[string]int{"k": 4685}}}}}, C: []int{4686}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 4689, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 4691}}}}, S32: S32{É: 4692.5, A: "v4693<", A1: []int{4694}}, B: map[string]int{"k": 4695}}, S39: S39{A: []int{4696}, S38: nil, S9: nil, A1: 4697.5, s33: nil}, D: "v4698<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 4701}}, C: selp(4702)}, x: nil, S24: S24{S21: &S21{s20: &s20{S18: S18{D: []int{4704}, x: 0, C: []int{4706}, S14: S14{D: []int{4707}, É: 4708, x: selp(4709), S11: nil}}, A1: []int{4710}, E: map[string]int{"k": 4711}, B: map[string]int{"k": 4712}, s19: nil}, D: 4713, A: selp(4714), x: nil}, A: []int{4716}}, y: 4717.5}}},
	{"s104", s104{S100: S100{A1: selp(4718), y: 4719, s58: s58{S31: S31{É: "v4720<", S29: S29{Foo: 4721.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 4723, S1: S1{S0: S0{}, D: "v4724<", A1: 4725}, B: selp(4726), C: 4727.5, E: "v4728<"}}, D: 0, B: true, s55: s55{S50: &S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: nil, É: "v4733<"}}, s2: &s2{A1: true, x: "v4735<", y: map[string]int{"k": 4736}, S0: S0{}, Foo: 4737.5, S1: nil}}, E: 4738.5, S54: &S54{S39: &S39{A: []int{4739}, S38: nil, S9: nil, A1: 4740.5, s33: nil}, S48: S48{S45: nil, A1: 4741, C: []int{4742}}, A1: selp(4743), S54: &S54{S39: nil, S48: S48{S45: nil, A1: 4744, C: []int{4745}}, A1: selp(4746), S54: nil, Foo: 4747, E: true}, Foo: 4749, E: true}}}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v4751<", A1: 4752}}, y: 4753, S103: S103{D: 4754.5, A1: 4755, SelInt: 4756, S71: S71{S67: S67{D: "v4757<", s63: &s63{E: nil, s59: s59{A: 4759, S39: nil, S57: S57{É: map[string]int{"k": 4760}, C: 4761, E: nil, S54: S54{S39: nil, S48: S48{S45: nil, A1: nil, C: []int{4764}}, A1: selp(4765), S54: nil, Foo: nil, E: true}, s44: s44{x: map[string]int{"k": 4768}, s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 4770}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 4771.5, C: 4772, s17: nil, D: nil}, s22: nil, A1: nil}}}, S32: S32{É: 4775.5, A: "", A1: nil}, B: map[string]int{"k": 4778}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 0, s33: nil}, D: ""}, S11: nil, S41: S41{É: 4782, D: map[string]int{"k": 4783}, S8: S8{A: 0, s2: s2{A1: true, x: "v4786<", y: nil, S0: S0{}, Foo: 4788.5, S1: nil}, C: 4789.5, E: ""}, y: 4791, S29: S29{Foo: 0}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{4794}, x: 4795, s65: s65{s40: s40{S37: nil, C: []int{4796}, s35: s35{C: map[string]int{"k": 4797}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 4798.5, C: 4799, s17: nil, D: map[string]int{"k": 4800}}, s22: nil, A1: nil}}}, S32: S32{É: 4802.5, A: "v4803<", A1: []int{4804}}, B: map[string]int{"k": 4805}}, S39: S39{A: []int{4806}, S38: nil, S9: nil, A1: 4807.5, s33: nil}, D: "v4808<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 4811}}, C: selp(4812)}, x: selp(4813), S24: S24{S21: &S21{s20: nil, D: 4814, A: nil, x: []int{4816}}, A: nil}, y: 4818.5}}, x: nil}},
	{"s104", s104{S100: S100{A1: selp(4820), y: 4821, s58: s58{S31: S31{É: "v4822<", S29: S29{Foo: 4823.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 4825, S1: S1{S0: S0{}, D: "v4826<", A1: 4827}, B: selp(4828), C: 4829.5, E: "v4830<"}}, D: 4831, B: true, s55: s55{S50: &S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{4834}, É: "v4835<"}}, s2: &s2{A1: false, x: "v4837<", y: nil, S0: S0{}, Foo: 4839.5, S1: nil}}, E: 4840.5, S54: &S54{S39: &S39{A: []int{4841}, S38: nil, S9: nil, A1: 4842.5, s33: nil}, S48: S48{S45: nil, A1: 4843, C: []int{4844}}, A1: selp(4845), S54: &S54{S39: nil, S48: S48{S45: nil, A1: 4846, C: []int{4847}}, A1: selp(4848), S54: nil, Foo: 4849, E: true}, Foo: 4851, E: true}}}, S6: S6{s2: &s2{A1: true, x: "v4854<", y: map[string]int{"k": 4855}, S0: S0{}, Foo: 0, S1: &S1{S0: S0{}, D: "v4857<", A1: 4858}}, S1: S1{S0: S0{}, D: "v4859<", A1: 4860}}, y: 4861, S103: S103{D: 4862.5, A1: 4863, SelInt: 4864, S71: S71{S67: S67{D: "", s63: nil, B: []int{4866}, x: nil, s65: s65{s40: s40{S37: nil, C: []int{4868}, s35: s35{C: map[string]int{"k": 4869}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 4870.5, C: 4871, s17: nil, D: map[string]int{"k": 4872}}, s22: nil, A1: map[string]int{"k": 4873}}}}, S32: S32{É: 4874.5, A: "", A1: []int{4876}}, B: map[string]int{"k": 4877}}, S39: S39{A: []int{4878}, S38: nil, S9: nil, A1: 4879.5, s33: nil}, D: "v4880<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 4883}}, C: selp(4884)}, x: nil, S24: S24{S21: &S21{s20: nil, D: nil, A: nil, x: []int{4888}}, A: []int{4889}}, y: 4890.5}}, x: 4891}},
	{"s105", s105{}},
	{"s105", s105{}},
	{"S106", S106{C: 4892, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 4893}, s66: &s66{s64: nil, S62: nil, x: 4894.5, A: []int{4895}}, s93: s93{A: 4896, Foo: []int{4897}, s87: s87{S84: S84{Foo: 4898, E: "", B: 4900.5, C: map[string]int{"k": 4901}}, A1: "v4902<", A: 4903.5, s82: s82{S61: nil}}}, É: 4904}, D: 4905.5}}, y: map[string]int{"k": 4906}, s104: s104{S100: S100{A1: selp(4907), y: 0, s58: s58{S31: S31{É: "", S29: S29{Foo: 4910.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 4912, S1: S1{S0: S0{}, D: "v4913<", A1: 0}, B: nil, C: 4916.5, E: ""}}, D: 0, B: true, s55: s55{S50: &S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{4921}, É: "v4922<"}}, s2: &s2{A1: true, x: "v4924<", y: map[string]int{"k": 4925}, S0: S0{}, Foo: 0, S1: nil}}, E: 4927.5, S54: &S54{S39: nil, S48: S48{S45: nil, A1: 4928, C: []int{4929}}, A1: selp(4930), S54: nil, Foo: 4931, E: false}}}, S6: S6{s2: &s2{A1: true, x: "v4934<", y: map[string]int{"k": 4935}, S0: S0{}, Foo: 4936.5, S1: &S1{S0: S0{}, D: "v4937<", A1: 0}}, S1: S1{S0: S0{}, D: "v4939<", A1: 4940}}, y: 4941, S103: S103{D: 4942.5, A1: nil, SelInt: 4944, S71: S71{S67: S67{D: "v4945<", s63: &s63{E: []int{4946}, s59: s59{A: 4947, S39: nil, S57: S57{É: nil, C: 4949, E: []int{4950}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 4951, C: []int{4952}}, A1: selp(4953), S54: nil, Foo: 4954, E: true}, s44: s44{x: map[string]int{"k": 4956}, s40: s40{S37: nil, C: []int{4957}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 4959.5, C: 4960, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 4962}}}}, S32: S32{É: 4963.5, A: "", A1: []int{4965}}, B: nil}, S39: S39{A: []int{4967}, S38: nil, S9: nil, A1: 4968.5, s33: nil}, D: "v4969<"}, S11: nil, S41: S41{É: 4970, D: map[string]int{"k": 4971}, S8: S8{A: 4972.5, s2: s2{A1: true, x: "v4974<", y: map[string]int{"k": 4975}, S0: S0{}, Foo: 0, S1: nil}, C: 4977.5, E: "v4978<"}, y: 4979, S29: S29{Foo: 4980.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{4982}, x: 4983, s65: s65{s40: s40{S37: nil, C: []int{4984}, s35: s35{C: map[string]int{"k": 4985}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 4988}}, s22: nil, A1: nil}}}, S32: S32{É: 0, A: "v4991<", A1: []int{4992}}, B: map[string]int{"k": 4993}}, S39: S39{A: []int{4994}, S38: nil, S9: nil, A1: 4995.5, s33: nil}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 4999}}, C: selp(5000)}, x: selp(5001), S24: S24{S21: &S21{s20: nil, D: 5002, A: nil, x: []int{5004}}, A: []int{5005}}, y: 5006.5}}, x: 5007}}},
	{"S106", S106{C: 5008, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 5009}, s66: &s66{s64: nil, S62: nil, x: 5010.5, A: []int{5011}}, s93: s93{A: 5012, Foo: []int{5013}, s87: s87{S84: S84{Foo: 5014, E: "v5015<", B: 5016.5, C: nil}, A1: "v5018<", A: 5019.5, s82: s82{S61: nil}}}, É: 5020}, D: 5021.5}}, y: map[string]int{"k": 5022}, s104: s104{S100: S100{A1: selp(5023), y: 5024, s58: s58{S31: S31{É: "v5025<", S29: S29{Foo: 5026.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 5028, S1: S1{S0: S0{}, D: "", A1: 5030}, B: selp(5031), C: 5032.5, E: "v5033<"}}, D: 5034, B: true, s55: s55{S50: &S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{5037}, É: "v5038<"}}, s2: &s2{A1: true, x: "v5040<", y: map[string]int{"k": 5041}, S0: S0{}, Foo: 5042.5, S1: nil}}, E: 5043.5, S54: &S54{S39: nil, S48: S48{S45: nil, A1: 5044, C: []int{5045}}, A1: selp(5046), S54: nil, Foo: nil, E: true}}}, S6: S6{s2: &s2{A1: false, x: "v5050<", y: map[string]int{"k": 5051}, S0: S0{}, Foo: 5052.5, S1: &S1{S0: S0{}, D: "v5053<", A1: 0}}, S1: S1{S0: S0{}, D: "v5055<", A1: 5056}}, y: 5057, S103: S103{D: 5058.5, A1: 5059, SelInt: 5060, S71: S71{S67: S67{D: "v5061<", s63: &s63{E: []int{5062}, s59: s59{A: 5063, S39: nil, S57: S57{É: map[string]int{"k": 5064}, C: 5065, E: []int{5066}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 5067, C: []int{5068}}, A1: selp(5069), S54: nil, Foo: 5070, E: true}, s44: s44{x: map[string]int{"k": 5072}, s40: s40{S37: nil, C: []int{5073}, s35: s35{C: map[string]int{"k": 5074}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5075.5, C: 5076, s17: nil, D: map[string]int{"k": 5077}}, s22: nil, A1: map[string]int{"k": 5078}}}}, S32: S32{É: 0, A: "v5080<", A1: []int{5081}}, B: map[string]int{"k": 5082}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 5084.5, s33: nil}, D: "v5085<"}, S11: nil, S41: S41{É: 5086, D: nil, S8: S8{A: 0, s2: s2{A1: true, x: "v5090<", y: map[string]int{"k": 5091}, S0: S0{}, Foo: 5092.5, S1: nil}, C: 5093.5, E: "v5094<"}, y: 5095, S29: S29{Foo: 5096.5}, s40: nil}}, s55: nil}, S4: nil, B: false}, S24: nil}, B: nil, x: 5099, s65: s65{s40: s40{S37: nil, C: []int{5100}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5102.5, C: 5103, s17: nil, D: map[string]int{"k": 5104}}, s22: nil, A1: map[string]int{"k": 5105}}}}, S32: S32{É: 5106.5, A: "v5107<", A1: []int{5108}}, B: nil}, S39: S39{A: []int{5110}, S38: nil, S9: nil, A1: 5111.5, s33: nil}, D: "v5112<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 5115}}, C: selp(5116)}, x: selp(5117), S24: S24{S21: &S21{s20: nil, D: 5118, A: selp(5119), x: nil}, A: []int{5121}}, y: 5122.5}}, x: nil}}},
	{"S107", S107{s101: &s101{s98: &s98{S95: S95{y: map[string]int{"k": 5124}, s66: nil, s93: s93{A: 0, Foo: []int{5126}, s87: s87{S84: S84{Foo: 5127, E: "v5128<", B: 5129.5, C: map[string]int{"k": 5130}}, A1: "v5131<", A: 5132.5, s82: s82{S61: nil}}}, É: 5133}, D: 5134.5}}, S106: S106{C: 5135, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 5136}, s66: nil, s93: s93{A: 0, Foo: []int{5138}, s87: s87{S84: S84{Foo: 5139, E: "v5140<", B: 5141.5, C: map[string]int{"k": 5142}}, A1: "", A: 5144.5, s82: s82{S61: nil}}}, É: nil}, D: 5146.5}}, y: map[string]int{"k": 5147}, s104: s104{S100: S100{A1: selp(5148), y: 5149, s58: s58{S31: S31{É: "", S29: S29{Foo: 5151.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 5153, S1: S1{S0: S0{}, D: "", A1: 5155}, B: selp(5156), C: 0, E: "v5158<"}}, D: 5159, B: true, s55: s55{S50: nil, s2: nil}, E: 5161.5, S54: &S54{S39: nil, S48: S48{S45: nil, A1: nil, C: nil}, A1: selp(5164), S54: nil, Foo: 5165, E: true}}}, S6: S6{s2: &s2{A1: false, x: "v5168<", y: map[string]int{"k": 5169}, S0: S0{}, Foo: 0, S1: nil}, S1: S1{S0: S0{}, D: "v5171<", A1: 5172}}, y: 5173, S103: S103{D: 0, A1: nil, SelInt: 5176, S71: S71{S67: S67{D: "v5177<", s63: nil, B: []int{5178}, x: 5179, s65: s65{s40: s40{S37: nil, C: []int{5180}, s35: s35{C: map[string]int{"k": 5181}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 5183, s17: nil, D: map[string]int{"k": 5184}}, s22: nil, A1: map[string]int{"k": 5185}}}}, S32: S32{É: 0, A: "v5187<", A1: []int{5188}}, B: map[string]int{"k": 5189}}, S39: S39{A: []int{5190}, S38: nil, S9: nil, A1: 5191.5, s33: nil}, D: "v5192<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: nil}, C: selp(5196)}, x: selp(5197), S24: S24{S21: nil, A: []int{5198}}, y: 5199.5}}, x: 5200}}, S102: S102{É: 5201.5, A1: []int{5202}, S8: S8{A: 5203.5, s2: s2{A1: true, x: "v5205<", y: map[string]int{"k": 5206}, S0: S0{}, Foo: 5207.5, S1: nil}, C: 0, E: "v5209<"}, A: nil}}},
	{"S107", S107{s101: &s101{s98: &s98{S95: S95{y: map[string]int{"k": 5211}, s66: nil, s93: s93{A: 5212, Foo: nil, s87: s87{S84: S84{Foo: 5214, E: "", B: 5216.5, C: map[string]int{"k": 5217}}, A1: "", A: 5219.5, s82: s82{S61: nil}}}, É: nil}, D: 5221.5}}, S106: S106{C: 5222, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 5223}, s66: nil, s93: s93{A: 5224, Foo: []int{5225}, s87: s87{S84: S84{Foo: 5226, E: "", B: 5228.5, C: map[string]int{"k": 5229}}, A1: "v5230<", A: 0, s82: s82{S61: nil}}}, É: nil}, D: 5233.5}}, y: map[string]int{"k": 5234}, s104: s104{S100: S100{A1: nil, y: 0, s58: s58{S31: S31{É: "v5237<", S29: S29{Foo: 5238.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 5240, S1: S1{S0: S0{}, D: "", A1: 5242}, B: selp(5243), C: 0, E: "v5245<"}}, D: 5246, B: true, s55: s55{S50: nil, s2: nil}, E: 5248.5, S54: &S54{S39: nil, S48: S48{S45: nil, A1: 5249, C: nil}, A1: selp(5251), S54: nil, Foo: 5252, E: true}}}, S6: S6{s2: &s2{A1: true, x: "v5255<", y: map[string]int{"k": 5256}, S0: S0{}, Foo: 5257.5, S1: nil}, S1: S1{S0: S0{}, D: "v5258<", A1: 5259}}, y: 5260, S103: S103{D: 5261.5, A1: 5262, SelInt: 5263, S71: S71{S67: S67{D: "v5264<", s63: nil, B: nil, x: nil, s65: s65{s40: s40{S37: nil, C: []int{5267}, s35: s35{C: map[string]int{"k": 5268}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5269.5, C: 5270, s17: nil, D: map[string]int{"k": 5271}}, s22: nil, A1: nil}}}, S32: S32{É: 5273.5, A: "v5274<", A1: []int{5275}}, B: map[string]int{"k": 5276}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 5278.5, s33: nil}, D: "v5279<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 5282}}, C: selp(5283)}, x: selp(5284), S24: S24{S21: nil, A: nil}, y: 0}}, x: 5287}}, S102: S102{É: 5288.5, A1: []int{5289}, S8: S8{A: 0, s2: s2{A1: false, x: "v5292<", y: map[string]int{"k": 5293}, S0: S0{}, Foo: 5294.5, S1: &S1{S0: S0{}, D: "", A1: 5296}}, C: 5297.5, E: "v5298<"}, A: map[string]int{"k": 5299}}}},
	{"S108", S108{}},
	{"S108", S108{}},
	{"S109", S109{}},
	{"S109", S109{}},
	{"S110", S110{S78: &S78{S72: S72{A: nil, A1: map[string]int{"k": 5301}, y: nil, Foo: selp(5303), S67: S67{D: "", s63: &s63{E: nil, s59: s59{A: 0, S39: nil, S57: S57{É: map[string]int{"k": 5307}, C: 5308, E: nil, S54: S54{S39: nil, S48: S48{S45: nil, A1: 5310, C: []int{5311}}, A1: selp(5312), S54: nil, Foo: 5313, E: true}, s44: s44{x: map[string]int{"k": 5315}, s40: s40{S37: nil, C: []int{5316}, s35: s35{C: map[string]int{"k": 5317}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5318.5, C: 5319, s17: nil, D: map[string]int{"k": 5320}}, s22: nil, A1: map[string]int{"k": 5321}}}}, S32: S32{É: 5322.5, A: "v5323<", A1: []int{5324}}, B: map[string]int{"k": 5325}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 5327.5, s33: nil}, D: ""}, S11: nil, S41: S41{É: 5329, D: map[string]int{"k": 5330}, S8: S8{A: 5331.5, s2: s2{A1: false, x: "v5333<", y: map[string]int{"k": 5334}, S0: S0{}, Foo: 5335.5, S1: nil}, C: 5336.5, E: "v5337<"}, y: 5338, S29: S29{Foo: 5339.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{5341}, x: nil, s65: s65{s40: s40{S37: nil, C: []int{5343}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5345.5, C: 5346, s17: nil, D: map[string]int{"k": 5347}}, s22: nil, A1: map[string]int{"k": 5348}}}}, S32: S32{É: 0, A: "", A1: nil}, B: map[string]int{"k": 5352}}, S39: S39{A: []int{5353}, S38: nil, S9: nil, A1: 5354.5, s33: nil}, D: "v5355<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: nil}, C: nil}}, S75: &S75{S74: S74{C: 5360.5, E: 5361, S71: nil}, A1: true, Foo: map[string]int{"k": 5363}, A: 5364.5}}, S107: S107{s101: &s101{s98: &s98{S95: S95{y: map[string]int{"k": 5365}, s66: nil, s93: s93{A: 5366, Foo: nil, s87: s87{S84: S84{Foo: 5368, E: "v5369<", B: 5370.5, C: nil}, A1: "v5372<", A: 5373.5, s82: s82{S61: nil}}}, É: nil}, D: 5375.5}}, S106: S106{C: 5376, s101: s101{s98: &s98{S95: S95{y: nil, s66: nil, s93: s93{A: 5378, Foo: []int{5379}, s87: s87{S84: S84{Foo: 5380, E: "", B: 5382.5, C: nil}, A1: "", A: 5385.5, s82: s82{S61: nil}}}, É: 5386}, D: 0}}, y: map[string]int{"k": 5388}, s104: s104{S100: S100{A1: selp(5389), y: 5390, s58: s58{S31: S31{É: "v5391<", S29: S29{Foo: 5392.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 5394, S1: S1{S0: S0{}, D: "v5395<", A1: 5396}, B: selp(5397), C: 5398.5, E: ""}}, D: 0, B: false, s55: s55{S50: nil, s2: nil}, E: 5402.5, S54: nil}}, S6: S6{s2: &s2{A1: true, x: "v5404<", y: nil, S0: S0{}, Foo: 5406.5, S1: nil}, S1: S1{S0: S0{}, D: "v5407<", A1: 0}}, y: 5409, S103: S103{D: 5410.5, A1: nil, SelInt: 5412, S71: S71{S67: S67{D: "v5413<", s63: nil, B: []int{5414}, x: 5415, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 5417}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5418.5, C: 5419, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 5421}}}}, S32: S32{É: 5422.5, A: "v5423<", A1: []int{5424}}, B: map[string]int{"k": 5425}}, S39: S39{A: []int{5426}, S38: nil, S9: nil, A1: 5427.5, s33: nil}, D: "v5428<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 5431}}, C: selp(5432)}, x: selp(5433), S24: S24{S21: nil, A: nil}, y: 5435.5}}, x: nil}}, S102: S102{É: 0, A1: []int{5438}, S8: S8{A: 5439.5, s2: s2{A1: true, x: "v5441<", y: map[string]int{"k": 5442}, S0: S0{}, Foo: 5443.5, S1: &S1{S0: S0{}, D: "", A1: 5445}}, C: 5446.5, E: "v5447<"}, A: map[string]int{"k": 5448}}}}},
	{"S110", S110{S78: &S78{S72: S72{A: map[string]int{"k": 5449}, A1: map[string]int{"k": 5450}, y: []int{5451}, Foo: selp(5452), S67: S67{D: "v5453<", s63: &s63{E: []int{5454}, s59: s59{A: 0, S39: nil, S57: S57{É: nil, C: 5457, E: []int{5458}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 5459, C: []int{5460}}, A1: selp(5461), S54: nil, Foo: 5462, E: true}, s44: s44{x: map[string]int{"k": 5464}, s40: s40{S37: nil, C: []int{5465}, s35: s35{C: map[string]int{"k": 5466}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5467.5, C: 5468, s17: nil, D: map[string]int{"k": 5469}}, s22: nil, A1: map[string]int{"k": 5470}}}}, S32: S32{É: 5471.5, A: "v5472<", A1: []int{5473}}, B: map[string]int{"k": 5474}}, S39: S39{A: []int{5475}, S38: nil, S9: nil, A1: 5476.5, s33: nil}, D: "v5477<"}, S11: nil, S41: S41{É: 5478, D: map[string]int{"k": 5479}, S8: S8{A: 0, s2: s2{A1: true, x: "", y: map[string]int{"k": 5483}, S0: S0{}, Foo: 5484.5, S1: nil}, C: 5485.5, E: ""}, y: 5487, S29: S29{Foo: 5488.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, B: []int{5490}, x: 5491, s65: s65{s40: s40{S37: nil, C: []int{5492}, s35: s35{C: map[string]int{"k": 5493}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5494.5, C: 5495, s17: nil, D: map[string]int{"k": 5496}}, s22: nil, A1: map[string]int{"k": 5497}}}}, S32: S32{É: 5498.5, A: "v5499<", A1: []int{5500}}, B: map[string]int{"k": 5501}}, S39: S39{A: []int{5502}, S38: nil, S9: nil, A1: 5503.5, s33: nil}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 5507}}, C: selp(5508)}}, S75: &S75{S74: S74{C: 5509.5, E: 5510, S71: nil}, A1: true, Foo: map[string]int{"k": 5512}, A: 0}}, S107: S107{s101: &s101{s98: &s98{S95: S95{y: map[string]int{"k": 5514}, s66: nil, s93: s93{A: 5515, Foo: nil, s87: s87{S84: S84{Foo: 5517, E: "v5518<", B: 0, C: map[string]int{"k": 5520}}, A1: "v5521<", A: 5522.5, s82: s82{S61: nil}}}, É: 5523}, D: 0}}, S106: S106{C: 5525, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 5526}, s66: nil, s93: s93{A: 5527, Foo: []int{5528}, s87: s87{S84: S84{Foo: 5529, E: "v5530<", B: 5531.5, C: map[string]int{"k": 5532}}, A1: "", A: 5534.5, s82: s82{S61: nil}}}, É: 5535}, D: 0}}, y: nil, s104: s104{S100: S100{A1: selp(5538), y: 5539, s58: s58{S31: S31{É: "v5540<", S29: S29{Foo: 0}, SelSlice: SelSlice{"x"}, S25: S25{x: 5543, S1: S1{S0: S0{}, D: "v5544<", A1: 5545}, B: selp(5546), C: 5547.5, E: ""}}, D: 5549, B: false, s55: s55{S50: nil, s2: nil}, E: 0, S54: nil}}, S6: S6{s2: &s2{A1: true, x: "v5553<", y: map[string]int{"k": 5554}, S0: S0{}, Foo: 0, S1: nil}, S1: S1{S0: S0{}, D: "v5556<", A1: 0}}, y: 5558, S103: S103{D: 5559.5, A1: 5560, SelInt: 5561, S71: S71{S67: S67{D: "v5562<", s63: nil, B: []int{5563}, x: nil, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5567.5, C: 5568, s17: nil, D: map[string]int{"k": 5569}}, s22: nil, A1: map[string]int{"k": 5570}}}}, S32: S32{É: 5571.5, A: "v5572<", A1: []int{5573}}, B: map[string]int{"k": 5574}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v5577<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 5580}}, C: nil}, x: nil, S24: S24{S21: nil, A: []int{5583}}, y: 5584.5}}, x: 5585}}, S102: S102{É: 5586.5, A1: []int{5587}, S8: S8{A: 5588.5, s2: s2{A1: true, x: "v5590<", y: map[string]int{"k": 5591}, S0: S0{}, Foo: 5592.5, S1: &S1{S0: S0{}, D: "v5593<", A1: 5594}}, C: 0, E: "v5596<"}, A: map[string]int{"k": 5597}}}}},
	{"s111", s111{C: 5598.5, A: 5599, S18: S18{D: []int{5600}, x: 5601, C: []int{5602}, S14: S14{D: []int{5603}, É: 0, x: selp(5605), S11: &S11{S8: S8{A: 5606.5, s2: s2{A1: false, x: "v5608<", y: map[string]int{"k": 5609}, S0: S0{}, Foo: 5610.5, S1: nil}, C: 5611.5, E: ""}, Foo: map[string]int{"k": 5613}, A1: "v5614<"}}}, É: "v5615<", SelIface: SelIface(5616)}},
	{"s111", s111{C: 0, A: 5618, S18: S18{D: nil, x: 0, C: []int{5621}, S14: S14{D: []int{5622}, É: 5623, x: selp(5624), S11: &S11{S8: S8{A: 5625.5, s2: s2{A1: true, x: "v5627<", y: nil, S0: S0{}, Foo: 5629.5, S1: nil}, C: 5630.5, E: "v5631<"}, Foo: map[string]int{"k": 5632}, A1: ""}}}, É: "", SelIface: SelIface(5635)}},
	{"S112", S112{s111: s111{C: 0, A: 5637, S18: S18{D: []int{5638}, x: 5639, C: nil, S14: S14{D: []int{5641}, É: 5642, x: nil, S11: &S11{S8: S8{A: 5644.5, s2: s2{A1: true, x: "v5646<", y: map[string]int{"k": 5647}, S0: S0{}, Foo: 5648.5, S1: nil}, C: 0, E: "v5650<"}, Foo: map[string]int{"k": 5651}, A1: ""}}}, É: "v5653<", SelIface: SelIface(5654)}, S110: S110{S78: &S78{S72: S72{A: map[string]int{"k": 5655}, A1: map[string]int{"k": 5656}, y: []int{5657}, Foo: selp(5658), S67: S67{D: "", s63: nil, B: nil, x: 5661, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 5663}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5664.5, C: 5665, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 5667}}}}, S32: S32{É: 5668.5, A: "v5669<", A1: []int{5670}}, B: map[string]int{"k": 5671}}, S39: S39{A: []int{5672}, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v5674<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 5677}}, C: selp(5678)}}, S75: &S75{S74: S74{C: 5679.5, E: 5680, S71: nil}, A1: true, Foo: map[string]int{"k": 5682}, A: 5683.5}}, S107: S107{s101: &s101{s98: &s98{S95: S95{y: map[string]int{"k": 5684}, s66: nil, s93: s93{A: 0, Foo: []int{5686}, s87: s87{S84: S84{Foo: 5687, E: "v5688<", B: 0, C: map[string]int{"k": 5690}}, A1: "v5691<", A: 5692.5, s82: s82{S61: nil}}}, É: 5693}, D: 0}}, S106: S106{C: 5695, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 5696}, s66: nil, s93: s93{A: 5697, Foo: []int{5698}, s87: s87{S84: S84{Foo: 5699, E: "v5700<", B: 5701.5, C: map[string]int{"k": 5702}}, A1: "v5703<", A: 5704.5, s82: s82{S61: nil}}}, É: 5705}, D: 0}}, y: map[string]int{"k": 5707}, s104: s104{S100: S100{A1: selp(5708), y: 5709, s58: s58{S31: S31{É: "v5710<", S29: S29{Foo: 0}, SelSlice: SelSlice{"x"}, S25: S25{x: 5713, S1: S1{S0: S0{}, D: "", A1: 5715}, B: selp(5716), C: 5717.5, E: "v5718<"}}, D: 5719, B: true, s55: s55{S50: nil, s2: nil}, E: 5721.5, S54: nil}}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v5722<", A1: 5723}}, y: 5724, S103: S103{D: 5725.5, A1: nil, SelInt: 5727, S71: S71{S67: S67{D: "v5728<", s63: nil, B: []int{5729}, x: 5730, s65: s65{s40: s40{S37: nil, C: []int{5731}, s35: s35{C: map[string]int{"k": 5732}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5733.5, C: 5734, s17: nil, D: map[string]int{"k": 5735}}, s22: nil, A1: map[string]int{"k": 5736}}}}, S32: S32{É: 0, A: "v5738<", A1: []int{5739}}, B: map[string]int{"k": 5740}}, S39: S39{A: []int{5741}, S38: nil, S9: nil, A1: 5742.5, s33: nil}, D: "v5743<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 5746}}, C: selp(5747)}, x: selp(5748), S24: S24{S21: nil, A: nil}, y: 0}}, x: 5751}}, S102: S102{É: 0, A1: []int{5753}, S8: S8{A: 5754.5, s2: s2{A1: true, x: "v5756<", y: map[string]int{"k": 5757}, S0: S0{}, Foo: 5758.5, S1: nil}, C: 5759.5, E: "v5760<"}, A: map[string]int{"k": 5761}}}}}},
	{"S112", S112{s111: s111{C: 5762.5, A: 5763, S18: S18{D: []int{5764}, x: 5765, C: []int{5766}, S14: S14{D: []int{5767}, É: 5768, x: selp(5769), S11: &S11{S8: S8{A: 5770.5, s2: s2{A1: false, x: "v5772<", y: map[string]int{"k": 5773}, S0: S0{}, Foo: 0, S1: nil}, C: 5775.5, E: ""}, Foo: nil, A1: "v5778<"}}}, É: "", SelIface: SelIface(5780)}, S110: S110{S78: &S78{S72: S72{A: map[string]int{"k": 5781}, A1: map[string]int{"k": 5782}, y: []int{5783}, Foo: selp(5784), S67: S67{D: "v5785<", s63: nil, B: []int{5786}, x: 5787, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 5789}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 5791, s17: nil, D: map[string]int{"k": 5792}}, s22: nil, A1: map[string]int{"k": 5793}}}}, S32: S32{É: 5794.5, A: "v5795<", A1: []int{5796}}, B: map[string]int{"k": 5797}}, S39: S39{A: []int{5798}, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v5800<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 5803}}, C: selp(5804)}}, S75: &S75{S74: S74{C: 0, E: 5806, S71: nil}, A1: true, Foo: map[string]int{"k": 5808}, A: 5809.5}}, S107: S107{s101: &s101{s98: &s98{S95: S95{y: nil, s66: nil, s93: s93{A: 5811, Foo: []int{5812}, s87: s87{S84: S84{Foo: 5813, E: "v5814<", B: 5815.5, C: map[string]int{"k": 5816}}, A1: "v5817<", A: 5818.5, s82: s82{S61: nil}}}, É: 5819}, D: 5820.5}}, S106: S106{C: 5821, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 5822}, s66: nil, s93: s93{A: 5823, Foo: []int{5824}, s87: s87{S84: S84{Foo: 5825, E: "v5826<", B: 5827.5, C: map[string]int{"k": 5828}}, A1: "v5829<", A: 5830.5, s82: s82{S61: nil}}}, É: nil}, D: 5832.5}}, y: map[string]int{"k": 5833}, s104: s104{S100: S100{A1: selp(5834), y: 5835, s58: s58{S31: S31{É: "v5836<", S29: S29{Foo: 0}, SelSlice: SelSlice{"x"}, S25: S25{x: 5839, S1: S1{S0: S0{}, D: "v5840<", A1: 5841}, B: selp(5842), C: 5843.5, E: "v5844<"}}, D: 5845, B: true, s55: s55{S50: nil, s2: nil}, E: 5847.5, S54: nil}}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v5848<", A1: 5849}}, y: 0, S103: S103{D: 5851.5, A1: 5852, SelInt: 5853, S71: S71{S67: S67{D: "v5854<", s63: nil, B: []int{5855}, x: nil, s65: s65{s40: s40{S37: nil, C: []int{5857}, s35: s35{C: map[string]int{"k": 5858}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 5859.5, C: 5860, s17: nil, D: map[string]int{"k": 5861}}, s22: nil, A1: nil}}}, S32: S32{É: 5863.5, A: "v5864<", A1: []int{5865}}, B: nil}, S39: S39{A: []int{5867}, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v5869<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: nil}, C: nil}, x: selp(5874), S24: S24{S21: nil, A: []int{5875}}, y: 5876.5}}, x: 5877}}, S102: S102{É: 0, A1: []int{5879}, S8: S8{A: 0, s2: s2{A1: true, x: "v5882<", y: map[string]int{"k": 5883}, S0: S0{}, Foo: 0, S1: nil}, C: 5885.5, E: "v5886<"}, A: map[string]int{"k": 5887}}}}}},
	{"S113", S113{B: map[string]int{"k": 5888}, s111: &s111{C: 5889.5, A: 5890, S18: S18{D: []int{5891}, x: 5892, C: []int{5893}, S14: S14{D: nil, É: 5895, x: selp(5896), S11: &S11{S8: S8{A: 0, s2: s2{A1: true, x: "v5899<", y: map[string]int{"k": 5900}, S0: S0{}, Foo: 5901.5, S1: nil}, C: 5902.5, E: ""}, Foo: map[string]int{"k": 5904}, A1: "v5905<"}}}, É: "v5906<", SelIface: SelIface(5907)}}},
	{"S113", S113{B: map[string]int{"k": 5908}, s111: &s111{C: 0, A: 5910, S18: S18{D: []int{5911}, x: 5912, C: []int{5913}, S14: S14{D: []int{5914}, É: 5915, x: selp(5916), S11: &S11{S8: S8{A: 5917.5, s2: s2{A1: true, x: "v5919<", y: map[string]int{"k": 5920}, S0: S0{}, Foo: 5921.5, S1: nil}, C: 5922.5, E: "v5923<"}, Foo: map[string]int{"k": 5924}, A1: "v5925<"}}}, É: "v5926<", SelIface: SelIface(5927)}}},
	{"s114", s114{D: []int{5928}, S108: &S108{}}},
	{"s114", s114{D: []int{5929}, S108: nil}},
	{"s116", s116{s111: s111{C: 0, A: 5931, S18: S18{D: []int{5932}, x: 5933, C: []int{5934}, S14: S14{D: nil, É: 5936, x: selp(5937), S11: &S11{S8: S8{A: 0, s2: s2{A1: true, x: "v5940<", y: map[string]int{"k": 5941}, S0: S0{}, Foo: 0, S1: nil}, C: 5943.5, E: ""}, Foo: nil, A1: "v5946<"}}}, É: "", SelIface: SelIface(5948)}}},
	{"s116", s116{s111: s111{C: 5949.5, A: 5950, S18: S18{D: []int{5951}, x: 5952, C: []int{5953}, S14: S14{D: []int{5954}, É: 5955, x: selp(5956), S11: &S11{S8: S8{A: 5957.5, s2: s2{A1: true, x: "v5959<", y: map[string]int{"k": 5960}, S0: S0{}, Foo: 5961.5, S1: nil}, C: 5962.5, E: "v5963<"}, Foo: map[string]int{"k": 5964}, A1: ""}}}, É: "v5966<", SelIface: SelIface(5967)}}},
	{"S117", S117{s116: s116{s111: s111{C: 5968.5, A: 5969, S18: S18{D: nil, x: 5971, C: nil, S14: S14{D: []int{5973}, É: 5974, x: nil, S11: &S11{S8: S8{A: 0, s2: s2{A1: true, x: "v5978<", y: map[string]int{"k": 5979}, S0: S0{}, Foo: 5980.5, S1: nil}, C: 0, E: "v5982<"}, Foo: map[string]int{"k": 5983}, A1: "v5984<"}}}, É: "v5985<", SelIface: SelIface(5986)}}, S113: &S113{B: nil, s111: &s111{C: 5988.5, A: 5989, S18: S18{D: []int{5990}, x: 5991, C: []int{5992}, S14: S14{D: []int{5993}, É: 0, x: nil, S11: nil}}, É: "", SelIface: SelIface(5997)}}, s114: s114{D: []int{5998}, S108: &S108{}}, D: []int{5999}, x: []int{6000}}},
	{"S117", S117{s116: s116{s111: s111{C: 0, A: 6002, S18: S18{D: []int{6003}, x: 6004, C: []int{6005}, S14: S14{D: []int{6006}, É: 0, x: selp(6008), S11: &S11{S8: S8{A: 0, s2: s2{A1: true, x: "", y: map[string]int{"k": 6012}, S0: S0{}, Foo: 6013.5, S1: nil}, C: 6014.5, E: "v6015<"}, Foo: map[string]int{"k": 6016}, A1: "v6017<"}}}, É: "v6018<", SelIface: SelIface(6019)}}, S113: &S113{B: map[string]int{"k": 6020}, s111: &s111{C: 6021.5, A: 0, S18: S18{D: []int{6023}, x: 6024, C: []int{6025}, S14: S14{D: []int{6026}, É: 6027, x: selp(6028), S11: nil}}, É: "v6029<", SelIface: SelIface(6030)}}, s114: s114{D: []int{6031}, S108: &S108{}}, D: nil, x: []int{6033}}},
	{"S118", S118{E: selp(6034), A: selp(6035), É: 6036, s116: &s116{s111: s111{C: 0, A: 6038, S18: S18{D: []int{6039}, x: 0, C: []int{6041}, S14: S14{D: []int{6042}, É: 6043, x: selp(6044), S11: nil}}, É: "", SelIface: SelIface(6046)}}}},
	{"S118", S118{E: nil, A: nil, É: 6049, s116: &s116{s111: s111{C: 6050.5, A: 6051, S18: S18{D: nil, x: 0, C: []int{6054}, S14: S14{D: []int{6055}, É: 6056, x: selp(6057), S11: nil}}, É: "v6058<", SelIface: SelIface(6059)}}}},
	{"s119", s119{x: nil}},
	{"s119", s119{x: map[string]int{"k": 6061}}},
	{"s120", s120{s119: s119{x: map[string]int{"k": 6062}}, s116: s116{s111: s111{C: 6063.5, A: 0, S18: S18{D: nil, x: 6066, C: []int{6067}, S14: S14{D: []int{6068}, É: 6069, x: selp(6070), S11: &S11{S8: S8{A: 6071.5, s2: s2{A1: false, x: "v6073<", y: map[string]int{"k": 6074}, S0: S0{}, Foo: 6075.5, S1: nil}, C: 0, E: "v6077<"}, Foo: map[string]int{"k": 6078}, A1: ""}}}, É: "", SelIface: SelIface(6081)}}, E: true, A1: []int{6083}, s114: &s114{D: []int{6084}, S108: &S108{}}, A: map[string]int{"k": 6085}}},
	{"s120", s120{s119: s119{x: map[string]int{"k": 6086}}, s116: s116{s111: s111{C: 6087.5, A: 6088, S18: S18{D: []int{6089}, x: 0, C: []int{6091}, S14: S14{D: []int{6092}, É: 6093, x: selp(6094), S11: &S11{S8: S8{A: 0, s2: s2{A1: false, x: "v6097<", y: nil, S0: S0{}, Foo: 6099.5, S1: nil}, C: 6100.5, E: "v6101<"}, Foo: map[string]int{"k": 6102}, A1: "v6103<"}}}, É: "v6104<", SelIface: SelIface(6105)}}, E: true, A1: []int{6107}, s114: &s114{D: []int{6108}, S108: &S108{}}, A: map[string]int{"k": 6109}}},
	{"S121", S121{D: true, x: 0, C: 0, E: nil}},
	{"S121", S121{D: false, x: 6115.5, C: 6116, E: []int{6117}}},
	{"S122", S122{s119: s119{x: map[string]int{"k": 6118}}}},
	{"S122", S122{s119: s119{x: map[string]int{"k": 6119}}}},
	{"s123", s123{D: map[string]int{"k": 6120}, s116: s116{s111: s111{C: 6121.5, A: 6122, S18: S18{D: []int{6123}, x: 6124, C: []int{6125}, S14: S14{D: []int{6126}, É: 6127, x: selp(6128), S11: nil}}, É: "v6129<", SelIface: SelIface(6130)}}, S92: &S92{S28: &S28{S25: &S25{x: 6131, S1: S1{S0: S0{}, D: "v6132<", A1: 6133}, B: selp(6134), C: 0, E: "v6136<"}, S26: S26{S23: S23{É: 6137.5, C: 6138, s17: nil, D: map[string]int{"k": 6139}}, s22: nil, A1: map[string]int{"k": 6140}}}, s83: &s83{É: 6141, A1: 6142, C: map[string]int{"k": 6143}}, s87: &s87{S84: S84{Foo: 0, E: "v6145<", B: 6146.5, C: map[string]int{"k": 6147}}, A1: "v6148<", A: 6149.5, s82: s82{S61: nil}}}, E: []int{6150}}},
	{"s123", s123{D: map[string]int{"k": 6151}, s116: s116{s111: s111{C: 0, A: 6153, S18: S18{D: []int{6154}, x: 6155, C: []int{6156}, S14: S14{D: nil, É: 6158, x: selp(6159), S11: &S11{S8: S8{A: 6160.5, s2: s2{A1: true, x: "v6162<", y: map[string]int{"k": 6163}, S0: S0{}, Foo: 0, S1: nil}, C: 6165.5, E: "v6166<"}, Foo: nil, A1: "v6168<"}}}, É: "", SelIface: SelIface(6170)}}, S92: &S92{S28: &S28{S25: &S25{x: 6171, S1: S1{S0: S0{}, D: "", A1: 6173}, B: selp(6174), C: 6175.5, E: "v6176<"}, S26: S26{S23: S23{É: 6177.5, C: 6178, s17: nil, D: map[string]int{"k": 6179}}, s22: nil, A1: map[string]int{"k": 6180}}}, s83: &s83{É: 6181, A1: 6182, C: map[string]int{"k": 6183}}, s87: &s87{S84: S84{Foo: 6184, E: "v6185<", B: 6186.5, C: nil}, A1: "", A: 6189.5, s82: s82{S61: nil}}}, E: nil}},
	{"s124", s124{S118: nil, É: 6191, y: 6192}},
	{"s124", s124{S118: &S118{E: selp(6193), A: selp(6194), É: 6195, s116: &s116{s111: s111{C: 6196.5, A: 6197, S18: S18{D: []int{6198}, x: 6199, C: []int{6200}, S14: S14{D: []int{6201}, É: 6202, x: selp(6203), S11: nil}}, É: "v6204<", SelIface: SelIface(6205)}}}, É: 6206, y: 6207}},
	{"s125", s125{s120: &s120{s119: s119{x: nil}, s116: s116{s111: s111{C: 6209.5, A: 0, S18: S18{D: nil, x: 6212, C: []int{6213}, S14: S14{D: nil, É: 6215, x: selp(6216), S11: nil}}, É: "v6217<", SelIface: SelIface(6218)}}, E: true, A1: []int{6220}, s114: &s114{D: []int{6221}, S108: &S108{}}, A: nil}, S122: S122{s119: s119{x: map[string]int{"k": 6223}}}, E: selp(6224), y: selp(6225), D: true}},
	{"s125", s125{s120: &s120{s119: s119{x: nil}, s116: s116{s111: s111{C: 6228.5, A: 6229, S18: S18{D: []int{6230}, x: 6231, C: []int{6232}, S14: S14{D: []int{6233}, É: 0, x: selp(6235), S11: nil}}, É: "v6236<", SelIface: SelIface(6237)}}, E: false, A1: []int{6239}, s114: &s114{D: []int{6240}, S108: &S108{}}, A: map[string]int{"k": 6241}}, S122: S122{s119: s119{x: map[string]int{"k": 6242}}}, E: selp(6243), y: selp(6244), D: true}},
	{"S126", S126{S121: S121{D: false, x: 6247.5, C: 0, E: []int{6249}}, y: selp(6250)}},
	{"S126", S126{S121: S121{D: true, x: 6252.5, C: 6253, E: []int{6254}}, y: selp(6255)}},
	{"s127", s127{A: 6256.5, S126: &S126{S121: S121{D: false, x: 6258.5, C: 6259, E: nil}, y: selp(6261)}, y: selp(6262), E: true}},
	{"s127", s127{A: 6264.5, S126: &S126{S121: S121{D: true, x: 6266.5, C: 6267, E: nil}, y: selp(6269)}, y: selp(6270), E: true}},
	{"s128", s128{S126: S126{S121: S121{D: true, x: 6273.5, C: 6274, E: []int{6275}}, y: selp(6276)}}},
	{"s128", s128{S126: S126{S121: S121{D: false, x: 6278.5, C: 6279, E: []int{6280}}, y: nil}}},
	{"S129", S129{A: false, x: 6283, A1: 6284, s128: s128{S126: S126{S121: S121{D: true, x: 6286.5, C: 6287, E: []int{6288}}, y: nil}}, S126: nil}},
	{"S129", S129{A: true, x: nil, A1: 6292, s128: s128{S126: S126{S121: S121{D: true, x: 6294.5, C: 6295, E: []int{6296}}, y: nil}}, S126: &S126{S121: S121{D: false, x: 6299.5, C: 6300, E: []int{6301}}, y: selp(6302)}}},
	{"S130", S130{s125: s125{s120: &s120{s119: s119{x: map[string]int{"k": 6303}}, s116: s116{s111: s111{C: 6304.5, A: 0, S18: S18{D: []int{6306}, x: 6307, C: []int{6308}, S14: S14{D: []int{6309}, É: 6310, x: selp(6311), S11: nil}}, É: "v6312<", SelIface: SelIface(6313)}}, E: true, A1: []int{6315}, s114: &s114{D: []int{6316}, S108: nil}, A: map[string]int{"k": 6317}}, S122: S122{s119: s119{x: map[string]int{"k": 6318}}}, E: selp(6319), y: selp(6320), D: true}, x: 6322, S130: &S130{s125: s125{s120: &s120{s119: s119{x: nil}, s116: s116{s111: s111{C: 6324.5, A: 6325, S18: S18{D: []int{6326}, x: 6327, C: []int{6328}, S14: S14{D: []int{6329}, É: 6330, x: selp(6331), S11: nil}}, É: "v6332<", SelIface: SelIface(6333)}}, E: true, A1: nil, s114: nil, A: map[string]int{"k": 6336}}, S122: S122{s119: s119{x: map[string]int{"k": 6337}}}, E: selp(6338), y: nil, D: true}, x: 6341, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6342}}}, E: selp(6343), y: selp(6344), D: true}, x: 6346, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6347}}}, E: selp(6348), y: nil, D: true}, x: 6351, S130: nil, S129: nil, A: 6352, D: 6353}, S129: &S129{A: true, x: 6355, A1: 6356, s128: s128{S126: S126{S121: S121{D: true, x: 0, C: 6359, E: []int{6360}}, y: selp(6361)}}, S126: nil}, A: 6362, D: 6363}, S129: &S129{A: true, x: 6365, A1: 6366, s128: s128{S126: S126{S121: S121{D: false, x: 6368.5, C: 0, E: []int{6370}}, y: selp(6371)}}, S126: &S126{S121: S121{D: true, x: 6373.5, C: 6374, E: []int{6375}}, y: selp(6376)}}, A: 6377, D: nil}, S129: &S129{A: true, x: nil, A1: 6381, s128: s128{S126: S126{S121: S121{D: true, x: 6383.5, C: 6384, E: []int{6385}}, y: nil}}, S126: &S126{S121: S121{D: true, x: 6388.5, C: 6389, E: nil}, y: selp(6391)}}, A: 6392, D: 6393}},
	{"S130", S130{s125: s125{s120: &s120{s119: s119{x: map[string]int{"k": 6394}}, s116: s116{s111: s111{C: 6395.5, A: 6396, S18: S18{D: []int{6397}, x: 6398, C: nil, S14: S14{D: []int{6400}, É: 6401, x: selp(6402), S11: nil}}, É: "v6403<", SelIface: SelIface(6404)}}, E: true, A1: nil, s114: &s114{D: nil, S108: nil}, A: map[string]int{"k": 6408}}, S122: S122{s119: s119{x: map[string]int{"k": 6409}}}, E: selp(6410), y: selp(6411), D: true}, x: 6413, S130: &S130{s125: s125{s120: &s120{s119: s119{x: map[string]int{"k": 6414}}, s116: s116{s111: s111{C: 0, A: 0, S18: S18{D: []int{6417}, x: 6418, C: []int{6419}, S14: S14{D: []int{6420}, É: 0, x: selp(6422), S11: nil}}, É: "v6423<", SelIface: SelIface(6424)}}, E: true, A1: []int{6426}, s114: nil, A: nil}, S122: S122{s119: s119{x: nil}}, E: selp(6429), y: selp(6430), D: true}, x: 6432, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: nil}}, E: selp(6434), y: selp(6435), D: true}, x: 0, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6438}}}, E: selp(6439), y: nil, D: true}, x: 6442, S130: nil, S129: nil, A: 6443, D: 6444}, S129: &S129{A: false, x: 6446, A1: 0, s128: s128{S126: S126{S121: S121{D: true, x: 6449.5, C: 0, E: []int{6451}}, y: selp(6452)}}, S126: nil}, A: 6453, D: 6454}, S129: &S129{A: false, x: 6456, A1: 6457, s128: s128{S126: S126{S121: S121{D: true, x: 0, C: 6460, E: []int{6461}}, y: selp(6462)}}, S126: &S126{S121: S121{D: true, x: 6464.5, C: 0, E: nil}, y: nil}}, A: 6468, D: 6469}, S129: &S129{A: true, x: 6471, A1: 6472, s128: s128{S126: S126{S121: S121{D: true, x: 0, C: 6475, E: nil}, y: selp(6477)}}, S126: &S126{S121: S121{D: true, x: 0, C: 6480, E: []int{6481}}, y: selp(6482)}}, A: 6483, D: nil}},
	{"s131", s131{S126: S126{S121: S121{D: true, x: 6486.5, C: 6487, E: nil}, y: selp(6489)}, s127: &s127{A: 6490.5, S126: &S126{S121: S121{D: true, x: 0, C: 6493, E: nil}, y: nil}, y: selp(6496), E: true}, S130: &S130{s125: s125{s120: &s120{s119: s119{x: map[string]int{"k": 6498}}, s116: s116{s111: s111{C: 0, A: 0, S18: S18{D: []int{6501}, x: 6502, C: []int{6503}, S14: S14{D: []int{6504}, É: 6505, x: selp(6506), S11: nil}}, É: "", SelIface: SelIface(6508)}}, E: true, A1: nil, s114: nil, A: map[string]int{"k": 6511}}, S122: S122{s119: s119{x: map[string]int{"k": 6512}}}, E: nil, y: selp(6514), D: true}, x: 0, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6517}}}, E: selp(6518), y: nil, D: true}, x: 6521, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6522}}}, E: selp(6523), y: selp(6524), D: true}, x: 6526, S130: nil, S129: nil, A: 6527, D: 6528}, S129: nil, A: 6529, D: 6530}, S129: &S129{A: true, x: 6532, A1: 0, s128: s128{S126: S126{S121: S121{D: true, x: 6535.5, C: 6536, E: []int{6537}}, y: selp(6538)}}, S126: &S126{S121: S121{D: true, x: 6540.5, C: 6541, E: []int{6542}}, y: selp(6543)}}, A: 6544, D: 6545}, A: selp(6546)}},
	{"s131", s131{S126: S126{S121: S121{D: true, x: 6548.5, C: 6549, E: []int{6550}}, y: nil}, s127: &s127{A: 6552.5, S126: nil, y: selp(6553), E: true}, S130: &S130{s125: s125{s120: &s120{s119: s119{x: map[string]int{"k": 6555}}, s116: s116{s111: s111{C: 6556.5, A: 6557, S18: S18{D: []int{6558}, x: 6559, C: []int{6560}, S14: S14{D: []int{6561}, É: 0, x: selp(6563), S11: nil}}, É: "v6564<", SelIface: SelIface(6565)}}, E: true, A1: []int{6567}, s114: nil, A: map[string]int{"k": 6568}}, S122: S122{s119: s119{x: map[string]int{"k": 6569}}}, E: selp(6570), y: selp(6571), D: true}, x: 0, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6574}}}, E: selp(6575), y: selp(6576), D: true}, x: 6578, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6579}}}, E: selp(6580), y: selp(6581), D: false}, x: 6583, S130: nil, S129: nil, A: 6584, D: 6585}, S129: &S129{A: true, x: 6587, A1: 6588, s128: s128{S126: S126{S121: S121{D: true, x: 0, C: 6591, E: []int{6592}}, y: selp(6593)}}, S126: nil}, A: 6594, D: nil}, S129: &S129{A: false, x: 6597, A1: 6598, s128: s128{S126: S126{S121: S121{D: true, x: 6600.5, C: 6601, E: []int{6602}}, y: selp(6603)}}, S126: &S126{S121: S121{D: true, x: 6605.5, C: 6606, E: nil}, y: selp(6608)}}, A: 0, D: 6610}, A: selp(6611)}},
	{"S132", S132{A1: []int{6612}, SelInt: 6613, s127: &s127{A: 6614.5, S126: &S126{S121: S121{D: false, x: 6616.5, C: 0, E: []int{6618}}, y: selp(6619)}, y: selp(6620), E: true}, Foo: 0}},
	{"S132", S132{A1: []int{6623}, SelInt: 6624, s127: &s127{A: 6625.5, S126: nil, y: nil, E: true}, Foo: 6628}},
	{"S133", S133{s22: &s22{B: "v6629<", S21: S21{s20: &s20{S18: S18{D: []int{6630}, x: 6631, C: []int{6632}, S14: S14{D: nil, É: 0, x: selp(6635), S11: nil}}, A1: []int{6636}, E: map[string]int{"k": 6637}, B: nil, s19: nil}, D: nil, A: selp(6640), x: []int{6641}}, S14: S14{D: []int{6642}, É: 6643, x: selp(6644), S11: nil}, Foo: map[string]int{"k": 6645}}, D: selp(6646), y: nil}},
	{"S133", S133{s22: &s22{B: "v6648<", S21: S21{s20: &s20{S18: S18{D: []int{6649}, x: 6650, C: []int{6651}, S14: S14{D: nil, É: 6653, x: nil, S11: nil}}, A1: nil, E: nil, B: map[string]int{"k": 6657}, s19: nil}, D: 6658, A: selp(6659), x: nil}, S14: S14{D: []int{6661}, É: 6662, x: selp(6663), S11: &S11{S8: S8{A: 6664.5, s2: s2{A1: true, x: "v6666<", y: map[string]int{"k": 6667}, S0: S0{}, Foo: 6668.5, S1: nil}, C: 6669.5, E: "v6670<"}, Foo: map[string]int{"k": 6671}, A1: "v6672<"}}, Foo: nil}, D: selp(6674), y: 6675}},
	{"S134", S134{s131: s131{S126: S126{S121: S121{D: true, x: 6677.5, C: 6678, E: []int{6679}}, y: selp(6680)}, s127: &s127{A: 6681.5, S126: &S126{S121: S121{D: true, x: 0, C: 6684, E: []int{6685}}, y: selp(6686)}, y: selp(6687), E: true}, S130: &S130{s125: s125{s120: &s120{s119: s119{x: map[string]int{"k": 6689}}, s116: s116{s111: s111{C: 6690.5, A: 6691, S18: S18{D: nil, x: 6693, C: []int{6694}, S14: S14{D: []int{6695}, É: 6696, x: selp(6697), S11: nil}}, É: "v6698<", SelIface: SelIface(6699)}}, E: true, A1: []int{6701}, s114: nil, A: map[string]int{"k": 6702}}, S122: S122{s119: s119{x: map[string]int{"k": 6703}}}, E: nil, y: nil, D: true}, x: 6707, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6708}}}, E: selp(6709), y: nil, D: false}, x: 6712, S130: nil, S129: nil, A: 0, D: 6714}, S129: &S129{A: false, x: 6716, A1: 6717, s128: s128{S126: S126{S121: S121{D: true, x: 6719.5, C: 6720, E: nil}, y: selp(6722)}}, S126: nil}, A: 6723, D: nil}, A: nil}, É: "v6726<", S132: S132{A1: []int{6727}, SelInt: 6728, s127: &s127{A: 0, S126: &S126{S121: S121{D: true, x: 0, C: 6732, E: []int{6733}}, y: selp(6734)}, y: nil, E: true}, Foo: 0}}},
	{"S134", S134{s131: s131{S126: S126{S121: S121{D: true, x: 6739.5, C: 6740, E: []int{6741}}, y: selp(6742)}, s127: &s127{A: 0, S126: &S126{S121: S121{D: true, x: 6745.5, C: 0, E: []int{6747}}, y: selp(6748)}, y: nil, E: true}, S130: nil, A: selp(6751)}, É: "v6752<", S132: S132{A1: nil, SelInt: 6754, s127: &s127{A: 6755.5, S126: &S126{S121: S121{D: true, x: 6757.5, C: 6758, E: []int{6759}}, y: selp(6760)}, y: selp(6761), E: true}, Foo: 6763}}},
	{"S135", S135{S132: &S132{A1: []int{6764}, SelInt: 6765, s127: &s127{A: 6766.5, S126: &S126{S121: S121{D: true, x: 6768.5, C: 0, E: []int{6770}}, y: selp(6771)}, y: selp(6772), E: false}, Foo: 0}, x: 6775, S134: S134{s131: s131{S126: S126{S121: S121{D: true, x: 0, C: 6778, E: []int{6779}}, y: selp(6780)}, s127: &s127{A: 6781.5, S126: nil, y: selp(6782), E: true}, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6784}}}, E: nil, y: selp(6786), D: true}, x: 6788, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6789}}}, E: selp(6790), y: selp(6791), D: false}, x: 6793, S130: nil, S129: nil, A: 6794, D: 6795}, S129: &S129{A: true, x: nil, A1: 6798, s128: s128{S126: S126{S121: S121{D: true, x: 0, C: 6801, E: nil}, y: selp(6803)}}, S126: nil}, A: 6804, D: 6805}, A: selp(6806)}, É: "v6807<", S132: S132{A1: []int{6808}, SelInt: 6809, s127: &s127{A: 6810.5, S126: &S126{S121: S121{D: true, x: 6812.5, C: 6813, E: nil}, y: selp(6815)}, y: selp(6816), E: false}, Foo: 6818}}, A1: nil}},
	{"S135", S135{S132: nil, x: 0, S134: S134{s131: s131{S126: S126{S121: S121{D: true, x: 0, C: 0, E: []int{6824}}, y: selp(6825)}, s127: &s127{A: 6826.5, S126: &S126{S121: S121{D: true, x: 6828.5, C: 6829, E: []int{6830}}, y: selp(6831)}, y: selp(6832), E: true}, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6834}}}, E: nil, y: selp(6836), D: true}, x: 0, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 6839}}}, E: selp(6840), y: selp(6841), D: true}, x: 6843, S130: nil, S129: nil, A: 6844, D: 6845}, S129: &S129{A: true, x: 6847, A1: 6848, s128: s128{S126: S126{S121: S121{D: true, x: 0, C: 6851, E: []int{6852}}, y: selp(6853)}}, S126: nil}, A: 6854, D: 6855}, A: selp(6856)}, É: "", S132: S132{A1: []int{6858}, SelInt: 6859, s127: &s127{A: 6860.5, S126: &S126{S121: S121{D: true, x: 6862.5, C: 6863, E: nil}, y: selp(6865)}, y: nil, E: true}, Foo: 0}}, A1: selp(6869)}},
	{"s137", s137{É: map[string]int{"k": 6870}, S106: S106{C: nil, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 6872}, s66: nil, s93: s93{A: 0, Foo: nil, s87: s87{S84: S84{Foo: 0, E: "v6876<", B: 6877.5, C: map[string]int{"k": 6878}}, A1: "v6879<", A: 0, s82: s82{S61: nil}}}, É: 6881}, D: 6882.5}}, y: map[string]int{"k": 6883}, s104: s104{S100: S100{A1: nil, y: 6885, s58: s58{S31: S31{É: "v6886<", S29: S29{Foo: 6887.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 6889, S1: S1{S0: S0{}, D: "v6890<", A1: 0}, B: selp(6892), C: 0, E: ""}}, D: 0, B: false, s55: s55{S50: nil, s2: nil}, E: 6897.5, S54: &S54{S39: nil, S48: S48{S45: nil, A1: 6898, C: nil}, A1: selp(6900), S54: nil, Foo: 6901, E: true}}}, S6: S6{s2: &s2{A1: true, x: "v6904<", y: nil, S0: S0{}, Foo: 6906.5, S1: nil}, S1: S1{S0: S0{}, D: "v6907<", A1: 0}}, y: 6909, S103: S103{D: 6910.5, A1: 6911, SelInt: 6912, S71: S71{S67: S67{D: "v6913<", s63: nil, B: []int{6914}, x: 6915, s65: s65{s40: s40{S37: nil, C: []int{6916}, s35: s35{C: map[string]int{"k": 6917}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 6919, s17: nil, D: map[string]int{"k": 6920}}, s22: nil, A1: map[string]int{"k": 6921}}}}, S32: S32{É: 6922.5, A: "", A1: []int{6924}}, B: map[string]int{"k": 6925}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 6927.5, s33: nil}, D: "v6928<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 6931}}, C: selp(6932)}, x: selp(6933), S24: S24{S21: nil, A: []int{6934}}, y: 6935.5}}, x: 6936}}, A: "v6937<", D: "v6938<", E: map[string]int{"k": 6939}}},
	{"s137", s137{É: map[string]int{"k": 6940}, S106: S106{C: 6941, s101: s101{s98: &s98{S95: S95{y: map[string]int{"k": 6942}, s66: nil, s93: s93{A: 6943, Foo: []int{6944}, s87: s87{S84: S84{Foo: 0, E: "v6946<", B: 0, C: map[string]int{"k": 6948}}, A1: "v6949<", A: 6950.5, s82: s82{S61: nil}}}, É: nil}, D: 6952.5}}, y: map[string]int{"k": 6953}, s104: s104{S100: S100{A1: nil, y: 6955, s58: s58{S31: S31{É: "v6956<", S29: S29{Foo: 6957.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 0, S1: S1{S0: S0{}, D: "v6960<", A1: 6961}, B: selp(6962), C: 6963.5, E: "v6964<"}}, D: 6965, B: true, s55: s55{S50: nil, s2: nil}, E: 6967.5, S54: &S54{S39: nil, S48: S48{S45: nil, A1: 6968, C: []int{6969}}, A1: selp(6970), S54: nil, Foo: 6971, E: true}}}, S6: S6{s2: &s2{A1: true, x: "v6974<", y: nil, S0: S0{}, Foo: 6976.5, S1: nil}, S1: S1{S0: S0{}, D: "", A1: 6978}}, y: 6979, S103: S103{D: 6980.5, A1: 6981, SelInt: 6982, S71: S71{S67: S67{D: "v6983<", s63: nil, B: []int{6984}, x: 6985, s65: s65{s40: s40{S37: nil, C: []int{6986}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 6988.5, C: 6989, s17: nil, D: map[string]int{"k": 6990}}, s22: nil, A1: nil}}}, S32: S32{É: 0, A: "", A1: []int{6994}}, B: map[string]int{"k": 6995}}, S39: S39{A: []int{6996}, S38: nil, S9: nil, A1: 6997.5, s33: nil}, D: "v6998<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 7001}}, C: selp(7002)}, x: selp(7003), S24: S24{S21: nil, A: []int{7004}}, y: 7005.5}}, x: 7006}}, A: "", D: "v7008<", E: map[string]int{"k": 7009}}},
	{"S138", S138{É: map[string]int{"k": 7010}}},
	{"S138", S138{É: map[string]int{"k": 7011}}},
	{"S139", S139{C: "", D: map[string]int{"k": 7013}, SelSlice: SelSlice{"x"}, É: []int{7015}}},
	{"S139", S139{C: "v7016<", D: map[string]int{"k": 7017}, SelSlice: SelSlice{"x"}, É: []int{7019}}},
	{"S140", S140{E: true}},
	{"S140", S140{E: true}},
	{"S141", S141{S140: S140{E: true}}},
	{"S141", S141{S140: S140{E: true}}},
	{"S142", S142{S8: S8{A: 0, s2: s2{A1: false, x: "v7026<", y: map[string]int{"k": 7027}, S0: S0{}, Foo: 7028.5, S1: &S1{S0: S0{}, D: "", A1: 7030}}, C: 7031.5, E: "v7032<"}, C: "v7033<", B: nil}},
	{"S142", S142{S8: S8{A: 7035.5, s2: s2{A1: true, x: "v7037<", y: map[string]int{"k": 7038}, S0: S0{}, Foo: 7039.5, S1: &S1{S0: S0{}, D: "v7040<", A1: 7041}}, C: 7042.5, E: "v7043<"}, C: "", B: selp(7045)}},
	{"s143", s143{É: 0, y: 0, A: []int{7048}, Foo: "v7049<"}},
	{"s143", s143{É: 7050, y: 7051, A: []int{7052}, Foo: "v7053<"}},
	{"s144", s144{D: 7054, S141: S141{S140: S140{E: true}}, É: []int{7056}}},
	{"s144", s144{D: 7057, S141: S141{S140: S140{E: true}}, É: []int{7059}}},
	{"S145", S145{Foo: "v7060<", S139: S139{C: "", D: map[string]int{"k": 7062}, SelSlice: SelSlice{"x"}, É: []int{7064}}}},
	{"S145", S145{Foo: "v7065<", S139: S139{C: "v7066<", D: map[string]int{"k": 7067}, SelSlice: SelSlice{"x"}, É: []int{7069}}}},
	{"s146", s146{A: selp(7070), s143: &s143{É: 0, y: 7072, A: []int{7073}, Foo: "v7074<"}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7076, S141: S141{S140: S140{E: true}}, É: []int{7078}}}},
	{"s146", s146{A: selp(7079), s143: &s143{É: 7080, y: 7081, A: []int{7082}, Foo: ""}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7085, S141: S141{S140: S140{E: true}}, É: []int{7087}}}},
	{"S147", S147{s146: s146{A: selp(7088), s143: nil, S141: &S141{S140: S140{E: false}}, s144: s144{D: 7090, S141: S141{S140: S140{E: true}}, É: []int{7092}}}, s144: &s144{D: 7093, S141: S141{S140: S140{E: true}}, É: []int{7095}}, A1: 7096}},
	{"S147", S147{s146: s146{A: selp(7097), s143: &s143{É: 0, y: 7099, A: []int{7100}, Foo: ""}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7103, S141: S141{S140: S140{E: true}}, É: []int{7105}}}, s144: nil, A1: 0}},
	{"s148", s148{}},
	{"s148", s148{}},
	{"S149", S149{A1: 7107.5}},
	{"S149", S149{A1: 7108.5}},
	{"S150", S150{S150: &S150{S150: nil}}},
	{"S150", S150{S150: &S150{S150: &S150{S150: &S150{S150: nil}}}}},
	{"s151", s151{s146: &s146{A: selp(7109), s143: &s143{É: 0, y: 7111, A: []int{7112}, Foo: "v7113<"}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7115, S141: S141{S140: S140{E: true}}, É: []int{7117}}}, D: "", S147: S147{s146: s146{A: selp(7119), s143: &s143{É: 7120, y: 7121, A: []int{7122}, Foo: "v7123<"}, S141: nil, s144: s144{D: 0, S141: S141{S140: S140{E: true}}, É: []int{7126}}}, s144: &s144{D: 7127, S141: S141{S140: S140{E: false}}, É: nil}, A1: 7130}}},
	{"s151", s151{s146: &s146{A: selp(7131), s143: nil, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7133, S141: S141{S140: S140{E: true}}, É: nil}}, D: "v7136<", S147: S147{s146: s146{A: selp(7137), s143: &s143{É: 7138, y: 7139, A: nil, Foo: "v7141<"}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 0, S141: S141{S140: S140{E: false}}, É: []int{7145}}}, s144: &s144{D: 7146, S141: S141{S140: S140{E: true}}, É: []int{7148}}, A1: 7149}}},
	{"S152", S152{s146: s146{A: selp(7150), s143: &s143{É: 7151, y: 0, A: nil, Foo: "v7154<"}, S141: &S141{S140: S140{E: false}}, s144: s144{D: 7156, S141: S141{S140: S140{E: true}}, É: []int{7158}}}, É: map[string]int{"k": 7159}, C: false, B: selp(7161), A: true}},
	{"S152", S152{s146: s146{A: nil, s143: &s143{É: 7164, y: 7165, A: []int{7166}, Foo: "v7167<"}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7169, S141: S141{S140: S140{E: true}}, É: []int{7171}}}, É: map[string]int{"k": 7172}, C: true, B: selp(7174), A: false}},
	{"S153", S153{S152: nil}},
	{"S153", S153{S152: &S152{s146: s146{A: nil, s143: &s143{É: 7177, y: 7178, A: []int{7179}, Foo: ""}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7182, S141: S141{S140: S140{E: true}}, É: nil}}, É: map[string]int{"k": 7185}, C: true, B: selp(7187), A: true}}},
	{"s154", s154{S50: S50{S48: &S48{S45: &S45{A: map[string]int{"k": 7189}, É: []int{7190}, D: 7191, S43: S43{D: "v7192<", S39: S39{A: nil, S38: nil, S9: nil, A1: 7194.5, s33: nil}, s42: s42{}, x: []int{7195}}}, A1: 7196, C: []int{7197}}, S12: S12{S1: &S1{S0: S0{}, D: "v7198<", A1: 7199}, selFunc: nil, S4: S4{}, B: nil, É: ""}}, É: map[string]int{"k": 7203}, D: map[string]int{"k": 7204}, s148: &s148{}, s151: &s151{s146: &s146{A: selp(7205), s143: &s143{É: 7206, y: 7207, A: []int{7208}, Foo: ""}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7211, S141: S141{S140: S140{E: false}}, É: []int{7213}}}, D: "", S147: S147{s146: s146{A: nil, s143: &s143{É: 0, y: 0, A: []int{7218}, Foo: "v7219<"}, S141: nil, s144: s144{D: 7220, S141: S141{S140: S140{E: true}}, É: []int{7222}}}, s144: &s144{D: 0, S141: S141{S140: S140{E: false}}, É: nil}, A1: 7226}}}},
	{"s154", s154{S50: S50{S48: &S48{S45: &S45{A: nil, É: nil, D: 7229, S43: S43{D: "v7230<", S39: S39{A: []int{7231}, S38: nil, S9: nil, A1: 0, s33: nil}, s42: s42{}, x: []int{7233}}}, A1: 7234, C: []int{7235}}, S12: S12{S1: &S1{S0: S0{}, D: "", A1: 0}, selFunc: nil, S4: S4{}, B: nil, É: "v7240<"}}, É: map[string]int{"k": 7241}, D: map[string]int{"k": 7242}, s148: &s148{}, s151: &s151{s146: &s146{A: selp(7243), s143: &s143{É: 7244, y: 7245, A: []int{7246}, Foo: "v7247<"}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7249, S141: S141{S140: S140{E: true}}, É: []int{7251}}}, D: "v7252<", S147: S147{s146: s146{A: nil, s143: &s143{É: 7254, y: 7255, A: []int{7256}, Foo: "v7257<"}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 7259, S141: S141{S140: S140{E: true}}, É: []int{7261}}}, s144: nil, A1: 7262}}}},
	{"S155", S155{s63: &s63{E: []int{7263}, s59: s59{A: 7264, S39: &S39{A: nil, S38: nil, S9: nil, A1: 0, s33: nil}, S57: S57{É: map[string]int{"k": 7267}, C: nil, E: []int{7269}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 7270, C: []int{7271}}, A1: selp(7272), S54: nil, Foo: nil, E: true}, s44: s44{x: map[string]int{"k": 7275}, s40: s40{S37: nil, C: []int{7276}, s35: s35{C: map[string]int{"k": 7277}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 7278.5, C: 7279, s17: nil, D: map[string]int{"k": 7280}}, s22: nil, A1: nil}}}, S32: S32{É: 7282.5, A: "v7283<", A1: nil}, B: map[string]int{"k": 7285}}, S39: S39{A: []int{7286}, S38: nil, S9: nil, A1: 7287.5, s33: nil}, D: ""}, S11: nil, S41: S41{É: 7289, D: map[string]int{"k": 7290}, S8: S8{A: 7291.5, s2: s2{A1: true, x: "v7293<", y: map[string]int{"k": 7294}, S0: S0{}, Foo: 0, S1: nil}, C: 7296.5, E: "v7297<"}, y: 7298, S29: S29{Foo: 7299.5}, s40: nil}}, s55: &s55{S50: nil, s2: nil}}, S4: &S4{}, B: true}, S24: &S24{S21: &S21{s20: nil, D: 7301, A: nil, x: []int{7303}}, A: nil}}, D: false, C: "v7306<"}},
	{"S155", S155{s63: &s63{E: []int{7307}, s59: s59{A: 7308, S39: &S39{A: nil, S38: nil, S9: nil, A1: 0, s33: nil}, S57: S57{É: map[string]int{"k": 7311}, C: nil, E: []int{7313}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 7314, C: []int{7315}}, A1: selp(7316), S54: nil, Foo: 7317, E: false}, s44: s44{x: nil, s40: s40{S37: nil, C: []int{7320}, s35: s35{C: map[string]int{"k": 7321}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 7322.5, C: 7323, s17: nil, D: map[string]int{"k": 7324}}, s22: nil, A1: map[string]int{"k": 7325}}}}, S32: S32{É: 7326.5, A: "v7327<", A1: []int{7328}}, B: nil}, S39: S39{A: []int{7330}, S38: nil, S9: nil, A1: 0, s33: nil}, D: ""}, S11: nil, S41: S41{É: 7333, D: map[string]int{"k": 7334}, S8: S8{A: 7335.5, s2: s2{A1: true, x: "v7337<", y: map[string]int{"k": 7338}, S0: S0{}, Foo: 0, S1: nil}, C: 7340.5, E: "v7341<"}, y: 7342, S29: S29{Foo: 7343.5}, s40: nil}}, s55: &s55{S50: nil, s2: nil}}, S4: &S4{}, B: true}, S24: &S24{S21: &S21{s20: nil, D: 7345, A: selp(7346), x: []int{7347}}, A: nil}}, D: true, C: ""}},
	{"s156", s156{y: 7351, S155: S155{s63: &s63{E: []int{7352}, s59: s59{A: 7353, S39: nil, S57: S57{É: nil, C: nil, E: []int{7356}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 7357, C: []int{7358}}, A1: selp(7359), S54: nil, Foo: 7360, E: true}, s44: s44{x: nil, s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 7364}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 7365.5, C: 7366, s17: nil, D: map[string]int{"k": 7367}}, s22: nil, A1: nil}}}, S32: S32{É: 0, A: "v7370<", A1: []int{7371}}, B: map[string]int{"k": 7372}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 7374.5, s33: nil}, D: "v7375<"}, S11: nil, S41: S41{É: 7376, D: map[string]int{"k": 7377}, S8: S8{A: 7378.5, s2: s2{A1: true, x: "v7380<", y: map[string]int{"k": 7381}, S0: S0{}, Foo: 7382.5, S1: nil}, C: 7383.5, E: "v7384<"}, y: 7385, S29: S29{Foo: 7386.5}, s40: nil}}, s55: nil}, S4: nil, B: true}, S24: nil}, D: true, C: "v7389<"}}},
	{"s156", s156{y: 7390, S155: S155{s63: &s63{E: []int{7391}, s59: s59{A: 0, S39: &S39{A: nil, S38: nil, S9: nil, A1: 7394.5, s33: nil}, S57: S57{É: map[string]int{"k": 7395}, C: 7396, E: []int{7397}, S54: S54{S39: nil, S48: S48{S45: nil, A1: 7398, C: []int{7399}}, A1: selp(7400), S54: nil, Foo: 7401, E: true}, s44: s44{x: map[string]int{"k": 7403}, s40: s40{S37: nil, C: []int{7404}, s35: s35{C: map[string]int{"k": 7405}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 7406.5, C: 7407, s17: nil, D: map[string]int{"k": 7408}}, s22: nil, A1: map[string]int{"k": 7409}}}}, S32: S32{É: 7410.5, A: "v7411<", A1: []int{7412}}, B: map[string]int{"k": 7413}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v7416<"}, S11: nil, S41: S41{É: nil, D: map[string]int{"k": 7418}, S8: S8{A: 7419.5, s2: s2{A1: true, x: "", y: nil, S0: S0{}, Foo: 7423.5, S1: nil}, C: 0, E: ""}, y: 7426, S29: S29{Foo: 0}, s40: nil}}, s55: nil}, S4: nil, B: false}, S24: &S24{S21: nil, A: nil}}, D: true, C: "v7431<"}}},
	{"s157", s157{É: true, Foo: []int{7433}, E: 7434, B: 7435}},
	{"s157", s157{É: true, Foo: []int{7437}, E: 0, B: nil}},
	{"s158", s158{x: selp(7440), A1: []int{7441}}},
	{"s158", s158{x: selp(7442), A1: []int{7443}}},
	{"S159", S159{x: 7444, s154: &s154{S50: S50{S48: &S48{S45: nil, A1: nil, C: []int{7446}}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{7448}, É: ""}}, É: map[string]int{"k": 7450}, D: nil, s148: &s148{}, s151: &s151{s146: &s146{A: selp(7452), s143: nil, S141: nil, s144: s144{D: 7453, S141: S141{S140: S140{E: false}}, É: []int{7455}}}, D: "v7456<", S147: S147{s146: s146{A: selp(7457), s143: nil, S141: nil, s144: s144{D: 7458, S141: S141{S140: S140{E: true}}, É: []int{7460}}}, s144: nil, A1: 0}}}, A1: map[string]int{"k": 7462}}},
	{"S159", S159{x: 7463, s154: &s154{S50: S50{S48: &S48{S45: nil, A1: 7464, C: []int{7465}}, S12: S12{S1: &S1{S0: S0{}, D: "v7466<", A1: 7467}, selFunc: nil, S4: S4{}, B: []int{7469}, É: ""}}, É: map[string]int{"k": 7471}, D: map[string]int{"k": 7472}, s148: &s148{}, s151: &s151{s146: &s146{A: selp(7473), s143: nil, S141: nil, s144: s144{D: 0, S141: S141{S140: S140{E: true}}, É: []int{7476}}}, D: "", S147: S147{s146: s146{A: selp(7478), s143: nil, S141: nil, s144: s144{D: 0, S141: S141{S140: S140{E: false}}, É: nil}}, s144: nil, A1: 0}}}, A1: map[string]int{"k": 7483}}},
	{"S161", S161{S121: &S121{D: true, x: 7485.5, C: 0, E: []int{7487}}, E: 7488, A1: 7489}},
	{"S161", S161{S121: &S121{D: true, x: 7491.5, C: 7492, E: []int{7493}}, E: 7494, A1: 7495}},
	{"S162", S162{y: 7496, A1: nil, S161: &S161{S121: &S121{D: true, x: 7499.5, C: 7500, E: nil}, E: 7502, A1: 7503}}},
	{"S162", S162{y: 7504, A1: []int{7505}, S161: &S161{S121: &S121{D: true, x: 7507.5, C: 7508, E: []int{7509}}, E: nil, A1: 7511}}},
	{"S163", S163{s119: &s119{x: map[string]int{"k": 7512}}, S161: &S161{S121: &S121{D: true, x: 7514.5, C: 7515, E: []int{7516}}, E: nil, A1: 7518}, Foo: []int{7519}, S159: S159{x: 7520, s154: &s154{S50: S50{S48: &S48{S45: nil, A1: 7521, C: nil}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{7524}, É: "v7525<"}}, É: map[string]int{"k": 7526}, D: map[string]int{"k": 7527}, s148: &s148{}, s151: &s151{s146: nil, D: "v7528<", S147: S147{s146: s146{A: selp(7529), s143: nil, S141: nil, s144: s144{D: 7530, S141: S141{S140: S140{E: true}}, É: []int{7532}}}, s144: nil, A1: 7533}}}, A1: map[string]int{"k": 7534}}, A: []int{7535}, D: []int{7536}}},
	{"S163", S163{s119: &s119{x: map[string]int{"k": 7537}}, S161: &S161{S121: &S121{D: true, x: 7539.5, C: 7540, E: []int{7541}}, E: 7542, A1: 7543}, Foo: []int{7544}, S159: S159{x: 7545, s154: &s154{S50: S50{S48: &S48{S45: nil, A1: 7546, C: []int{7547}}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{7549}, É: "v7550<"}}, É: map[string]int{"k": 7551}, D: map[string]int{"k": 7552}, s148: nil, s151: nil}, A1: nil}, A: []int{7554}, D: []int{7555}}},
	{"S166", S166{S161: S161{S121: &S121{D: true, x: 0, C: 0, E: []int{7559}}, E: 7560, A1: 7561}, selStr: "s7562"}},
	{"S166", S166{S161: S161{S121: &S121{D: true, x: 7564.5, C: 7565, E: []int{7566}}, E: 7567, A1: 7568}, selStr: "s7569"}},
	{"S167", S167{x: map[string]int{"k": 7570}, s120: s120{s119: s119{x: map[string]int{"k": 7571}}, s116: s116{s111: s111{C: 7572.5, A: 7573, S18: S18{D: nil, x: 7575, C: []int{7576}, S14: S14{D: []int{7577}, É: 7578, x: selp(7579), S11: nil}}, É: "v7580<", SelIface: SelIface(7581)}}, E: true, A1: []int{7583}, s114: &s114{D: nil, S108: &S108{}}, A: nil}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, A: 0}},
	{"S167", S167{x: nil, s120: s120{s119: s119{x: map[string]int{"k": 7590}}, s116: s116{s111: s111{C: 7591.5, A: 7592, S18: S18{D: nil, x: 7594, C: nil, S14: S14{D: []int{7596}, É: 7597, x: selp(7598), S11: nil}}, É: "v7599<", SelIface: SelIface(7600)}}, E: true, A1: []int{7602}, s114: nil, A: map[string]int{"k": 7603}}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, A: 7606}},
	{"S168", S168{x: map[string]int{"k": 7607}}},
	{"S168", S168{x: map[string]int{"k": 7608}}},
	{"S169", S169{A: 7609, É: "v7610<", s93: s93{A: 7611, Foo: []int{7612}, s87: s87{S84: S84{Foo: 7613, E: "v7614<", B: 7615.5, C: map[string]int{"k": 7616}}, A1: "v7617<", A: 0, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}}},
	{"S169", S169{A: 0, É: "v7622<", s93: s93{A: 7623, Foo: []int{7624}, s87: s87{S84: S84{Foo: 7625, E: "", B: 7627.5, C: map[string]int{"k": 7628}}, A1: "", A: 7630.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}}},
	{"S170", S170{D: true}},
	{"S170", S170{D: true}},
	{"S173", S173{S167: &S167{x: nil, s120: s120{s119: s119{x: nil}, s116: s116{s111: s111{C: 7637.5, A: 7638, S18: S18{D: []int{7639}, x: 7640, C: []int{7641}, S14: S14{D: []int{7642}, É: 7643, x: nil, S11: nil}}, É: "", SelIface: SelIface(7646)}}, E: true, A1: nil, s114: &s114{D: nil, S108: nil}, A: map[string]int{"k": 7650}}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, A: 7653}, D: map[string]int{"k": 7654}, B: 0}},
	{"S173", S173{S167: &S167{x: map[string]int{"k": 7656}, s120: s120{s119: s119{x: map[string]int{"k": 7657}}, s116: s116{s111: s111{C: 7658.5, A: 0, S18: S18{D: []int{7660}, x: 7661, C: []int{7662}, S14: S14{D: nil, É: 7664, x: selp(7665), S11: nil}}, É: "v7666<", SelIface: SelIface(7667)}}, E: true, A1: []int{7669}, s114: nil, A: map[string]int{"k": 7670}}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, A: 7673}, D: map[string]int{"k": 7674}, B: 7675.5}},
	{"s174", s174{C: true, B: 7677.5, S50: &S50{S48: &S48{S45: &S45{A: map[string]int{"k": 7678}, É: []int{7679}, D: 7680, S43: S43{D: "v7681<", S39: S39{A: []int{7682}, S38: nil, S9: nil, A1: 7683.5, s33: nil}, s42: s42{}, x: []int{7684}}}, A1: 7685, C: []int{7686}}, S12: S12{S1: &S1{S0: S0{}, D: "", A1: 7688}, selFunc: nil, S4: S4{}, B: []int{7690}, É: "v7691<"}}, E: []int{7692}}},
	{"s174", s174{C: true, B: 7694.5, S50: &S50{S48: &S48{S45: &S45{A: nil, É: []int{7696}, D: 7697, S43: S43{D: "", S39: S39{A: []int{7699}, S38: nil, S9: nil, A1: 7700.5, s33: nil}, s42: s42{}, x: []int{7701}}}, A1: 7702, C: []int{7703}}, S12: S12{S1: &S1{S0: S0{}, D: "v7704<", A1: 7705}, selFunc: nil, S4: S4{}, B: []int{7707}, É: "v7708<"}}, E: []int{7709}}},
	{"S175", S175{y: 7710, É: selp(7711)}},
	{"S175", S175{y: 7712, É: nil}},
	{"S176", S176{s7: &s7{C: 7714, y: 7715, s5: &s5{B: []int{7716}, A1: nil, S4: S4{}}}, s171: s171{D: 7718, C: 7719.5, S165: S165{x: map[string]int{"k": 7720}, C: 7721, s160: &s160{x: "v7722<", C: map[string]int{"k": 7723}, S159: S159{x: 7724, s154: nil, A1: map[string]int{"k": 7725}}, s44: &s44{x: map[string]int{"k": 7726}, s40: s40{S37: nil, C: []int{7727}, s35: s35{C: map[string]int{"k": 7728}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 7729.5, C: 7730, s17: nil, D: map[string]int{"k": 7731}}, s22: nil, A1: map[string]int{"k": 7732}}}}, S32: S32{É: 7733.5, A: "v7734<", A1: []int{7735}}, B: nil}, S39: S39{A: []int{7737}, S38: nil, S9: nil, A1: 7738.5, s33: nil}, D: "v7739<"}, S11: nil, S41: S41{É: 7740, D: map[string]int{"k": 7741}, S8: S8{A: 7742.5, s2: s2{A1: true, x: "v7744<", y: map[string]int{"k": 7745}, S0: S0{}, Foo: 7746.5, S1: nil}, C: 7747.5, E: "v7748<"}, y: 7749, S29: S29{Foo: 7750.5}, s40: nil}}, Foo: []int{7751}, s160: &s160{x: "v7752<", C: nil, S159: S159{x: 7754, s154: nil, A1: map[string]int{"k": 7755}}, s44: nil, Foo: []int{7756}, s160: nil}}, É: "", s115: s115{S21: &S21{s20: nil, D: 7758, A: nil, x: []int{7760}}, s115: &s115{S21: nil, s115: nil, A1: []int{7761}, S56: nil, E: 0}, A1: nil, S56: &S56{y: []int{7764}, s53: s53{Foo: 7765, S48: S48{S45: nil, A1: 7766, C: []int{7767}}, D: []int{7768}}, s55: s55{S50: nil, s2: nil}}, E: 7769}, S159: S159{x: 7770, s154: &s154{S50: S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{7772}, É: ""}}, É: map[string]int{"k": 7774}, D: map[string]int{"k": 7775}, s148: nil, s151: nil}, A1: map[string]int{"k": 7776}}}, A: selp(7777), E: selp(7778)}}},
	{"S176", S176{s7: &s7{C: 7779, y: 7780, s5: &s5{B: []int{7781}, A1: nil, S4: S4{}}}, s171: s171{D: 7783, C: 7784.5, S165: S165{x: map[string]int{"k": 7785}, C: 7786, s160: nil, É: "v7787<", s115: s115{S21: &S21{s20: nil, D: 7788, A: selp(7789), x: nil}, s115: &s115{S21: nil, s115: nil, A1: []int{7791}, S56: nil, E: 7792}, A1: []int{7793}, S56: &S56{y: []int{7794}, s53: s53{Foo: 7795, S48: S48{S45: nil, A1: nil, C: []int{7797}}, D: nil}, s55: s55{S50: nil, s2: nil}}, E: 7799}, S159: S159{x: 7800, s154: &s154{S50: S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{7802}, É: "v7803<"}}, É: map[string]int{"k": 7804}, D: map[string]int{"k": 7805}, s148: nil, s151: nil}, A1: map[string]int{"k": 7806}}}, A: nil, E: selp(7808)}}},
	{"s178", s178{S175: &S175{y: 7809, É: selp(7810)}, S176: S176{s7: nil, s171: s171{D: 0, C: 7812.5, S165: S165{x: map[string]int{"k": 7813}, C: 7814, s160: &s160{x: "", C: map[string]int{"k": 7816}, S159: S159{x: 7817, s154: nil, A1: map[string]int{"k": 7818}}, s44: nil, Foo: []int{7819}, s160: nil}, É: "v7820<", s115: s115{S21: &S21{s20: nil, D: nil, A: nil, x: []int{7823}}, s115: &s115{S21: nil, s115: nil, A1: []int{7824}, S56: nil, E: 0}, A1: []int{7826}, S56: &S56{y: []int{7827}, s53: s53{Foo: 7828, S48: S48{S45: nil, A1: 7829, C: nil}, D: []int{7831}}, s55: s55{S50: nil, s2: nil}}, E: 7832}, S159: S159{x: nil, s154: &s154{S50: S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: nil, É: "v7836<"}}, É: map[string]int{"k": 7837}, D: map[string]int{"k": 7838}, s148: nil, s151: nil}, A1: map[string]int{"k": 7839}}}, A: selp(7840), E: selp(7841)}}}},
	{"s178", s178{S175: &S175{y: 7842, É: selp(7843)}, S176: S176{s7: &s7{C: 7844, y: 7845, s5: &s5{B: []int{7846}, A1: selp(7847), S4: S4{}}}, s171: s171{D: 0, C: 7849.5, S165: S165{x: map[string]int{"k": 7850}, C: 7851, s160: &s160{x: "v7852<", C: map[string]int{"k": 7853}, S159: S159{x: nil, s154: nil, A1: map[string]int{"k": 7855}}, s44: nil, Foo: nil, s160: nil}, É: "v7857<", s115: s115{S21: &S21{s20: nil, D: nil, A: selp(7859), x: []int{7860}}, s115: &s115{S21: nil, s115: nil, A1: []int{7861}, S56: nil, E: 7862}, A1: []int{7863}, S56: &S56{y: []int{7864}, s53: s53{Foo: 0, S48: S48{S45: nil, A1: 7866, C: nil}, D: []int{7868}}, s55: s55{S50: nil, s2: nil}}, E: 7869}, S159: S159{x: 7870, s154: &s154{S50: S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{7872}, É: "v7873<"}}, É: nil, D: map[string]int{"k": 7875}, s148: nil, s151: nil}, A1: map[string]int{"k": 7876}}}, A: selp(7877), E: selp(7878)}}}},
	{"S179", S179{A1: 7879, S173: &S173{S167: &S167{x: map[string]int{"k": 7880}, s120: s120{s119: s119{x: map[string]int{"k": 7881}}, s116: s116{s111: s111{C: 7882.5, A: 7883, S18: S18{D: []int{7884}, x: 7885, C: []int{7886}, S14: S14{D: nil, É: 7888, x: nil, S11: nil}}, É: "v7890<", SelIface: SelIface(7891)}}, E: true, A1: nil, s114: nil, A: map[string]int{"k": 7894}}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, A: 7897}, D: map[string]int{"k": 7898}, B: 7899.5}, S175: S175{y: 7900, É: selp(7901)}}},
	{"S179", S179{A1: 7902, S173: &S173{S167: nil, D: map[string]int{"k": 7903}, B: 7904.5}, S175: S175{y: 0, É: selp(7906)}}},
	{"s180", s180{s178: nil, A1: "", s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 7908, C: 7909.5, S165: S165{x: nil, C: 7911, s160: nil, É: "v7912<", s115: s115{S21: nil, s115: nil, A1: nil, S56: nil, E: 0}, S159: S159{x: 7915, s154: nil, A1: nil}}, A: selp(7917), E: selp(7918)}}}, A1: "v7919<", s180: nil, É: selp(7920)}, É: selp(7921)}},
	{"s180", s180{s178: &s178{S175: &S175{y: 7922, É: nil}, S176: S176{s7: &s7{C: 7924, y: 0, s5: nil}, s171: s171{D: 7926, C: 7927.5, S165: S165{x: nil, C: 7929, s160: nil, É: "v7930<", s115: s115{S21: nil, s115: nil, A1: []int{7931}, S56: nil, E: 7932}, S159: S159{x: 7933, s154: nil, A1: map[string]int{"k": 7934}}}, A: selp(7935), E: selp(7936)}}}, A1: "v7937<", s180: nil, É: selp(7938)}},
	{"s181", s181{Foo: true, A1: 7940.5, D: "v7941<", S175: S175{y: 7942, É: selp(7943)}, s104: &s104{S100: S100{A1: selp(7944), y: 7945, s58: s58{S31: S31{É: "v7946<", S29: S29{Foo: 7947.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 7949, S1: S1{S0: S0{}, D: "v7950<", A1: 0}, B: nil, C: 7953.5, E: "v7954<"}}, D: 7955, B: true, s55: s55{S50: nil, s2: nil}, E: 7957.5, S54: &S54{S39: nil, S48: S48{S45: nil, A1: 7958, C: []int{7959}}, A1: selp(7960), S54: nil, Foo: nil, E: false}}}, S6: S6{s2: &s2{A1: false, x: "", y: map[string]int{"k": 7965}, S0: S0{}, Foo: 7966.5, S1: nil}, S1: S1{S0: S0{}, D: "v7967<", A1: 7968}}, y: 7969, S103: S103{D: 7970.5, A1: 7971, SelInt: 7972, S71: S71{S67: S67{D: "v7973<", s63: nil, B: []int{7974}, x: 7975, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 7977}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 7978.5, C: 7979, s17: nil, D: map[string]int{"k": 7980}}, s22: nil, A1: map[string]int{"k": 7981}}}}, S32: S32{É: 0, A: "v7983<", A1: []int{7984}}, B: map[string]int{"k": 7985}}, S39: S39{A: []int{7986}, S38: nil, S9: nil, A1: 7987.5, s33: nil}, D: "v7988<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 7991}}, C: selp(7992)}, x: selp(7993), S24: S24{S21: nil, A: nil}, y: 7995.5}}, x: 7996}}},
	{"s181", s181{Foo: true, A1: 7998.5, D: "v7999<", S175: S175{y: 8000, É: selp(8001)}, s104: &s104{S100: S100{A1: selp(8002), y: 0, s58: s58{S31: S31{É: "v8004<", S29: S29{Foo: 0}, SelSlice: SelSlice{"x"}, S25: S25{x: 8007, S1: S1{S0: S0{}, D: "v8008<", A1: 8009}, B: selp(8010), C: 0, E: "v8012<"}}, D: 8013, B: true, s55: s55{S50: nil, s2: nil}, E: 8015.5, S54: &S54{S39: nil, S48: S48{S45: nil, A1: 8016, C: nil}, A1: selp(8018), S54: nil, Foo: 8019, E: true}}}, S6: S6{s2: &s2{A1: true, x: "", y: map[string]int{"k": 8023}, S0: S0{}, Foo: 8024.5, S1: nil}, S1: S1{S0: S0{}, D: "v8025<", A1: 0}}, y: 8027, S103: S103{D: 8028.5, A1: nil, SelInt: 8030, S71: S71{S67: S67{D: "", s63: nil, B: []int{8032}, x: 8033, s65: s65{s40: s40{S37: nil, C: nil, s35: s35{C: map[string]int{"k": 8035}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 8036.5, C: 8037, s17: nil, D: map[string]int{"k": 8038}}, s22: nil, A1: map[string]int{"k": 8039}}}}, S32: S32{É: 8040.5, A: "v8041<", A1: []int{8042}}, B: map[string]int{"k": 8043}}, S39: S39{A: []int{8044}, S38: nil, S9: nil, A1: 8045.5, s33: nil}, D: "v8046<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 8049}}, C: selp(8050)}, x: selp(8051), S24: S24{S21: nil, A: nil}, y: 8053.5}}, x: 8054}}},
	{"S182", S182{S179: &S179{A1: 8055, S173: &S173{S167: &S167{x: map[string]int{"k": 8056}, s120: s120{s119: s119{x: map[string]int{"k": 8057}}, s116: s116{s111: s111{C: 0, A: 8059, S18: S18{D: []int{8060}, x: 8061, C: []int{8062}, S14: S14{D: nil, É: 8064, x: selp(8065), S11: nil}}, É: "v8066<", SelIface: SelIface(8067)}}, E: true, A1: []int{8069}, s114: nil, A: map[string]int{"k": 8070}}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, A: 0}, D: map[string]int{"k": 8074}, B: 8075.5}, S175: S175{y: 8076, É: selp(8077)}}, y: map[string]int{"k": 8078}, Foo: "", x: []int{8080}}},
	{"S182", S182{S179: nil, y: map[string]int{"k": 8081}, Foo: "v8082<", x: []int{8083}}},
	{"S184", S184{É: "", A: 8085, S179: nil, s180: nil, E: 8086}},
	{"S184", S184{É: "v8087<", A: 8088, S179: &S179{A1: 0, S173: &S173{S167: &S167{x: map[string]int{"k": 8090}, s120: s120{s119: s119{x: map[string]int{"k": 8091}}, s116: s116{s111: s111{C: 8092.5, A: 0, S18: S18{D: []int{8094}, x: 8095, C: []int{8096}, S14: S14{D: nil, É: 0, x: selp(8099), S11: nil}}, É: "v8100<", SelIface: SelIface(8101)}}, E: false, A1: []int{8103}, s114: nil, A: nil}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, A: 8107}, D: map[string]int{"k": 8108}, B: 8109.5}, S175: S175{y: 8110, É: selp(8111)}}, s180: &s180{s178: &s178{S175: &S175{y: 8112, É: nil}, S176: S176{s7: nil, s171: s171{D: 8114, C: 8115.5, S165: S165{x: map[string]int{"k": 8116}, C: 8117, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8119}, S56: nil, E: 8120}, S159: S159{x: 8121, s154: nil, A1: nil}}, A: selp(8123), E: selp(8124)}}}, A1: "v8125<", s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8126, C: 8127.5, S165: S165{x: map[string]int{"k": 8128}, C: 8129, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8131}, S56: nil, E: 8132}, S159: S159{x: nil, s154: nil, A1: map[string]int{"k": 8134}}}, A: selp(8135), E: selp(8136)}}}, A1: "v8137<", s180: &s180{s178: nil, A1: "v8138<", s180: nil, É: selp(8139)}, É: selp(8140)}, É: nil}, E: 0}},
	{"S185", S185{s180: s180{s178: &s178{S175: &S175{y: 0, É: selp(8144)}, S176: S176{s7: &s7{C: 8145, y: 8146, s5: nil}, s171: s171{D: 0, C: 8148.5, S165: S165{x: map[string]int{"k": 8149}, C: 8150, s160: nil, É: "v8151<", s115: s115{S21: nil, s115: nil, A1: []int{8152}, S56: nil, E: 0}, S159: S159{x: 8154, s154: nil, A1: map[string]int{"k": 8155}}}, A: selp(8156), E: nil}}}, A1: "v8158<", s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8159, C: 8160.5, S165: S165{x: map[string]int{"k": 8161}, C: 8162, s160: nil, É: "v8163<", s115: s115{S21: nil, s115: nil, A1: []int{8164}, S56: nil, E: 8165}, S159: S159{x: 8166, s154: nil, A1: map[string]int{"k": 8167}}}, A: selp(8168), E: selp(8169)}}}, A1: "", s180: nil, É: selp(8171)}, É: selp(8172)}, É: 8173.5, D: 8174.5, A1: "v8175<"}},
	{"S185", S185{s180: s180{s178: &s178{S175: &S175{y: 8176, É: selp(8177)}, S176: S176{s7: &s7{C: nil, y: 8179, s5: nil}, s171: s171{D: 8180, C: 8181.5, S165: S165{x: map[string]int{"k": 8182}, C: 8183, s160: nil, É: "v8184<", s115: s115{S21: nil, s115: nil, A1: nil, S56: nil, E: 8186}, S159: S159{x: 8187, s154: nil, A1: map[string]int{"k": 8188}}}, A: selp(8189), E: selp(8190)}}}, A1: "v8191<", s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 0, C: 8193.5, S165: S165{x: map[string]int{"k": 8194}, C: 8195, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8197}, S56: nil, E: 8198}, S159: S159{x: 8199, s154: nil, A1: map[string]int{"k": 8200}}}, A: selp(8201), E: selp(8202)}}}, A1: "v8203<", s180: nil, É: selp(8204)}, É: selp(8205)}, É: 0, D: 8207.5, A1: "v8208<"}},
	{"S186", S186{x: selp(8209), C: selp(8210), A: selp(8211), S185: S185{s180: s180{s178: &s178{S175: &S175{y: 8212, É: selp(8213)}, S176: S176{s7: nil, s171: s171{D: 8214, C: 8215.5, S165: S165{x: map[string]int{"k": 8216}, C: 8217, s160: nil, É: "v8218<", s115: s115{S21: nil, s115: nil, A1: []int{8219}, S56: nil, E: 0}, S159: S159{x: 8221, s154: nil, A1: map[string]int{"k": 8222}}}, A: selp(8223), E: selp(8224)}}}, A1: "v8225<", s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8226, C: 8227.5, S165: S165{x: map[string]int{"k": 8228}, C: 8229, s160: nil, É: "v8230<", s115: s115{S21: nil, s115: nil, A1: []int{8231}, S56: nil, E: 8232}, S159: S159{x: 8233, s154: nil, A1: map[string]int{"k": 8234}}}, A: selp(8235), E: selp(8236)}}}, A1: "v8237<", s180: nil, É: selp(8238)}, É: nil}, É: 8240.5, D: 8241.5, A1: "v8242<"}}},
	{"S186", S186{x: selp(8243), C: selp(8244), A: selp(8245), S185: S185{s180: s180{s178: &s178{S175: &S175{y: 8246, É: nil}, S176: S176{s7: nil, s171: s171{D: 8248, C: 8249.5, S165: S165{x: map[string]int{"k": 8250}, C: 8251, s160: nil, É: "v8252<", s115: s115{S21: nil, s115: nil, A1: []int{8253}, S56: nil, E: 8254}, S159: S159{x: 8255, s154: nil, A1: map[string]int{"k": 8256}}}, A: selp(8257), E: nil}}}, A1: "", s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8260, C: 8261.5, S165: S165{x: map[string]int{"k": 8262}, C: 8263, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8265}, S56: nil, E: 8266}, S159: S159{x: 8267, s154: nil, A1: map[string]int{"k": 8268}}}, A: selp(8269), E: nil}}}, A1: "v8271<", s180: &s180{s178: nil, A1: "v8272<", s180: nil, É: selp(8273)}, É: selp(8274)}, É: selp(8275)}, É: 8276.5, D: 8277.5, A1: ""}}},
	{"S187", S187{S163: &S163{s119: &s119{x: map[string]int{"k": 8279}}, S161: &S161{S121: &S121{D: false, x: 8281.5, C: 8282, E: []int{8283}}, E: 8284, A1: 8285}, Foo: []int{8286}, S159: S159{x: 8287, s154: &s154{S50: S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{8289}, É: "v8290<"}}, É: map[string]int{"k": 8291}, D: map[string]int{"k": 8292}, s148: nil, s151: nil}, A1: nil}, A: []int{8294}, D: nil}, x: "v8296<", Foo: 8297, S185: S185{s180: s180{s178: &s178{S175: &S175{y: 8298, É: nil}, S176: S176{s7: nil, s171: s171{D: 8300, C: 8301.5, S165: S165{x: map[string]int{"k": 8302}, C: 8303, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: nil, S56: nil, E: 8306}, S159: S159{x: 8307, s154: nil, A1: nil}}, A: selp(8309), E: selp(8310)}}}, A1: "v8311<", s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8312, C: 0, S165: S165{x: map[string]int{"k": 8314}, C: 8315, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: nil, S56: nil, E: 8318}, S159: S159{x: 8319, s154: nil, A1: map[string]int{"k": 8320}}}, A: nil, E: selp(8322)}}}, A1: "v8323<", s180: &s180{s178: nil, A1: "v8324<", s180: nil, É: nil}, É: selp(8326)}, É: selp(8327)}, É: 8328.5, D: 0, A1: "v8330<"}, D: true, S75: S75{S74: S74{C: 0, E: nil, S71: &S71{S67: S67{D: "v8334<", s63: nil, B: []int{8335}, x: 8336, s65: s65{s40: s40{S37: nil, C: []int{8337}, s35: s35{C: map[string]int{"k": 8338}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 8339.5, C: 8340, s17: nil, D: map[string]int{"k": 8341}}, s22: nil, A1: map[string]int{"k": 8342}}}}, S32: S32{É: 8343.5, A: "v8344<", A1: []int{8345}}, B: map[string]int{"k": 8346}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 8348.5, s33: nil}, D: "v8349<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 8352}}, C: selp(8353)}, x: selp(8354), S24: S24{S21: nil, A: nil}, y: 8356.5}}, A1: true, Foo: map[string]int{"k": 8358}, A: 8359.5}}},
	{"S187", S187{S163: &S163{s119: &s119{x: map[string]int{"k": 8360}}, S161: &S161{S121: &S121{D: true, x: 8362.5, C: 0, E: []int{8364}}, E: 8365, A1: 8366}, Foo: []int{8367}, S159: S159{x: nil, s154: &s154{S50: S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{8370}, É: ""}}, É: map[string]int{"k": 8372}, D: nil, s148: nil, s151: nil}, A1: map[string]int{"k": 8374}}, A: []int{8375}, D: []int{8376}}, x: "v8377<", Foo: 8378, S185: S185{s180: s180{s178: &s178{S175: &S175{y: 8379, É: selp(8380)}, S176: S176{s7: nil, s171: s171{D: 8381, C: 8382.5, S165: S165{x: map[string]int{"k": 8383}, C: 8384, s160: nil, É: "v8385<", s115: s115{S21: nil, s115: nil, A1: nil, S56: nil, E: 8387}, S159: S159{x: 8388, s154: nil, A1: map[string]int{"k": 8389}}}, A: selp(8390), E: selp(8391)}}}, A1: "v8392<", s180: &s180{s178: nil, A1: "v8393<", s180: &s180{s178: nil, A1: "v8394<", s180: nil, É: selp(8395)}, É: selp(8396)}, É: selp(8397)}, É: 0, D: 8399.5, A1: "v8400<"}, D: true, S75: S75{S74: S74{C: 0, E: 8403, S71: &S71{S67: S67{D: "v8404<", s63: nil, B: nil, x: 8406, s65: s65{s40: s40{S37: nil, C: []int{8407}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 8409.5, C: 8410, s17: nil, D: nil}, s22: nil, A1: nil}}}, S32: S32{É: 8413.5, A: "", A1: []int{8415}}, B: map[string]int{"k": 8416}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v8419<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: nil}, C: selp(8423)}, x: selp(8424), S24: S24{S21: nil, A: []int{8425}}, y: 8426.5}}, A1: true, Foo: nil, A: 8429.5}}},
	{"s188", s188{S187: &S187{S163: &S163{s119: &s119{x: map[string]int{"k": 8430}}, S161: &S161{S121: nil, E: 8431, A1: 8432}, Foo: []int{8433}, S159: S159{x: 8434, s154: nil, A1: map[string]int{"k": 8435}}, A: []int{8436}, D: nil}, x: "", Foo: 8439, S185: S185{s180: s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8440, C: 8441.5, S165: S165{x: map[string]int{"k": 8442}, C: 8443, s160: nil, É: "v8444<", s115: s115{S21: nil, s115: nil, A1: nil, S56: nil, E: 8446}, S159: S159{x: 8447, s154: nil, A1: map[string]int{"k": 8448}}}, A: selp(8449), E: selp(8450)}}}, A1: "", s180: &s180{s178: nil, A1: "v8452<", s180: nil, É: selp(8453)}, É: selp(8454)}, É: 8455.5, D: 0, A1: "v8457<"}, D: true, S75: S75{S74: S74{C: 0, E: 8460, S71: &S71{S67: S67{D: "v8461<", s63: nil, B: []int{8462}, x: 8463, s65: s65{s40: s40{S37: nil, C: []int{8464}, s35: s35{C: map[string]int{"k": 8465}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 8466.5, C: 8467, s17: nil, D: map[string]int{"k": 8468}}, s22: nil, A1: map[string]int{"k": 8469}}}}, S32: S32{É: 0, A: "v8471<", A1: []int{8472}}, B: map[string]int{"k": 8473}}, S39: S39{A: []int{8474}, S38: nil, S9: nil, A1: 8475.5, s33: nil}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: nil}, C: selp(8480)}, x: selp(8481), S24: S24{S21: nil, A: nil}, y: 8483.5}}, A1: false, Foo: map[string]int{"k": 8485}, A: 8486.5}}}},
	{"s188", s188{S187: &S187{S163: &S163{s119: nil, S161: &S161{S121: nil, E: 8487, A1: 8488}, Foo: nil, S159: S159{x: nil, s154: nil, A1: map[string]int{"k": 8491}}, A: []int{8492}, D: []int{8493}}, x: "v8494<", Foo: 0, S185: S185{s180: s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 0, C: 8497.5, S165: S165{x: nil, C: 8499, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8501}, S56: nil, E: 8502}, S159: S159{x: 8503, s154: nil, A1: map[string]int{"k": 8504}}}, A: selp(8505), E: selp(8506)}}}, A1: "", s180: &s180{s178: nil, A1: "v8508<", s180: nil, É: selp(8509)}, É: selp(8510)}, É: 8511.5, D: 8512.5, A1: "v8513<"}, D: true, S75: S75{S74: S74{C: 0, E: 8516, S71: &S71{S67: S67{D: "v8517<", s63: nil, B: []int{8518}, x: 8519, s65: s65{s40: s40{S37: nil, C: []int{8520}, s35: s35{C: map[string]int{"k": 8521}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 8523, s17: nil, D: map[string]int{"k": 8524}}, s22: nil, A1: map[string]int{"k": 8525}}}}, S32: S32{É: 0, A: "v8527<", A1: nil}, B: map[string]int{"k": 8529}}, S39: S39{A: []int{8530}, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v8532<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 8535}}, C: selp(8536)}, x: nil, S24: S24{S21: nil, A: []int{8538}}, y: 8539.5}}, A1: true, Foo: map[string]int{"k": 8541}, A: 0}}}},
	{"S189", S189{E: 8543.5, B: selp(8544), S184: S184{É: "v8545<", A: 8546, S179: nil, s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8547, C: 8548.5, S165: S165{x: map[string]int{"k": 8549}, C: 8550, s160: nil, É: "v8551<", s115: s115{S21: nil, s115: nil, A1: []int{8552}, S56: nil, E: 8553}, S159: S159{x: 8554, s154: nil, A1: map[string]int{"k": 8555}}}, A: selp(8556), E: selp(8557)}}}, A1: "v8558<", s180: nil, É: nil}, E: 8560}, S187: &S187{S163: &S163{s119: &s119{x: map[string]int{"k": 8561}}, S161: &S161{S121: nil, E: nil, A1: 8563}, Foo: []int{8564}, S159: S159{x: 8565, s154: nil, A1: map[string]int{"k": 8566}}, A: []int{8567}, D: []int{8568}}, x: "v8569<", Foo: 8570, S185: S185{s180: s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8571, C: 8572.5, S165: S165{x: map[string]int{"k": 8573}, C: 8574, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8576}, S56: nil, E: 8577}, S159: S159{x: 8578, s154: nil, A1: map[string]int{"k": 8579}}}, A: selp(8580), E: selp(8581)}}}, A1: "v8582<", s180: &s180{s178: nil, A1: "v8583<", s180: nil, É: selp(8584)}, É: selp(8585)}, É: 8586.5, D: 8587.5, A1: "v8588<"}, D: true, S75: S75{S74: S74{C: 8590.5, E: nil, S71: &S71{S67: S67{D: "v8592<", s63: nil, B: []int{8593}, x: 8594, s65: s65{s40: s40{S37: nil, C: []int{8595}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 8597.5, C: 8598, s17: nil, D: map[string]int{"k": 8599}}, s22: nil, A1: map[string]int{"k": 8600}}}}, S32: S32{É: 0, A: "v8602<", A1: []int{8603}}, B: map[string]int{"k": 8604}}, S39: S39{A: []int{8605}, S38: nil, S9: nil, A1: 8606.5, s33: nil}, D: ""}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 8610}}, C: nil}, x: selp(8612), S24: S24{S21: nil, A: []int{8613}}, y: 8614.5}}, A1: true, Foo: map[string]int{"k": 8616}, A: 8617.5}}, C: map[string]int{"k": 8618}}},
	{"S189", S189{E: 0, B: nil, S184: S184{É: "v8621<", A: nil, S179: nil, s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8623, C: 8624.5, S165: S165{x: map[string]int{"k": 8625}, C: 8626, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8628}, S56: nil, E: 8629}, S159: S159{x: 8630, s154: nil, A1: nil}}, A: selp(8632), E: selp(8633)}}}, A1: "v8634<", s180: &s180{s178: nil, A1: "v8635<", s180: nil, É: selp(8636)}, É: selp(8637)}, E: 0}, S187: nil, C: map[string]int{"k": 8639}}},
	{"s190", s190{S187: S187{S163: nil, x: "v8640<", Foo: 0, S185: S185{s180: s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8642, C: 8643.5, S165: S165{x: map[string]int{"k": 8644}, C: 8645, s160: nil, É: "v8646<", s115: s115{S21: nil, s115: nil, A1: []int{8647}, S56: nil, E: 8648}, S159: S159{x: 8649, s154: nil, A1: nil}}, A: selp(8651), E: selp(8652)}}}, A1: "v8653<", s180: &s180{s178: nil, A1: "v8654<", s180: nil, É: selp(8655)}, É: selp(8656)}, É: 8657.5, D: 0, A1: "v8659<"}, D: true, S75: S75{S74: S74{C: 8661.5, E: 8662, S71: nil}, A1: false, Foo: map[string]int{"k": 8664}, A: 8665.5}}, S184: S184{É: "v8666<", A: 8667, S179: &S179{A1: 8668, S173: &S173{S167: nil, D: map[string]int{"k": 8669}, B: 8670.5}, S175: S175{y: 8671, É: nil}}, s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8673, C: 8674.5, S165: S165{x: map[string]int{"k": 8675}, C: 8676, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: nil, S56: nil, E: 8679}, S159: S159{x: 8680, s154: nil, A1: map[string]int{"k": 8681}}}, A: selp(8682), E: selp(8683)}}}, A1: "", s180: nil, É: nil}, E: 0}}},
	{"s190", s190{S187: S187{S163: &S163{s119: &s119{x: nil}, S161: &S161{S121: nil, E: 8688, A1: 8689}, Foo: []int{8690}, S159: S159{x: 8691, s154: &s154{S50: S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{8693}, É: "v8694<"}}, É: map[string]int{"k": 8695}, D: map[string]int{"k": 8696}, s148: nil, s151: nil}, A1: nil}, A: []int{8698}, D: nil}, x: "v8700<", Foo: 0, S185: S185{s180: s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8702, C: 8703.5, S165: S165{x: map[string]int{"k": 8704}, C: 8705, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8707}, S56: nil, E: 8708}, S159: S159{x: 8709, s154: nil, A1: map[string]int{"k": 8710}}}, A: selp(8711), E: selp(8712)}}}, A1: "v8713<", s180: &s180{s178: nil, A1: "v8714<", s180: nil, É: selp(8715)}, É: selp(8716)}, É: 8717.5, D: 8718.5, A1: "v8719<"}, D: false, S75: S75{S74: S74{C: 0, E: 8722, S71: nil}, A1: true, Foo: nil, A: 0}}, S184: S184{É: "v8726<", A: 8727, S179: &S179{A1: 8728, S173: &S173{S167: nil, D: map[string]int{"k": 8729}, B: 8730.5}, S175: S175{y: 8731, É: nil}}, s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 0, C: 0, S165: S165{x: nil, C: 8736, s160: nil, É: "v8737<", s115: s115{S21: nil, s115: nil, A1: []int{8738}, S56: nil, E: 0}, S159: S159{x: nil, s154: nil, A1: map[string]int{"k": 8741}}}, A: selp(8742), E: selp(8743)}}}, A1: "v8744<", s180: &s180{s178: nil, A1: "v8745<", s180: nil, É: selp(8746)}, É: selp(8747)}, E: 8748}}},
	{"s191", s191{D: 8749, S187: nil}},
	{"s191", s191{D: 8750, S187: &S187{S163: &S163{s119: &s119{x: map[string]int{"k": 8751}}, S161: &S161{S121: nil, E: 8752, A1: 8753}, Foo: []int{8754}, S159: S159{x: nil, s154: nil, A1: map[string]int{"k": 8756}}, A: []int{8757}, D: []int{8758}}, x: "v8759<", Foo: 0, S185: S185{s180: s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8761, C: 8762.5, S165: S165{x: nil, C: nil, s160: nil, É: "v8765<", s115: s115{S21: nil, s115: nil, A1: nil, S56: nil, E: 8767}, S159: S159{x: 8768, s154: nil, A1: map[string]int{"k": 8769}}}, A: selp(8770), E: nil}}}, A1: "v8772<", s180: &s180{s178: nil, A1: "v8773<", s180: nil, É: selp(8774)}, É: selp(8775)}, É: 8776.5, D: 8777.5, A1: "v8778<"}, D: true, S75: S75{S74: S74{C: 8780.5, E: 8781, S71: &S71{S67: S67{D: "v8782<", s63: nil, B: []int{8783}, x: nil, s65: s65{s40: s40{S37: nil, C: []int{8785}, s35: s35{C: map[string]int{"k": 8786}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 8787.5, C: 8788, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 8790}}}}, S32: S32{É: 8791.5, A: "v8792<", A1: []int{8793}}, B: map[string]int{"k": 8794}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 8796.5, s33: nil}, D: "v8797<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 8800}}, C: selp(8801)}, x: selp(8802), S24: S24{S21: nil, A: nil}, y: 0}}, A1: true, Foo: map[string]int{"k": 8806}, A: 8807.5}}}},
	{"s192", s192{E: selp(8808), A1: 8809.5, s131: s131{S126: S126{S121: S121{D: true, x: 8811.5, C: 8812, E: []int{8813}}, y: selp(8814)}, s127: &s127{A: 8815.5, S126: nil, y: selp(8816), E: true}, S130: &S130{s125: s125{s120: &s120{s119: s119{x: map[string]int{"k": 8818}}, s116: s116{s111: s111{C: 8819.5, A: 8820, S18: S18{D: []int{8821}, x: 8822, C: []int{8823}, S14: S14{D: nil, É: 8825, x: selp(8826), S11: nil}}, É: "v8827<", SelIface: SelIface(8828)}}, E: true, A1: []int{8830}, s114: nil, A: map[string]int{"k": 8831}}, S122: S122{s119: s119{x: nil}}, E: selp(8833), y: nil, D: true}, x: 8836, S130: nil, S129: &S129{A: false, x: 8838, A1: 8839, s128: s128{S126: S126{S121: S121{D: true, x: 8841.5, C: 8842, E: []int{8843}}, y: selp(8844)}}, S126: nil}, A: 0, D: 8846}, A: nil}, D: 8848, É: map[string]int{"k": 8849}}},
	{"s192", s192{E: selp(8850), A1: 8851.5, s131: s131{S126: S126{S121: S121{D: true, x: 8853.5, C: 8854, E: []int{8855}}, y: nil}, s127: &s127{A: 8857.5, S126: &S126{S121: S121{D: true, x: 8859.5, C: 8860, E: []int{8861}}, y: nil}, y: selp(8863), E: true}, S130: &S130{s125: s125{s120: &s120{s119: s119{x: nil}, s116: s116{s111: s111{C: 8866.5, A: 0, S18: S18{D: []int{8868}, x: 0, C: []int{8870}, S14: S14{D: []int{8871}, É: 8872, x: selp(8873), S11: nil}}, É: "v8874<", SelIface: SelIface(8875)}}, E: false, A1: []int{8877}, s114: nil, A: map[string]int{"k": 8878}}, S122: S122{s119: s119{x: map[string]int{"k": 8879}}}, E: selp(8880), y: nil, D: true}, x: 8883, S130: &S130{s125: s125{s120: nil, S122: S122{s119: s119{x: map[string]int{"k": 8884}}}, E: selp(8885), y: selp(8886), D: true}, x: 8888, S130: nil, S129: nil, A: 8889, D: nil}, S129: &S129{A: true, x: 8892, A1: 8893, s128: s128{S126: S126{S121: S121{D: true, x: 8895.5, C: 8896, E: []int{8897}}, y: selp(8898)}}, S126: nil}, A: 8899, D: 8900}, A: selp(8901)}, D: 8902, É: nil}},
	{"s193", s193{s190: s190{S187: S187{S163: &S163{s119: &s119{x: map[string]int{"k": 8904}}, S161: &S161{S121: nil, E: 8905, A1: 8906}, Foo: []int{8907}, S159: S159{x: 8908, s154: nil, A1: nil}, A: nil, D: []int{8911}}, x: "v8912<", Foo: 8913, S185: S185{s180: s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 8914, C: 8915.5, S165: S165{x: map[string]int{"k": 8916}, C: 8917, s160: nil, É: "v8918<", s115: s115{S21: nil, s115: nil, A1: []int{8919}, S56: nil, E: 0}, S159: S159{x: 8921, s154: nil, A1: map[string]int{"k": 8922}}}, A: selp(8923), E: selp(8924)}}}, A1: "v8925<", s180: &s180{s178: nil, A1: "v8926<", s180: nil, É: selp(8927)}, É: selp(8928)}, É: 0, D: 8930.5, A1: "v8931<"}, D: false, S75: S75{S74: S74{C: 8933.5, E: 8934, S71: &S71{S67: S67{D: "v8935<", s63: nil, B: []int{8936}, x: 8937, s65: s65{s40: s40{S37: nil, C: []int{8938}, s35: s35{C: map[string]int{"k": 8939}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 8942}}, s22: nil, A1: map[string]int{"k": 8943}}}}, S32: S32{É: 8944.5, A: "v8945<", A1: []int{8946}}, B: map[string]int{"k": 8947}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 8949.5, s33: nil}, D: "v8950<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 8953}}, C: selp(8954)}, x: nil, S24: S24{S21: nil, A: nil}, y: 8957.5}}, A1: true, Foo: nil, A: 8960.5}}, S184: S184{É: "", A: 8962, S179: &S179{A1: 8963, S173: &S173{S167: nil, D: map[string]int{"k": 8964}, B: 8965.5}, S175: S175{y: 8966, É: selp(8967)}}, s180: &s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 0, C: 8969.5, S165: S165{x: nil, C: 8971, s160: nil, É: "", s115: s115{S21: nil, s115: nil, A1: []int{8973}, S56: nil, E: 8974}, S159: S159{x: 8975, s154: nil, A1: nil}}, A: selp(8977), E: nil}}}, A1: "v8979<", s180: &s180{s178: nil, A1: "", s180: nil, É: selp(8981)}, É: nil}, E: 8983}}, B: 8984, É: 8985.5, s181: s181{Foo: true, A1: 8987.5, D: "v8988<", S175: S175{y: 8989, É: selp(8990)}, s104: &s104{S100: S100{A1: selp(8991), y: 8992, s58: s58{S31: S31{É: "v8993<", S29: S29{Foo: 8994.5}, SelSlice: SelSlice{"x"}, S25: S25{x: 0, S1: S1{S0: S0{}, D: "v8997<", A1: 8998}, B: selp(8999), C: 0, E: "v9001<"}}, D: 9002, B: true, s55: s55{S50: nil, s2: nil}, E: 9004.5, S54: nil}}, S6: S6{s2: &s2{A1: true, x: "v9006<", y: nil, S0: S0{}, Foo: 0, S1: nil}, S1: S1{S0: S0{}, D: "v9009<", A1: 9010}}, y: 9011, S103: S103{D: 9012.5, A1: 9013, SelInt: 9014, S71: S71{S67: S67{D: "v9015<", s63: nil, B: []int{9016}, x: 9017, s65: s65{s40: s40{S37: nil, C: []int{9018}, s35: s35{C: map[string]int{"k": 9019}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 9020.5, C: 9021, s17: nil, D: map[string]int{"k": 9022}}, s22: nil, A1: nil}}}, S32: S32{É: 0, A: "v9025<", A1: []int{9026}}, B: map[string]int{"k": 9027}}, S39: S39{A: []int{9028}, S38: nil, S9: nil, A1: 9029.5, s33: nil}, D: ""}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 9033}}, C: selp(9034)}, x: selp(9035), S24: S24{S21: nil, A: []int{9036}}, y: 9037.5}}, x: 9038}}, Foo: 9039.5, C: []int{9040}}},
	{"s193", s193{s190: s190{S187: S187{S163: &S163{s119: &s119{x: nil}, S161: &S161{S121: nil, E: 9042, A1: 9043}, Foo: []int{9044}, S159: S159{x: 9045, s154: nil, A1: map[string]int{"k": 9046}}, A: []int{9047}, D: []int{9048}}, x: "v9049<", Foo: 9050, S185: S185{s180: s180{s178: &s178{S175: nil, S176: S176{s7: nil, s171: s171{D: 9051, C: 9052.5, S165: S165{x: map[string]int{"k": 9053}, C: 9054, s160: nil, É: "v9055<", s115: s115{S21: nil, s115: nil, A1: []int{9056}, S56: nil, E: 9057}, S159: S159{x: 9058, s154: nil, A1: map[string]int{"k": 9059}}}, A: selp(9060), E: selp(9061)}}}, A1: "", s180: &s180{s178: nil, A1: "", s180: nil, É: selp(9064)}, É: selp(9065)}, É: 9066.5, D: 9067.5, A1: "v9068<"}, D: true, S75: S75{S74: S74{C: 9070.5, E: 9071, S71: &S71{S67: S67{D: "v9072<", s63: nil, B: []int{9073}, x: 9074, s65: s65{s40: s40{S37: nil, C: []int{9075}, s35: s35{C: map[string]int{"k": 9076}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 0, C: 9078, s17: nil, D: map[string]int{"k": 9079}}, s22: nil, A1: map[string]int{"k": 9080}}}}, S32: S32{É: 9081.5, A: "v9082<", A1: []int{9083}}, B: map[string]int{"k": 9084}}, S39: S39{A: []int{9085}, S38: nil, S9: nil, A1: 9086.5, s33: nil}, D: "v9087<"}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 9090}}, C: selp(9091)}, x: selp(9092), S24: S24{S21: nil, A: []int{9093}}, y: 9094.5}}, A1: true, Foo: map[string]int{"k": 9096}, A: 9097.5}}, S184: S184{É: "v9098<", A: nil, S179: &S179{A1: 0, S173: &S173{S167: nil, D: map[string]int{"k": 9101}, B: 9102.5}, S175: S175{y: 9103, É: selp(9104)}}, s180: nil, E: 9105}}, B: 9106, É: 9107.5, s181: s181{Foo: true, A1: 9109.5, D: "v9110<", S175: S175{y: 9111, É: nil}, s104: &s104{S100: S100{A1: selp(9113), y: 9114, s58: s58{S31: S31{É: "v9115<", S29: S29{Foo: 0}, SelSlice: SelSlice{"x"}, S25: S25{x: 0, S1: S1{S0: S0{}, D: "v9119<", A1: 9120}, B: selp(9121), C: 9122.5, E: "v9123<"}}, D: 0, B: true, s55: s55{S50: nil, s2: nil}, E: 9126.5, S54: nil}}, S6: S6{s2: &s2{A1: true, x: "v9128<", y: map[string]int{"k": 9129}, S0: S0{}, Foo: 9130.5, S1: nil}, S1: S1{S0: S0{}, D: "", A1: 9132}}, y: 9133, S103: S103{D: 9134.5, A1: 9135, SelInt: 9136, S71: S71{S67: S67{D: "v9137<", s63: nil, B: []int{9138}, x: nil, s65: s65{s40: s40{S37: nil, C: []int{9140}, s35: s35{C: map[string]int{"k": 9141}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 9142.5, C: 9143, s17: nil, D: nil}, s22: nil, A1: map[string]int{"k": 9145}}}}, S32: S32{É: 9146.5, A: "v9147<", A1: []int{9148}}, B: map[string]int{"k": 9149}}, S39: S39{A: []int{9150}, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v9152<"}, S61: S61{D: true, SelSlice: SelSlice{"x"}}, E: map[string]int{"k": 9155}}, C: nil}, x: selp(9157), S24: S24{S21: nil, A: nil}, y: 9159.5}}, x: 9160}}, Foo: 9161.5, C: []int{9162}}},
	{"S194", S194{E: map[string]int{"k": 9163}, SelSlice: SelSlice{"x"}, y: 9165.5, D: []int{9166}}},
	{"S194", S194{E: map[string]int{"k": 9167}, SelSlice: SelSlice{"x"}, y: 9169.5, D: []int{9170}}},
	{"S195", S195{S194: &S194{E: map[string]int{"k": 9171}, SelSlice: SelSlice{"x"}, y: 9173.5, D: []int{9174}}, A: map[string]int{"k": 9175}}},
	{"S195", S195{S194: &S194{E: map[string]int{"k": 9176}, SelSlice: SelSlice{"x"}, y: 9178.5, D: []int{9179}}, A: map[string]int{"k": 9180}}},
	{"S196", S196{SelSlice: SelSlice{"x"}, E: 9182, C: "", x: 9184.5, S0: &S0{}, S195: S195{S194: &S194{E: map[string]int{"k": 9185}, SelSlice: SelSlice{"x"}, y: 9187.5, D: []int{9188}}, A: nil}, D: "v9190<"}},
	{"S196", S196{SelSlice: SelSlice{"x"}, E: nil, C: "v9193<", x: 0, S0: &S0{}, S195: S195{S194: &S194{E: map[string]int{"k": 9195}, SelSlice: SelSlice{"x"}, y: 9197.5, D: []int{9198}}, A: map[string]int{"k": 9199}}, D: "v9200<"}},
	{"s197", s197{s191: &s191{D: 9201, S187: &S187{S163: &S163{s119: nil, S161: nil, Foo: nil, S159: S159{x: 9203, s154: nil, A1: map[string]int{"k": 9204}}, A: []int{9205}, D: nil}, x: "v9207<", Foo: 9208, S185: S185{s180: s180{s178: nil, A1: "v9209<", s180: nil, É: nil}, É: 9211.5, D: 0, A1: ""}, D: true, S75: S75{S74: S74{C: 0, E: 9216, S71: nil}, A1: true, Foo: nil, A: 9219.5}}}, S194: &S194{E: map[string]int{"k": 9220}, SelSlice: SelSlice{"x"}, y: 9222.5, D: []int{9223}}, A: map[string]int{"k": 9224}, A1: "v9225<", y: 9226}},
	{"s197", s197{s191: &s191{D: 9227, S187: &S187{S163: &S163{s119: nil, S161: nil, Foo: []int{9228}, S159: S159{x: 9229, s154: nil, A1: map[string]int{"k": 9230}}, A: []int{9231}, D: []int{9232}}, x: "v9233<", Foo: 0, S185: S185{s180: s180{s178: nil, A1: "", s180: nil, É: selp(9236)}, É: 9237.5, D: 9238.5, A1: "v9239<"}, D: true, S75: S75{S74: S74{C: 0, E: 9242, S71: nil}, A1: false, Foo: map[string]int{"k": 9244}, A: 9245.5}}}, S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 9248.5, D: nil}, A: map[string]int{"k": 9250}, A1: "v9251<", y: 9252}},
	{"s198", s198{Foo: "v9253<", A: 9254.5}},
	{"s198", s198{Foo: "v9255<", A: 0}},
	{"s199", s199{s197: s197{s191: &s191{D: 9257, S187: &S187{S163: nil, x: "v9258<", Foo: 9259, S185: S185{s180: s180{s178: nil, A1: "", s180: nil, É: nil}, É: 9262.5, D: 9263.5, A1: ""}, D: true, S75: S75{S74: S74{C: 9266.5, E: nil, S71: nil}, A1: false, Foo: map[string]int{"k": 9269}, A: 9270.5}}}, S194: &S194{E: map[string]int{"k": 9271}, SelSlice: SelSlice{"x"}, y: 0, D: []int{9274}}, A: map[string]int{"k": 9275}, A1: "v9276<", y: 9277}, E: selp(9278), D: 9279}},
	{"s199", s199{s197: s197{s191: &s191{D: 9280, S187: &S187{S163: nil, x: "v9281<", Foo: 0, S185: S185{s180: s180{s178: nil, A1: "v9283<", s180: nil, É: selp(9284)}, É: 0, D: 9286.5, A1: "v9287<"}, D: false, S75: S75{S74: S74{C: 9289.5, E: 9290, S71: nil}, A1: true, Foo: nil, A: 0}}}, S194: &S194{E: map[string]int{"k": 9294}, SelSlice: SelSlice{"x"}, y: 9296.5, D: []int{9297}}, A: nil, A1: "v9299<", y: 9300}, E: selp(9301), D: 9302}},
	{"S200", S200{S195: &S195{S194: &S194{E: map[string]int{"k": 9303}, SelSlice: SelSlice{"x"}, y: 9305.5, D: []int{9306}}, A: map[string]int{"k": 9307}}}},
	{"S200", S200{S195: &S195{S194: &S194{E: map[string]int{"k": 9308}, SelSlice: SelSlice{"x"}, y: 9310.5, D: []int{9311}}, A: map[string]int{"k": 9312}}}},
	{"S201", S201{A1: map[string]int{"k": 9313}, B: 0, s199: s199{s197: s197{s191: &s191{D: 9315, S187: &S187{S163: nil, x: "v9316<", Foo: 9317, S185: S185{s180: s180{s178: nil, A1: "v9318<", s180: nil, É: selp(9319)}, É: 0, D: 9321.5, A1: "v9322<"}, D: true, S75: S75{S74: S74{C: 9324.5, E: 9325, S71: nil}, A1: false, Foo: map[string]int{"k": 9327}, A: 9328.5}}}, S194: &S194{E: map[string]int{"k": 9329}, SelSlice: SelSlice{"x"}, y: 9331.5, D: nil}, A: map[string]int{"k": 9333}, A1: "v9334<", y: 9335}, E: nil, D: 9337}, A: map[string]int{"k": 9338}, D: false}},
	{"S201", S201{A1: nil, B: 9341.5, s199: s199{s197: s197{s191: &s191{D: 9342, S187: &S187{S163: nil, x: "v9343<", Foo: 9344, S185: S185{s180: s180{s178: nil, A1: "v9345<", s180: nil, É: selp(9346)}, É: 9347.5, D: 9348.5, A1: "v9349<"}, D: true, S75: S75{S74: S74{C: 9351.5, E: nil, S71: nil}, A1: false, Foo: map[string]int{"k": 9354}, A: 9355.5}}}, S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 9358.5, D: []int{9359}}, A: nil, A1: "v9361<", y: 9362}, E: selp(9363), D: 9364}, A: map[string]int{"k": 9365}, D: true}},
	{"s202", s202{S200: S200{S195: &S195{S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 9369.5, D: []int{9370}}, A: map[string]int{"k": 9371}}}, C: 9372}},
	{"s202", s202{S200: S200{S195: &S195{S194: &S194{E: map[string]int{"k": 9373}, SelSlice: SelSlice{"x"}, y: 9375.5, D: []int{9376}}, A: map[string]int{"k": 9377}}}, C: 0}},
	{"S204", S204{S204: &S204{S204: &S204{S204: &S204{S204: nil, A1: "", É: 9380.5, S201: nil, S200: S200{S195: nil}}, A1: "v9381<", É: 0, S201: &S201{A1: map[string]int{"k": 9383}, B: 9384.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 9385}, A1: "v9386<", y: 9387}, E: selp(9388), D: 9389}, A: map[string]int{"k": 9390}, D: true}, S200: S200{S195: nil}}, A1: "", É: 9393.5, S201: &S201{A1: map[string]int{"k": 9394}, B: 9395.5, s199: s199{s197: s197{s191: nil, S194: nil, A: nil, A1: "v9397<", y: nil}, E: selp(9399), D: nil}, A: map[string]int{"k": 9401}, D: true}, S200: S200{S195: &S195{S194: nil, A: map[string]int{"k": 9403}}}}, A1: "v9404<", É: 9405.5, S201: nil, S200: S200{S195: &S195{S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 9408.5, D: []int{9409}}, A: nil}}}},
	{"S204", S204{S204: &S204{S204: &S204{S204: &S204{S204: nil, A1: "v9411<", É: 9412.5, S201: nil, S200: S200{S195: nil}}, A1: "v9413<", É: 9414.5, S201: &S201{A1: map[string]int{"k": 9415}, B: 9416.5, s199: s199{s197: s197{s191: nil, S194: nil, A: nil, A1: "v9418<", y: 9419}, E: selp(9420), D: 9421}, A: map[string]int{"k": 9422}, D: false}, S200: S200{S195: nil}}, A1: "", É: 9425.5, S201: &S201{A1: nil, B: 9427.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 9428}, A1: "v9429<", y: nil}, E: selp(9431), D: 9432}, A: map[string]int{"k": 9433}, D: true}, S200: S200{S195: &S195{S194: nil, A: map[string]int{"k": 9435}}}}, A1: "", É: 9437.5, S201: &S201{A1: map[string]int{"k": 9438}, B: 9439.5, s199: s199{s197: s197{s191: &s191{D: 9440, S187: nil}, S194: &S194{E: map[string]int{"k": 9441}, SelSlice: SelSlice{"x"}, y: 9443.5, D: []int{9444}}, A: map[string]int{"k": 9445}, A1: "v9446<", y: nil}, E: nil, D: 9449}, A: map[string]int{"k": 9450}, D: true}, S200: S200{S195: &S195{S194: &S194{E: map[string]int{"k": 9452}, SelSlice: SelSlice{"x"}, y: 9454.5, D: []int{9455}}, A: map[string]int{"k": 9456}}}}},
	{"s206", s206{y: map[string]int{"k": 9457}, E: 9458, D: 9459}},
	{"s206", s206{y: map[string]int{"k": 9460}, E: 9461, D: 9462}},
	{"S207", S207{s206: &s206{y: map[string]int{"k": 9463}, E: 9464, D: nil}, s120: s120{s119: s119{x: map[string]int{"k": 9466}}, s116: s116{s111: s111{C: 9467.5, A: 0, S18: S18{D: []int{9469}, x: 9470, C: []int{9471}, S14: S14{D: []int{9472}, É: 9473, x: selp(9474), S11: nil}}, É: "v9475<", SelIface: SelIface(9476)}}, E: true, A1: []int{9478}, s114: &s114{D: []int{9479}, S108: &S108{}}, A: map[string]int{"k": 9480}}}},
	{"S207", S207{s206: &s206{y: map[string]int{"k": 9481}, E: 9482, D: 9483}, s120: s120{s119: s119{x: map[string]int{"k": 9484}}, s116: s116{s111: s111{C: 9485.5, A: 9486, S18: S18{D: []int{9487}, x: 9488, C: []int{9489}, S14: S14{D: []int{9490}, É: 9491, x: selp(9492), S11: nil}}, É: "v9493<", SelIface: SelIface(9494)}}, E: true, A1: []int{9496}, s114: &s114{D: []int{9497}, S108: &S108{}}, A: map[string]int{"k": 9498}}}},
	{"S209", S209{E: map[string]int{"k": 9499}, É: "", C: map[string]int{"k": 9501}, S10: nil}},
	{"S209", S209{E: map[string]int{"k": 9502}, É: "v9503<", C: map[string]int{"k": 9504}, S10: &S10{C: "v9505<", S8: &S8{A: 9506.5, s2: s2{A1: true, x: "", y: map[string]int{"k": 9509}, S0: S0{}, Foo: 9510.5, S1: nil}, C: 9511.5, E: "v9512<"}, S10: &S10{C: "v9513<", S8: &S8{A: 0, s2: s2{A1: true, x: "v9516<", y: nil, S0: S0{}, Foo: 9518.5, S1: nil}, C: 9519.5, E: ""}, S10: &S10{C: "v9521<", S8: nil, S10: nil, s7: nil}, s7: &s7{C: 9522, y: 9523, s5: nil}}, s7: &s7{C: nil, y: 9525, s5: nil}}}},
	{"S210", S210{D: selp(9526), S204: &S204{S204: &S204{S204: &S204{S204: nil, A1: "v9527<", É: 9528.5, S201: nil, S200: S200{S195: nil}}, A1: "", É: 9530.5, S201: &S201{A1: map[string]int{"k": 9531}, B: 0, s199: s199{s197: s197{s191: nil, S194: nil, A: nil, A1: "v9534<", y: 9535}, E: selp(9536), D: 9537}, A: map[string]int{"k": 9538}, D: true}, S200: S200{S195: nil}}, A1: "v9540<", É: 0, S201: &S201{A1: map[string]int{"k": 9542}, B: 9543.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 9544}, A1: "", y: 9546}, E: selp(9547), D: 9548}, A: map[string]int{"k": 9549}, D: true}, S200: S200{S195: &S195{S194: nil, A: nil}}}, A1: true, y: 9553.5}},
	{"S210", S210{D: nil, S204: &S204{S204: &S204{S204: &S204{S204: nil, A1: "v9555<", É: 9556.5, S201: nil, S200: S200{S195: nil}}, A1: "v9557<", É: 0, S201: &S201{A1: map[string]int{"k": 9559}, B: 9560.5, s199: s199{s197: s197{s191: nil, S194: nil, A: nil, A1: "v9562<", y: 9563}, E: nil, D: nil}, A: map[string]int{"k": 9566}, D: false}, S200: S200{S195: nil}}, A1: "v9568<", É: 9569.5, S201: &S201{A1: map[string]int{"k": 9570}, B: 9571.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 9572}, A1: "v9573<", y: nil}, E: selp(9575), D: 9576}, A: nil, D: true}, S200: S200{S195: &S195{S194: nil, A: nil}}}, A1: true, y: 0}},
	{"s211", s211{s206: s206{y: nil, E: nil, D: 9584}, E: "v9585<"}},
	{"s211", s211{s206: s206{y: map[string]int{"k": 9586}, E: 9587, D: nil}, E: "v9589<"}},
	{"S212", S212{s211: &s211{s206: s206{y: map[string]int{"k": 9590}, E: 9591, D: 9592}, E: ""}, S210: S210{D: selp(9594), S204: &S204{S204: nil, A1: "v9595<", É: 9596.5, S201: &S201{A1: map[string]int{"k": 9597}, B: 9598.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 9599}, A1: "v9600<", y: nil}, E: nil, D: 9603}, A: map[string]int{"k": 9604}, D: true}, S200: S200{S195: &S195{S194: nil, A: map[string]int{"k": 9606}}}}, A1: true, y: 9608.5}, A: nil, S209: &S209{E: map[string]int{"k": 9610}, É: "v9611<", C: map[string]int{"k": 9612}, S10: &S10{C: "v9613<", S8: &S8{A: 9614.5, s2: s2{A1: true, x: "v9616<", y: map[string]int{"k": 9617}, S0: S0{}, Foo: 9618.5, S1: nil}, C: 0, E: "v9620<"}, S10: &S10{C: "v9621<", S8: nil, S10: nil, s7: nil}, s7: &s7{C: nil, y: 9623, s5: nil}}}, D: "v9624<", x: 9625.5}},
	{"S212", S212{s211: &s211{s206: s206{y: map[string]int{"k": 9626}, E: 9627, D: 9628}, E: "v9629<"}, S210: S210{D: selp(9630), S204: &S204{S204: &S204{S204: nil, A1: "v9631<", É: 0, S201: nil, S200: S200{S195: nil}}, A1: "v9633<", É: 9634.5, S201: nil, S200: S200{S195: &S195{S194: nil, A: map[string]int{"k": 9635}}}}, A1: false, y: 9637.5}, A: selp(9638), S209: &S209{E: nil, É: "", C: map[string]int{"k": 9641}, S10: &S10{C: "v9642<", S8: &S8{A: 9643.5, s2: s2{A1: false, x: "", y: map[string]int{"k": 9646}, S0: S0{}, Foo: 9647.5, S1: nil}, C: 9648.5, E: "v9649<"}, S10: &S10{C: "v9650<", S8: nil, S10: nil, s7: nil}, s7: &s7{C: 9651, y: 9652, s5: nil}}}, D: "v9653<", x: 9654.5}},
	{"s214", s214{}},
	{"s214", s214{}},
	{"S216", S216{s211: &s211{s206: s206{y: map[string]int{"k": 9655}, E: 9656, D: 9657}, E: "v9658<"}}},
	{"S216", S216{s211: &s211{s206: s206{y: map[string]int{"k": 9659}, E: 9660, D: 9661}, E: "v9662<"}}},
	{"S218", S218{s217: &s217{S213: &S213{S212: &S212{s211: nil, S210: S210{D: nil, S204: nil, A1: true, y: 9665.5}, A: selp(9666), S209: nil, D: "v9667<", x: 9668.5}, S208: &S208{S208: nil, s202: s202{S200: S200{S195: nil}, C: 9669}, S183: nil}, s211: &s211{s206: s206{y: map[string]int{"k": 9670}, E: 9671, D: 9672}, E: "v9673<"}, y: true, C: selp(9675), E: "v9676<"}, A: true, É: 9678, C: []int{9679}, D: 9680}}},
	{"S218", S218{s217: &s217{S213: &S213{S212: &S212{s211: nil, S210: S210{D: selp(9681), S204: nil, A1: false, y: 9683.5}, A: selp(9684), S209: nil, D: "", x: 9686.5}, S208: &S208{S208: nil, s202: s202{S200: S200{S195: nil}, C: 9687}, S183: nil}, s211: nil, y: true, C: nil, E: ""}, A: false, É: 9692, C: []int{9693}, D: 9694}}},
	{"s219", s219{É: map[string]int{"k": 9695}, y: nil, S216: S216{s211: &s211{s206: s206{y: map[string]int{"k": 9697}, E: 9698, D: 9699}, E: "v9700<"}}, SelIface: SelIface(9701)}},
	{"s219", s219{É: nil, y: nil, S216: S216{s211: &s211{s206: s206{y: nil, E: 9705, D: 9706}, E: ""}}, SelIface: SelIface(9708)}},
	{"S220", S220{s217: s217{S213: &S213{S212: &S212{s211: nil, S210: S210{D: selp(9709), S204: nil, A1: true, y: 9711.5}, A: selp(9712), S209: nil, D: "v9713<", x: 9714.5}, S208: &S208{S208: nil, s202: s202{S200: S200{S195: nil}, C: 9715}, S183: nil}, s211: &s211{s206: s206{y: map[string]int{"k": 9716}, E: 9717, D: 9718}, E: "v9719<"}, y: true, C: selp(9721), E: "v9722<"}, A: true, É: 9724, C: []int{9725}, D: 0}, É: 9727}},
	{"S220", S220{s217: s217{S213: &S213{S212: &S212{s211: nil, S210: S210{D: selp(9728), S204: nil, A1: true, y: 9730.5}, A: selp(9731), S209: nil, D: "", x: 9733.5}, S208: &S208{S208: nil, s202: s202{S200: S200{S195: nil}, C: 0}, S183: nil}, s211: &s211{s206: s206{y: map[string]int{"k": 9735}, E: 9736, D: 9737}, E: "v9738<"}, y: true, C: selp(9740), E: "v9741<"}, A: true, É: 9743, C: []int{9744}, D: 9745}, É: 9746}},
	{"S221", S221{s34: s34{s33: &s33{É: true, C: nil, S27: S27{x: true, SelIface: SelIface(9750), S24: S24{S21: nil, A: []int{9751}}}}, S28: S28{S25: &S25{x: 9752, S1: S1{S0: S0{}, D: "v9753<", A1: 9754}, B: selp(9755), C: 9756.5, E: "v9757<"}, S26: S26{S23: S23{É: 9758.5, C: 9759, s17: &s17{y: 9760, E: 9761, x: 9762, S13: S13{s2: s2{A1: true, x: "v9764<", y: map[string]int{"k": 9765}, S0: S0{}, Foo: 0, S1: nil}, C: selp(9767)}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{9769}, É: "v9770<"}, S11: S11{S8: S8{A: 9771.5, s2: s2{A1: true, x: "v9773<", y: map[string]int{"k": 9774}, S0: S0{}, Foo: 9775.5, S1: nil}, C: 9776.5, E: "v9777<"}, Foo: map[string]int{"k": 9778}, A1: ""}}, D: map[string]int{"k": 9780}}, s22: nil, A1: map[string]int{"k": 9781}}}}, A: 9782, y: "v9783<"}},
	{"S221", S221{s34: s34{s33: &s33{É: true, C: []int{9785}, S27: S27{x: true, SelIface: SelIface(9787), S24: S24{S21: nil, A: []int{9788}}}}, S28: S28{S25: &S25{x: 9789, S1: S1{S0: S0{}, D: "v9790<", A1: 9791}, B: nil, C: 9793.5, E: "v9794<"}, S26: S26{S23: S23{É: 0, C: 9796, s17: &s17{y: 0, E: nil, x: 9799, S13: S13{s2: s2{A1: false, x: "v9801<", y: map[string]int{"k": 9802}, S0: S0{}, Foo: 9803.5, S1: nil}, C: selp(9804)}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{9806}, É: "v9807<"}, S11: S11{S8: S8{A: 9808.5, s2: s2{A1: true, x: "v9810<", y: map[string]int{"k": 9811}, S0: S0{}, Foo: 9812.5, S1: nil}, C: 9813.5, E: ""}, Foo: map[string]int{"k": 9815}, A1: ""}}, D: map[string]int{"k": 9817}}, s22: &s22{B: "v9818<", S21: S21{s20: nil, D: nil, A: selp(9820), x: []int{9821}}, S14: S14{D: []int{9822}, É: 9823, x: selp(9824), S11: nil}, Foo: map[string]int{"k": 9825}}, A1: map[string]int{"k": 9826}}}}, A: 9827, y: "v9828<"}},
	{"s222", s222{S48: nil, S221: S221{s34: s34{s33: nil, S28: S28{S25: &S25{x: 9829, S1: S1{S0: S0{}, D: "", A1: 9831}, B: nil, C: 9833.5, E: "v9834<"}, S26: S26{S23: S23{É: 9835.5, C: 9836, s17: nil, D: map[string]int{"k": 9837}}, s22: &s22{B: "", S21: S21{s20: nil, D: 9839, A: selp(9840), x: []int{9841}}, S14: S14{D: []int{9842}, É: 9843, x: selp(9844), S11: nil}, Foo: nil}, A1: map[string]int{"k": 9846}}}}, A: nil, y: ""}, s219: &s219{É: map[string]int{"k": 9849}, y: []int{9850}, S216: S216{s211: &s211{s206: s206{y: map[string]int{"k": 9851}, E: 9852, D: 9853}, E: "v9854<"}}, SelIface: SelIface(9855)}}},
	{"s222", s222{S48: nil, S221: S221{s34: s34{s33: nil, S28: S28{S25: &S25{x: 9856, S1: S1{S0: S0{}, D: "v9857<", A1: 9858}, B: selp(9859), C: 9860.5, E: "v9861<"}, S26: S26{S23: S23{É: 0, C: 9863, s17: nil, D: map[string]int{"k": 9864}}, s22: &s22{B: "v9865<", S21: S21{s20: nil, D: 9866, A: nil, x: []int{9868}}, S14: S14{D: []int{9869}, É: 9870, x: selp(9871), S11: nil}, Foo: map[string]int{"k": 9872}}, A1: nil}}}, A: 9874, y: "v9875<"}, s219: &s219{É: map[string]int{"k": 9876}, y: nil, S216: S216{s211: &s211{s206: s206{y: nil, E: 9879, D: 9880}, E: "v9881<"}}, SelIface: SelIface(9882)}}},
	{"S223", S223{E: []int{9883}, s33: s33{É: true, C: []int{9885}, S27: S27{x: true, SelIface: SelIface(9887), S24: S24{S21: &S21{s20: nil, D: 9888, A: selp(9889), x: []int{9890}}, A: nil}}}, C: true, D: 9893, s219: &s219{É: map[string]int{"k": 9894}, y: nil, S216: S216{s211: &s211{s206: s206{y: map[string]int{"k": 9896}, E: 9897, D: nil}, E: "v9899<"}}, SelIface: SelIface(9900)}, S9: S9{x: "v9901<", S4: &S4{}, D: map[string]int{"k": 9902}, S6: S6{s2: &s2{A1: true, x: "v9904<", y: map[string]int{"k": 9905}, S0: S0{}, Foo: 9906.5, S1: &S1{S0: S0{}, D: "v9907<", A1: 9908}}, S1: S1{S0: S0{}, D: "v9909<", A1: 9910}}, SelInt: 9911}, selStr: "s9912"}},
	{"S223", S223{E: []int{9913}, s33: s33{É: false, C: []int{9915}, S27: S27{x: true, SelIface: SelIface(9917), S24: S24{S21: &S21{s20: nil, D: 9918, A: selp(9919), x: []int{9920}}, A: []int{9921}}}}, C: true, D: nil, s219: &s219{É: map[string]int{"k": 9924}, y: []int{9925}, S216: S216{s211: nil}, SelIface: SelIface(9926)}, S9: S9{x: "v9927<", S4: &S4{}, D: nil, S6: S6{s2: &s2{A1: false, x: "v9930<", y: map[string]int{"k": 9931}, S0: S0{}, Foo: 0, S1: &S1{S0: S0{}, D: "v9933<", A1: 9934}}, S1: S1{S0: S0{}, D: "v9935<", A1: 9936}}, SelInt: 9937}, selStr: "s9938"}},
	{"s224", s224{y: 9939, A: map[string]int{"k": 9940}, S220: nil, SelIface: SelIface(9941), S223: &S223{E: []int{9942}, s33: s33{É: false, C: []int{9944}, S27: S27{x: false, SelIface: SelIface(9946), S24: S24{S21: nil, A: []int{9947}}}}, C: true, D: 9949, s219: nil, S9: S9{x: "v9950<", S4: &S4{}, D: nil, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v9952<", A1: 0}}, SelInt: 9954}, selStr: "s9955"}}},
	{"s224", s224{y: 9956, A: map[string]int{"k": 9957}, S220: nil, SelIface: SelIface(9958), S223: &S223{E: []int{9959}, s33: s33{É: true, C: []int{9961}, S27: S27{x: true, SelIface: SelIface(9963), S24: S24{S21: nil, A: []int{9964}}}}, C: false, D: 9966, s219: &s219{É: map[string]int{"k": 9967}, y: nil, S216: S216{s211: nil}, SelIface: SelIface(9969)}, S9: S9{x: "v9970<", S4: &S4{}, D: nil, S6: S6{s2: &s2{A1: true, x: "v9973<", y: map[string]int{"k": 9974}, S0: S0{}, Foo: 9975.5, S1: nil}, S1: S1{S0: S0{}, D: "v9976<", A1: 9977}}, SelInt: 9978}, selStr: "s9979"}}},
	{"S225", S225{B: true, C: nil, s224: s224{y: 9982, A: map[string]int{"k": 9983}, S220: &S220{s217: s217{S213: nil, A: false, É: 9985, C: []int{9986}, D: 9987}, É: 9988}, SelIface: SelIface(9989), S223: &S223{E: []int{9990}, s33: s33{É: true, C: []int{9992}, S27: S27{x: true, SelIface: SelIface(9994), S24: S24{S21: nil, A: []int{9995}}}}, C: true, D: 9997, s219: &s219{É: map[string]int{"k": 9998}, y: []int{9999}, S216: S216{s211: nil}, SelIface: SelIface(10000)}, S9: S9{x: "v10001<", S4: nil, D: map[string]int{"k": 10002}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v10003<", A1: 10004}}, SelInt: 10005}, selStr: "s10006"}}, x: 10007}},
	{"S225", S225{B: true, C: nil, s224: s224{y: 10010, A: map[string]int{"k": 10011}, S220: &S220{s217: s217{S213: &S213{S212: nil, S208: nil, s211: nil, y: false, C: selp(10013), E: "v10014<"}, A: true, É: nil, C: []int{10017}, D: 10018}, É: nil}, SelIface: SelIface(10020), S223: &S223{E: nil, s33: s33{É: false, C: []int{10023}, S27: S27{x: true, SelIface: SelIface(10025), S24: S24{S21: nil, A: []int{10026}}}}, C: false, D: 10028, s219: &s219{É: map[string]int{"k": 10029}, y: []int{10030}, S216: S216{s211: nil}, SelIface: SelIface(10031)}, S9: S9{x: "v10032<", S4: &S4{}, D: map[string]int{"k": 10033}, S6: S6{s2: nil, S1: S1{S0: S0{}, D: "v10034<", A1: 0}}, SelInt: 10036}, selStr: "s10037"}}, x: nil}},
	{"s226", s226{S223: S223{E: []int{10039}, s33: s33{É: true, C: []int{10041}, S27: S27{x: true, SelIface: SelIface(10043), S24: S24{S21: &S21{s20: nil, D: nil, A: selp(10045), x: []int{10046}}, A: []int{10047}}}}, C: true, D: 10049, s219: &s219{É: nil, y: []int{10051}, S216: S216{s211: &s211{s206: s206{y: nil, E: 10053, D: 10054}, E: "v10055<"}}, SelIface: SelIface(10056)}, S9: S9{x: "v10057<", S4: &S4{}, D: map[string]int{"k": 10058}, S6: S6{s2: &s2{A1: true, x: "v10060<", y: map[string]int{"k": 10061}, S0: S0{}, Foo: 10062.5, S1: nil}, S1: S1{S0: S0{}, D: "", A1: 10064}}, SelInt: 10065}, selStr: "s10066"}, S221: S221{s34: s34{s33: &s33{É: true, C: []int{10068}, S27: S27{x: true, SelIface: SelIface(10070), S24: S24{S21: nil, A: []int{10071}}}}, S28: S28{S25: &S25{x: 10072, S1: S1{S0: S0{}, D: "v10073<", A1: 10074}, B: nil, C: 10076.5, E: "v10077<"}, S26: S26{S23: S23{É: 0, C: 10079, s17: nil, D: map[string]int{"k": 10080}}, s22: &s22{B: "v10081<", S21: S21{s20: nil, D: 10082, A: selp(10083), x: []int{10084}}, S14: S14{D: nil, É: 10086, x: selp(10087), S11: nil}, Foo: map[string]int{"k": 10088}}, A1: map[string]int{"k": 10089}}}}, A: nil, y: "v10091<"}}},
	{"s226", s226{S223: S223{E: nil, s33: s33{É: false, C: []int{10094}, S27: S27{x: true, SelIface: SelIface(10096), S24: S24{S21: &S21{s20: nil, D: 10097, A: selp(10098), x: nil}, A: nil}}}, C: true, D: 10102, s219: &s219{É: map[string]int{"k": 10103}, y: []int{10104}, S216: S216{s211: &s211{s206: s206{y: map[string]int{"k": 10105}, E: 10106, D: 10107}, E: "v10108<"}}, SelIface: SelIface(10109)}, S9: S9{x: "v10110<", S4: &S4{}, D: map[string]int{"k": 10111}, S6: S6{s2: &s2{A1: true, x: "", y: map[string]int{"k": 10114}, S0: S0{}, Foo: 0, S1: nil}, S1: S1{S0: S0{}, D: "v10116<", A1: 10117}}, SelInt: 10118}, selStr: "s10119"}, S221: S221{s34: s34{s33: &s33{É: true, C: []int{10121}, S27: S27{x: true, SelIface: SelIface(10123), S24: S24{S21: nil, A: []int{10124}}}}, S28: S28{S25: &S25{x: 10125, S1: S1{S0: S0{}, D: "", A1: 0}, B: selp(10128), C: 10129.5, E: "v10130<"}, S26: S26{S23: S23{É: 0, C: 10132, s17: nil, D: map[string]int{"k": 10133}}, s22: &s22{B: "v10134<", S21: S21{s20: nil, D: 10135, A: nil, x: nil}, S14: S14{D: []int{10138}, É: 0, x: selp(10140), S11: nil}, Foo: map[string]int{"k": 10141}}, A1: nil}}}, A: 10143, y: "v10144<"}}},
	{"s227", s227{S221: &S221{s34: s34{s33: nil, S28: S28{S25: &S25{x: 10145, S1: S1{S0: S0{}, D: "v10146<", A1: 10147}, B: selp(10148), C: 10149.5, E: "v10150<"}, S26: S26{S23: S23{É: 0, C: 0, s17: nil, D: map[string]int{"k": 10153}}, s22: nil, A1: map[string]int{"k": 10154}}}}, A: nil, y: "v10156<"}, x: 10157, B: map[string]int{"k": 10158}, A1: false, A: ""}},
	{"s227", s227{S221: &S221{s34: s34{s33: &s33{É: true, C: []int{10162}, S27: S27{x: false, SelIface: SelIface(10164), S24: S24{S21: nil, A: nil}}}, S28: S28{S25: &S25{x: 10166, S1: S1{S0: S0{}, D: "v10167<", A1: 10168}, B: selp(10169), C: 10170.5, E: "v10171<"}, S26: S26{S23: S23{É: 10172.5, C: 10173, s17: nil, D: map[string]int{"k": 10174}}, s22: nil, A1: nil}}}, A: nil, y: "v10177<"}, x: nil, B: map[string]int{"k": 10179}, A1: false, A: "v10181<"}},
	{"S228", S228{É: false, E: 10183, x: true, C: map[string]int{"k": 10185}}},
	{"S228", S228{É: true, E: 0, x: true, C: map[string]int{"k": 10189}}},
	{"S229", S229{D: nil}},
	{"S229", S229{D: 10191}},
	{"S230", S230{S229: S229{D: 10192}, s144: s144{D: 10193, S141: S141{S140: S140{E: true}}, É: []int{10195}}, A: 10196, S162: S162{y: 10197, A1: []int{10198}, S161: &S161{S121: &S121{D: true, x: 0, C: 10201, E: []int{10202}}, E: nil, A1: 10204}}}},
	{"S230", S230{S229: S229{D: 10205}, s144: s144{D: 10206, S141: S141{S140: S140{E: true}}, É: []int{10208}}, A: 10209, S162: S162{y: 10210, A1: []int{10211}, S161: &S161{S121: &S121{D: true, x: 10213.5, C: 10214, E: []int{10215}}, E: 10216, A1: 10217}}}},
	{"S231", S231{A: 10218, B: nil}},
	{"S231", S231{A: 10220, B: map[string]int{"k": 10221}}},
	{"s232", s232{x: "v10222<", S4: &S4{}, Foo: 10223.5, É: 10224}},
	{"s232", s232{x: "v10225<", S4: &S4{}, Foo: 10226.5, É: 10227}},
	{"S233", S233{C: false, S182: &S182{S179: &S179{A1: 10229, S173: &S173{S167: nil, D: map[string]int{"k": 10230}, B: 0}, S175: S175{y: 0, É: selp(10233)}}, y: map[string]int{"k": 10234}, Foo: "v10235<", x: nil}, S230: &S230{S229: S229{D: 10237}, s144: s144{D: 10238, S141: S141{S140: S140{E: false}}, É: []int{10240}}, A: 10241, S162: S162{y: 10242, A1: []int{10243}, S161: &S161{S121: nil, E: 10244, A1: 10245}}}, A: 10246}},
	{"S233", S233{C: false, S182: nil, S230: &S230{S229: S229{D: 10248}, s144: s144{D: 10249, S141: S141{S140: S140{E: true}}, É: []int{10251}}, A: 10252, S162: S162{y: 10253, A1: []int{10254}, S161: &S161{S121: nil, E: 10255, A1: nil}}}, A: 10257}},
	{"S234", S234{D: true, A1: selp(10259), SelInt: 10260, s232: &s232{x: "v10261<", S4: &S4{}, Foo: 10262.5, É: nil}}},
	{"S234", S234{D: true, A1: selp(10265), SelInt: 10266, s232: &s232{x: "v10267<", S4: &S4{}, Foo: 10268.5, É: nil}}},
	{"S235", S235{x: []int{10270}, s232: s232{x: "v10271<", S4: nil, Foo: 10272.5, É: 10273}, S234: S234{D: false, A1: selp(10275), SelInt: 10276, s232: &s232{x: "v10277<", S4: &S4{}, Foo: 10278.5, É: 10279}}}},
	{"S235", S235{x: []int{10280}, s232: s232{x: "v10281<", S4: &S4{}, Foo: 10282.5, É: 10283}, S234: S234{D: true, A1: selp(10285), SelInt: 10286, s232: &s232{x: "v10287<", S4: &S4{}, Foo: 10288.5, É: 10289}}}},
	{"S236", S236{B: []int{10290}, C: nil, x: 10292, S230: &S230{S229: S229{D: 10293}, s144: s144{D: 10294, S141: S141{S140: S140{E: false}}, É: nil}, A: 10297, S162: S162{y: 10298, A1: nil, S161: &S161{S121: nil, E: 10300, A1: 10301}}}}},
	{"S236", S236{B: []int{10302}, C: []int{10303}, x: 10304, S230: &S230{S229: S229{D: 10305}, s144: s144{D: 10306, S141: S141{S140: S140{E: true}}, É: nil}, A: 10309, S162: S162{y: 10310, A1: []int{10311}, S161: &S161{S121: nil, E: 10312, A1: 10313}}}}},
	{"S237", S237{S170: &S170{D: true}, S236: &S236{B: []int{10315}, C: []int{10316}, x: 10317, S230: nil}, s232: s232{x: "v10318<", S4: &S4{}, Foo: 10319.5, É: 10320}}},
	{"S237", S237{S170: nil, S236: &S236{B: []int{10321}, C: []int{10322}, x: 10323, S230: &S230{S229: S229{D: 10324}, s144: s144{D: 10325, S141: S141{S140: S140{E: true}}, É: []int{10327}}, A: nil, S162: S162{y: 10329, A1: []int{10330}, S161: nil}}}, s232: s232{x: "v10331<", S4: &S4{}, Foo: 10332.5, É: 10333}}},
	{"s238", s238{S233: S233{C: true, S182: &S182{S179: nil, y: map[string]int{"k": 10335}, Foo: "v10336<", x: []int{10337}}, S230: &S230{S229: S229{D: nil}, s144: s144{D: 10339, S141: S141{S140: S140{E: true}}, É: []int{10341}}, A: 10342, S162: S162{y: 0, A1: nil, S161: &S161{S121: nil, E: 10345, A1: 10346}}}, A: 10347}, C: 10348, A: 10349}},
	{"s238", s238{S233: S233{C: true, S182: &S182{S179: &S179{A1: 10351, S173: nil, S175: S175{y: 10352, É: selp(10353)}}, y: map[string]int{"k": 10354}, Foo: "", x: []int{10356}}, S230: &S230{S229: S229{D: 10357}, s144: s144{D: 10358, S141: S141{S140: S140{E: true}}, É: []int{10360}}, A: 10361, S162: S162{y: 10362, A1: []int{10363}, S161: &S161{S121: nil, E: nil, A1: 10365}}}, A: 10366}, C: 0, A: 10368}},
	{"S240", S240{S235: S235{x: []int{10369}, s232: s232{x: "v10370<", S4: nil, Foo: 10371.5, É: 10372}, S234: S234{D: true, A1: selp(10374), SelInt: 10375, s232: &s232{x: "", S4: &S4{}, Foo: 10377.5, É: 10378}}}, S234: S234{D: true, A1: selp(10380), SelInt: 10381, s232: &s232{x: "v10382<", S4: &S4{}, Foo: 10383.5, É: 10384}}, Foo: 10385}},
	{"S240", S240{S235: S235{x: []int{10386}, s232: s232{x: "v10387<", S4: &S4{}, Foo: 0, É: nil}, S234: S234{D: true, A1: selp(10391), SelInt: 10392, s232: nil}}, S234: S234{D: false, A1: selp(10394), SelInt: 10395, s232: &s232{x: "v10396<", S4: &S4{}, Foo: 10397.5, É: 10398}}, Foo: 10399}},
	{"S241", S241{A: 10400, D: false, S235: &S235{x: []int{10402}, s232: s232{x: "", S4: &S4{}, Foo: 10404.5, É: 10405}, S234: S234{D: true, A1: selp(10407), SelInt: 10408, s232: &s232{x: "", S4: nil, Foo: 10410.5, É: 10411}}}, selFunc: nil, s238: &s238{S233: S233{C: true, S182: &S182{S179: nil, y: map[string]int{"k": 10414}, Foo: "", x: []int{10416}}, S230: &S230{S229: S229{D: 10417}, s144: s144{D: 10418, S141: S141{S140: S140{E: true}}, É: []int{10420}}, A: nil, S162: S162{y: 10422, A1: nil, S161: nil}}, A: 10424}, C: 10425, A: 10426}}},
	{"S241", S241{A: 10427, D: false, S235: &S235{x: nil, s232: s232{x: "v10430<", S4: &S4{}, Foo: 10431.5, É: nil}, S234: S234{D: false, A1: selp(10434), SelInt: 10435, s232: &s232{x: "", S4: nil, Foo: 10437.5, É: 10438}}}, selFunc: nil, s238: &s238{S233: S233{C: true, S182: &S182{S179: nil, y: nil, Foo: "v10442<", x: []int{10443}}, S230: &S230{S229: S229{D: 10444}, s144: s144{D: 10445, S141: S141{S140: S140{E: true}}, É: []int{10447}}, A: 10448, S162: S162{y: 0, A1: nil, S161: nil}}, A: 10451}, C: 10452, A: 10453}}},
	{"S245", S245{SelIface: SelIface(10454), S11: &S11{S8: S8{A: 10455.5, s2: s2{A1: true, x: "v10457<", y: map[string]int{"k": 10458}, S0: S0{}, Foo: 10459.5, S1: &S1{S0: S0{}, D: "v10460<", A1: 0}}, C: 10462.5, E: "v10463<"}, Foo: map[string]int{"k": 10464}, A1: "v10465<"}, C: true, É: selp(10467)}},
	{"S245", S245{SelIface: SelIface(10468), S11: &S11{S8: S8{A: 10469.5, s2: s2{A1: false, x: "v10471<", y: map[string]int{"k": 10472}, S0: S0{}, Foo: 10473.5, S1: &S1{S0: S0{}, D: "", A1: 10475}}, C: 10476.5, E: "v10477<"}, Foo: map[string]int{"k": 10478}, A1: "v10479<"}, C: false, É: selp(10481)}},
	{"s246", s246{x: 10482, B: true}},
	{"s246", s246{x: 10484, B: true}},
	{"s247", s247{S241: S241{A: 10486, D: true, S235: &S235{x: []int{10488}, s232: s232{x: "v10489<", S4: &S4{}, Foo: 0, É: 10491}, S234: S234{D: true, A1: selp(10493), SelInt: 10494, s232: &s232{x: "v10495<", S4: nil, Foo: 0, É: 10497}}}, selFunc: nil, s238: &s238{S233: S233{C: true, S182: &S182{S179: nil, y: map[string]int{"k": 10500}, Foo: "v10501<", x: []int{10502}}, S230: &S230{S229: S229{D: 10503}, s144: s144{D: 10504, S141: S141{S140: S140{E: false}}, É: []int{10506}}, A: 10507, S162: S162{y: 10508, A1: []int{10509}, S161: nil}}, A: 10510}, C: 10511, A: 10512}}}},
	{"s247", s247{S241: S241{A: nil, D: true, S235: nil, selFunc: nil, s238: &s238{S233: S233{C: true, S182: &S182{S179: nil, y: nil, Foo: "", x: []int{10519}}, S230: &S230{S229: S229{D: nil}, s144: s144{D: 10521, S141: S141{S140: S140{E: true}}, É: []int{10523}}, A: 10524, S162: S162{y: 10525, A1: []int{10526}, S161: nil}}, A: nil}, C: 10528, A: 10529}}}},
	{"S249", S249{x: []int{10530}, S249: &S249{x: []int{10531}, S249: &S249{x: []int{10532}, S249: &S249{x: []int{10533}, S249: nil, y: nil}, y: []int{10535}}, y: []int{10536}}, y: []int{10537}}},
	{"S249", S249{x: []int{10538}, S249: &S249{x: nil, S249: &S249{x: []int{10540}, S249: nil, y: []int{10541}}, y: []int{10542}}, y: []int{10543}}},
	{"S250", S250{s197: &s197{s191: &s191{D: 10544, S187: &S187{S163: nil, x: "", Foo: 0, S185: S185{s180: s180{s178: nil, A1: "v10547<", s180: nil, É: selp(10548)}, É: 10549.5, D: 10550.5, A1: "v10551<"}, D: false, S75: S75{S74: S74{C: 10553.5, E: 10554, S71: nil}, A1: false, Foo: map[string]int{"k": 10556}, A: 10557.5}}}, S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 10560.5, D: []int{10561}}, A: nil, A1: "v10563<", y: 10564}, x: []int{10565}, É: 10566.5, Foo: 10567, S250: &S250{s197: &s197{s191: &s191{D: 10568, S187: nil}, S194: &S194{E: map[string]int{"k": 10569}, SelSlice: SelSlice{"x"}, y: 10571.5, D: []int{10572}}, A: map[string]int{"k": 10573}, A1: "v10574<", y: 10575}, x: []int{10576}, É: 0, Foo: 10578, S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10579}, A1: "v10580<", y: 10581}, x: []int{10582}, É: 0, Foo: 10584, S250: &S250{s197: nil, x: []int{10585}, É: 10586.5, Foo: 10587, S250: nil, B: selp(10588)}, B: selp(10589)}, B: nil}, B: nil}},
	{"S250", S250{s197: &s197{s191: &s191{D: 10592, S187: nil}, S194: &S194{E: map[string]int{"k": 10593}, SelSlice: SelSlice{"x"}, y: 10595.5, D: []int{10596}}, A: map[string]int{"k": 10597}, A1: "", y: 10599}, x: []int{10600}, É: 10601.5, Foo: 10602, S250: &S250{s197: &s197{s191: &s191{D: 0, S187: nil}, S194: &S194{E: map[string]int{"k": 10604}, SelSlice: SelSlice{"x"}, y: 10606.5, D: []int{10607}}, A: map[string]int{"k": 10608}, A1: "v10609<", y: 10610}, x: []int{10611}, É: 10612.5, Foo: 10613, S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10614}, A1: "v10615<", y: 10616}, x: []int{10617}, É: 0, Foo: 10619, S250: &S250{s197: nil, x: []int{10620}, É: 0, Foo: 10622, S250: nil, B: nil}, B: selp(10624)}, B: selp(10625)}, B: selp(10626)}},
	{"S251", S251{s247: s247{S241: S241{A: 10627, D: true, S235: &S235{x: nil, s232: s232{x: "v10630<", S4: nil, Foo: 10631.5, É: 10632}, S234: S234{D: true, A1: selp(10634), SelInt: 10635, s232: nil}}, selFunc: nil, s238: &s238{S233: S233{C: true, S182: nil, S230: nil, A: 10638}, C: 0, A: 10640}}}, É: nil, s246: s246{x: 10642, B: true}, A1: selp(10644), D: 10645.5, B: true}},
	{"S251", S251{s247: s247{S241: S241{A: nil, D: false, S235: &S235{x: []int{10649}, s232: s232{x: "v10650<", S4: nil, Foo: 10651.5, É: 10652}, S234: S234{D: true, A1: nil, SelInt: 10655, s232: nil}}, selFunc: nil, s238: &s238{S233: S233{C: true, S182: nil, S230: nil, A: 10658}, C: 10659, A: 0}}}, É: selp(10661), s246: s246{x: 10662, B: true}, A1: nil, D: 10665.5, B: true}},
	{"S252", S252{D: 10667.5, A1: "v10668<", s246: s246{x: 0, B: true}, A: 10671, E: selp(10672), S250: &S250{s197: &s197{s191: &s191{D: 0, S187: nil}, S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 10676.5, D: nil}, A: map[string]int{"k": 10678}, A1: "v10679<", y: 10680}, x: []int{10681}, É: 10682.5, Foo: 10683, S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10684}, A1: "v10685<", y: 10686}, x: []int{10687}, É: 10688.5, Foo: nil, S250: &S250{s197: nil, x: nil, É: 0, Foo: 10692, S250: nil, B: selp(10693)}, B: nil}, B: selp(10695)}}},
	{"S252", S252{D: 0, A1: "v10697<", s246: s246{x: 10698, B: false}, A: 0, E: selp(10701), S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10702}, A1: "v10703<", y: nil}, x: []int{10705}, É: 0, Foo: nil, S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10708}, A1: "v10709<", y: nil}, x: nil, É: 0, Foo: 10713, S250: nil, B: nil}, B: selp(10715)}}},
	{"s253", s253{É: 0, Foo: selp(10717), A: map[string]int{"k": 10718}, S250: S250{s197: &s197{s191: &s191{D: 10719, S187: nil}, S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 10722.5, D: nil}, A: map[string]int{"k": 10724}, A1: "v10725<", y: 10726}, x: []int{10727}, É: 10728.5, Foo: 10729, S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10730}, A1: "", y: 10732}, x: []int{10733}, É: 10734.5, Foo: 10735, S250: &S250{s197: nil, x: []int{10736}, É: 10737.5, Foo: 10738, S250: nil, B: selp(10739)}, B: selp(10740)}, B: selp(10741)}}},
	{"s253", s253{É: 10742.5, Foo: selp(10743), A: nil, S250: S250{s197: &s197{s191: &s191{D: 10745, S187: nil}, S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 10748.5, D: []int{10749}}, A: map[string]int{"k": 10750}, A1: "v10751<", y: 10752}, x: []int{10753}, É: 10754.5, Foo: 10755, S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10756}, A1: "", y: nil}, x: []int{10759}, É: 10760.5, Foo: nil, S250: &S250{s197: nil, x: []int{10762}, É: 10763.5, Foo: 10764, S250: nil, B: selp(10765)}, B: nil}, B: selp(10767)}}},
	{"S254", S254{x: 10768, É: 10769, A1: []int{10770}}},
	{"S254", S254{x: 10771, É: 10772, A1: []int{10773}}},
	{"S255", S255{Foo: map[string]int{"k": 10774}, S252: S252{D: 10775.5, A1: "", s246: s246{x: 10777, B: true}, A: 0, E: nil, S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10781}, A1: "", y: 10783}, x: []int{10784}, É: 0, Foo: 10786, S250: nil, B: selp(10787)}}, x: map[string]int{"k": 10788}, selStr: "s10789", S251: &S251{s247: s247{S241: S241{A: 10790, D: true, S235: &S235{x: nil, s232: s232{x: "v10793<", S4: nil, Foo: 10794.5, É: 10795}, S234: S234{D: true, A1: selp(10797), SelInt: 10798, s232: nil}}, selFunc: nil, s238: &s238{S233: S233{C: true, S182: nil, S230: nil, A: 10801}, C: 10802, A: 10803}}}, É: selp(10804), s246: s246{x: 0, B: false}, A1: selp(10807), D: 10808.5, B: true}, E: selp(10810)}},
	{"S255", S255{Foo: map[string]int{"k": 10811}, S252: S252{D: 10812.5, A1: "", s246: s246{x: 10814, B: true}, A: 10816, E: selp(10817), S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10818}, A1: "v10819<", y: 10820}, x: nil, É: 10822.5, Foo: 10823, S250: &S250{s197: nil, x: []int{10824}, É: 10825.5, Foo: 10826, S250: nil, B: selp(10827)}, B: selp(10828)}}, x: map[string]int{"k": 10829}, selStr: "s10830", S251: nil, E: selp(10831)}},
	{"S256", S256{B: "v10832<", É: 10833, S256: &S256{B: "v10834<", É: 10835, S256: &S256{B: "v10836<", É: nil, S256: &S256{B: "", É: 10839, S256: nil, A: "v10840<"}, A: "v10841<"}, A: "v10842<"}, A: "v10843<"}},
	{"S256", S256{B: "v10844<", É: 10845, S256: &S256{B: "v10846<", É: 10847, S256: &S256{B: "", É: 10849, S256: &S256{B: "v10850<", É: nil, S256: nil, A: "v10852<"}, A: "v10853<"}, A: ""}, A: "v10855<"}},
	{"s257", s257{S254: &S254{x: 0, É: 10857, A1: nil}, S252: S252{D: 10859.5, A1: "", s246: s246{x: 10861, B: true}, A: 10863, E: nil, S250: &S250{s197: nil, x: []int{10865}, É: 0, Foo: nil, S250: nil, B: nil}}}},
	{"s257", s257{S254: nil, S252: S252{D: 10869.5, A1: "v10870<", s246: s246{x: 10871, B: true}, A: 10873, E: selp(10874), S250: &S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10875}, A1: "", y: 10877}, x: []int{10878}, É: 10879.5, Foo: 10880, S250: &S250{s197: nil, x: []int{10881}, É: 10882.5, Foo: 10883, S250: nil, B: nil}, B: selp(10885)}}}},
	{"S258", S258{x: selp(10886), s55: &s55{S50: &S50{S48: &S48{S45: nil, A1: 10887, C: []int{10888}}, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{10890}, É: "v10891<"}}, s2: &s2{A1: true, x: "v10893<", y: nil, S0: S0{}, Foo: 10895.5, S1: &S1{S0: S0{}, D: "", A1: 10897}}}, B: []int{10898}}},
	{"S258", S258{x: nil, s55: nil, B: []int{10900}}},
	{"s259", s259{S258: S258{x: selp(10901), s55: &s55{S50: &S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: []int{10903}, É: "v10904<"}}, s2: &s2{A1: true, x: "v10906<", y: nil, S0: S0{}, Foo: 10908.5, S1: nil}}, B: []int{10909}}, S256: S256{B: "v10910<", É: 10911, S256: &S256{B: "v10912<", É: 10913, S256: &S256{B: "v10914<", É: 10915, S256: nil, A: "v10916<"}, A: "v10917<"}, A: "v10918<"}, A1: nil, A: 10920, s253: &s253{É: 10921.5, Foo: selp(10922), A: map[string]int{"k": 10923}, S250: S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10924}, A1: "v10925<", y: nil}, x: []int{10927}, É: 10928.5, Foo: 10929, S250: &S250{s197: nil, x: nil, É: 10931.5, Foo: nil, S250: nil, B: selp(10933)}, B: selp(10934)}}, B: true, selFunc: nil}},
	{"s259", s259{S258: S258{x: nil, s55: &s55{S50: &S50{S48: nil, S12: S12{S1: nil, selFunc: nil, S4: S4{}, B: nil, É: "v10940<"}}, s2: &s2{A1: false, x: "", y: map[string]int{"k": 10943}, S0: S0{}, Foo: 0, S1: nil}}, B: []int{10945}}, S256: S256{B: "v10946<", É: nil, S256: &S256{B: "v10948<", É: 10949, S256: &S256{B: "", É: 10951, S256: nil, A: "v10952<"}, A: "v10953<"}, A: "v10954<"}, A1: nil, A: nil, s253: &s253{É: 10957.5, Foo: nil, A: map[string]int{"k": 10959}, S250: S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 10960}, A1: "", y: 10962}, x: nil, É: 10964.5, Foo: nil, S250: &S250{s197: nil, x: []int{10966}, É: 10967.5, Foo: 10968, S250: nil, B: selp(10969)}, B: selp(10970)}}, B: false, selFunc: nil}},
	{"S260", S260{B: []int{10973}}},
	{"S260", S260{B: []int{10974}}},
	{"S262", S262{E: selp(10975), Foo: false, D: "v10977<"}},
	{"S262", S262{E: selp(10978), Foo: true, D: "v10980<"}},
	{"s265", s265{É: map[string]int{"k": 10981}, y: true, A: 10983, C: nil}},
	{"s265", s265{É: nil, y: true, A: 10987, C: nil}},
	{"S266", S266{D: true}},
	{"S266", S266{D: true}},
	{"S267", S267{}},
	{"S267", S267{}},
	{"S268", S268{A: 10991}},
	{"S268", S268{A: 10992}},
	{"s269", s269{E: selp(10993), S268: S268{A: 10994}, y: selp(10995)}},
	{"s269", s269{E: selp(10996), S268: S268{A: 10997}, y: selp(10998)}},
	{"S270", S270{A1: true}},
	{"S270", S270{A1: true}},
	{"s271", s271{}},
	{"s271", s271{}},
	{"S272", S272{A1: "v11001<", x: nil, s269: s269{E: selp(11003), S268: S268{A: 11004}, y: nil}}},
	{"S272", S272{A1: "v11006<", x: selp(11007), s269: s269{E: selp(11008), S268: S268{A: 11009}, y: selp(11010)}}},
	{"s273", s273{É: true, s271: s271{}, A: selp(11012), s253: &s253{É: 11013.5, Foo: selp(11014), A: map[string]int{"k": 11015}, S250: S250{s197: &s197{s191: nil, S194: nil, A: nil, A1: "v11017<", y: 11018}, x: []int{11019}, É: 11020.5, Foo: 11021, S250: &S250{s197: nil, x: nil, É: 11023.5, Foo: 11024, S250: nil, B: selp(11025)}, B: selp(11026)}}, D: map[string]int{"k": 11027}, S268: &S268{A: 11028}}},
	{"s273", s273{É: true, s271: s271{}, A: nil, s253: &s253{É: 11031.5, Foo: selp(11032), A: map[string]int{"k": 11033}, S250: S250{s197: &s197{s191: nil, S194: nil, A: nil, A1: "v11035<", y: 11036}, x: []int{11037}, É: 11038.5, Foo: nil, S250: &S250{s197: nil, x: []int{11040}, É: 11041.5, Foo: 11042, S250: nil, B: selp(11043)}, B: selp(11044)}}, D: nil, S268: &S268{A: 11046}}},
	{"S274", S274{S256: &S256{B: "v11047<", É: 11048, S256: &S256{B: "v11049<", É: 11050, S256: &S256{B: "v11051<", É: 11052, S256: nil, A: "v11053<"}, A: "v11054<"}, A: "v11055<"}, E: 11056, D: 11057.5, A1: []int{11058}, S268: S268{A: 11059}}},
	{"S274", S274{S256: &S256{B: "v11060<", É: 11061, S256: nil, A: "v11062<"}, E: 11063, D: 11064.5, A1: []int{11065}, S268: S268{A: 11066}}},
	{"S275", S275{s269: s269{E: selp(11067), S268: S268{A: 11068}, y: selp(11069)}, D: "v11070<", S274: S274{S256: nil, E: 11071, D: 11072.5, A1: []int{11073}, S268: S268{A: 11074}}, S270: &S270{A1: true}, A: nil, SelSlice: SelSlice{"x"}}},
	{"S275", S275{s269: s269{E: selp(11078), S268: S268{A: 11079}, y: selp(11080)}, D: "v11081<", S274: S274{S256: &S256{B: "v11082<", É: 11083, S256: &S256{B: "v11084<", É: 11085, S256: nil, A: "v11086<"}, A: "v11087<"}, E: 11088, D: 11089.5, A1: []int{11090}, S268: S268{A: 11091}}, S270: &S270{A1: true}, A: selp(11093), SelSlice: SelSlice{"x"}}},
	{"S276", S276{E: selp(11095), x: 11096.5, S147: &S147{s146: s146{A: nil, s143: nil, S141: &S141{S140: S140{E: true}}, s144: s144{D: 0, S141: S141{S140: S140{E: false}}, É: []int{11101}}}, s144: &s144{D: 11102, S141: S141{S140: S140{E: true}}, É: []int{11104}}, A1: 11105}, y: selp(11106)}},
	{"S276", S276{E: selp(11107), x: 11108.5, S147: &S147{s146: s146{A: nil, s143: &s143{É: 0, y: 11111, A: []int{11112}, Foo: "v11113<"}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 0, S141: S141{S140: S140{E: true}}, É: []int{11117}}}, s144: &s144{D: 0, S141: S141{S140: S140{E: false}}, É: nil}, A1: 0}, y: nil}},
	{"S277", S277{}},
	{"S277", S277{}},
	{"S278", S278{S276: S276{E: selp(11123), x: 0, S147: &S147{s146: s146{A: selp(11125), s143: &s143{É: 0, y: 11127, A: []int{11128}, Foo: "v11129<"}, S141: &S141{S140: S140{E: false}}, s144: s144{D: 11131, S141: S141{S140: S140{E: true}}, É: nil}}, s144: &s144{D: 11134, S141: S141{S140: S140{E: true}}, É: []int{11136}}, A1: 11137}, y: selp(11138)}, D: nil, S274: S274{S256: &S256{B: "v11140<", É: 11141, S256: &S256{B: "", É: 11143, S256: nil, A: "v11144<"}, A: "v11145<"}, E: 11146, D: 11147.5, A1: []int{11148}, S268: S268{A: nil}}, É: nil, s273: &s273{É: true, s271: s271{}, A: selp(11152), s253: &s253{É: 11153.5, Foo: selp(11154), A: map[string]int{"k": 11155}, S250: S250{s197: nil, x: []int{11156}, É: 0, Foo: 11158, S250: nil, B: selp(11159)}}, D: nil, S268: &S268{A: 11161}}}},
	{"S278", S278{S276: S276{E: selp(11162), x: 0, S147: &S147{s146: s146{A: nil, s143: &s143{É: 0, y: 11166, A: nil, Foo: ""}, S141: &S141{S140: S140{E: true}}, s144: s144{D: 11170, S141: S141{S140: S140{E: false}}, É: []int{11172}}}, s144: &s144{D: 11173, S141: S141{S140: S140{E: true}}, É: []int{11175}}, A1: 11176}, y: selp(11177)}, D: selp(11178), S274: S274{S256: &S256{B: "v11179<", É: 11180, S256: &S256{B: "v11181<", É: 11182, S256: nil, A: "v11183<"}, A: "v11184<"}, E: 11185, D: 11186.5, A1: nil, S268: S268{A: 11188}}, É: []int{11189}, s273: nil}},
	{"s279", s279{s273: s273{É: true, s271: s271{}, A: selp(11191), s253: &s253{É: 0, Foo: selp(11193), A: map[string]int{"k": 11194}, S250: S250{s197: &s197{s191: nil, S194: nil, A: map[string]int{"k": 11195}, A1: "v11196<", y: 11197}, x: []int{11198}, É: 11199.5, Foo: 11200, S250: &S250{s197: nil, x: []int{11201}, É: 11202.5, Foo: 11203, S250: nil, B: nil}, B: selp(11205)}}, D: map[string]int{"k": 11206}, S268: &S268{A: nil}}, y: map[string]int{"k": 11208}, S278: &S278{S276: S276{E: selp(11209), x: 11210.5, S147: nil, y: selp(11211)}, D: nil, S274: S274{S256: &S256{B: "v11213<", É: 11214, S256: nil, A: "v11215<"}, E: 11216, D: 11217.5, A1: []int{11218}, S268: S268{A: nil}}, É: nil, s273: &s273{É: true, s271: s271{}, A: selp(11222), s253: &s253{É: 0, Foo: selp(11224), A: map[string]int{"k": 11225}, S250: S250{s197: nil, x: []int{11226}, É: 0, Foo: 11228, S250: nil, B: selp(11229)}}, D: map[string]int{"k": 11230}, S268: &S268{A: 11231}}}}},
	{"s279", s279{s273: s273{É: true, s271: s271{}, A: selp(11233), s253: &s253{É: 11234.5, Foo: selp(11235), A: map[string]int{"k": 11236}, S250: S250{s197: &s197{s191: nil, S194: nil, A: nil, A1: "v11238<", y: nil}, x: []int{11240}, É: 11241.5, Foo: 11242, S250: nil, B: selp(11243)}}, D: map[string]int{"k": 11244}, S268: &S268{A: 11245}}, y: map[string]int{"k": 11246}, S278: &S278{S276: S276{E: nil, x: 11248.5, S147: &S147{s146: s146{A: selp(11249), s143: nil, S141: nil, s144: s144{D: 11250, S141: S141{S140: S140{E: true}}, É: []int{11252}}}, s144: nil, A1: 11253}, y: selp(11254)}, D: selp(11255), S274: S274{S256: &S256{B: "v11256<", É: nil, S256: nil, A: "v11258<"}, E: nil, D: 11260.5, A1: []int{11261}, S268: S268{A: 11262}}, É: []int{11263}, s273: &s273{É: true, s271: s271{}, A: selp(11265), s253: &s253{É: 11266.5, Foo: selp(11267), A: map[string]int{"k": 11268}, S250: S250{s197: nil, x: []int{11269}, É: 0, Foo: 11271, S250: nil, B: selp(11272)}}, D: map[string]int{"k": 11273}, S268: nil}}}},
	{"S280", S280{S277: &S277{}, S276: &S276{E: selp(11274), x: 11275.5, S147: &S147{s146: s146{A: nil, s143: nil, S141: nil, s144: s144{D: 11277, S141: S141{S140: S140{E: true}}, É: nil}}, s144: nil, A1: 11280}, y: selp(11281)}, S201: &S201{A1: map[string]int{"k": 11282}, B: 0, s199: s199{s197: s197{s191: &s191{D: 11284, S187: nil}, S194: &S194{E: nil, SelSlice: SelSlice{"x"}, y: 11287.5, D: []int{11288}}, A: nil, A1: "v11290<", y: nil}, E: nil, D: 11293}, A: nil, D: true}, C: 11296.5}},
	{"S280", S280{S277: &S277{}, S276: &S276{E: nil, x: 11298.5, S147: &S147{s146: s146{A: nil, s143: nil, S141: nil, s144: s144{D: 11300, S141: S141{S140: S140{E: true}}, É: []int{11302}}}, s144: nil, A1: 11303}, y: nil}, S201: &S201{A1: map[string]int{"k": 11305}, B: 0, s199: s199{s197: s197{s191: &s191{D: 11307, S187: nil}, S194: &S194{E: map[string]int{"k": 11308}, SelSlice: SelSlice{"x"}, y: 11310.5, D: nil}, A: map[string]int{"k": 11312}, A1: "v11313<", y: nil}, E: selp(11315), D: 11316}, A: map[string]int{"k": 11317}, D: true}, C: 11319.5}},
	{"s281", s281{S277: &S277{}, S276: &S276{E: selp(11320), x: 0, S147: &S147{s146: s146{A: nil, s143: nil, S141: nil, s144: s144{D: 11323, S141: S141{S140: S140{E: true}}, É: []int{11325}}}, s144: &s144{D: 11326, S141: S141{S140: S140{E: false}}, É: []int{11328}}, A1: 0}, y: selp(11330)}}},
	{"s281", s281{S277: &S277{}, S276: &S276{E: nil, x: 11332.5, S147: &S147{s146: s146{A: selp(11333), s143: nil, S141: nil, s144: s144{D: 0, S141: S141{S140: S140{E: true}}, É: []int{11336}}}, s144: &s144{D: 11337, S141: S141{S140: S140{E: true}}, É: []int{11339}}, A1: 11340}, y: selp(11341)}}},
	{"S282", S282{S277: &S277{}, S276: &S276{E: selp(11342), x: 11343.5, S147: &S147{s146: s146{A: selp(11344), s143: nil, S141: nil, s144: s144{D: 11345, S141: S141{S140: S140{E: true}}, É: []int{11347}}}, s144: &s144{D: 11348, S141: S141{S140: S140{E: true}}, É: []int{11350}}, A1: 0}, y: selp(11352)}, x: map[string]int{"k": 11353}}},
	{"S282", S282{S277: &S277{}, S276: &S276{E: selp(11354), x: 0, S147: &S147{s146: s146{A: selp(11356), s143: nil, S141: nil, s144: s144{D: 11357, S141: S141{S140: S140{E: true}}, É: []int{11359}}}, s144: &s144{D: 11360, S141: S141{S140: S140{E: false}}, É: []int{11362}}, A1: 11363}, y: selp(11364)}, x: map[string]int{"k": 11365}}},
	{"S283", S283{Foo: false, É: selp(11367), S282: &S282{S277: &S277{}, S276: &S276{E: selp(11368), x: 11369.5, S147: nil, y: selp(11370)}, x: map[string]int{"k": 11371}}}},
	{"S283", S283{Foo: true, É: selp(11373), S282: &S282{S277: &S277{}, S276: &S276{E: nil, x: 11375.5, S147: &S147{s146: s146{A: selp(11376), s143: nil, S141: nil, s144: s144{D: 0, S141: S141{S140: S140{E: true}}, É: []int{11379}}}, s144: nil, A1: 11380}, y: selp(11381)}, x: nil}}},
	{"s285", s285{A: []int{11383}, S280: nil, A1: 11384.5}},
	{"s285", s285{A: nil, S280: &S280{S277: nil, S276: &S276{E: selp(11386), x: 11387.5, S147: &S147{s146: s146{A: selp(11388), s143: nil, S141: nil, s144: s144{D: 0, S141: S141{S140: S140{E: true}}, É: []int{11391}}}, s144: nil, A1: 0}, y: selp(11393)}, S201: &S201{A1: map[string]int{"k": 11394}, B: 11395.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 11396}, A1: "v11397<", y: 11398}, E: nil, D: 11400}, A: map[string]int{"k": 11401}, D: true}, C: 11403.5}, A1: 0}},
	{"s287", s287{SelIface: SelIface(11405), S283: S283{Foo: true, É: selp(11407), S282: nil}}},
	{"s287", s287{SelIface: SelIface(11408), S283: S283{Foo: true, É: selp(11410), S282: &S282{S277: &S277{}, S276: &S276{E: nil, x: 11412.5, S147: nil, y: selp(11413)}, x: map[string]int{"k": 11414}}}}},
	{"s288", s288{D: "v11415<", S280: &S280{S277: &S277{}, S276: &S276{E: selp(11416), x: 11417.5, S147: &S147{s146: s146{A: selp(11418), s143: nil, S141: nil, s144: s144{D: 11419, S141: S141{S140: S140{E: true}}, É: []int{11421}}}, s144: nil, A1: 11422}, y: nil}, S201: &S201{A1: map[string]int{"k": 11424}, B: 11425.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 11426}, A1: "v11427<", y: nil}, E: selp(11429), D: 11430}, A: nil, D: true}, C: 11433.5}}},
	{"s288", s288{D: "v11434<", S280: &S280{S277: &S277{}, S276: &S276{E: selp(11435), x: 0, S147: &S147{s146: s146{A: selp(11437), s143: nil, S141: nil, s144: s144{D: 0, S141: S141{S140: S140{E: true}}, É: []int{11440}}}, s144: nil, A1: 11441}, y: selp(11442)}, S201: &S201{A1: map[string]int{"k": 11443}, B: 11444.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 11445}, A1: "", y: 11447}, E: selp(11448), D: 11449}, A: map[string]int{"k": 11450}, D: true}, C: 11452.5}}},
	{"S289", S289{x: nil, s286: s286{S244: S244{s239: s239{x: 11454, s239: &s239{x: nil, s239: nil, s52: s52{s36: nil, y: 11456.5, Foo: map[string]int{"k": 11457}, s46: nil}}, s52: s52{s36: &s36{}, y: 11458.5, Foo: map[string]int{"k": 11459}, s46: &s46{D: 11460, É: "v11461<", S41: S41{É: 11462, D: map[string]int{"k": 11463}, S8: S8{A: 0, s2: s2{A1: true, x: "", y: map[string]int{"k": 11467}, S0: S0{}, Foo: 0, S1: nil}, C: 11469.5, E: "v11470<"}, y: 11471, S29: S29{Foo: 11472.5}, s40: nil}, E: nil, s44: s44{x: map[string]int{"k": 11474}, s40: s40{S37: nil, C: []int{11475}, s35: s35{C: nil, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 11477.5, C: 11478, s17: nil, D: map[string]int{"k": 11479}}, s22: nil, A1: nil}}}, S32: S32{É: 11481.5, A: "v11482<", A1: nil}, B: map[string]int{"k": 11484}}, S39: S39{A: []int{11485}, S38: nil, S9: nil, A1: 0, s33: nil}, D: "v11487<"}, S11: nil, S41: S41{É: 11488, D: nil, S8: S8{A: 11490.5, s2: s2{A1: true, x: "v11492<", y: map[string]int{"k": 11493}, S0: S0{}, Foo: 11494.5, S1: nil}, C: 11495.5, E: "v11496<"}, y: 11497, S29: S29{Foo: 11498.5}, s40: nil}}}}}, S241: S241{A: nil, D: true, S235: &S235{x: []int{11501}, s232: s232{x: "v11502<", S4: nil, Foo: 0, É: nil}, S234: S234{D: false, A1: selp(11506), SelInt: 11507, s232: nil}}, selFunc: nil, s238: &s238{S233: S233{C: true, S182: nil, S230: nil, A: 11510}, C: 11511, A: 11512}}, S243: S243{A1: 11513, Foo: true, s239: s239{x: 11515, s239: &s239{x: 11516, s239: nil, s52: s52{s36: nil, y: 11517.5, Foo: map[string]int{"k": 11518}, s46: nil}}, s52: s52{s36: nil, y: 11519.5, Foo: map[string]int{"k": 11520}, s46: nil}}, S241: &S241{A: nil, D: true, S235: nil, selFunc: nil, s238: nil}, C: false, S243: &S243{A1: 11525, Foo: true, s239: s239{x: 11527, s239: nil, s52: s52{s36: nil, y: 11528.5, Foo: map[string]int{"k": 11529}, s46: nil}}, S241: nil, C: true, S243: nil}}}, C: selp(11531), B: true}, D: 11533.5, S283: &S283{Foo: true, É: selp(11535), S282: &S282{S277: &S277{}, S276: &S276{E: selp(11536), x: 11537.5, S147: nil, y: selp(11538)}, x: map[string]int{"k": 11539}}}, s144: s144{D: 11540, S141: S141{S140: S140{E: false}}, É: []int{11542}}}},
	{"S289", S289{x: selp(11543), s286: s286{S244: S244{s239: s239{x: 11544, s239: &s239{x: 11545, s239: nil, s52: s52{s36: nil, y: 0, Foo: map[string]int{"k": 11547}, s46: nil}}, s52: s52{s36: &s36{}, y: 0, Foo: nil, s46: &s46{D: 0, É: "v11551<", S41: S41{É: 11552, D: map[string]int{"k": 11553}, S8: S8{A: 11554.5, s2: s2{A1: true, x: "v11556<", y: map[string]int{"k": 11557}, S0: S0{}, Foo: 11558.5, S1: nil}, C: 0, E: "v11560<"}, y: 0, S29: S29{Foo: 0}, s40: nil}, E: map[string]int{"k": 11563}, s44: s44{x: map[string]int{"k": 11564}, s40: s40{S37: nil, C: []int{11565}, s35: s35{C: map[string]int{"k": 11566}, s34: s34{s33: nil, S28: S28{S25: nil, S26: S26{S23: S23{É: 11567.5, C: 0, s17: nil, D: map[string]int{"k": 11569}}, s22: nil, A1: map[string]int{"k": 11570}}}}, S32: S32{É: 11571.5, A: "v11572<", A1: []int{11573}}, B: map[string]int{"k": 11574}}, S39: S39{A: nil, S38: nil, S9: nil, A1: 11576.5, s33: nil}, D: "v11577<"}, S11: nil, S41: S41{É: nil, D: map[string]int{"k": 11579}, S8: S8{A: 11580.5, s2: s2{A1: false, x: "v11582<", y: map[string]int{"k": 11583}, S0: S0{}, Foo: 11584.5, S1: nil}, C: 0, E: "v11586<"}, y: 11587, S29: S29{Foo: 11588.5}, s40: nil}}}}}, S241: S241{A: nil, D: false, S235: &S235{x: []int{11591}, s232: s232{x: "v11592<", S4: nil, Foo: 11593.5, É: 11594}, S234: S234{D: true, A1: selp(11596), SelInt: 11597, s232: nil}}, selFunc: nil, s238: &s238{S233: S233{C: true, S182: nil, S230: nil, A: 11600}, C: 11601, A: 11602}}, S243: S243{A1: 11603, Foo: true, s239: s239{x: nil, s239: &s239{x: 11606, s239: nil, s52: s52{s36: nil, y: 11607.5, Foo: map[string]int{"k": 11608}, s46: nil}}, s52: s52{s36: nil, y: 11609.5, Foo: map[string]int{"k": 11610}, s46: nil}}, S241: &S241{A: 11611, D: true, S235: nil, selFunc: nil, s238: nil}, C: true, S243: &S243{A1: 11615, Foo: true, s239: s239{x: 11617, s239: nil, s52: s52{s36: nil, y: 11618.5, Foo: map[string]int{"k": 11619}, s46: nil}}, S241: nil, C: true, S243: nil}}}, C: selp(11621), B: false}, D: 11623.5, S283: &S283{Foo: false, É: nil, S282: &S282{S277: &S277{}, S276: nil, x: map[string]int{"k": 11626}}}, s144: s144{D: 11627, S141: S141{S140: S140{E: true}}, É: nil}}},
	{"S290", S290{s287: s287{SelIface: SelIface(11630), S283: S283{Foo: true, É: selp(11632), S282: &S282{S277: &S277{}, S276: &S276{E: selp(11633), x: 11634.5, S147: nil, y: selp(11635)}, x: map[string]int{"k": 11636}}}}, E: map[string]int{"k": 11637}, selStr: "s11638", É: map[string]int{"k": 11639}, Foo: 11640}},
	{"S290", S290{s287: s287{SelIface: SelIface(11641), S283: S283{Foo: true, É: selp(11643), S282: nil}}, E: map[string]int{"k": 11644}, selStr: "s11645", É: map[string]int{"k": 11646}, Foo: 11647}},
	{"S291", S291{Foo: true, s285: &s285{A: nil, S280: &S280{S277: &S277{}, S276: &S276{E: selp(11650), x: 11651.5, S147: nil, y: selp(11652)}, S201: &S201{A1: map[string]int{"k": 11653}, B: 11654.5, s199: s199{s197: s197{s191: nil, S194: nil, A: map[string]int{"k": 11655}, A1: "v11656<", y: 11657}, E: selp(11658), D: 11659}, A: map[string]int{"k": 11660}, D: false}, C: 11662.5}, A1: 11663.5}, S289: &S289{x: selp(11664), s286: s286{S244: S244{s239: s239{x: 11665, s239: nil, s52: s52{s36: nil, y: 11666.5, Foo: map[string]int{"k": 11667}, s46: nil}}, S241: S241{A: 11668, D: true, S235: nil, selFunc: nil, s238: nil}, S243: S243{A1: nil, Foo: true, s239: s239{x: 11673, s239: nil, s52: s52{s36: nil, y: 11674.5, Foo: nil, s46: nil}}, S241: nil, C: true, S243: nil}}, C: selp(11677), B: false}, D: 11679.5, S283: &S283{Foo: true, É: selp(11681), S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 11682}}}, s144: s144{D: 0, S141: S141{S140: S140{E: false}}, É: []int{11685}}}}},
	{"S291", S291{Foo: true, s285: &s285{A: []int{11687}, S280: &S280{S277: &S277{}, S276: &S276{E: selp(11688), x: 11689.5, S147: nil, y: nil}, S201: &S201{A1: nil, B: 11692.5, s199: s199{s197: s197{s191: nil, S194: nil, A: nil, A1: "v11694<", y: 11695}, E: selp(11696), D: 11697}, A: nil, D: true}, C: 11700.5}, A1: 0}, S289: nil}},
	{"S292", S292{s66: s66{s64: &s64{Foo: 11702, E: selp(11703)}, S62: &S62{C: "v11704<"}, x: 11705.5, A: nil}, E: map[string]int{"k": 11707}, É: 11708.5, C: false, s287: s287{SelIface: SelIface(11710), S283: S283{Foo: true, É: selp(11712), S282: &S282{S277: &S277{}, S276: &S276{E: selp(11713), x: 11714.5, S147: nil, y: selp(11715)}, x: map[string]int{"k": 11716}}}}}},
	{"S292", S292{s66: s66{s64: &s64{Foo: 11717, E: selp(11718)}, S62: &S62{C: "v11719<"}, x: 11720.5, A: []int{11721}}, E: map[string]int{"k": 11722}, É: 11723.5, C: true, s287: s287{SelIface: SelIface(11725), S283: S283{Foo: false, É: selp(11727), S282: &S282{S277: &S277{}, S276: &S276{E: selp(11728), x: 11729.5, S147: nil, y: selp(11730)}, x: map[string]int{"k": 11731}}}}}},
	{"S293", S293{S292: S292{s66: s66{s64: nil, S62: &S62{C: "v11732<"}, x: 11733.5, A: []int{11734}}, E: map[string]int{"k": 11735}, É: 11736.5, C: true, s287: s287{SelIface: SelIface(11738), S283: S283{Foo: true, É: selp(11740), S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 11741}}}}}, A: true, S289: &S289{x: selp(11743), s286: s286{S244: S244{s239: s239{x: nil, s239: nil, s52: s52{s36: nil, y: 11745.5, Foo: map[string]int{"k": 11746}, s46: nil}}, S241: S241{A: 11747, D: true, S235: nil, selFunc: nil, s238: nil}, S243: S243{A1: 11750, Foo: true, s239: s239{x: 11752, s239: nil, s52: s52{s36: nil, y: 11753.5, Foo: map[string]int{"k": 11754}, s46: nil}}, S241: nil, C: true, S243: nil}}, C: selp(11756), B: true}, D: 11758.5, S283: &S283{Foo: true, É: selp(11760), S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 11761}}}, s144: s144{D: 11762, S141: S141{S140: S140{E: false}}, É: []int{11764}}}, s53: s53{Foo: 11765, S48: S48{S45: &S45{A: nil, É: []int{11767}, D: 11768, S43: S43{D: "v11769<", S39: S39{A: []int{11770}, S38: nil, S9: nil, A1: 11771.5, s33: nil}, s42: s42{}, x: []int{11772}}}, A1: 11773, C: nil}, D: []int{11775}}, B: map[string]int{"k": 11776}, selFunc: nil}},
	{"S293", S293{S292: S292{s66: s66{s64: nil, S62: &S62{C: "v11778<"}, x: 11779.5, A: []int{11780}}, E: nil, É: 11782.5, C: true, s287: s287{SelIface: SelIface(11784), S283: S283{Foo: true, É: selp(11786), S282: nil}}}, A: false, S289: nil, s53: s53{Foo: 11788, S48: S48{S45: &S45{A: map[string]int{"k": 11789}, É: nil, D: 11791, S43: S43{D: "", S39: S39{A: []int{11793}, S38: nil, S9: nil, A1: 11794.5, s33: nil}, s42: s42{}, x: []int{11795}}}, A1: 11796, C: nil}, D: []int{11798}}, B: map[string]int{"k": 11799}, selFunc: nil}},
	{"S294", S294{S292: &S292{s66: s66{s64: &s64{Foo: 11801, E: selp(11802)}, S62: &S62{C: "v11803<"}, x: 11804.5, A: []int{11805}}, E: map[string]int{"k": 11806}, É: 0, C: true, s287: s287{SelIface: SelIface(11809), S283: S283{Foo: false, É: selp(11811), S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 11812}}}}}, D: 11813}},
	{"S294", S294{S292: &S292{s66: s66{s64: &s64{Foo: nil, E: nil}, S62: nil, x: 0, A: []int{11817}}, E: nil, É: 11819.5, C: true, s287: s287{SelIface: SelIface(11821), S283: S283{Foo: false, É: nil, S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 11824}}}}}, D: 11825}},
	{"S295", S295{É: 0, S95: S95{y: map[string]int{"k": 11827}, s66: &s66{s64: &s64{Foo: 11828, E: nil}, S62: nil, x: 11830.5, A: nil}, s93: s93{A: 11832, Foo: []int{11833}, s87: s87{S84: S84{Foo: 11834, E: "v11835<", B: 0, C: map[string]int{"k": 11837}}, A1: "v11838<", A: 11839.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}, É: 11842}, S292: S292{s66: s66{s64: &s64{Foo: nil, E: selp(11844)}, S62: &S62{C: "v11845<"}, x: 11846.5, A: []int{11847}}, E: map[string]int{"k": 11848}, É: 11849.5, C: false, s287: s287{SelIface: SelIface(11851), S283: S283{Foo: true, É: selp(11853), S282: nil}}}, S282: &S282{S277: nil, S276: nil, x: nil}, Foo: map[string]int{"k": 11855}}},
	{"S295", S295{É: 11856.5, S95: S95{y: nil, s66: &s66{s64: &s64{Foo: 11858, E: nil}, S62: &S62{C: "v11860<"}, x: 11861.5, A: nil}, s93: s93{A: 11863, Foo: []int{11864}, s87: s87{S84: S84{Foo: 11865, E: "v11866<", B: 11867.5, C: map[string]int{"k": 11868}}, A1: "v11869<", A: 11870.5, s82: s82{S61: &S61{D: true, SelSlice: SelSlice{"x"}}}}}, É: 11873}, S292: S292{s66: s66{s64: &s64{Foo: 11874, E: selp(11875)}, S62: &S62{C: "v11876<"}, x: 11877.5, A: []int{11878}}, E: map[string]int{"k": 11879}, É: 11880.5, C: true, s287: s287{SelIface: SelIface(11882), S283: S283{Foo: true, É: selp(11884), S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 11885}}}}}, S282: &S282{S277: nil, S276: &S276{E: selp(11886), x: 11887.5, S147: &S147{s146: s146{A: selp(11888), s143: nil, S141: nil, s144: s144{D: 11889, S141: S141{S140: S140{E: true}}, É: nil}}, s144: nil, A1: 11892}, y: nil}, x: map[string]int{"k": 11894}}, Foo: map[string]int{"k": 11895}}},
	{"S296", S296{y: 11896}},
	{"S296", S296{y: nil}},
	{"S297", S297{x: true, C: 0, S161: &S161{S121: &S121{D: true, x: 11901.5, C: 11902, E: []int{11903}}, E: 11904, A1: 11905}, S295: S295{É: 11906.5, S95: S95{y: map[string]int{"k": 11907}, s66: &s66{s64: &s64{Foo: nil, E: selp(11909)}, S62: &S62{C: "v11910<"}, x: 11911.5, A: []int{11912}}, s93: s93{A: 11913, Foo: nil, s87: s87{S84: S84{Foo: 0, E: "v11916<", B: 11917.5, C: map[string]int{"k": 11918}}, A1: "v11919<", A: 11920.5, s82: s82{S61: nil}}}, É: 11921}, S292: S292{s66: s66{s64: &s64{Foo: 11922, E: selp(11923)}, S62: nil, x: 11924.5, A: nil}, E: map[string]int{"k": 11926}, É: 11927.5, C: true, s287: s287{SelIface: SelIface(11929), S283: S283{Foo: true, É: nil, S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 11932}}}}}, S282: &S282{S277: &S277{}, S276: &S276{E: selp(11933), x: 11934.5, S147: nil, y: selp(11935)}, x: map[string]int{"k": 11936}}, Foo: map[string]int{"k": 11937}}, D: nil, S283: S283{Foo: true, É: selp(11940), S282: &S282{S277: &S277{}, S276: &S276{E: selp(11941), x: 11942.5, S147: nil, y: nil}, x: nil}}}},
	{"S297", S297{x: true, C: 11946.5, S161: &S161{S121: &S121{D: true, x: 11948.5, C: 11949, E: []int{11950}}, E: 11951, A1: 11952}, S295: S295{É: 11953.5, S95: S95{y: map[string]int{"k": 11954}, s66: &s66{s64: &s64{Foo: 11955, E: selp(11956)}, S62: &S62{C: ""}, x: 11958.5, A: []int{11959}}, s93: s93{A: 11960, Foo: []int{11961}, s87: s87{S84: S84{Foo: 11962, E: "v11963<", B: 11964.5, C: map[string]int{"k": 11965}}, A1: "v11966<", A: 11967.5, s82: s82{S61: nil}}}, É: 11968}, S292: S292{s66: s66{s64: &s64{Foo: 11969, E: selp(11970)}, S62: &S62{C: ""}, x: 11972.5, A: []int{11973}}, E: map[string]int{"k": 11974}, É: 11975.5, C: true, s287: s287{SelIface: SelIface(11977), S283: S283{Foo: true, É: selp(11979), S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 11980}}}}}, S282: &S282{S277: nil, S276: &S276{E: selp(11981), x: 11982.5, S147: nil, y: selp(11983)}, x: map[string]int{"k": 11984}}, Foo: map[string]int{"k": 11985}}, D: nil, S283: S283{Foo: true, É: selp(11988), S282: &S282{S277: &S277{}, S276: &S276{E: selp(11989), x: 0, S147: nil, y: selp(11991)}, x: map[string]int{"k": 11992}}}}},
	{"S298", S298{y: 11993, A: selp(11994), E: "v11995<", B: map[string]int{"k": 11996}}},
	{"S298", S298{y: nil, A: selp(11998), E: "v11999<", B: map[string]int{"k": 12000}}},
	{"s300", s300{S299: &S299{S295: &S295{É: 0, S95: S95{y: map[string]int{"k": 12002}, s66: nil, s93: s93{A: 0, Foo: []int{12004}, s87: s87{S84: S84{Foo: 0, E: "v12006<", B: 0, C: map[string]int{"k": 12008}}, A1: "v12009<", A: 12010.5, s82: s82{S61: nil}}}, É: 12011}, S292: S292{s66: s66{s64: nil, S62: nil, x: 12012.5, A: nil}, E: nil, É: 12015.5, C: true, s287: s287{SelIface: SelIface(12017), S283: S283{Foo: true, É: selp(12019), S282: nil}}}, S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 12020}}, Foo: nil}, selFunc: nil, S297: &S297{x: true, C: 12024.5, S161: &S161{S121: nil, E: nil, A1: 12026}, S295: S295{É: 12027.5, S95: S95{y: nil, s66: nil, s93: s93{A: 0, Foo: nil, s87: s87{S84: S84{Foo: 12031, E: "v12032<", B: 12033.5, C: map[string]int{"k": 12034}}, A1: "v12035<", A: 12036.5, s82: s82{S61: nil}}}, É: 12037}, S292: S292{s66: s66{s64: nil, S62: nil, x: 12038.5, A: []int{12039}}, E: map[string]int{"k": 12040}, É: 12041.5, C: true, s287: s287{SelIface: SelIface(12043), S283: S283{Foo: true, É: selp(12045), S282: nil}}}, S282: nil, Foo: map[string]int{"k": 12046}}, D: map[string]int{"k": 12047}, S283: S283{Foo: false, É: selp(12049), S282: nil}}, D: nil, B: 12051, S293: S293{S292: S292{s66: s66{s64: nil, S62: nil, x: 12052.5, A: []int{12053}}, E: map[string]int{"k": 12054}, É: 0, C: true, s287: s287{SelIface: SelIface(12057), S283: S283{Foo: true, É: selp(12059), S282: nil}}}, A: true, S289: &S289{x: selp(12061), s286: s286{S244: S244{s239: s239{x: 12062, s239: nil, s52: s52{s36: nil, y: 12063.5, Foo: map[string]int{"k": 12064}, s46: nil}}, S241: S241{A: 12065, D: false, S235: nil, selFunc: nil, s238: nil}, S243: S243{A1: 12068, Foo: true, s239: s239{x: 12070, s239: nil, s52: s52{s36: nil, y: 12071.5, Foo: map[string]int{"k": 12072}, s46: nil}}, S241: nil, C: true, S243: nil}}, C: selp(12074), B: true}, D: 12076.5, S283: nil, s144: s144{D: 12077, S141: S141{S140: S140{E: true}}, É: []int{12079}}}, s53: s53{Foo: 0, S48: S48{S45: nil, A1: 12081, C: []int{12082}}, D: []int{12083}}, B: map[string]int{"k": 12084}, selFunc: nil}, Foo: 12086.5}}},
	{"s300", s300{S299: &S299{S295: &S295{É: 12087.5, S95: S95{y: map[string]int{"k": 12088}, s66: nil, s93: s93{A: 12089, Foo: []int{12090}, s87: s87{S84: S84{Foo: 12091, E: "v12092<", B: 12093.5, C: map[string]int{"k": 12094}}, A1: "", A: 12096.5, s82: s82{S61: nil}}}, É: 12097}, S292: S292{s66: s66{s64: nil, S62: nil, x: 12098.5, A: nil}, E: nil, É: 12101.5, C: true, s287: s287{SelIface: SelIface(12103), S283: S283{Foo: true, É: selp(12105), S282: nil}}}, S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 12106}}, Foo: map[string]int{"k": 12107}}, selFunc: nil, S297: &S297{x: true, C: 12110.5, S161: nil, S295: S295{É: 0, S95: S95{y: nil, s66: nil, s93: s93{A: 0, Foo: []int{12114}, s87: s87{S84: S84{Foo: 12115, E: "v12116<", B: 12117.5, C: map[string]int{"k": 12118}}, A1: "", A: 0, s82: s82{S61: nil}}}, É: 12121}, S292: S292{s66: s66{s64: nil, S62: nil, x: 12122.5, A: []int{12123}}, E: map[string]int{"k": 12124}, É: 0, C: true, s287: s287{SelIface: SelIface(12127), S283: S283{Foo: true, É: nil, S282: nil}}}, S282: nil, Foo: nil}, D: map[string]int{"k": 12131}, S283: S283{Foo: false, É: selp(12133), S282: nil}}, D: selp(12134), B: 12135, S293: S293{S292: S292{s66: s66{s64: nil, S62: nil, x: 12136.5, A: []int{12137}}, E: map[string]int{"k": 12138}, É: 12139.5, C: true, s287: s287{SelIface: SelIface(12141), S283: S283{Foo: true, É: selp(12143), S282: nil}}}, A: true, S289: &S289{x: selp(12145), s286: s286{S244: S244{s239: s239{x: 12146, s239: nil, s52: s52{s36: nil, y: 12147.5, Foo: map[string]int{"k": 12148}, s46: nil}}, S241: S241{A: 12149, D: true, S235: nil, selFunc: nil, s238: nil}, S243: S243{A1: 12152, Foo: false, s239: s239{x: 12154, s239: nil, s52: s52{s36: nil, y: 0, Foo: map[string]int{"k": 12156}, s46: nil}}, S241: nil, C: false, S243: nil}}, C: nil, B: true}, D: 12160.5, S283: nil, s144: s144{D: 12161, S141: S141{S140: S140{E: false}}, É: []int{12163}}}, s53: s53{Foo: 12164, S48: S48{S45: nil, A1: 12165, C: []int{12166}}, D: []int{12167}}, B: map[string]int{"k": 12168}, selFunc: nil}, Foo: 12170.5}}},
	{"s301", s301{C: true, A1: selp(12172), É: selp(12173), D: true, S289: S289{x: selp(12175), s286: s286{S244: S244{s239: s239{x: nil, s239: &s239{x: nil, s239: nil, s52: s52{s36: nil, y: 12178.5, Foo: map[string]int{"k": 12179}, s46: nil}}, s52: s52{s36: nil, y: 12180.5, Foo: map[string]int{"k": 12181}, s46: nil}}, S241: S241{A: nil, D: true, S235: nil, selFunc: nil, s238: &s238{S233: S233{C: true, S182: nil, S230: nil, A: 12186}, C: 12187, A: 12188}}, S243: S243{A1: 12189, Foo: true, s239: s239{x: nil, s239: nil, s52: s52{s36: nil, y: 12192.5, Foo: nil, s46: nil}}, S241: &S241{A: nil, D: true, S235: nil, selFunc: nil, s238: nil}, C: true, S243: &S243{A1: 12198, Foo: true, s239: s239{x: nil, s239: nil, s52: s52{s36: nil, y: 12201.5, Foo: map[string]int{"k": 12202}, s46: nil}}, S241: nil, C: true, S243: nil}}}, C: selp(12204), B: false}, D: 12206.5, S283: nil, s144: s144{D: 12207, S141: S141{S140: S140{E: true}}, É: []int{12209}}}}},
	{"s301", s301{C: true, A1: selp(12211), É: selp(12212), D: false, S289: S289{x: selp(12214), s286: s286{S244: S244{s239: s239{x: nil, s239: &s239{x: 12216, s239: nil, s52: s52{s36: nil, y: 0, Foo: map[string]int{"k": 12218}, s46: nil}}, s52: s52{s36: nil, y: 12219.5, Foo: map[string]int{"k": 12220}, s46: nil}}, S241: S241{A: nil, D: true, S235: &S235{x: []int{12223}, s232: s232{x: "v12224<", S4: nil, Foo: 12225.5, É: 12226}, S234: S234{D: true, A1: selp(12228), SelInt: 12229, s232: nil}}, selFunc: nil, s238: &s238{S233: S233{C: false, S182: nil, S230: nil, A: 12232}, C: 0, A: 12234}}, S243: S243{A1: nil, Foo: true, s239: s239{x: 12237, s239: nil, s52: s52{s36: nil, y: 12238.5, Foo: map[string]int{"k": 12239}, s46: nil}}, S241: &S241{A: 12240, D: false, S235: nil, selFunc: nil, s238: nil}, C: true, S243: &S243{A1: nil, Foo: true, s239: s239{x: 12246, s239: nil, s52: s52{s36: nil, y: 0, Foo: map[string]int{"k": 12248}, s46: nil}}, S241: nil, C: true, S243: nil}}}, C: selp(12250), B: true}, D: 12252.5, S283: &S283{Foo: true, É: selp(12254), S282: &S282{S277: nil, S276: nil, x: map[string]int{"k": 12255}}}, s144: s144{D: 12256, S141: S141{S140: S140{E: true}}, É: []int{12258}}}}},
	{"s302", s302{C: true}},
	{"s302", s302{C: true}},
	{"S303", S303{A1: 12261, B: true, S298: S298{y: 12263, A: selp(12264), E: "v12265<", B: map[string]int{"k": 12266}}, S303: &S303{A1: 12267, B: true, S298: S298{y: 12269, A: selp(12270), E: "v12271<", B: map[string]int{"k": 12272}}, S303: &S303{A1: 12273, B: false, S298: S298{y: 12275, A: selp(12276), E: "v12277<", B: map[string]int{"k": 12278}}, S303: &S303{A1: 12279, B: false, S298: S298{y: 12281, A: selp(12282), E: "v12283<", B: map[string]int{"k": 12284}}, S303: nil, s302: s302{C: true}}, s302: s302{C: true}}, s302: s302{C: false}}, s302: s302{C: true}}},
	{"S303", S303{A1: 12289, B: false, S298: S298{y: nil, A: selp(12292), E: "", B: map[string]int{"k": 12294}}, S303: &S303{A1: 12295, B: true, S298: S298{y: 12297, A: selp(12298), E: "v12299<", B: nil}, S303: &S303{A1: 12301, B: true, S298: S298{y: 12303, A: selp(12304), E: "v12305<", B: map[string]int{"k": 12306}}, S303: &S303{A1: 12307, B: true, S298: S298{y: 12309, A: selp(12310), E: "v12311<", B: map[string]int{"k": 12312}}, S303: nil, s302: s302{C: true}}, s302: s302{C: true}}, s302: s302{C: true}}, s302: s302{C: true}}},
	{"S304", S304{s301: &s301{C: true, A1: nil, É: selp(12319), D: true, S289: S289{x: selp(12321), s286: s286{S244: S244{s239: s239{x: 12322, s239: nil, s52: s52{s36: nil, y: 12323.5, Foo: map[string]int{"k": 12324}, s46: nil}}, S241: S241{A: 12325, D: false, S235: nil, selFunc: nil, s238: nil}, S243: S243{A1: nil, Foo: true, s239: s239{x: 12330, s239: nil, s52: s52{s36: nil, y: 12331.5, Foo: nil, s46: nil}}, S241: nil, C: false, S243: nil}}, C: selp(12334), B: true}, D: 12336.5, S283: &S283{Foo: true, É: selp(12338), S282: nil}, s144: s144{D: 12339, S141: S141{S140: S140{E: true}}, É: []int{12341}}}}}},
	{"S304", S304{s301: &s301{C: true, A1: selp(12343), É: selp(12344), D: true, S289: S289{x: selp(12346), s286: s286{S244: S244{s239: s239{x: nil, s239: nil, s52: s52{s36: nil, y: 12348.5, Foo: map[string]int{"k": 12349}, s46: nil}}, S241: S241{A: 12350, D: true, S235: nil, selFunc: nil, s238: nil}, S243: S243{A1: 12353, Foo: false, s239: s239{x: 12355, s239: nil, s52: s52{s36: nil, y: 12356.5, Foo: map[string]int{"k": 12357}, s46: nil}}, S241: nil, C: true, S243: nil}}, C: selp(12359), B: false}, D: 12361.5, S283: &S283{Foo: true, É: selp(12363), S282: nil}, s144: s144{D: 12364, S141: S141{S140: S140{E: true}}, É: []int{12366}}}}}},
	{"S305", S305{S173: &S173{S167: &S167{x: map[string]int{"k": 12367}, s120: s120{s119: s119{x: map[string]int{"k": 12368}}, s116: s116{s111: s111{C: 12369.5, A: 12370, S18: S18{D: []int{12371}, x: 12372, C: []int{12373}, S14: S14{D: []int{12374}, É: 0, x: selp(12376), S11: nil}}, É: "v12377<", SelIface: SelIface(12378)}}, E: true, A1: []int{12380}, s114: nil, A: map[string]int{"k": 12381}}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, A: 12384}, D: map[string]int{"k": 12385}, B: 12386.5}}},
	{"S305", S305{S173: &S173{S167: &S167{x: nil, s120: s120{s119: s119{x: map[string]int{"k": 12388}}, s116: s116{s111: s111{C: 12389.5, A: 0, S18: S18{D: nil, x: 0, C: nil, S14: S14{D: []int{12394}, É: 12395, x: selp(12396), S11: nil}}, É: "v12397<", SelIface: SelIface(12398)}}, E: true, A1: []int{12400}, s114: nil, A: map[string]int{"k": 12401}}, S61: S61{D: false, SelSlice: SelSlice{"x"}}, A: 0}, D: map[string]int{"k": 12405}, B: 12406.5}}},
	{"S306", S306{S117: &S117{s116: s116{s111: s111{C: 0, A: 12408, S18: S18{D: []int{12409}, x: 12410, C: []int{12411}, S14: S14{D: []int{12412}, É: 12413, x: selp(12414), S11: nil}}, É: "v12415<", SelIface: SelIface(12416)}}, S113: &S113{B: map[string]int{"k": 12417}, s111: &s111{C: 12418.5, A: 12419, S18: S18{D: []int{12420}, x: 12421, C: nil, S14: S14{D: []int{12423}, É: 12424, x: selp(12425), S11: nil}}, É: "", SelIface: SelIface(12427)}}, s114: s114{D: []int{12428}, S108: &S108{}}, D: []int{12429}, x: []int{12430}}, S303: S303{A1: 12431, B: false, S298: S298{y: 12433, A: selp(12434), E: "v12435<", B: map[string]int{"k": 12436}}, S303: &S303{A1: 12437, B: true, S298: S298{y: 12439, A: selp(12440), E: "v12441<", B: nil}, S303: &S303{A1: 12443, B: false, S298: S298{y: 12445, A: selp(12446), E: "v12447<", B: nil}, S303: nil, s302: s302{C: true}}, s302: s302{C: false}}, s302: s302{C: true}}, A1: selp(12452), s198: &s198{Foo: "v12453<", A: 12454.5}}},
	{"S306", S306{S117: &S117{s116: s116{s111: s111{C: 0, A: 12456, S18: S18{D: []int{12457}, x: 0, C: []int{12459}, S14: S14{D: []int{12460}, É: 12461, x: selp(12462), S11: nil}}, É: "", SelIface: SelIface(12464)}}, S113: &S113{B: map[string]int{"k": 12465}, s111: &s111{C: 0, A: 12467, S18: S18{D: []int{12468}, x: 12469, C: nil, S14: S14{D: []int{12471}, É: 12472, x: selp(12473), S11: nil}}, É: "v12474<", SelIface: SelIface(12475)}}, s114: s114{D: []int{12476}, S108: nil}, D: []int{12477}, x: []int{12478}}, S303: S303{A1: 12479, B: false, S298: S298{y: 12481, A: selp(12482), E: "", B: nil}, S303: &S303{A1: 12485, B: true, S298: S298{y: nil, A: nil, E: "v12489<", B: map[string]int{"k": 12490}}, S303: &S303{A1: 12491, B: true, S298: S298{y: 12493, A: selp(12494), E: "", B: map[string]int{"k": 12496}}, S303: nil, s302: s302{C: true}}, s302: s302{C: true}}, s302: s302{C: true}}, A1: selp(12500), s198: &s198{Foo: "v12501<", A: 12502.5}}},
	{"S307", S307{s302: &s302{C: true}, S306: &S306{S117: &S117{s116: s116{s111: s111{C: 12504.5, A: 12505, S18: S18{D: []int{12506}, x: 12507, C: nil, S14: S14{D: nil, É: 0, x: nil, S11: nil}}, É: "v12512<", SelIface: SelIface(12513)}}, S113: nil, s114: s114{D: []int{12514}, S108: nil}, D: []int{12515}, x: nil}, S303: S303{A1: 12517, B: false, S298: S298{y: nil, A: selp(12520), E: "v12521<", B: map[string]int{"k": 12522}}, S303: nil, s302: s302{C: true}}, A1: selp(12524), s198: &s198{Foo: "", A: 12526.5}}}},
	{"S307", S307{s302: &s302{C: false}, S306: &S306{S117: &S117{s116: s116{s111: s111{C: 12528.5, A: 0, S18: S18{D: []int{12530}, x: 12531, C: []int{12532}, S14: S14{D: []int{12533}, É: 12534, x: selp(12535), S11: nil}}, É: "", SelIface: SelIface(12537)}}, S113: &S113{B: map[string]int{"k": 12538}, s111: nil}, s114: s114{D: nil, S108: nil}, D: []int{12540}, x: []int{12541}}, S303: S303{A1: 12542, B: true, S298: S298{y: nil, A: selp(12545), E: "v12546<", B: nil}, S303: &S303{A1: 12548, B: false, S298: S298{y: 12550, A: nil, E: "v12552<", B: map[string]int{"k": 12553}}, S303: nil, s302: s302{C: true}}, s302: s302{C: true}}, A1: selp(12556), s198: &s198{Foo: "v12557<", A: 12558.5}}}},
	{"S308", S308{A: 12559.5, D: selp(12560), s302: s302{C: true}, x: 12562.5}},
	{"S308", S308{A: 12563.5, D: selp(12564), s302: s302{C: true}, x: 12566.5}},
	{"s309", s309{S24: &S24{S21: &S21{s20: &s20{S18: S18{D: []int{12567}, x: 0, C: []int{12569}, S14: S14{D: nil, É: 12571, x: selp(12572), S11: nil}}, A1: []int{12573}, E: map[string]int{"k": 12574}, B: map[string]int{"k": 12575}, s19: nil}, D: 12576, A: selp(12577), x: []int{12578}}, A: []int{12579}}, S304: nil}},
	{"s309", s309{S24: &S24{S21: &S21{s20: nil, D: 12580, A: selp(12581), x: nil}, A: []int{12583}}, S304: &S304{s301: nil}}},
	{"s310", s310{y: ""}},
	{"s310", s310{y: ""}},
	{"S311", S311{A: []int{12586}}},
	{"S311", S311{A: []int{12587}}},
	{"S312", S312{y: map[string]int{"k": 12588}, A: 0, s310: &s310{y: "v12590<"}}},
	{"S312", S312{y: map[string]int{"k": 12591}, A: 0, s310: &s310{y: "v12593<"}}},
	{"s313", s313{C: "", S307: S307{s302: &s302{C: false}, S306: &S306{S117: nil, S303: S303{A1: nil, B: true, S298: S298{y: nil, A: selp(12599), E: "v12600<", B: map[string]int{"k": 12601}}, S303: &S303{A1: nil, B: true, S298: S298{y: nil, A: selp(12605), E: "v12606<", B: nil}, S303: nil, s302: s302{C: true}}, s302: s302{C: true}}, A1: nil, s198: &s198{Foo: "v12611<", A: 0}}}}},
	{"s313", s313{C: "", S307: S307{s302: &s302{C: false}, S306: &S306{S117: &S117{s116: s116{s111: s111{C: 0, A: 12616, S18: S18{D: []int{12617}, x: 12618, C: []int{12619}, S14: S14{D: []int{12620}, É: 12621, x: nil, S11: nil}}, É: "v12623<", SelIface: SelIface(12624)}}, S113: nil, s114: s114{D: []int{12625}, S108: nil}, D: []int{12626}, x: []int{12627}}, S303: S303{A1: 12628, B: true, S298: S298{y: 12630, A: selp(12631), E: "v12632<", B: map[string]int{"k": 12633}}, S303: &S303{A1: 12634, B: true, S298: S298{y: 12636, A: nil, E: "v12638<", B: map[string]int{"k": 12639}}, S303: nil, s302: s302{C: true}}, s302: s302{C: true}}, A1: selp(12642), s198: &s198{Foo: "v12643<", A: 12644.5}}}}},
	{"S314", S314{C: 12645, B: 12646.5, s309: &s309{S24: &S24{S21: &S21{s20: nil, D: 12647, A: selp(12648), x: []int{12649}}, A: []int{12650}}, S304: &S304{s301: &s301{C: false, A1: selp(12652), É: selp(12653), D: true, S289: S289{x: selp(12655), s286: s286{S244: S244{s239: s239{x: 12656, s239: nil, s52: s52{s36: nil, y: 12657.5, Foo: map[string]int{"k": 12658}, s46: nil}}, S241: S241{A: 12659, D: true, S235: nil, selFunc: nil, s238: nil}, S243: S243{A1: 12662, Foo: true, s239: s239{x: nil, s239: nil, s52: s52{s36: nil, y: 12665.5, Foo: map[string]int{"k": 12666}, s46: nil}}, S241: nil, C: true, S243: nil}}, C: selp(12668), B: true}, D: 12670.5, S283: nil, s144: s144{D: 0, S141: S141{S140: S140{E: true}}, É: []int{12673}}}}}}}},
	{"S314", S314{C: 12674, B: 0, s309: nil}},
	{"S315", S315{Foo: []int{12676}}},
	{"S315", S315{Foo: []int{12677}}},
	{"S316", S316{Foo: selp(12678), C: true}},
	{"S316", S316{Foo: selp(12680), C: true}},
	{"S318", S318{S314: &S314{C: nil, B: 12683.5, s309: &s309{S24: &S24{S21: nil, A: nil}, S304: &S304{s301: nil}}}, A1: selp(12685), B: "v12686<", A: map[string]int{"k": 12687}, Foo: 12688}},
	{"S318", S318{S314: &S314{C: 12689, B: 12690.5, s309: &s309{S24: &S24{S21: nil, A: []int{12691}}, S304: &S304{s301: nil}}}, A1: selp(12692), B: "v12693<", A: map[string]int{"k": 12694}, Foo: 12695}},
}
