// Code generated by gen_conc.py. DO NOT EDIT.

package main

import "reflect"

type CA0 struct {
	F0 map[int]*CC0
	F1 *CC0
	N  int `json:",string"`
	S  []string
	EmbC
}
type CB0 struct {
	F0 *CA0
	F1 []*CB0
	F2 []*CA0 `json:"x2,omitempty"`
	F3 **CC0
	S  []string
	EmbC
}
type CC0 map[string]*CB0

type CA1 struct {
	F0 []*CA1      `json:",omitnil"`
	F1 []*CC1      `json:"x1,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB1 struct {
	F0 []*CA1 `json:"x0,omitempty"`
}
type CC1 struct {
	F0 map[string]CA1 `json:"x0,omitempty"`
	F1 **CA1
	F2 []*CB1      `json:"k2"`
	E  interface{} `json:",omitempty"`
}

type CA2 []*CC2
type CB2 struct {
	F0 map[string]CA2 `json:"k0"`
	F1 map[int]*CA2
}
type CC2 struct {
	F0 []*CB2 `json:"k0"`
	F1 *CA2   `json:",omitnil"`
	F2 map[int]*CC2
	N  int `json:",string"`
}

type CA3 struct {
	F0 **CB3 `json:",omitnil"`
	F1 *CB3  `json:",omitnil"`
	F2 []CC3
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB3 struct {
	F0 map[int]*CA3 `json:"x0,omitempty"`
	F1 map[int]*CB3 `json:",omitnil"`
	F2 []CB3        `json:",omitnil"`
	F3 **CB3        `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC3 map[string]*CA3

type CA4 struct {
	F0 *CB4 `json:"x0,omitempty"`
	F1 map[string]CB4
	N  int `json:",string"`
}
type CB4 map[string]*CC4
type CC4 struct {
	F0 map[int]*CC4 `json:"k0"`
	N  int          `json:",string"`
	S  []string
}

type CA5 map[string]*CA5
type CB5 map[string]*CB5
type CC5 map[string]*CA5

type CA6 struct {
	F0 *CA6 `json:"x0,omitempty"`
	EmbC
}
type CB6 map[string]*CC6
type CC6 struct {
	F0 **CB6  `json:",omitnil"`
	F1 []*CB6 `json:"k1"`
	N  int    `json:",string"`
}

type CA7 struct {
	F0 *CA7
	F1 **CB7        `json:",omitnil"`
	F2 map[int]*CC7 `json:"x2,omitempty"`
	S  []string
}
type CB7 struct {
	F0 []*CB7
	S  []string
	EmbC
}
type CC7 map[string]*CC7

type CA8 struct {
	F0 **CA8 `json:"x0,omitempty"`
	F1 []CB8 `json:"x1,omitempty"`
	F2 []CC8 `json:"k2"`
	N  int   `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB8 struct {
	F0 **CC8        `json:",omitnil"`
	F1 map[int]*CC8 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC8 map[string]*CB8

type CA9 map[string]*CB9
type CB9 struct {
	F0 map[int]*CC9 `json:",omitnil"`
	S  []string
}
type CC9 struct {
	F0 map[int]*CA9 `json:"k0"`
	F1 **CB9
}

type CA10 []*CC10
type CB10 map[string]*CA10
type CC10 map[string]*CA10

type CA11 map[string]*CC11
type CB11 struct {
	F0 []*CC11 `json:"k0"`
	F1 **CB11  `json:"x1,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC11 struct {
	F0 []*CC11 `json:"x0,omitempty"`
	EmbC
}

type CA12 struct {
	F0 map[string]CC12 `json:"x0,omitempty"`
	F1 []*CB12         `json:",omitnil"`
	E  interface{}     `json:",omitempty"`
}
type CB12 struct {
	F0 []*CA12 `json:"x0,omitempty"`
	F1 []*CC12
	F2 map[int]*CA12
	F3 []CA12 `json:"x3,omitempty"`
}
type CC12 struct {
	F0 *CC12
	F1 []CA12 `json:",omitnil"`
	F2 *CA12  `json:"k2"`
	F3 []*CA12
}

type CA13 struct {
	F0 map[int]*CC13 `json:"k0"`
	F1 []*CA13       `json:",omitnil"`
	F2 []*CA13       `json:"k2"`
	N  int           `json:",string"`
	S  []string
	EmbC
}
type CB13 map[string]*CB13
type CC13 []CA13

type CA14 struct {
	F0 *CA14  `json:",omitnil"`
	F1 []CB14 `json:"x1,omitempty"`
	F2 map[int]*CA14
	N  int `json:",string"`
}
type CB14 map[string]*CC14
type CC14 struct {
	F0 map[string]CB14 `json:"x0,omitempty"`
	F1 map[string]CB14
	F2 **CB14
	F3 map[string]CC14 `json:"k3"`
	S  []string
}

type CA15 struct {
	F0 *CA15
	N  int `json:",string"`
	S  []string
	EmbC
}
type CB15 map[string]*CB15
type CC15 struct {
	F0 map[int]*CA15 `json:"k0"`
	F1 **CB15
	F2 map[string]CA15 `json:"x2,omitempty"`
	S  []string
}

type CA16 struct {
	F0 []*CA16
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB16 struct {
	F0 []*CA16
	F1 []*CC16 `json:"x1,omitempty"`
	F2 *CA16   `json:",omitnil"`
	N  int     `json:",string"`
	S  []string
}
type CC16 map[string]*CB16

type CA17 struct {
	F0 map[string]CB17
	F1 map[string]CA17
	N  int `json:",string"`
}
type CB17 map[string]*CB17
type CC17 []CC17

type CA18 struct {
	F0 **CB18  `json:"k0"`
	F1 []*CB18 `json:"x1,omitempty"`
	F2 []CB18  `json:"x2,omitempty"`
	F3 **CC18  `json:"x3,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB18 []CC18
type CC18 struct {
	F0 map[int]*CA18
	F1 *CC18       `json:"k1"`
	F2 []*CC18     `json:",omitnil"`
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA19 struct {
	F0 *CB19           `json:",omitnil"`
	F1 map[string]CC19 `json:",omitnil"`
	F2 []CA19          `json:",omitnil"`
	F3 []CB19          `json:"x3,omitempty"`
	N  int             `json:",string"`
	S  []string
}
type CB19 map[string]*CA19
type CC19 struct {
	F0 *CB19
	N  int `json:",string"`
	EmbC
}

type CA20 struct {
	F0 *CC20  `json:"x0,omitempty"`
	F1 **CC20 `json:"k1"`
	EmbC
}
type CB20 struct {
	F0 *CC20  `json:"k0"`
	F1 **CC20 `json:"x1,omitempty"`
}
type CC20 []CC20

type CA21 struct {
	F0 *CA21
	F1 []CC21 `json:",omitnil"`
	S  []string
	EmbC
}
type CB21 []CC21
type CC21 struct {
	F0 map[int]*CB21
	F1 map[int]*CA21
	S  []string
	EmbC
}

type CA22 []*CB22
type CB22 map[string]*CC22
type CC22 map[string]*CA22

type CA23 struct {
	F0 map[int]*CB23
	F1 map[int]*CC23 `json:",omitnil"`
	F2 *CC23         `json:"x2,omitempty"`
	F3 *CC23         `json:"x3,omitempty"`
	N  int           `json:",string"`
}
type CB23 map[string]*CA23
type CC23 struct {
	F0 map[int]*CB23
	E  interface{} `json:",omitempty"`
}

type CA24 struct {
	F0 map[int]*CA24   `json:"x0,omitempty"`
	F1 map[string]CA24 `json:"k1"`
	F2 *CB24           `json:"k2"`
	F3 *CC24           `json:"k3"`
	S  []string
}
type CB24 []CC24
type CC24 []CA24

type CA25 struct {
	F0 map[string]CA25 `json:",omitnil"`
	F1 *CC25           `json:",omitnil"`
	F2 []CB25          `json:"k2"`
	N  int             `json:",string"`
	S  []string
}
type CB25 struct {
	F0 **CA25          `json:"k0"`
	F1 map[string]CB25 `json:",omitnil"`
	F2 *CB25
	N  int `json:",string"`
	S  []string
}
type CC25 map[string]*CC25

type CA26 []*CC26
type CB26 struct {
	F0 map[string]CA26 `json:"k0"`
	F1 map[int]*CC26
	F2 map[string]CB26 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC26 struct {
	F0 []CB26  `json:"k0"`
	F1 []*CB26 `json:"x1,omitempty"`
	EmbC
}

type CA27 struct {
	F0 []*CC27 `json:"x0,omitempty"`
	F1 **CA27
	F2 **CB27  `json:"k2"`
	F3 []*CA27 `json:",omitnil"`
	EmbC
}
type CB27 struct {
	F0 map[string]CB27 `json:",omitnil"`
	F1 **CC27          `json:",omitnil"`
	F2 map[int]*CC27   `json:"x2,omitempty"`
	N  int             `json:",string"`
	EmbC
}
type CC27 map[string]*CA27

type CA28 map[string]*CC28
type CB28 struct {
	F0 map[int]*CB28 `json:"k0"`
	F1 map[int]*CA28 `json:"x1,omitempty"`
	N  int           `json:",string"`
	S  []string
}
type CC28 struct {
	F0 []*CA28
	F1 **CB28        `json:"k1"`
	F2 map[int]*CC28 `json:"x2,omitempty"`
	N  int           `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA29 struct {
	F0 **CC29 `json:"x0,omitempty"`
	F1 *CB29  `json:"x1,omitempty"`
	N  int    `json:",string"`
}
type CB29 []CA29
type CC29 []CB29

type CA30 struct {
	F0 []*CB30
	F1 *CB30 `json:"k1"`
	F2 map[int]*CA30
	F3 []CA30 `json:"x3,omitempty"`
}
type CB30 struct {
	F0 *CC30
	F1 *CA30   `json:"x1,omitempty"`
	F2 []*CA30 `json:",omitnil"`
	F3 []CC30  `json:",omitnil"`
	EmbC
}
type CC30 struct {
	F0 map[int]*CB30 `json:"x0,omitempty"`
	F1 []*CA30
	E  interface{} `json:",omitempty"`
}

type CA31 map[string]*CB31
type CB31 struct {
	F0 []*CA31
	F1 map[int]*CC31 `json:",omitnil"`
	N  int           `json:",string"`
	S  []string
}
type CC31 []CB31

type CA32 map[string]*CC32
type CB32 struct {
	F0 []CB32
	F1 **CB32          `json:"k1"`
	F2 map[string]CC32 `json:"k2"`
	N  int             `json:",string"`
}
type CC32 map[string]*CB32

type CA33 map[string]*CB33
type CB33 map[string]*CA33
type CC33 struct {
	F0 map[string]CB33
	F1 []*CB33 `json:"x1,omitempty"`
	EmbC
}

type CA34 struct {
	F0 map[int]*CA34 `json:"x0,omitempty"`
	F1 *CC34         `json:"x1,omitempty"`
	E  interface{}   `json:",omitempty"`
}
type CB34 struct {
	F0 **CA34
	F1 []CB34 `json:"x1,omitempty"`
	F2 []CC34 `json:"k2"`
	N  int    `json:",string"`
}
type CC34 struct {
	F0 []CA34
	F1 *CB34
	F2 map[string]CB34
	F3 []*CA34 `json:"k3"`
	N  int     `json:",string"`
}

type CA35 []*CC35
type CB35 struct {
	F0 map[string]CC35 `json:"k0"`
	F1 []CB35          `json:",omitnil"`
	EmbC
}
type CC35 struct {
	F0 *CB35
	F1 map[int]*CA35
	F2 map[string]CA35
	F3 []*CB35 `json:",omitnil"`
	N  int     `json:",string"`
	EmbC
}

type CA36 struct {
	F0 map[string]CB36
	F1 **CC36
	F2 *CA36
}
type CB36 struct {
	F0 map[int]*CA36   `json:"k0"`
	F1 []CA36          `json:",omitnil"`
	F2 **CA36          `json:"x2,omitempty"`
	F3 map[string]CB36 `json:"k3"`
	N  int             `json:",string"`
	E  interface{}     `json:",omitempty"`
	EmbC
}
type CC36 map[string]*CA36

type CA37 struct {
	F0 **CA37 `json:"k0"`
	S  []string
}
type CB37 []CB37
type CC37 struct {
	F0 []CA37 `json:"k0"`
	EmbC
}

type CA38 struct {
	F0 []*CC38 `json:"x0,omitempty"`
	F1 **CC38
	F2 map[string]CB38 `json:",omitnil"`
	F3 []*CB38         `json:",omitnil"`
	N  int             `json:",string"`
	S  []string
	EmbC
}
type CB38 map[string]*CA38
type CC38 struct {
	F0 map[string]CA38 `json:"k0"`
	F1 map[string]CA38 `json:"x1,omitempty"`
	S  []string
	EmbC
}

type CA39 []*CB39
type CB39 map[string]*CB39
type CC39 struct {
	F0 map[string]CA39
	N  int `json:",string"`
	EmbC
}

type CA40 []*CB40
type CB40 struct {
	F0 map[int]*CC40 `json:",omitnil"`
	F1 **CA40
	EmbC
}
type CC40 struct {
	F0 *CA40 `json:",omitnil"`
	F1 *CC40 `json:"x1,omitempty"`
}

type CA41 struct {
	F0 *CA41
	F1 map[int]*CC41 `json:"k1"`
	F2 *CB41
	E  interface{} `json:",omitempty"`
}
type CB41 struct {
	F0 map[int]*CC41 `json:",omitnil"`
	F1 map[int]*CB41 `json:",omitnil"`
	S  []string
}
type CC41 struct {
	F0 *CB41         `json:"x0,omitempty"`
	F1 map[int]*CC41 `json:"k1"`
	F2 []CA41        `json:"k2"`
	F3 []CB41
}

type CA42 map[string]*CA42
type CB42 []CA42
type CC42 struct {
	F0 **CB42
	F1 []*CC42 `json:",omitnil"`
	S  []string
	EmbC
}

type CA43 map[string]*CA43
type CB43 []CB43
type CC43 struct {
	F0 map[string]CA43
	F1 map[int]*CB43
	E  interface{} `json:",omitempty"`
}

type CA44 struct {
	F0 **CA44  `json:"k0"`
	F1 []*CA44 `json:"k1"`
	N  int     `json:",string"`
	S  []string
}
type CB44 struct {
	F0 *CA44 `json:"x0,omitempty"`
	F1 **CA44
	F2 []*CC44
	S  []string
}
type CC44 struct {
	F0 **CB44        `json:",omitnil"`
	F1 []*CA44       `json:"k1"`
	F2 map[int]*CC44 `json:",omitnil"`
	E  interface{}   `json:",omitempty"`
}

type CA45 struct {
	F0 []CB45          `json:"k0"`
	F1 []CB45          `json:"k1"`
	F2 *CA45           `json:"x2,omitempty"`
	F3 map[string]CB45 `json:",omitnil"`
	N  int             `json:",string"`
	EmbC
}
type CB45 struct {
	F0 *CC45 `json:",omitnil"`
	F1 **CC45
	N  int `json:",string"`
}
type CC45 map[string]*CA45

type CA46 []*CC46
type CB46 struct {
	F0 []CA46 `json:"k0"`
	N  int    `json:",string"`
}
type CC46 struct {
	F0 *CB46       `json:",omitnil"`
	F1 []CB46      `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}

type CA47 struct {
	F0 []*CB47 `json:"x0,omitempty"`
	F1 map[string]CB47
	N  int `json:",string"`
	EmbC
}
type CB47 struct {
	F0 []CB47
	F1 []*CA47 `json:",omitnil"`
	F2 map[int]*CC47
	F3 map[string]CC47 `json:"k3"`
	S  []string
}
type CC47 map[string]*CB47

type CA48 struct {
	F0 map[int]*CA48 `json:"x0,omitempty"`
	E  interface{}   `json:",omitempty"`
}
type CB48 struct {
	F0 **CA48
	F1 []CA48  `json:",omitnil"`
	F2 []*CC48 `json:"k2"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC48 struct {
	F0 *CA48
	S  []string
}

type CA49 struct {
	F0 []*CA49         `json:"x0,omitempty"`
	F1 map[string]CC49 `json:"k1"`
	F2 []CA49
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB49 struct {
	F0 **CB49 `json:"k0"`
	F1 map[string]CA49
}
type CC49 struct {
	F0 []CA49
	F1 *CA49
	F2 map[int]*CA49 `json:"x2,omitempty"`
	F3 []CA49
	N  int `json:",string"`
	EmbC
}

type CA50 map[string]*CC50
type CB50 struct {
	F0 []*CA50 `json:",omitnil"`
	F1 *CB50
	F2 **CB50
	F3 map[int]*CB50 `json:"k3"`
	N  int           `json:",string"`
	E  interface{}   `json:",omitempty"`
}
type CC50 struct {
	F0 **CA50
	F1 map[string]CC50 `json:",omitnil"`
	S  []string
}

type CA51 struct {
	F0 map[string]CC51 `json:"x0,omitempty"`
	F1 *CC51
	F2 []CB51 `json:"x2,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB51 map[string]*CB51
type CC51 struct {
	F0 map[int]*CC51 `json:"k0"`
	F1 map[int]*CC51
}

type CA52 struct {
	F0 map[int]*CC52
	F1 []*CA52 `json:"x1,omitempty"`
	N  int     `json:",string"`
	S  []string
	EmbC
}
type CB52 map[string]*CC52
type CC52 []CA52

type CA53 []*CA53
type CB53 struct {
	F0 **CA53
	N  int `json:",string"`
}
type CC53 struct {
	F0 **CB53
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA54 struct {
	F0 **CC54 `json:",omitnil"`
	S  []string
}
type CB54 struct {
	F0 map[string]CB54 `json:",omitnil"`
	F1 *CB54           `json:",omitnil"`
	F2 map[string]CA54 `json:",omitnil"`
}
type CC54 struct {
	F0 map[int]*CA54 `json:"k0"`
	S  []string
	EmbC
}

type CA55 struct {
	F0 **CA55 `json:",omitnil"`
	F1 []CB55
	S  []string
	EmbC
}
type CB55 struct {
	F0 *CB55           `json:"x0,omitempty"`
	F1 map[int]*CC55   `json:",omitnil"`
	F2 []*CB55         `json:"x2,omitempty"`
	F3 map[string]CA55 `json:"x3,omitempty"`
	S  []string
	EmbC
}
type CC55 struct {
	F0 **CB55 `json:",omitnil"`
	N  int    `json:",string"`
}

type CA56 struct {
	F0 map[string]CA56 `json:",omitnil"`
	N  int             `json:",string"`
}
type CB56 struct {
	F0 map[int]*CA56
	F1 map[string]CC56 `json:",omitnil"`
}
type CC56 struct {
	F0 map[int]*CB56 `json:",omitnil"`
	F1 []*CA56       `json:"x1,omitempty"`
	N  int           `json:",string"`
}

type CA57 struct {
	F0 **CC57 `json:"x0,omitempty"`
	F1 **CA57 `json:"x1,omitempty"`
	F2 **CB57 `json:",omitnil"`
	N  int    `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB57 struct {
	F0 []CC57
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC57 struct {
	F0 map[string]CA57
	F1 **CA57      `json:",omitnil"`
	F2 []CB57      `json:"k2"`
	F3 *CA57       `json:"k3"`
	E  interface{} `json:",omitempty"`
}

type CA58 struct {
	F0 *CA58         `json:",omitnil"`
	F1 []*CC58       `json:"k1"`
	F2 *CC58         `json:"x2,omitempty"`
	F3 map[int]*CC58 `json:"k3"`
}
type CB58 struct {
	F0 **CA58
	F1 map[int]*CB58 `json:",omitnil"`
	N  int           `json:",string"`
	EmbC
}
type CC58 struct {
	F0 map[string]CB58 `json:"k0"`
	F1 map[int]*CA58   `json:"k1"`
}

type CA59 struct {
	F0 map[int]*CB59
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB59 map[string]*CC59
type CC59 struct {
	F0 []*CB59 `json:"x0,omitempty"`
}

type CA60 struct {
	F0 map[int]*CC60 `json:"k0"`
	F1 []CC60        `json:"x1,omitempty"`
	F2 map[int]*CC60
	EmbC
}
type CB60 struct {
	F0 *CA60
	F1 map[int]*CB60 `json:",omitnil"`
	F2 []*CB60
	F3 []CB60      `json:"k3"`
	E  interface{} `json:",omitempty"`
}
type CC60 struct {
	F0 []CA60        `json:"x0,omitempty"`
	F1 *CC60         `json:"x1,omitempty"`
	F2 map[int]*CC60 `json:"x2,omitempty"`
	F3 []CB60        `json:"k3"`
	S  []string
	EmbC
}

type CA61 struct {
	F0 []CB61      `json:"k0"`
	F1 **CB61      `json:"k1"`
	F2 **CA61      `json:"k2"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB61 struct {
	F0 map[int]*CB61 `json:"k0"`
	F1 []*CC61
	F2 **CB61      `json:"x2,omitempty"`
	E  interface{} `json:",omitempty"`
}
type CC61 struct {
	F0 []*CB61
	F1 **CA61      `json:"x1,omitempty"`
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA62 map[string]*CA62
type CB62 map[string]*CB62
type CC62 struct {
	F0 []CB62 `json:"x0,omitempty"`
	F1 []*CC62
}

type CA63 map[string]*CB63
type CB63 struct {
	F0 []*CA63 `json:"k0"`
	F1 **CA63
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC63 []CB63

type CA64 struct {
	F0 **CB64 `json:"x0,omitempty"`
	F1 map[int]*CA64
	N  int `json:",string"`
	S  []string
}
type CB64 struct {
	F0 map[string]CB64 `json:"k0"`
	F1 **CA64          `json:"x1,omitempty"`
	F2 **CB64
	F3 *CC64
}
type CC64 struct {
	F0 map[int]*CA64
	F1 []CC64 `json:"k1"`
	F2 **CA64 `json:",omitnil"`
	F3 *CC64  `json:",omitnil"`
	N  int    `json:",string"`
}

type CA65 struct {
	F0 map[string]CB65 `json:",omitnil"`
	F1 []*CA65         `json:",omitnil"`
	F2 map[string]CB65 `json:"k2"`
	F3 map[int]*CB65   `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB65 []CB65
type CC65 map[string]*CB65

type CA66 struct {
	F0 []CC66
	F1 *CB66 `json:"k1"`
	F2 []*CC66
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB66 struct {
	F0 []*CC66 `json:"k0"`
}
type CC66 struct {
	F0 []CA66 `json:"k0"`
	S  []string
}

type CA67 struct {
	F0 **CA67 `json:",omitnil"`
	S  []string
}
type CB67 struct {
	F0 map[int]*CA67 `json:",omitnil"`
	F1 *CB67
}
type CC67 struct {
	F0 map[int]*CA67
	F1 **CB67 `json:"x1,omitempty"`
	F2 map[int]*CB67
	F3 *CC67 `json:"k3"`
	N  int   `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA68 struct {
	F0 *CA68
	N  int `json:",string"`
	S  []string
	EmbC
}
type CB68 struct {
	F0 *CB68  `json:"x0,omitempty"`
	F1 **CA68 `json:",omitnil"`
}
type CC68 struct {
	F0 **CA68
	N  int `json:",string"`
}

type CA69 struct {
	F0 map[string]CC69 `json:"x0,omitempty"`
	F1 map[int]*CC69
	F2 map[string]CB69 `json:"k2"`
	S  []string
	EmbC
}
type CB69 struct {
	F0 **CB69        `json:"k0"`
	F1 map[int]*CB69 `json:",omitnil"`
	E  interface{}   `json:",omitempty"`
	EmbC
}
type CC69 struct {
	F0 []*CC69
	F1 []CC69  `json:",omitnil"`
	F2 []*CB69 `json:"x2,omitempty"`
	N  int     `json:",string"`
}

type CA70 struct {
	F0 **CA70          `json:",omitnil"`
	F1 map[string]CB70 `json:"k1"`
	F2 []CC70
	N  int `json:",string"`
	S  []string
}
type CB70 map[string]*CB70
type CC70 struct {
	F0 map[string]CC70
	F1 []*CC70       `json:"k1"`
	F2 map[int]*CA70 `json:"x2,omitempty"`
	F3 map[string]CC70
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA71 []*CB71
type CB71 struct {
	F0 []*CB71
	N  int `json:",string"`
}
type CC71 struct {
	F0 map[int]*CC71 `json:"x0,omitempty"`
	F1 []CA71        `json:"x1,omitempty"`
	F2 *CA71         `json:",omitnil"`
	N  int           `json:",string"`
}

type CA72 map[string]*CA72
type CB72 []CB72
type CC72 struct {
	F0 map[string]CC72 `json:"k0"`
	S  []string
}

type CA73 struct {
	F0 *CA73 `json:"x0,omitempty"`
}
type CB73 struct {
	F0 map[int]*CA73   `json:"k0"`
	F1 []*CC73         `json:"x1,omitempty"`
	F2 map[string]CA73 `json:",omitnil"`
	N  int             `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC73 struct {
	F0 **CB73 `json:"k0"`
	F1 *CC73  `json:"k1"`
	F2 *CC73
	N  int `json:",string"`
}

type CA74 struct {
	F0 []CB74          `json:"x0,omitempty"`
	F1 map[string]CA74 `json:"x1,omitempty"`
	F2 []CA74          `json:",omitnil"`
	F3 map[string]CA74
	S  []string
}
type CB74 struct {
	F0 *CA74           `json:"x0,omitempty"`
	F1 map[string]CA74 `json:"x1,omitempty"`
	F2 **CC74          `json:",omitnil"`
	F3 []*CC74         `json:"k3"`
	S  []string
	EmbC
}
type CC74 []CB74

type CA75 struct {
	F0 []CB75 `json:"x0,omitempty"`
	F1 []CC75
	F2 map[int]*CC75 `json:"x2,omitempty"`
	F3 *CA75         `json:"x3,omitempty"`
	N  int           `json:",string"`
}
type CB75 struct {
	F0 map[int]*CA75
	S  []string
}
type CC75 struct {
	F0 []CB75 `json:"x0,omitempty"`
	F1 **CA75 `json:"x1,omitempty"`
	F2 **CB75 `json:"x2,omitempty"`
	S  []string
	EmbC
}

type CA76 []*CB76
type CB76 struct {
	F0 map[string]CA76 `json:",omitnil"`
	F1 map[int]*CA76   `json:",omitnil"`
	F2 map[int]*CB76
	N  int `json:",string"`
}
type CC76 map[string]*CC76

type CA77 struct {
	F0 *CB77           `json:"x0,omitempty"`
	F1 map[string]CB77 `json:",omitnil"`
	F2 []CA77
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB77 struct {
	F0 **CA77  `json:"k0"`
	F1 []*CB77 `json:"x1,omitempty"`
	EmbC
}
type CC77 struct {
	F0 *CB77           `json:"x0,omitempty"`
	F1 map[string]CC77 `json:"x1,omitempty"`
	F2 []CA77          `json:"x2,omitempty"`
	F3 **CA77          `json:"x3,omitempty"`
}

type CA78 struct {
	F0 []CA78  `json:"x0,omitempty"`
	F1 []*CB78 `json:"x1,omitempty"`
	N  int     `json:",string"`
}
type CB78 []CC78
type CC78 struct {
	F0 map[string]CC78 `json:"k0"`
	F1 *CA78           `json:"k1"`
	F2 map[int]*CA78   `json:",omitnil"`
	N  int             `json:",string"`
	EmbC
}

type CA79 struct {
	F0 []*CC79
	F1 map[string]CC79 `json:"k1"`
	F2 []*CA79
	N  int `json:",string"`
	S  []string
}
type CB79 struct {
	F0 []*CA79 `json:",omitnil"`
	F1 *CC79   `json:"k1"`
	F2 map[int]*CC79
	F3 []*CC79     `json:"x3,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC79 []CB79

type CA80 struct {
	F0 *CA80 `json:"x0,omitempty"`
	N  int   `json:",string"`
}
type CB80 map[string]*CC80
type CC80 struct {
	F0 map[string]CA80 `json:"x0,omitempty"`
	N  int             `json:",string"`
	S  []string
}

type CA81 struct {
	F0 *CA81       `json:"k0"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB81 struct {
	F0 **CB81 `json:"x0,omitempty"`
	F1 *CC81  `json:"k1"`
	F2 **CB81
	F3 map[int]*CA81 `json:",omitnil"`
	N  int           `json:",string"`
	S  []string
}
type CC81 struct {
	F0 map[int]*CC81
	F1 map[string]CC81 `json:"x1,omitempty"`
	F2 **CB81          `json:"x2,omitempty"`
	E  interface{}     `json:",omitempty"`
	EmbC
}

type CA82 map[string]*CA82
type CB82 struct {
	F0 []CC82
	F1 []CA82 `json:"k1"`
	F2 map[int]*CB82
	F3 *CA82 `json:",omitnil"`
}
type CC82 []CC82

type CA83 []*CB83
type CB83 []CC83
type CC83 []CB83

type CA84 map[string]*CA84
type CB84 struct {
	F0 map[string]CB84 `json:"x0,omitempty"`
	N  int             `json:",string"`
}
type CC84 struct {
	F0 map[int]*CC84 `json:"x0,omitempty"`
}

type CA85 struct {
	F0 map[string]CA85
	F1 **CC85        `json:",omitnil"`
	F2 map[int]*CC85 `json:"x2,omitempty"`
	S  []string
}
type CB85 struct {
	F0 []*CB85         `json:"k0"`
	F1 map[string]CA85 `json:"x1,omitempty"`
	F2 map[string]CA85 `json:"x2,omitempty"`
	S  []string
	EmbC
}
type CC85 struct {
	F0 []CB85        `json:",omitnil"`
	F1 map[int]*CB85 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA86 struct {
	F0 []*CB86 `json:"k0"`
}
type CB86 []CC86
type CC86 map[string]*CC86

type CA87 struct {
	F0 map[int]*CB87 `json:",omitnil"`
	F1 []CC87        `json:"x1,omitempty"`
}
type CB87 struct {
	F0 map[string]CC87 `json:"x0,omitempty"`
	F1 map[int]*CA87
	F2 map[int]*CC87
	F3 map[int]*CB87 `json:"x3,omitempty"`
}
type CC87 struct {
	F0 **CB87          `json:",omitnil"`
	F1 **CB87          `json:",omitnil"`
	F2 map[string]CB87 `json:"k2"`
	F3 **CB87
}

type CA88 map[string]*CC88
type CB88 struct {
	F0 map[int]*CC88 `json:"k0"`
	F1 []*CA88
	S  []string
}
type CC88 map[string]*CB88

type CA89 map[string]*CB89
type CB89 []CA89
type CC89 []CB89

type CA90 struct {
	F0 map[string]CC90 `json:",omitnil"`
	F1 []*CC90         `json:"k1"`
	F2 []*CC90         `json:"k2"`
	F3 map[int]*CB90   `json:",omitnil"`
	N  int             `json:",string"`
	EmbC
}
type CB90 []CC90
type CC90 map[string]*CA90

type CA91 struct {
	F0 []*CB91       `json:"x0,omitempty"`
	F1 []CB91        `json:"k1"`
	F2 map[int]*CB91 `json:",omitnil"`
	E  interface{}   `json:",omitempty"`
}
type CB91 struct {
	F0 map[string]CC91 `json:"x0,omitempty"`
	N  int             `json:",string"`
}
type CC91 struct {
	F0 **CA91  `json:",omitnil"`
	F1 []*CA91 `json:"x1,omitempty"`
	F2 map[int]*CA91
	F3 **CC91
	N  int `json:",string"`
	EmbC
}

type CA92 struct {
	F0 *CB92
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB92 []CA92
type CC92 map[string]*CB92

type CA93 struct {
	F0 **CC93      `json:"x0,omitempty"`
	F1 []*CA93     `json:"k1"`
	F2 []*CA93     `json:"x2,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB93 map[string]*CC93
type CC93 struct {
	F0 []*CB93
	F1 **CA93          `json:",omitnil"`
	F2 []CC93          `json:"x2,omitempty"`
	F3 map[string]CB93 `json:"x3,omitempty"`
	N  int             `json:",string"`
}

type CA94 []*CB94
type CB94 map[string]*CB94
type CC94 struct {
	F0 *CA94 `json:"x0,omitempty"`
	F1 map[int]*CC94
	F2 map[int]*CA94 `json:"x2,omitempty"`
	F3 []CA94
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA95 struct {
	F0 map[int]*CC95 `json:",omitnil"`
	F1 map[int]*CA95 `json:"x1,omitempty"`
	F2 **CB95        `json:"x2,omitempty"`
	S  []string
	EmbC
}
type CB95 map[string]*CA95
type CC95 map[string]*CA95

type CA96 struct {
	F0 []CA96        `json:",omitnil"`
	F1 map[int]*CC96 `json:",omitnil"`
	F2 *CB96         `json:"k2"`
	F3 map[string]CB96
}
type CB96 struct {
	F0 map[int]*CB96 `json:",omitnil"`
	F1 []CB96
	N  int `json:",string"`
	S  []string
	EmbC
}
type CC96 map[string]*CA96

type CA97 map[string]*CB97
type CB97 struct {
	F0 []*CB97 `json:"k0"`
	F1 []CA97  `json:",omitnil"`
	N  int     `json:",string"`
}
type CC97 map[string]*CB97

type CA98 struct {
	F0 []CB98 `json:"x0,omitempty"`
	F1 **CB98 `json:"k1"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB98 map[string]*CA98
type CC98 []CC98

type CA99 struct {
	F0 []*CB99     `json:"k0"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB99 struct {
	F0 **CA99      `json:"x0,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC99 struct {
	F0 []CA99 `json:",omitnil"`
	F1 *CA99  `json:",omitnil"`
	F2 []CC99 `json:"k2"`
	N  int    `json:",string"`
}

type CA100 struct {
	F0 map[string]CA100
	F1 map[string]CC100 `json:",omitnil"`
	S  []string
}
type CB100 struct {
	F0 **CA100          `json:"x0,omitempty"`
	F1 map[string]CA100 `json:",omitnil"`
	F2 []*CC100         `json:"x2,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC100 map[string]*CB100

type CA101 map[string]*CB101
type CB101 struct {
	F0 []*CB101 `json:"x0,omitempty"`
	S  []string
}
type CC101 struct {
	F0 *CA101 `json:",omitnil"`
	F1 *CC101
	F2 []CC101
	N  int `json:",string"`
	S  []string
}

type CA102 []*CB102
type CB102 struct {
	F0 **CC102 `json:"x0,omitempty"`
	F1 map[string]CC102
	F2 map[string]CB102 `json:"k2"`
	F3 map[string]CC102 `json:"k3"`
	E  interface{}      `json:",omitempty"`
}
type CC102 map[string]*CB102

type CA103 map[string]*CA103
type CB103 struct {
	F0 []CC103     `json:"x0,omitempty"`
	F1 **CA103     `json:",omitnil"`
	F2 []CA103     `json:"x2,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC103 map[string]*CC103

type CA104 struct {
	F0 **CB104 `json:"x0,omitempty"`
	F1 **CA104
	F2 []*CC104 `json:"k2"`
	F3 []CC104  `json:",omitnil"`
	S  []string
}
type CB104 map[string]*CB104
type CC104 struct {
	F0 []*CB104 `json:"x0,omitempty"`
	S  []string
}

type CA105 struct {
	F0 *CC105 `json:",omitnil"`
	F1 *CB105 `json:"k1"`
	N  int    `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB105 struct {
	F0 map[int]*CA105   `json:"x0,omitempty"`
	F1 map[string]CB105 `json:"k1"`
	F2 []*CB105         `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC105 struct {
	F0 **CC105     `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}

type CA106 struct {
	F0 []CC106 `json:",omitnil"`
	F1 *CB106
	F2 **CB106 `json:",omitnil"`
	F3 **CA106
	N  int `json:",string"`
	S  []string
}
type CB106 struct {
	F0 []CC106 `json:"x0,omitempty"`
	F1 *CC106  `json:",omitnil"`
	F2 **CC106 `json:",omitnil"`
	N  int     `json:",string"`
	EmbC
}
type CC106 map[string]*CC106

type CA107 struct {
	F0 []CA107
	F1 *CC107 `json:"k1"`
	F2 *CA107 `json:"k2"`
}
type CB107 struct {
	F0 []CC107 `json:"x0,omitempty"`
	N  int     `json:",string"`
	EmbC
}
type CC107 []CB107

type CA108 struct {
	F0 []CC108 `json:",omitnil"`
	F1 *CA108  `json:"k1"`
	N  int     `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB108 struct {
	F0 map[int]*CA108 `json:"x0,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC108 struct {
	F0 []*CA108 `json:"k0"`
	F1 *CC108   `json:",omitnil"`
	F2 []*CB108 `json:"k2"`
}

type CA109 struct {
	F0 *CC109 `json:",omitnil"`
	S  []string
}
type CB109 struct {
	F0 map[string]CB109
	F1 []CA109 `json:"k1"`
	S  []string
}
type CC109 struct {
	F0 []*CA109 `json:"k0"`
	F1 map[int]*CB109
	F2 []CA109 `json:"x2,omitempty"`
	S  []string
	EmbC
}

type CA110 []*CA110
type CB110 struct {
	F0 **CB110  `json:"x0,omitempty"`
	F1 []*CB110 `json:"x1,omitempty"`
	F2 []*CC110
}
type CC110 struct {
	F0 map[int]*CA110
}

type CA111 struct {
	F0 []*CA111 `json:"x0,omitempty"`
	F1 []*CB111
	F2 []CB111
	F3 map[int]*CA111
	N  int `json:",string"`
	S  []string
	EmbC
}
type CB111 struct {
	F0 **CA111 `json:"k0"`
	S  []string
	EmbC
}
type CC111 []CC111

type CA112 struct {
	F0 map[string]CC112 `json:",omitnil"`
	F1 **CC112
	S  []string
}
type CB112 struct {
	F0 *CC112 `json:",omitnil"`
	F1 *CB112 `json:",omitnil"`
	F2 []*CA112
	F3 **CA112     `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC112 struct {
	F0 *CB112
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA113 struct {
	F0 []CC113  `json:",omitnil"`
	F1 []*CC113 `json:",omitnil"`
	F2 map[int]*CA113
	F3 map[string]CA113 `json:"k3"`
	EmbC
}
type CB113 map[string]*CC113
type CC113 struct {
	F0 map[int]*CA113 `json:"k0"`
	F1 map[int]*CA113
	F2 map[string]CB113 `json:"x2,omitempty"`
	F3 map[string]CA113
	N  int `json:",string"`
}

type CA114 struct {
	F0 map[string]CB114
	F1 map[string]CC114 `json:"k1"`
	F2 map[string]CA114
	F3 []CB114
	E  interface{} `json:",omitempty"`
}
type CB114 []CC114
type CC114 struct {
	F0 []*CC114 `json:"x0,omitempty"`
	F1 **CA114
	F2 []CB114
	N  int `json:",string"`
	S  []string
}

type CA115 map[string]*CC115
type CB115 []CB115
type CC115 struct {
	F0 []*CC115         `json:"x0,omitempty"`
	F1 map[string]CC115 `json:"k1"`
	F2 map[string]CA115 `json:",omitnil"`
}

type CA116 map[string]*CA116
type CB116 struct {
	F0 []CA116
	F1 **CB116 `json:"k1"`
	EmbC
}
type CC116 []CA116

type CA117 struct {
	F0 map[string]CC117 `json:",omitnil"`
	F1 *CA117
	F2 []*CA117 `json:",omitnil"`
}
type CB117 struct {
	F0 map[int]*CB117 `json:"x0,omitempty"`
	N  int            `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC117 struct {
	F0 **CA117 `json:"x0,omitempty"`
	F1 *CB117  `json:"k1"`
	N  int     `json:",string"`
}

type CA118 map[string]*CA118
type CB118 struct {
	F0 []CC118
	N  int `json:",string"`
}
type CC118 map[string]*CA118

type CA119 map[string]*CB119
type CB119 struct {
	F0 **CB119
	N  int `json:",string"`
	S  []string
}
type CC119 struct {
	F0 []CA119        `json:"k0"`
	F1 *CA119         `json:",omitnil"`
	F2 map[int]*CC119 `json:"k2"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
}

type CA120 struct {
	F0 *CB120 `json:",omitnil"`
	F1 []CA120
	F2 []CA120 `json:"x2,omitempty"`
}
type CB120 struct {
	F0 **CC120     `json:",omitnil"`
	F1 []CC120     `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}
type CC120 struct {
	F0 []*CB120 `json:",omitnil"`
	F1 []*CC120 `json:",omitnil"`
	F2 []CB120
	F3 []*CB120
}

type CA121 map[string]*CB121
type CB121 []CA121
type CC121 struct {
	F0 *CA121   `json:"x0,omitempty"`
	F1 []*CA121 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA122 struct {
	F0 []*CA122 `json:",omitnil"`
	F1 **CA122  `json:"k1"`
}
type CB122 struct {
	F0 []CB122
	F1 *CC122
	F2 *CC122 `json:"k2"`
	F3 **CB122
	N  int `json:",string"`
	S  []string
}
type CC122 struct {
	F0 *CB122
	F1 map[string]CC122 `json:"k1"`
	N  int              `json:",string"`
	S  []string
}

type CA123 struct {
	F0 map[int]*CA123 `json:"x0,omitempty"`
	F1 map[int]*CB123 `json:"x1,omitempty"`
	F2 map[string]CB123
	N  int `json:",string"`
	EmbC
}
type CB123 struct {
	F0 []CC123
	F1 []CC123        `json:",omitnil"`
	F2 *CB123         `json:"x2,omitempty"`
	F3 map[int]*CA123 `json:",omitnil"`
	E  interface{}    `json:",omitempty"`
}
type CC123 map[string]*CB123

type CA124 map[string]*CC124
type CB124 struct {
	F0 *CA124 `json:"k0"`
	F1 **CB124
	F2 map[int]*CB124 `json:"k2"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CC124 struct {
	F0 *CA124 `json:"x0,omitempty"`
	EmbC
}

type CA125 struct {
	F0 *CA125      `json:"k0"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB125 struct {
	F0 **CC125
	F1 []*CB125 `json:"k1"`
	S  []string
}
type CC125 map[string]*CC125

type CA126 []*CB126
type CB126 struct {
	F0 *CB126 `json:",omitnil"`
	F1 *CA126 `json:"x1,omitempty"`
}
type CC126 []CB126

type CA127 struct {
	F0 **CB127 `json:",omitnil"`
}
type CB127 struct {
	F0 map[int]*CB127 `json:",omitnil"`
	F1 []*CB127       `json:"k1"`
	F2 []CB127        `json:"k2"`
}
type CC127 map[string]*CC127

type CA128 struct {
	F0 **CC128 `json:"k0"`
	F1 []CA128
	F2 *CC128
	S  []string
}
type CB128 struct {
	F0 []*CC128 `json:",omitnil"`
	F1 map[int]*CC128
	F2 map[int]*CC128 `json:"k2"`
	F3 []*CB128       `json:"k3"`
	N  int            `json:",string"`
}
type CC128 struct {
	F0 map[int]*CC128 `json:",omitnil"`
}

type CA129 struct {
	F0 []*CB129       `json:",omitnil"`
	F1 map[int]*CC129 `json:",omitnil"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CB129 struct {
	F0 []*CA129         `json:"x0,omitempty"`
	F1 map[string]CA129 `json:"x1,omitempty"`
	F2 []CC129          `json:"k2"`
	N  int              `json:",string"`
}
type CC129 []CB129

type CA130 struct {
	F0 map[int]*CA130 `json:"k0"`
	F1 []CC130        `json:",omitnil"`
	F2 map[int]*CA130 `json:",omitnil"`
	N  int            `json:",string"`
}
type CB130 []CB130
type CC130 struct {
	F0 map[int]*CC130
	F1 map[int]*CC130 `json:"k1"`
	F2 **CA130        `json:"x2,omitempty"`
	N  int            `json:",string"`
	S  []string
}

type CA131 struct {
	F0 []*CB131         `json:"k0"`
	F1 map[string]CA131 `json:"x1,omitempty"`
	F2 *CC131           `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
	EmbC
}
type CB131 struct {
	F0 []CB131 `json:"k0"`
	F1 *CC131  `json:"k1"`
	F2 *CA131  `json:"x2,omitempty"`
}
type CC131 []CC131

type CA132 struct {
	F0 map[string]CA132 `json:",omitnil"`
	F1 map[int]*CB132   `json:",omitnil"`
	F2 map[string]CA132 `json:"k2"`
	F3 []*CA132         `json:"x3,omitempty"`
	EmbC
}
type CB132 map[string]*CB132
type CC132 []CA132

type CA133 struct {
	F0 map[int]*CC133 `json:"k0"`
	F1 map[int]*CC133
	F2 *CC133         `json:"k2"`
	F3 map[int]*CC133 `json:"k3"`
}
type CB133 struct {
	F0 []*CA133    `json:"x0,omitempty"`
	F1 **CA133     `json:"k1"`
	E  interface{} `json:",omitempty"`
}
type CC133 struct {
	F0 *CA133 `json:"x0,omitempty"`
	F1 *CC133
	F2 *CB133
	F3 []CC133 `json:"k3"`
	N  int     `json:",string"`
}

type CA134 []*CC134
type CB134 struct {
	F0 []*CA134         `json:"k0"`
	F1 *CC134           `json:"x1,omitempty"`
	F2 map[string]CB134 `json:"x2,omitempty"`
	F3 []*CA134         `json:"x3,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC134 struct {
	F0 []*CB134         `json:"k0"`
	F1 **CA134          `json:",omitnil"`
	F2 map[string]CA134 `json:"k2"`
	E  interface{}      `json:",omitempty"`
	EmbC
}

type CA135 []*CA135
type CB135 struct {
	F0 map[int]*CC135   `json:"k0"`
	F1 **CC135          `json:"x1,omitempty"`
	F2 map[string]CB135 `json:"x2,omitempty"`
}
type CC135 []CC135

type CA136 []*CB136
type CB136 struct {
	F0 *CB136         `json:"x0,omitempty"`
	F1 map[int]*CB136 `json:"x1,omitempty"`
	F2 **CA136        `json:"k2"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CC136 map[string]*CB136

type CA137 struct {
	F0 *CA137
	E  interface{} `json:",omitempty"`
}
type CB137 struct {
	F0 map[int]*CA137 `json:",omitnil"`
	F1 []CC137        `json:"x1,omitempty"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CC137 []CA137

type CA138 []*CA138
type CB138 struct {
	F0 **CB138     `json:"k0"`
	F1 **CB138     `json:"x1,omitempty"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC138 struct {
	F0 []CC138          `json:",omitnil"`
	F1 **CC138          `json:"x1,omitempty"`
	F2 map[string]CB138 `json:",omitnil"`
	S  []string
}

type CA139 map[string]*CB139
type CB139 []CB139
type CC139 struct {
	F0 **CB139 `json:"x0,omitempty"`
	F1 **CC139
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA140 struct {
	F0 *CB140
	S  []string
}
type CB140 []CB140
type CC140 struct {
	F0 *CB140
	F1 []CB140 `json:",omitnil"`
	F2 map[string]CC140
	N  int `json:",string"`
}

type CA141 map[string]*CC141
type CB141 struct {
	F0 []*CC141
	S  []string
}
type CC141 []CA141

type CA142 struct {
	F0 map[int]*CB142   `json:"x0,omitempty"`
	F1 map[string]CC142 `json:",omitnil"`
	F2 []CA142          `json:",omitnil"`
}
type CB142 []CA142
type CC142 struct {
	F0 map[int]*CA142
	F1 *CC142
	F2 map[int]*CC142 `json:"x2,omitempty"`
	F3 map[int]*CC142 `json:",omitnil"`
	N  int            `json:",string"`
}

type CA143 struct {
	F0 map[string]CA143 `json:"k0"`
	N  int              `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB143 map[string]*CB143
type CC143 struct {
	F0 map[string]CB143 `json:"x0,omitempty"`
	N  int              `json:",string"`
}

type CA144 map[string]*CB144
type CB144 struct {
	F0 []CA144 `json:"x0,omitempty"`
	F1 *CA144
}
type CC144 struct {
	F0 *CA144           `json:"x0,omitempty"`
	F1 map[string]CA144 `json:"k1"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
}

type CA145 []*CC145
type CB145 struct {
	F0 []CA145
	F1 []CA145 `json:",omitnil"`
	S  []string
}
type CC145 struct {
	F0 *CB145 `json:"x0,omitempty"`
	F1 *CB145 `json:"k1"`
	F2 map[int]*CA145
	S  []string
	EmbC
}

type CA146 struct {
	F0 []CA146 `json:"x0,omitempty"`
	F1 **CB146
}
type CB146 struct {
	F0 []*CC146
	N  int `json:",string"`
}
type CC146 []CC146

type CA147 struct {
	F0 []*CA147 `json:"k0"`
	F1 **CC147  `json:"k1"`
	F2 []CB147  `json:",omitnil"`
}
type CB147 struct {
	F0 map[int]*CB147 `json:",omitnil"`
	F1 **CC147
	N  int `json:",string"`
}
type CC147 map[string]*CA147

type CA148 map[string]*CC148
type CB148 struct {
	F0 map[int]*CC148
	F1 map[int]*CC148 `json:"k1"`
}
type CC148 struct {
	F0 []CC148 `json:",omitnil"`
}

type CA149 struct {
	F0 []*CA149
	F1 map[int]*CB149 `json:"k1"`
	F2 []*CB149       `json:"k2"`
	F3 []CB149        `json:"x3,omitempty"`
	N  int            `json:",string"`
	S  []string
	EmbC
}
type CB149 struct {
	F0 map[string]CA149 `json:"k0"`
	E  interface{}      `json:",omitempty"`
	EmbC
}
type CC149 struct {
	F0 map[int]*CA149 `json:"k0"`
	N  int            `json:",string"`
	EmbC
}

type CA150 struct {
	F0 map[string]CB150 `json:",omitnil"`
	F1 []*CC150         `json:"x1,omitempty"`
	F2 []CB150
	F3 *CA150
	EmbC
}
type CB150 struct {
	F0 []*CC150    `json:"k0"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC150 struct {
	F0 map[int]*CB150   `json:",omitnil"`
	F1 map[string]CB150 `json:"k1"`
	F2 []*CC150
}

type CA151 []*CC151
type CB151 []CC151
type CC151 struct {
	F0 map[string]CC151 `json:"x0,omitempty"`
	F1 **CC151          `json:"k1"`
	F2 *CB151           `json:"k2"`
	F3 []CA151          `json:",omitnil"`
	N  int              `json:",string"`
	EmbC
}

type CA152 struct {
	F0 **CC152 `json:",omitnil"`
	F1 **CA152 `json:",omitnil"`
	S  []string
}
type CB152 []CC152
type CC152 struct {
	F0 map[int]*CC152 `json:",omitnil"`
	F1 **CB152        `json:",omitnil"`
	F2 []CC152        `json:"k2"`
	F3 *CC152         `json:",omitnil"`
	S  []string
	EmbC
}

type CA153 struct {
	F0 **CB153
	F1 []*CB153 `json:"k1"`
	S  []string
	EmbC
}
type CB153 struct {
	F0 []*CB153       `json:"k0"`
	F1 map[int]*CA153 `json:",omitnil"`
	N  int            `json:",string"`
	S  []string
}
type CC153 []CA153

type CA154 struct {
	F0 []*CB154         `json:"x0,omitempty"`
	F1 map[string]CA154 `json:"x1,omitempty"`
	F2 map[string]CC154 `json:"k2"`
	F3 **CC154          `json:"k3"`
	S  []string
}
type CB154 struct {
	F0 **CA154 `json:",omitnil"`
	F1 map[int]*CA154
	F2 []*CC154    `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC154 []CC154

type CA155 []*CC155
type CB155 struct {
	F0 **CA155 `json:",omitnil"`
	F1 []CC155 `json:"x1,omitempty"`
	F2 **CC155
	F3 map[int]*CB155 `json:",omitnil"`
	N  int            `json:",string"`
}
type CC155 struct {
	F0 []*CC155 `json:"k0"`
	F1 **CB155  `json:"x1,omitempty"`
	N  int      `json:",string"`
	EmbC
}

type CA156 []*CC156
type CB156 struct {
	F0 []*CB156 `json:"k0"`
	F1 []CC156  `json:",omitnil"`
	EmbC
}
type CC156 map[string]*CC156

type CA157 map[string]*CC157
type CB157 []CB157
type CC157 []CC157

type CA158 struct {
	F0 map[string]CA158 `json:"k0"`
	F1 []*CB158
	F2 []*CC158 `json:",omitnil"`
	F3 []*CA158 `json:"x3,omitempty"`
	N  int      `json:",string"`
	S  []string
}
type CB158 []CB158
type CC158 []CC158

type CA159 struct {
	F0 *CB159      `json:"x0,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB159 []CB159
type CC159 struct {
	F0 *CC159 `json:"k0"`
	N  int    `json:",string"`
	S  []string
}

type CA160 struct {
	F0 []CC160 `json:"x0,omitempty"`
	F1 map[string]CC160
	N  int `json:",string"`
	S  []string
	EmbC
}
type CB160 struct {
	F0 **CB160
}
type CC160 map[string]*CC160

type CA161 []*CB161
type CB161 struct {
	F0 **CB161
	F1 **CB161        `json:"x1,omitempty"`
	F2 map[int]*CB161 `json:"k2"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CC161 map[string]*CA161

type CA162 struct {
	F0 map[int]*CA162 `json:"x0,omitempty"`
	S  []string
}
type CB162 struct {
	F0 **CC162
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC162 struct {
	F0 []*CB162 `json:"x0,omitempty"`
	F1 []*CC162 `json:",omitnil"`
	F2 map[string]CB162
	N  int `json:",string"`
	S  []string
}

type CA163 struct {
	F0 *CB163
	F1 []CB163          `json:"k1"`
	F2 map[int]*CA163   `json:",omitnil"`
	F3 map[string]CB163 `json:"x3,omitempty"`
	E  interface{}      `json:",omitempty"`
}
type CB163 struct {
	F0 **CA163 `json:"x0,omitempty"`
	F1 **CB163 `json:"k1"`
	F2 **CC163 `json:"k2"`
	N  int     `json:",string"`
	EmbC
}
type CC163 []CA163

type CA164 struct {
	F0 *CA164
	F1 map[int]*CA164 `json:"x1,omitempty"`
	F2 []*CC164
	F3 map[string]CB164 `json:"k3"`
	E  interface{}      `json:",omitempty"`
	EmbC
}
type CB164 struct {
	F0 *CA164   `json:"x0,omitempty"`
	F1 []CB164  `json:"k1"`
	F2 []*CC164 `json:"k2"`
	F3 *CC164
	S  []string
}
type CC164 map[string]*CC164

type CA165 struct {
	F0 **CB165     `json:"x0,omitempty"`
	F1 *CB165      `json:"k1"`
	F2 *CC165      `json:"x2,omitempty"`
	F3 []CA165     `json:"k3"`
	E  interface{} `json:",omitempty"`
}
type CB165 struct {
	F0 []CA165 `json:"x0,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC165 map[string]*CC165

type CA166 []*CC166
type CB166 struct {
	F0 map[string]CA166 `json:"x0,omitempty"`
	F1 map[int]*CA166   `json:"k1"`
	F2 *CC166
	F3 []CA166 `json:"x3,omitempty"`
	S  []string
}
type CC166 struct {
	F0 *CA166
}

type CA167 []*CC167
type CB167 []CC167
type CC167 struct {
	F0 map[int]*CB167
	F1 []*CC167 `json:"x1,omitempty"`
	F2 *CA167   `json:"k2"`
	N  int      `json:",string"`
}

type CA168 []*CC168
type CB168 []CC168
type CC168 struct {
	F0 **CA168
	F1 **CA168
	F2 *CB168      `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}

type CA169 struct {
	F0 *CA169
	F1 *CA169 `json:"x1,omitempty"`
}
type CB169 struct {
	F0 **CA169
	F1 *CC169
	S  []string
}
type CC169 []CA169

type CA170 struct {
	F0 map[int]*CB170   `json:"x0,omitempty"`
	F1 map[string]CB170 `json:",omitnil"`
	F2 *CB170           `json:"k2"`
	N  int              `json:",string"`
}
type CB170 struct {
	F0 map[string]CA170
	F1 map[int]*CC170
	F2 map[string]CA170 `json:",omitnil"`
	S  []string
}
type CC170 struct {
	F0 []*CA170
	N  int `json:",string"`
}

type CA171 []*CC171
type CB171 []CB171
type CC171 map[string]*CA171

type CA172 struct {
	F0 **CC172 `json:"x0,omitempty"`
}
type CB172 struct {
	F0 **CA172     `json:"x0,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC172 struct {
	F0 []CC172 `json:"k0"`
	S  []string
	EmbC
}

type CA173 struct {
	F0 map[string]CB173
	F1 *CC173 `json:"x1,omitempty"`
}
type CB173 map[string]*CC173
type CC173 []CC173

type CA174 []*CC174
type CB174 struct {
	F0 *CA174
	F1 []*CA174
	F2 map[string]CA174 `json:"x2,omitempty"`
}
type CC174 struct {
	F0 []CA174          `json:",omitnil"`
	F1 map[string]CB174 `json:"k1"`
	F2 **CC174          `json:"x2,omitempty"`
	F3 map[int]*CC174
	EmbC
}

type CA175 struct {
	F0 *CA175      `json:",omitnil"`
	F1 **CB175     `json:",omitnil"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB175 struct {
	F0 **CB175 `json:"x0,omitempty"`
	F1 *CA175  `json:"k1"`
	F2 *CA175  `json:"k2"`
	N  int     `json:",string"`
	S  []string
	EmbC
}
type CC175 struct {
	F0 map[string]CA175 `json:",omitnil"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
}

type CA176 struct {
	F0 map[string]CA176
	F1 []CA176        `json:",omitnil"`
	F2 map[int]*CA176 `json:"x2,omitempty"`
}
type CB176 map[string]*CC176
type CC176 struct {
	F0 *CA176
	F1 **CB176 `json:",omitnil"`
	F2 []CB176
	E  interface{} `json:",omitempty"`
}

type CA177 struct {
	F0 map[int]*CA177 `json:"k0"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB177 []CA177
type CC177 []CB177

type CA178 struct {
	F0 map[int]*CA178 `json:",omitnil"`
	F1 []*CA178
	F2 []*CA178 `json:"k2"`
	F3 **CA178  `json:"k3"`
	N  int      `json:",string"`
	EmbC
}
type CB178 map[string]*CC178
type CC178 struct {
	F0 *CA178           `json:"k0"`
	F1 map[string]CB178 `json:"k1"`
	S  []string
}

type CA179 []*CA179
type CB179 struct {
	F0 *CA179         `json:"k0"`
	F1 map[int]*CB179 `json:"x1,omitempty"`
	F2 []*CA179
	E  interface{} `json:",omitempty"`
}
type CC179 struct {
	F0 **CB179 `json:"x0,omitempty"`
	F1 map[int]*CB179
	S  []string
	EmbC
}

type CA180 map[string]*CA180
type CB180 struct {
	F0 **CA180          `json:"k0"`
	F1 []CA180          `json:",omitnil"`
	F2 map[int]*CA180   `json:"x2,omitempty"`
	F3 map[string]CC180 `json:",omitnil"`
}
type CC180 []CB180

type CA181 struct {
	F0 *CB181   `json:",omitnil"`
	F1 []*CC181 `json:"k1"`
	S  []string
	EmbC
}
type CB181 struct {
	F0 map[string]CB181 `json:",omitnil"`
	F1 []CB181
	S  []string
	EmbC
}
type CC181 struct {
	F0 []CA181  `json:"x0,omitempty"`
	F1 []*CB181 `json:"k1"`
	EmbC
}

type CA182 struct {
	F0 map[string]CB182 `json:"x0,omitempty"`
	E  interface{}      `json:",omitempty"`
}
type CB182 []CA182
type CC182 map[string]*CB182

type CA183 map[string]*CA183
type CB183 struct {
	F0 map[int]*CB183 `json:"x0,omitempty"`
	F1 []CC183        `json:",omitnil"`
	F2 **CB183
	F3 *CB183
	E  interface{} `json:",omitempty"`
}
type CC183 map[string]*CA183

type CA184 struct {
	F0 []*CB184 `json:",omitnil"`
	EmbC
}
type CB184 map[string]*CB184
type CC184 struct {
	F0 []*CC184       `json:"x0,omitempty"`
	F1 map[int]*CA184 `json:",omitnil"`
	F2 []*CB184       `json:"x2,omitempty"`
}

type CA185 struct {
	F0 **CA185
	F1 []*CC185 `json:"k1"`
	F2 []CC185  `json:",omitnil"`
	S  []string
}
type CB185 struct {
	F0 map[int]*CB185 `json:"x0,omitempty"`
	F1 map[int]*CA185 `json:"x1,omitempty"`
	E  interface{}    `json:",omitempty"`
}
type CC185 struct {
	F0 map[int]*CC185   `json:"k0"`
	F1 map[string]CA185 `json:"x1,omitempty"`
	F2 **CA185          `json:",omitnil"`
	N  int              `json:",string"`
}

type CA186 struct {
	F0 map[int]*CC186 `json:"k0"`
}
type CB186 struct {
	F0 []CB186
	F1 **CC186 `json:"x1,omitempty"`
	F2 map[int]*CB186
}
type CC186 struct {
	F0 **CC186          `json:"x0,omitempty"`
	F1 map[string]CB186 `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}

type CA187 struct {
	F0 []CA187 `json:"k0"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB187 map[string]*CA187
type CC187 struct {
	F0 *CA187  `json:"x0,omitempty"`
	F1 []CB187 `json:"x1,omitempty"`
	N  int     `json:",string"`
	S  []string
}

type CA188 map[string]*CB188
type CB188 struct {
	F0 []*CB188 `json:",omitnil"`
	N  int      `json:",string"`
}
type CC188 []CB188

type CA189 map[string]*CB189
type CB189 []CA189
type CC189 struct {
	F0 **CB189 `json:"x0,omitempty"`
}

type CA190 map[string]*CC190
type CB190 struct {
	F0 []CC190     `json:"k0"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC190 struct {
	F0 *CC190 `json:"x0,omitempty"`
	N  int    `json:",string"`
}

type CA191 map[string]*CC191
type CB191 []CC191
type CC191 struct {
	F0 []CA191 `json:"x0,omitempty"`
	F1 []*CA191
	F2 **CB191          `json:"x2,omitempty"`
	F3 map[string]CC191 `json:"k3"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA192 []*CA192
type CB192 struct {
	F0 []CC192  `json:"k0"`
	F1 []*CA192 `json:"x1,omitempty"`
	F2 []CB192  `json:",omitnil"`
	N  int      `json:",string"`
	S  []string
}
type CC192 struct {
	F0 map[int]*CB192 `json:",omitnil"`
	F1 *CC192         `json:",omitnil"`
	F2 *CB192
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA193 map[string]*CB193
type CB193 []CA193
type CC193 struct {
	F0 []*CC193 `json:",omitnil"`
	EmbC
}

type CA194 struct {
	F0 []*CB194 `json:"k0"`
	S  []string
	EmbC
}
type CB194 struct {
	F0 **CB194  `json:",omitnil"`
	F1 []*CB194 `json:",omitnil"`
	F2 []*CA194
	F3 map[int]*CA194 `json:",omitnil"`
	N  int            `json:",string"`
}
type CC194 []CB194

type CA195 struct {
	F0 map[string]CC195
}
type CB195 map[string]*CB195
type CC195 struct {
	F0 **CC195
	N  int `json:",string"`
}

type CA196 struct {
	F0 map[string]CA196 `json:"k0"`
	N  int              `json:",string"`
	S  []string
}
type CB196 struct {
	F0 *CA196 `json:"k0"`
	F1 []*CA196
	F2 map[string]CC196 `json:"k2"`
	EmbC
}
type CC196 struct {
	F0 **CA196 `json:"x0,omitempty"`
	F1 **CA196 `json:"k1"`
	F2 *CC196  `json:",omitnil"`
	F3 []CA196 `json:",omitnil"`
}

type CA197 struct {
	F0 map[string]CA197 `json:",omitnil"`
	F1 **CA197          `json:"k1"`
	F2 *CA197           `json:"x2,omitempty"`
	S  []string
}
type CB197 []CB197
type CC197 map[string]*CB197

type CA198 struct {
	F0 map[string]CB198 `json:",omitnil"`
	F1 map[int]*CB198   `json:",omitnil"`
	F2 *CA198
}
type CB198 map[string]*CC198
type CC198 []CC198

type CA199 map[string]*CA199
type CB199 struct {
	F0 []*CC199       `json:",omitnil"`
	F1 map[int]*CB199 `json:",omitnil"`
	F2 []CA199        `json:",omitnil"`
	S  []string
	EmbC
}
type CC199 struct {
	F0 **CC199
	F1 []*CB199 `json:",omitnil"`
}

type CA200 struct {
	F0 map[string]CA200
	F1 *CA200 `json:",omitnil"`
	F2 *CA200 `json:"x2,omitempty"`
	N  int    `json:",string"`
	EmbC
}
type CB200 struct {
	F0 map[string]CB200 `json:"k0"`
	F1 map[string]CC200 `json:"k1"`
	F2 map[string]CB200 `json:",omitnil"`
	F3 **CB200
	EmbC
}
type CC200 struct {
	F0 *CC200  `json:"x0,omitempty"`
	F1 []CA200 `json:",omitnil"`
	F2 []*CB200
	F3 **CC200
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA201 []*CA201
type CB201 struct {
	F0 []*CC201 `json:",omitnil"`
	F1 *CA201
	F2 []CB201     `json:"k2"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC201 struct {
	F0 map[string]CC201 `json:"x0,omitempty"`
	F1 map[int]*CC201
	F2 **CA201 `json:"k2"`
	EmbC
}

type CA202 struct {
	F0 []*CB202
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB202 struct {
	F0 []*CB202    `json:"x0,omitempty"`
	F1 []*CA202    `json:"x1,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC202 struct {
	F0 []*CB202       `json:"x0,omitempty"`
	F1 map[int]*CA202 `json:"k1"`
	F2 *CA202
	E  interface{} `json:",omitempty"`
}

type CA203 struct {
	F0 []CC203 `json:"x0,omitempty"`
	F1 []CC203 `json:"x1,omitempty"`
	F2 []CC203
	EmbC
}
type CB203 struct {
	F0 map[int]*CA203 `json:"k0"`
}
type CC203 struct {
	F0 map[string]CB203 `json:"x0,omitempty"`
	F1 **CA203          `json:",omitnil"`
	EmbC
}

type CA204 struct {
	F0 []*CB204         `json:",omitnil"`
	F1 map[string]CA204 `json:"x1,omitempty"`
	F2 map[int]*CA204   `json:"x2,omitempty"`
	N  int              `json:",string"`
	S  []string
	EmbC
}
type CB204 struct {
	F0 []*CB204         `json:"k0"`
	F1 map[string]CB204 `json:"x1,omitempty"`
	F2 map[int]*CC204   `json:"x2,omitempty"`
	F3 []*CA204         `json:"x3,omitempty"`
	N  int              `json:",string"`
}
type CC204 struct {
	F0 map[string]CB204 `json:"k0"`
	F1 **CA204          `json:"k1"`
	F2 []*CC204
	F3 *CC204 `json:"k3"`
	N  int    `json:",string"`
}

type CA205 struct {
	F0 []CC205
	F1 **CA205 `json:",omitnil"`
	F2 **CB205 `json:",omitnil"`
}
type CB205 struct {
	F0 **CA205 `json:",omitnil"`
	F1 *CA205
	F2 []*CB205       `json:"k2"`
	F3 map[int]*CB205 `json:",omitnil"`
	N  int            `json:",string"`
}
type CC205 struct {
	F0 *CB205         `json:",omitnil"`
	F1 map[int]*CC205 `json:",omitnil"`
	F2 *CB205         `json:"k2"`
	F3 *CB205
	N  int `json:",string"`
	S  []string
	EmbC
}

type CA206 struct {
	F0 *CA206  `json:"x0,omitempty"`
	F1 []CA206 `json:"x1,omitempty"`
	F2 []CB206 `json:"x2,omitempty"`
	F3 []CA206 `json:"k3"`
	N  int     `json:",string"`
}
type CB206 map[string]*CC206
type CC206 struct {
	F0 []CB206 `json:"x0,omitempty"`
	N  int     `json:",string"`
}

type CA207 struct {
	F0 []*CA207 `json:",omitnil"`
	F1 *CA207
	N  int `json:",string"`
	S  []string
}
type CB207 map[string]*CA207
type CC207 struct {
	F0 *CA207   `json:"x0,omitempty"`
	F1 []*CB207 `json:"x1,omitempty"`
	N  int      `json:",string"`
}

type CA208 struct {
	F0 []CB208
	F1 **CC208 `json:"x1,omitempty"`
	F2 []CA208 `json:"x2,omitempty"`
	F3 map[string]CC208
}
type CB208 struct {
	F0 map[int]*CB208
	S  []string
}
type CC208 []CC208

type CA209 struct {
	F0 map[int]*CA209 `json:"k0"`
	F1 []CC209
}
type CB209 struct {
	F0 **CC209          `json:"x0,omitempty"`
	F1 []*CB209         `json:"k1"`
	F2 map[string]CB209 `json:"x2,omitempty"`
	F3 map[string]CB209 `json:"x3,omitempty"`
	N  int              `json:",string"`
}
type CC209 []CC209

type CA210 struct {
	F0 map[string]CC210 `json:",omitnil"`
	F1 []*CB210         `json:"x1,omitempty"`
	F2 []*CC210         `json:"k2"`
}
type CB210 []CA210
type CC210 struct {
	F0 []*CB210 `json:",omitnil"`
	EmbC
}

type CA211 map[string]*CA211
type CB211 struct {
	F0 *CC211         `json:"k0"`
	F1 map[int]*CC211 `json:",omitnil"`
	F2 *CC211         `json:"k2"`
	S  []string
}
type CC211 map[string]*CA211

type CA212 struct {
	F0 map[string]CB212 `json:"x0,omitempty"`
	F1 []*CC212         `json:"k1"`
	F2 []*CC212         `json:",omitnil"`
}
type CB212 struct {
	F0 *CC212 `json:"x0,omitempty"`
	S  []string
}
type CC212 struct {
	F0 map[string]CC212 `json:"k0"`
	F1 []CB212
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA213 []*CA213
type CB213 struct {
	F0 **CA213          `json:",omitnil"`
	F1 map[string]CC213 `json:"x1,omitempty"`
	F2 []CC213
	F3 **CA213 `json:",omitnil"`
	N  int     `json:",string"`
	S  []string
}
type CC213 map[string]*CB213

type CA214 struct {
	F0 []CA214 `json:",omitnil"`
}
type CB214 struct {
	F0 *CB214 `json:"k0"`
	F1 map[string]CC214
	S  []string
}
type CC214 map[string]*CB214

type CA215 map[string]*CC215
type CB215 struct {
	F0 []*CB215 `json:"k0"`
}
type CC215 struct {
	F0 *CC215           `json:"k0"`
	F1 []*CB215         `json:"x1,omitempty"`
	F2 map[string]CA215 `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}

type CA216 struct {
	F0 map[int]*CC216   `json:"x0,omitempty"`
	F1 map[string]CA216 `json:",omitnil"`
	F2 []CB216
}
type CB216 struct {
	F0 map[int]*CC216   `json:"x0,omitempty"`
	F1 []*CC216         `json:"x1,omitempty"`
	F2 map[string]CA216 `json:"x2,omitempty"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
}
type CC216 []CB216

type CA217 []*CA217
type CB217 struct {
	F0 []CC217
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC217 []CA217

type CA218 struct {
	F0 map[string]CA218 `json:"k0"`
	N  int              `json:",string"`
	S  []string
}
type CB218 struct {
	F0 map[string]CC218 `json:"x0,omitempty"`
	F1 *CC218           `json:"x1,omitempty"`
	F2 []CA218
	F3 []CA218 `json:",omitnil"`
}
type CC218 struct {
	F0 **CA218
	F1 []*CC218 `json:"k1"`
	F2 *CC218   `json:",omitnil"`
	F3 []*CA218 `json:"k3"`
	N  int      `json:",string"`
}

type CA219 struct {
	F0 []CB219          `json:",omitnil"`
	F1 []*CA219         `json:",omitnil"`
	F2 map[string]CB219 `json:"x2,omitempty"`
	F3 []CA219          `json:"x3,omitempty"`
	N  int              `json:",string"`
	EmbC
}
type CB219 struct {
	F0 []*CB219 `json:"k0"`
	EmbC
}
type CC219 map[string]*CA219

type CA220 []*CA220
type CB220 struct {
	F0 *CB220         `json:"k0"`
	F1 map[int]*CB220 `json:"k1"`
	S  []string
}
type CC220 struct {
	F0 *CC220  `json:"x0,omitempty"`
	F1 []CA220 `json:",omitnil"`
	N  int     `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA221 struct {
	F0 *CC221  `json:"k0"`
	F1 []CC221 `json:"x1,omitempty"`
	F2 []CB221 `json:"k2"`
	N  int     `json:",string"`
}
type CB221 map[string]*CC221
type CC221 []CB221

type CA222 []*CC222
type CB222 struct {
	F0 **CA222  `json:",omitnil"`
	F1 []*CA222 `json:",omitnil"`
	N  int      `json:",string"`
	EmbC
}
type CC222 struct {
	F0 []CC222        `json:"x0,omitempty"`
	F1 map[int]*CB222 `json:"k1"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
	EmbC
}

type CA223 struct {
	F0 []CB223
	S  []string
	EmbC
}
type CB223 struct {
	F0 []CA223        `json:"k0"`
	F1 map[int]*CC223 `json:"k1"`
	F2 *CA223
	N  int `json:",string"`
}
type CC223 []CB223

type CA224 struct {
	F0 map[string]CA224
	F1 **CB224          `json:"k1"`
	F2 map[string]CA224 `json:"k2"`
	F3 []CA224
	S  []string
}
type CB224 struct {
	F0 **CA224
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC224 struct {
	F0 []CC224        `json:",omitnil"`
	F1 map[int]*CC224 `json:",omitnil"`
	F2 []CB224        `json:"k2"`
	N  int            `json:",string"`
	S  []string
}

type CA225 map[string]*CC225
type CB225 map[string]*CC225
type CC225 struct {
	F0 *CB225
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA226 struct {
	F0 **CC226          `json:"k0"`
	F1 **CC226          `json:"x1,omitempty"`
	F2 map[string]CC226 `json:"x2,omitempty"`
	S  []string
}
type CB226 struct {
	F0 []*CB226    `json:"x0,omitempty"`
	F1 []*CA226    `json:"k1"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC226 []CC226

type CA227 struct {
	F0 map[string]CC227 `json:"k0"`
	F1 []CC227          `json:"k1"`
	F2 []*CB227         `json:",omitnil"`
	F3 map[int]*CC227
	EmbC
}
type CB227 struct {
	F0 **CB227          `json:"k0"`
	F1 map[string]CA227 `json:",omitnil"`
	F2 **CC227          `json:"x2,omitempty"`
}
type CC227 struct {
	F0 **CA227  `json:",omitnil"`
	F1 []*CA227 `json:",omitnil"`
	F2 map[string]CB227
}

type CA228 struct {
	F0 map[string]CB228 `json:"k0"`
	F1 *CC228           `json:"x1,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB228 struct {
	F0 map[string]CB228 `json:"k0"`
	F1 map[string]CB228 `json:"x1,omitempty"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
	EmbC
}
type CC228 struct {
	F0 **CA228 `json:",omitnil"`
	N  int     `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA229 map[string]*CB229
type CB229 struct {
	F0 *CB229 `json:"k0"`
}
type CC229 struct {
	F0 []CB229
	F1 **CB229
	F2 map[string]CB229 `json:"x2,omitempty"`
	F3 **CA229          `json:"x3,omitempty"`
	N  int              `json:",string"`
	EmbC
}

type CA230 []*CA230
type CB230 struct {
	F0 []CB230     `json:",omitnil"`
	F1 *CA230      `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}
type CC230 map[string]*CA230

type CA231 struct {
	F0 map[int]*CB231
	F1 []CA231        `json:",omitnil"`
	F2 map[int]*CA231 `json:"k2"`
	N  int            `json:",string"`
	EmbC
}
type CB231 struct {
	F0 map[string]CB231 `json:"k0"`
	F1 map[int]*CA231
	F2 **CB231 `json:"k2"`
	N  int     `json:",string"`
}
type CC231 struct {
	F0 []CA231 `json:",omitnil"`
	F1 **CB231
	F2 map[string]CB231 `json:"x2,omitempty"`
	F3 **CA231
	N  int `json:",string"`
	S  []string
}

type CA232 struct {
	F0 map[string]CC232 `json:",omitnil"`
	F1 []*CB232         `json:"x1,omitempty"`
	F2 *CC232           `json:"k2"`
	F3 *CB232           `json:",omitnil"`
	S  []string
}
type CB232 struct {
	F0 map[string]CA232 `json:",omitnil"`
	F1 *CB232           `json:",omitnil"`
	F2 []CB232
	N  int `json:",string"`
}
type CC232 struct {
	F0 []CC232 `json:"x0,omitempty"`
	EmbC
}

type CA233 struct {
	F0 []CB233
	F1 *CB233           `json:"x1,omitempty"`
	F2 map[string]CC233 `json:"k2"`
	F3 **CA233          `json:"k3"`
	EmbC
}
type CB233 map[string]*CC233
type CC233 map[string]*CB233

type CA234 struct {
	F0 **CC234 `json:"x0,omitempty"`
	F1 **CC234 `json:",omitnil"`
	N  int     `json:",string"`
}
type CB234 []CA234
type CC234 struct {
	F0 map[string]CC234 `json:"x0,omitempty"`
	F1 []*CC234         `json:"x1,omitempty"`
	F2 **CB234          `json:",omitnil"`
}

type CA235 map[string]*CA235
type CB235 struct {
	F0 *CC235
	EmbC
}
type CC235 []CA235

type CA236 struct {
	F0 *CC236 `json:"x0,omitempty"`
}
type CB236 map[string]*CA236
type CC236 struct {
	F0 []*CA236 `json:"x0,omitempty"`
	F1 map[string]CB236
	F2 *CA236
	N  int `json:",string"`
}

type CA237 struct {
	F0 []CB237 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB237 struct {
	F0 **CC237     `json:"k0"`
	E  interface{} `json:",omitempty"`
}
type CC237 struct {
	F0 map[int]*CA237   `json:"x0,omitempty"`
	F1 map[string]CB237 `json:"x1,omitempty"`
	F2 []CC237          `json:",omitnil"`
	F3 map[int]*CA237   `json:"x3,omitempty"`
	N  int              `json:",string"`
}

type CA238 struct {
	F0 *CC238           `json:",omitnil"`
	F1 map[int]*CA238   `json:"x1,omitempty"`
	F2 map[string]CB238 `json:"k2"`
	F3 []CC238          `json:"x3,omitempty"`
	S  []string
	EmbC
}
type CB238 map[string]*CC238
type CC238 struct {
	F0 map[string]CC238
	F1 map[string]CB238 `json:",omitnil"`
}

type CA239 map[string]*CB239
type CB239 struct {
	F0 map[string]CB239 `json:"x0,omitempty"`
	EmbC
}
type CC239 map[string]*CB239

type CA240 struct {
	F0 **CB240 `json:"k0"`
	EmbC
}
type CB240 []CA240
type CC240 struct {
	F0 []*CA240 `json:",omitnil"`
	F1 []CC240  `json:"k1"`
	N  int      `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA241 map[string]*CA241
type CB241 struct {
	F0 map[int]*CC241 `json:"k0"`
	F1 *CA241         `json:"x1,omitempty"`
	EmbC
}
type CC241 struct {
	F0 map[string]CC241 `json:"x0,omitempty"`
	F1 []*CA241         `json:",omitnil"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
}

type CA242 struct {
	F0 []CB242
	F1 *CC242
	F2 []CA242 `json:"x2,omitempty"`
	N  int     `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB242 struct {
	F0 map[string]CB242 `json:"x0,omitempty"`
	N  int              `json:",string"`
	EmbC
}
type CC242 map[string]*CA242

type CA243 []*CB243
type CB243 struct {
	F0 map[int]*CC243 `json:"k0"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CC243 struct {
	F0 **CC243 `json:"k0"`
	F1 []CB243 `json:"k1"`
	F2 *CC243  `json:"k2"`
	F3 **CB243 `json:"k3"`
	N  int     `json:",string"`
}

type CA244 map[string]*CC244
type CB244 []CC244
type CC244 map[string]*CB244

type CA245 struct {
	F0 []*CC245
	F1 *CC245      `json:",omitnil"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB245 struct {
	F0 []CB245          `json:"x0,omitempty"`
	F1 map[string]CB245 `json:"x1,omitempty"`
	N  int              `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC245 struct {
	F0 **CB245          `json:"x0,omitempty"`
	F1 map[string]CA245 `json:"x1,omitempty"`
	F2 *CC245
	F3 map[string]CA245 `json:",omitnil"`
	N  int              `json:",string"`
	EmbC
}

type CA246 struct {
	F0 map[string]CA246 `json:",omitnil"`
}
type CB246 []CA246
type CC246 struct {
	F0 map[string]CB246 `json:"k0"`
	F1 map[int]*CA246   `json:"k1"`
	F2 []CB246          `json:"x2,omitempty"`
	F3 map[string]CB246 `json:"k3"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
	EmbC
}

type CA247 []*CC247
type CB247 struct {
	F0 []CA247          `json:"k0"`
	F1 map[int]*CC247   `json:",omitnil"`
	F2 map[string]CA247 `json:"x2,omitempty"`
	EmbC
}
type CC247 struct {
	F0 map[int]*CA247
}

type CA248 struct {
	F0 *CA248      `json:"k0"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB248 map[string]*CB248
type CC248 []CA248

type CA249 []*CA249
type CB249 struct {
	F0 **CA249
	F1 []*CA249
	N  int `json:",string"`
	EmbC
}
type CC249 map[string]*CB249

type CA250 []*CC250
type CB250 struct {
	F0 []*CC250 `json:"k0"`
	N  int      `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC250 struct {
	F0 []*CC250    `json:",omitnil"`
	F1 **CB250     `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}

type CA251 struct {
	F0 **CC251
	F1 *CC251           `json:"k1"`
	F2 map[string]CA251 `json:",omitnil"`
	N  int              `json:",string"`
}
type CB251 struct {
	F0 map[int]*CC251 `json:",omitnil"`
	F1 []*CC251       `json:"x1,omitempty"`
	E  interface{}    `json:",omitempty"`
}
type CC251 struct {
	F0 []CC251 `json:"x0,omitempty"`
	F1 []*CA251
	N  int `json:",string"`
}

type CA252 map[string]*CB252
type CB252 struct {
	F0 **CC252
	F1 map[string]CC252
	N  int `json:",string"`
}
type CC252 map[string]*CB252

type CA253 struct {
	F0 []CB253        `json:",omitnil"`
	F1 map[int]*CC253 `json:"k1"`
	F2 []*CB253       `json:"x2,omitempty"`
	F3 map[int]*CA253 `json:",omitnil"`
	EmbC
}
type CB253 struct {
	F0 **CC253     `json:"x0,omitempty"`
	E  interface{} `json:",omitempty"`
}
type CC253 struct {
	F0 map[string]CC253 `json:",omitnil"`
	F1 []CC253          `json:"x1,omitempty"`
	F2 []CA253          `json:"x2,omitempty"`
}

type CA254 struct {
	F0 []CC254          `json:"x0,omitempty"`
	F1 map[string]CB254 `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}
type CB254 map[string]*CB254
type CC254 struct {
	F0 map[int]*CC254 `json:"k0"`
	S  []string
}

type CA255 map[string]*CA255
type CB255 struct {
	F0 map[int]*CC255 `json:"k0"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CC255 []CB255

type CA256 struct {
	F0 *CC256
}
type CB256 map[string]*CB256
type CC256 map[string]*CC256

type CA257 struct {
	F0 map[string]CB257 `json:"x0,omitempty"`
	F1 []CA257          `json:",omitnil"`
	F2 []*CB257         `json:"x2,omitempty"`
}
type CB257 struct {
	F0 *CB257 `json:",omitnil"`
}
type CC257 struct {
	F0 map[int]*CB257 `json:"k0"`
	F1 []*CB257
	F2 **CC257 `json:"x2,omitempty"`
	F3 *CA257  `json:"x3,omitempty"`
	N  int     `json:",string"`
	S  []string
	EmbC
}

type CA258 struct {
	F0 map[int]*CA258 `json:"x0,omitempty"`
	F1 *CA258         `json:"k1"`
	F2 *CA258         `json:"k2"`
	F3 *CA258         `json:"k3"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CB258 map[string]*CA258
type CC258 struct {
	F0 []CB258 `json:",omitnil"`
	F1 **CB258 `json:"k1"`
	F2 map[int]*CA258
	F3 map[string]CA258 `json:"k3"`
	N  int              `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA259 []*CB259
type CB259 struct {
	F0 map[string]CA259 `json:"k0"`
	F1 []*CB259
	F2 map[int]*CC259 `json:",omitnil"`
	F3 map[int]*CC259
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC259 struct {
	F0 map[int]*CC259 `json:"k0"`
	E  interface{}    `json:",omitempty"`
}

type CA260 struct {
	F0 []*CB260 `json:",omitnil"`
	S  []string
}
type CB260 struct {
	F0 map[int]*CA260 `json:",omitnil"`
	F1 **CC260
	F2 map[string]CB260 `json:"x2,omitempty"`
	F3 []*CB260
}
type CC260 map[string]*CC260

type CA261 struct {
	F0 map[string]CC261
	F1 **CB261
	F2 []CB261
	F3 []CA261 `json:"x3,omitempty"`
	S  []string
	EmbC
}
type CB261 struct {
	F0 []*CC261 `json:"x0,omitempty"`
	F1 *CA261   `json:"k1"`
	F2 []*CB261 `json:",omitnil"`
	N  int      `json:",string"`
}
type CC261 struct {
	F0 *CC261 `json:",omitnil"`
	F1 map[int]*CA261
	F2 []CA261 `json:"k2"`
}

type CA262 []*CA262
type CB262 struct {
	F0 map[string]CC262
	F1 []*CA262 `json:"k1"`
	S  []string
}
type CC262 map[string]*CA262

type CA263 struct {
	F0 *CA263 `json:",omitnil"`
	F1 *CA263 `json:"k1"`
}
type CB263 map[string]*CA263
type CC263 struct {
	F0 **CA263          `json:"k0"`
	F1 map[string]CB263 `json:"x1,omitempty"`
	F2 []CC263          `json:",omitnil"`
	F3 []CA263
	S  []string
}

type CA264 struct {
	F0 *CC264  `json:",omitnil"`
	F1 **CB264 `json:"x1,omitempty"`
	F2 map[int]*CA264
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB264 []CA264
type CC264 struct {
	F0 *CA264 `json:"x0,omitempty"`
	F1 map[int]*CC264
	F2 map[int]*CC264 `json:"k2"`
	F3 *CA264         `json:"k3"`
	N  int            `json:",string"`
	S  []string
}

type CA265 struct {
	F0 **CA265 `json:"k0"`
	F1 *CB265  `json:"k1"`
	F2 map[string]CB265
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB265 struct {
	F0 map[string]CB265
	F1 *CB265
	F2 []*CB265         `json:"k2"`
	F3 map[string]CB265 `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}
type CC265 struct {
	F0 []CA265        `json:"k0"`
	F1 map[int]*CB265 `json:"k1"`
	F2 **CA265
	F3 map[int]*CC265 `json:"x3,omitempty"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
}

type CA266 struct {
	F0 []*CB266 `json:"x0,omitempty"`
	F1 []CB266
	F2 map[int]*CC266
	N  int `json:",string"`
}
type CB266 map[string]*CB266
type CC266 []CB266

type CA267 struct {
	F0 **CC267
	F1 *CC267 `json:"x1,omitempty"`
	N  int    `json:",string"`
	S  []string
}
type CB267 struct {
	F0 **CB267        `json:",omitnil"`
	F1 map[int]*CA267 `json:"x1,omitempty"`
	F2 *CB267
	F3 []*CC267 `json:"k3"`
}
type CC267 struct {
	F0 []CC267          `json:"k0"`
	F1 map[string]CB267 `json:"k1"`
	N  int              `json:",string"`
}

type CA268 struct {
	F0 **CA268     `json:"x0,omitempty"`
	F1 *CB268      `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}
type CB268 struct {
	F0 []*CA268
	F1 **CA268 `json:"x1,omitempty"`
	F2 **CA268
	F3 map[int]*CA268 `json:",omitnil"`
	N  int            `json:",string"`
	S  []string
}
type CC268 []CA268

type CA269 []*CB269
type CB269 struct {
	F0 **CB269     `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC269 map[string]*CB269

type CA270 struct {
	F0 []CC270          `json:"k0"`
	F1 []*CA270         `json:"x1,omitempty"`
	F2 map[string]CB270 `json:",omitnil"`
	E  interface{}      `json:",omitempty"`
}
type CB270 map[string]*CC270
type CC270 struct {
	F0 *CB270 `json:"k0"`
	EmbC
}

type CA271 struct {
	F0 map[string]CA271 `json:",omitnil"`
	F1 []*CB271         `json:",omitnil"`
}
type CB271 []CC271
type CC271 []CC271

type CA272 struct {
	F0 **CC272        `json:",omitnil"`
	F1 map[int]*CA272 `json:"k1"`
	F2 **CC272        `json:"x2,omitempty"`
	F3 map[int]*CA272 `json:"k3"`
	S  []string
	EmbC
}
type CB272 struct {
	F0 **CC272          `json:"x0,omitempty"`
	F1 **CB272          `json:"x1,omitempty"`
	F2 map[string]CC272 `json:"k2"`
	E  interface{}      `json:",omitempty"`
}
type CC272 struct {
	F0 *CB272 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA273 struct {
	F0 map[string]CC273 `json:"x0,omitempty"`
	S  []string
}
type CB273 struct {
	F0 map[string]CC273 `json:",omitnil"`
	F1 map[string]CC273
	F2 []CB273          `json:"x2,omitempty"`
	F3 map[string]CA273 `json:"k3"`
	N  int              `json:",string"`
	S  []string
}
type CC273 struct {
	F0 []*CB273 `json:"x0,omitempty"`
	N  int      `json:",string"`
	S  []string
	EmbC
}

type CA274 map[string]*CB274
type CB274 struct {
	F0 []*CB274 `json:"k0"`
	N  int      `json:",string"`
}
type CC274 struct {
	F0 []*CB274       `json:"x0,omitempty"`
	F1 map[int]*CB274 `json:",omitnil"`
	F2 []CA274        `json:",omitnil"`
	F3 []*CC274
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA275 struct {
	F0 []CC275          `json:"k0"`
	F1 map[string]CB275 `json:",omitnil"`
	S  []string
}
type CB275 struct {
	F0 *CC275 `json:",omitnil"`
	F1 *CA275 `json:",omitnil"`
	N  int    `json:",string"`
}
type CC275 struct {
	F0 []*CC275 `json:"x0,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA276 struct {
	F0 map[int]*CB276 `json:"k0"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
}
type CB276 struct {
	F0 []CC276
	F1 **CB276 `json:"x1,omitempty"`
	S  []string
	EmbC
}
type CC276 struct {
	F0 map[string]CC276
	F1 map[int]*CA276
	F2 map[string]CC276 `json:"k2"`
	E  interface{}      `json:",omitempty"`
}

type CA277 struct {
	F0 []CB277 `json:"x0,omitempty"`
	N  int     `json:",string"`
}
type CB277 struct {
	F0 **CA277
	S  []string
}
type CC277 struct {
	F0 map[string]CA277 `json:"k0"`
	F1 []*CB277
	F2 map[string]CA277 `json:"k2"`
	E  interface{}      `json:",omitempty"`
	EmbC
}

type CA278 struct {
	F0 []CB278          `json:"k0"`
	F1 map[string]CA278 `json:"k1"`
	F2 map[int]*CC278
}
type CB278 struct {
	F0 map[int]*CC278 `json:"x0,omitempty"`
	E  interface{}    `json:",omitempty"`
}
type CC278 map[string]*CC278

type CA279 struct {
	F0 map[string]CA279 `json:"x0,omitempty"`
	F1 *CB279           `json:",omitnil"`
	F2 []*CA279         `json:"x2,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB279 struct {
	F0 *CA279 `json:"k0"`
	F1 []CA279
}
type CC279 struct {
	F0 map[int]*CB279 `json:"x0,omitempty"`
	F1 []CC279        `json:"k1"`
	S  []string
}

type CA280 struct {
	F0 **CA280 `json:"k0"`
	N  int     `json:",string"`
}
type CB280 struct {
	F0 **CC280
	F1 **CB280
	EmbC
}
type CC280 struct {
	F0 *CB280         `json:"x0,omitempty"`
	F1 []*CC280       `json:",omitnil"`
	F2 []*CB280       `json:"x2,omitempty"`
	F3 map[int]*CB280 `json:",omitnil"`
	N  int            `json:",string"`
}

type CA281 []*CB281
type CB281 struct {
	F0 []CC281
	F1 map[string]CA281 `json:"x1,omitempty"`
	F2 []*CA281         `json:"x2,omitempty"`
	F3 *CC281           `json:",omitnil"`
}
type CC281 map[string]*CC281

type CA282 map[string]*CB282
type CB282 struct {
	F0 map[int]*CB282
	F1 []CA282 `json:",omitnil"`
	F2 *CB282  `json:"k2"`
	F3 []CA282 `json:"k3"`
	S  []string
}
type CC282 struct {
	F0 *CC282
	F1 map[int]*CB282 `json:"x1,omitempty"`
}

type CA283 struct {
	F0 []CC283     `json:",omitnil"`
	F1 *CB283      `json:"x1,omitempty"`
	F2 **CC283     `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}
type CB283 []CA283
type CC283 struct {
	F0 []*CA283 `json:",omitnil"`
	F1 *CB283
	F2 map[string]CC283 `json:"x2,omitempty"`
	F3 []CB283          `json:"x3,omitempty"`
	E  interface{}      `json:",omitempty"`
}

type CA284 struct {
	F0 **CA284          `json:",omitnil"`
	F1 map[string]CC284 `json:"k1"`
	F2 []CC284          `json:"x2,omitempty"`
	F3 []*CA284         `json:"k3"`
	N  int              `json:",string"`
	S  []string
}
type CB284 struct {
	F0 map[int]*CB284   `json:"x0,omitempty"`
	F1 map[string]CA284 `json:"k1"`
	F2 **CB284          `json:"x2,omitempty"`
	F3 []*CB284         `json:"x3,omitempty"`
	N  int              `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC284 struct {
	F0 []*CC284    `json:"x0,omitempty"`
	F1 []CA284     `json:",omitnil"`
	F2 **CC284     `json:",omitnil"`
	F3 *CC284      `json:"k3"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA285 struct {
	F0 map[string]CC285 `json:"x0,omitempty"`
	F1 map[string]CB285 `json:",omitnil"`
	F2 **CC285
	F3 **CC285
	S  []string
}
type CB285 []CC285
type CC285 struct {
	F0 []CA285  `json:"k0"`
	F1 []*CB285 `json:"k1"`
	F2 *CB285   `json:",omitnil"`
	F3 *CB285   `json:",omitnil"`
}

type CA286 struct {
	F0 map[string]CB286 `json:",omitnil"`
	F1 []*CA286         `json:"x1,omitempty"`
	F2 *CA286           `json:"k2"`
	N  int              `json:",string"`
	S  []string
}
type CB286 map[string]*CC286
type CC286 map[string]*CC286

type CA287 struct {
	F0 []CC287
	F1 []*CA287
	F2 []CB287 `json:"k2"`
	N  int     `json:",string"`
}
type CB287 map[string]*CA287
type CC287 struct {
	F0 *CC287 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA288 struct {
	F0 **CA288        `json:"x0,omitempty"`
	F1 map[int]*CC288 `json:"x1,omitempty"`
	F2 []*CC288       `json:",omitnil"`
	N  int            `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB288 map[string]*CB288
type CC288 struct {
	F0 []*CB288 `json:"x0,omitempty"`
	F1 map[int]*CB288
}

type CA289 []*CC289
type CB289 struct {
	F0 []*CB289
	N  int `json:",string"`
	S  []string
	EmbC
}
type CC289 []CA289

type CA290 map[string]*CC290
type CB290 struct {
	F0 map[string]CA290 `json:"x0,omitempty"`
	F1 **CB290
	F2 map[string]CB290 `json:",omitnil"`
}
type CC290 []CB290

type CA291 struct {
	F0 **CC291
	F1 **CB291
	F2 map[string]CC291 `json:"k2"`
	S  []string
}
type CB291 struct {
	F0 []CA291 `json:",omitnil"`
	F1 **CA291 `json:"x1,omitempty"`
	F2 **CB291
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC291 map[string]*CB291

type CA292 struct {
	F0 []CA292
}
type CB292 struct {
	F0 []CA292 `json:"x0,omitempty"`
	N  int     `json:",string"`
	S  []string
	EmbC
}
type CC292 struct {
	F0 []CC292 `json:"k0"`
	F1 map[int]*CB292
}

type CA293 struct {
	F0 *CB293      `json:"k0"`
	F1 []CC293     `json:"k1"`
	F2 []CC293     `json:",omitnil"`
	F3 **CA293     `json:"k3"`
	E  interface{} `json:",omitempty"`
}
type CB293 struct {
	F0 []*CA293 `json:"k0"`
	F1 *CA293   `json:"k1"`
	F2 *CA293   `json:"k2"`
	N  int      `json:",string"`
	S  []string
	EmbC
}
type CC293 struct {
	F0 []*CB293       `json:",omitnil"`
	F1 map[int]*CC293 `json:"x1,omitempty"`
	F2 map[int]*CA293 `json:"k2"`
	F3 *CC293         `json:",omitnil"`
}

type CA294 map[string]*CA294
type CB294 map[string]*CA294
type CC294 map[string]*CB294

type CA295 []*CB295
type CB295 struct {
	F0 *CA295           `json:"k0"`
	F1 map[string]CC295 `json:"k1"`
	F2 []*CC295         `json:",omitnil"`
	EmbC
}
type CC295 struct {
	F0 map[string]CB295
	F1 *CB295 `json:",omitnil"`
	F2 []CC295
	F3 **CB295 `json:"x3,omitempty"`
	N  int     `json:",string"`
	S  []string
}

type CA296 struct {
	F0 []*CB296 `json:",omitnil"`
	N  int      `json:",string"`
}
type CB296 struct {
	F0 map[string]CA296 `json:"x0,omitempty"`
	F1 *CC296
	F2 map[int]*CC296 `json:",omitnil"`
	E  interface{}    `json:",omitempty"`
}
type CC296 struct {
	F0 map[string]CB296
	F1 *CC296  `json:",omitnil"`
	F2 **CC296 `json:",omitnil"`
	N  int     `json:",string"`
}

type CA297 struct {
	F0 *CB297 `json:"k0"`
	F1 *CB297 `json:",omitnil"`
	F2 *CB297
	S  []string
}
type CB297 []CC297
type CC297 struct {
	F0 []*CC297 `json:",omitnil"`
	N  int      `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA298 struct {
	F0 []CA298  `json:",omitnil"`
	F1 []*CB298 `json:"k1"`
	F2 **CB298  `json:"k2"`
	F3 []*CC298 `json:"x3,omitempty"`
	N  int      `json:",string"`
}
type CB298 []CA298
type CC298 struct {
	F0 []CB298  `json:"k0"`
	F1 []*CB298 `json:"k1"`
	F2 []CA298
	E  interface{} `json:",omitempty"`
}

type CA299 struct {
	F0 **CA299
	F1 []*CB299    `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB299 struct {
	F0 *CC299      `json:"x0,omitempty"`
	F1 *CA299      `json:"x1,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC299 struct {
	F0 map[int]*CB299   `json:"x0,omitempty"`
	F1 map[string]CB299 `json:"k1"`
	N  int              `json:",string"`
	S  []string
}

type CA300 struct {
	F0 *CC300 `json:"x0,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB300 struct {
	F0 map[int]*CB300 `json:"x0,omitempty"`
	F1 []*CB300       `json:"k1"`
	F2 []CB300        `json:",omitnil"`
	F3 []*CA300       `json:"x3,omitempty"`
	N  int            `json:",string"`
	S  []string
}
type CC300 map[string]*CB300

type CA301 struct {
	F0 []*CB301 `json:"k0"`
	F1 []*CC301 `json:"x1,omitempty"`
	F2 []CA301  `json:",omitnil"`
	F3 map[string]CA301
	N  int `json:",string"`
}
type CB301 struct {
	F0 *CB301
	F1 []*CA301 `json:"k1"`
	F2 []CA301  `json:"x2,omitempty"`
	F3 []CB301  `json:"k3"`
	N  int      `json:",string"`
	S  []string
	EmbC
}
type CC301 struct {
	F0 *CA301 `json:",omitnil"`
	F1 **CC301
	N  int `json:",string"`
	S  []string
}

type CA302 []*CA302
type CB302 struct {
	F0 **CB302 `json:",omitnil"`
	F1 *CC302  `json:"k1"`
	F2 []CC302
	F3 []CC302 `json:"k3"`
	N  int     `json:",string"`
	S  []string
}
type CC302 []CB302

type CA303 struct {
	F0 *CA303
	F1 map[int]*CA303 `json:"k1"`
	F2 *CC303         `json:"k2"`
	EmbC
}
type CB303 []CB303
type CC303 []CC303

type CA304 struct {
	F0 map[int]*CA304
	F1 **CB304
}
type CB304 struct {
	F0 []*CC304
	F1 *CA304 `json:"x1,omitempty"`
	N  int    `json:",string"`
	S  []string
}
type CC304 []CB304

type CA305 struct {
	F0 []*CB305 `json:"x0,omitempty"`
	F1 **CB305
	S  []string
}
type CB305 struct {
	F0 map[string]CA305 `json:",omitnil"`
	F1 **CB305          `json:"x1,omitempty"`
	E  interface{}      `json:",omitempty"`
	EmbC
}
type CC305 struct {
	F0 map[int]*CA305
	E  interface{} `json:",omitempty"`
}

type CA306 struct {
	F0 []*CC306       `json:"k0"`
	F1 map[int]*CA306 `json:",omitnil"`
	N  int            `json:",string"`
}
type CB306 map[string]*CB306
type CC306 struct {
	F0 *CB306           `json:"x0,omitempty"`
	F1 []*CA306         `json:"k1"`
	F2 map[string]CC306 `json:",omitnil"`
	F3 **CA306          `json:"x3,omitempty"`
	N  int              `json:",string"`
}

type CA307 []*CA307
type CB307 struct {
	F0 *CC307           `json:",omitnil"`
	F1 map[string]CB307 `json:"x1,omitempty"`
}
type CC307 map[string]*CB307

type CA308 struct {
	F0 map[string]CB308 `json:"x0,omitempty"`
	F1 *CC308           `json:",omitnil"`
	F2 **CC308          `json:"k2"`
	E  interface{}      `json:",omitempty"`
}
type CB308 struct {
	F0 map[int]*CA308
	F1 []*CB308
	N  int `json:",string"`
	S  []string
	EmbC
}
type CC308 struct {
	F0 []*CA308
	F1 []CC308 `json:",omitnil"`
	F2 *CA308  `json:"x2,omitempty"`
	F3 map[int]*CB308
	N  int `json:",string"`
}

type CA309 struct {
	F0 []CB309  `json:"k0"`
	F1 []*CA309 `json:"k1"`
	F2 []CB309  `json:"k2"`
	EmbC
}
type CB309 struct {
	F0 **CC309     `json:"x0,omitempty"`
	F1 []*CC309    `json:"x1,omitempty"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC309 struct {
	F0 map[int]*CB309 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA310 struct {
	F0 *CC310
	EmbC
}
type CB310 struct {
	F0 []*CB310         `json:",omitnil"`
	F1 map[string]CC310 `json:"k1"`
}
type CC310 map[string]*CC310

type CA311 struct {
	F0 map[string]CA311 `json:"x0,omitempty"`
	N  int              `json:",string"`
	S  []string
}
type CB311 struct {
	F0 **CC311
	F1 map[int]*CB311 `json:"k1"`
}
type CC311 struct {
	F0 **CC311 `json:"k0"`
	F1 **CA311 `json:"k1"`
	F2 map[int]*CB311
	S  []string
	EmbC
}

type CA312 struct {
	F0 *CA312         `json:"x0,omitempty"`
	F1 map[int]*CB312 `json:",omitnil"`
	F2 map[int]*CC312 `json:",omitnil"`
	F3 []*CB312       `json:"k3"`
	EmbC
}
type CB312 struct {
	F0 []CB312          `json:",omitnil"`
	F1 map[string]CC312 `json:"k1"`
	F2 map[int]*CC312
	N  int `json:",string"`
	EmbC
}
type CC312 struct {
	F0 []CC312 `json:"k0"`
	F1 []*CC312
	F2 **CC312 `json:"x2,omitempty"`
	F3 map[string]CC312
	S  []string
}

type CA313 struct {
	F0 map[string]CB313 `json:"k0"`
	F1 map[string]CB313 `json:",omitnil"`
	F2 []CB313          `json:"x2,omitempty"`
	N  int              `json:",string"`
	S  []string
}
type CB313 []CA313
type CC313 struct {
	F0 map[int]*CC313 `json:",omitnil"`
	S  []string
}

type CA314 map[string]*CB314
type CB314 []CB314
type CC314 struct {
	F0 []CB314  `json:"x0,omitempty"`
	F1 *CA314   `json:"x1,omitempty"`
	F2 []*CB314 `json:"x2,omitempty"`
	N  int      `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA315 struct {
	F0 []*CC315 `json:",omitnil"`
	F1 *CB315
	N  int `json:",string"`
}
type CB315 struct {
	F0 []CB315
	F1 []CA315 `json:",omitnil"`
	F2 map[string]CB315
	F3 map[string]CB315
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC315 []CA315

type CA316 map[string]*CC316
type CB316 map[string]*CB316
type CC316 map[string]*CA316

type CA317 struct {
	F0 map[string]CC317 `json:"k0"`
	F1 []CA317          `json:"x1,omitempty"`
	F2 map[string]CB317
	F3 []*CB317
	N  int `json:",string"`
	S  []string
	EmbC
}
type CB317 struct {
	F0 []CA317
	N  int `json:",string"`
}
type CC317 struct {
	F0 *CC317
	F1 []*CA317
	F2 map[int]*CC317 `json:"k2"`
	S  []string
	EmbC
}

type CA318 struct {
	F0 map[string]CA318 `json:"x0,omitempty"`
	N  int              `json:",string"`
}
type CB318 struct {
	F0 **CB318 `json:"x0,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC318 struct {
	F0 []*CC318
	F1 *CA318 `json:"x1,omitempty"`
	N  int    `json:",string"`
	S  []string
	EmbC
}

type CA319 struct {
	F0 []*CC319
	F1 []CC319 `json:"x1,omitempty"`
	EmbC
}
type CB319 map[string]*CA319
type CC319 struct {
	F0 *CC319
	N  int `json:",string"`
}

type CA320 struct {
	F0 []*CA320
}
type CB320 struct {
	F0 []*CC320 `json:"k0"`
	F1 []CA320  `json:",omitnil"`
	F2 []*CB320
	F3 **CA320
	S  []string
}
type CC320 struct {
	F0 map[string]CA320 `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}

type CA321 struct {
	F0 map[string]CB321 `json:",omitnil"`
	F1 []CB321          `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
	EmbC
}
type CB321 struct {
	F0 map[string]CC321 `json:"k0"`
	F1 map[string]CC321 `json:",omitnil"`
	F2 []CB321          `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}
type CC321 []CA321

type CA322 struct {
	F0 *CB322         `json:"k0"`
	F1 map[int]*CC322 `json:"k1"`
	F2 map[int]*CA322 `json:",omitnil"`
	N  int            `json:",string"`
}
type CB322 []CB322
type CC322 struct {
	F0 *CC322
	F1 []*CC322 `json:"k1"`
	N  int      `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA323 struct {
	F0 []*CA323
	F1 *CB323   `json:"k1"`
	F2 []*CA323 `json:"x2,omitempty"`
	F3 *CB323
	S  []string
	EmbC
}
type CB323 struct {
	F0 map[string]CB323 `json:"k0"`
	N  int              `json:",string"`
	S  []string
}
type CC323 []CA323

type CA324 []*CC324
type CB324 struct {
	F0 *CC324  `json:",omitnil"`
	F1 []CB324 `json:"x1,omitempty"`
	F2 map[int]*CC324
	F3 **CC324     `json:"x3,omitempty"`
	E  interface{} `json:",omitempty"`
}
type CC324 struct {
	F0 map[string]CB324
	F1 map[string]CC324 `json:"x1,omitempty"`
	F2 []*CC324         `json:"x2,omitempty"`
	F3 map[int]*CC324   `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA325 struct {
	F0 **CC325        `json:"x0,omitempty"`
	F1 []CA325        `json:",omitnil"`
	F2 map[int]*CB325 `json:"k2"`
	N  int            `json:",string"`
	S  []string
	EmbC
}
type CB325 struct {
	F0 *CA325
	F1 map[int]*CA325 `json:",omitnil"`
	F2 *CC325         `json:"k2"`
	EmbC
}
type CC325 struct {
	F0 []CC325          `json:",omitnil"`
	F1 map[string]CA325 `json:"k1"`
	F2 map[int]*CA325   `json:"k2"`
	F3 []*CC325
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA326 []*CC326
type CB326 struct {
	F0 map[int]*CA326 `json:",omitnil"`
	F1 map[int]*CA326 `json:"x1,omitempty"`
	E  interface{}    `json:",omitempty"`
}
type CC326 struct {
	F0 map[string]CA326 `json:"k0"`
	F1 map[string]CB326
	E  interface{} `json:",omitempty"`
}

type CA327 struct {
	F0 *CA327   `json:",omitnil"`
	F1 *CC327   `json:"x1,omitempty"`
	F2 []*CA327 `json:"k2"`
	F3 **CB327  `json:"x3,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB327 struct {
	F0 map[string]CC327 `json:"x0,omitempty"`
	F1 *CA327           `json:",omitnil"`
	F2 map[string]CA327
	EmbC
}
type CC327 []CC327

type CA328 struct {
	F0 *CC328         `json:"x0,omitempty"`
	F1 map[int]*CB328 `json:",omitnil"`
}
type CB328 struct {
	F0 *CC328
	F1 map[int]*CA328 `json:"x1,omitempty"`
	S  []string
}
type CC328 map[string]*CC328

type CA329 struct {
	F0 *CB329  `json:"x0,omitempty"`
	F1 []CB329 `json:"x1,omitempty"`
}
type CB329 struct {
	F0 map[string]CA329 `json:",omitnil"`
	F1 map[int]*CC329   `json:"x1,omitempty"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
	EmbC
}
type CC329 struct {
	F0 []*CA329 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA330 struct {
	F0 []*CB330 `json:"k0"`
	F1 []CA330  `json:"x1,omitempty"`
	F2 []*CC330
	F3 map[int]*CB330
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB330 []CC330
type CC330 struct {
	F0 map[string]CC330 `json:"k0"`
	F1 *CB330           `json:"k1"`
	S  []string
}

type CA331 []*CC331
type CB331 map[string]*CC331
type CC331 map[string]*CC331

type CA332 struct {
	F0 **CB332
	F1 map[string]CC332 `json:",omitnil"`
	N  int              `json:",string"`
	EmbC
}
type CB332 struct {
	F0 map[string]CC332 `json:"k0"`
	E  interface{}      `json:",omitempty"`
}
type CC332 struct {
	F0 **CC332        `json:"k0"`
	F1 map[int]*CA332 `json:",omitnil"`
	F2 *CB332         `json:"x2,omitempty"`
	N  int            `json:",string"`
}

type CA333 map[string]*CA333
type CB333 map[string]*CA333
type CC333 struct {
	F0 **CC333 `json:",omitnil"`
	F1 *CA333  `json:"k1"`
}

type CA334 []*CB334
type CB334 struct {
	F0 *CC334
	F1 *CB334
	F2 map[string]CB334 `json:",omitnil"`
	E  interface{}      `json:",omitempty"`
}
type CC334 []CC334

type CA335 struct {
	F0 map[string]CB335 `json:"x0,omitempty"`
	F1 map[int]*CA335   `json:"x1,omitempty"`
	N  int              `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB335 struct {
	F0 []CB335 `json:"x0,omitempty"`
	F1 **CC335 `json:"k1"`
	F2 map[string]CA335
	F3 map[string]CB335 `json:",omitnil"`
	E  interface{}      `json:",omitempty"`
	EmbC
}
type CC335 struct {
	F0 []*CB335
	F1 *CA335 `json:"k1"`
}

type CA336 struct {
	F0 []CA336 `json:"x0,omitempty"`
	F1 []CC336 `json:"x1,omitempty"`
	F2 *CC336
}
type CB336 struct {
	F0 **CC336
	F1 map[int]*CC336
	F2 map[int]*CC336 `json:",omitnil"`
	F3 *CB336         `json:"x3,omitempty"`
}
type CC336 []CC336

type CA337 struct {
	F0 []*CA337 `json:"x0,omitempty"`
	F1 **CA337
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB337 []CC337
type CC337 struct {
	F0 []*CA337
	F1 map[int]*CB337
	F2 []CB337
	F3 []CA337 `json:"k3"`
	EmbC
}

type CA338 struct {
	F0 map[int]*CC338 `json:"k0"`
	F1 []*CA338       `json:"k1"`
	S  []string
}
type CB338 struct {
	F0 map[string]CB338
	F1 *CA338 `json:",omitnil"`
	S  []string
}
type CC338 struct {
	F0 map[int]*CB338 `json:"k0"`
	F1 **CC338        `json:"x1,omitempty"`
	F2 *CA338         `json:"x2,omitempty"`
	F3 map[int]*CC338
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA339 []*CA339
type CB339 struct {
	F0 []*CA339 `json:",omitnil"`
	F1 **CC339
	F2 []*CB339 `json:"k2"`
	F3 []CB339  `json:"x3,omitempty"`
	S  []string
}
type CC339 []CC339

type CA340 struct {
	F0 map[string]CA340
	F1 []*CC340         `json:"x1,omitempty"`
	F2 map[string]CC340 `json:"k2"`
	EmbC
}
type CB340 struct {
	F0 map[int]*CB340 `json:",omitnil"`
	F1 map[int]*CB340
	S  []string
}
type CC340 struct {
	F0 *CA340           `json:",omitnil"`
	F1 map[string]CC340 `json:",omitnil"`
	F2 []CA340
	F3 *CA340 `json:",omitnil"`
	N  int    `json:",string"`
	EmbC
}

type CA341 struct {
	F0 []CC341 `json:",omitnil"`
	F1 []CB341 `json:"x1,omitempty"`
	F2 []*CA341
	S  []string
}
type CB341 struct {
	F0 []*CC341 `json:"x0,omitempty"`
	F1 []*CC341 `json:"x1,omitempty"`
	F2 map[int]*CA341
	E  interface{} `json:",omitempty"`
}
type CC341 struct {
	F0 []*CC341
	F1 []*CB341
	F2 []*CB341       `json:",omitnil"`
	F3 map[int]*CA341 `json:"x3,omitempty"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
}

type CA342 struct {
	F0 []*CA342 `json:"x0,omitempty"`
	F1 []CA342
	F2 **CA342 `json:"x2,omitempty"`
	N  int     `json:",string"`
	S  []string
	EmbC
}
type CB342 struct {
	F0 []*CB342 `json:"x0,omitempty"`
	N  int      `json:",string"`
}
type CC342 []CA342

type CA343 struct {
	F0 []CC343 `json:"x0,omitempty"`
	N  int     `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB343 struct {
	F0 map[string]CA343 `json:",omitnil"`
	E  interface{}      `json:",omitempty"`
}
type CC343 struct {
	F0 **CA343     `json:"k0"`
	F1 []*CC343    `json:",omitnil"`
	F2 []CA343     `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}

type CA344 struct {
	F0 map[string]CA344 `json:"k0"`
}
type CB344 map[string]*CB344
type CC344 struct {
	F0 map[int]*CA344 `json:"x0,omitempty"`
	F1 []CB344        `json:",omitnil"`
	F2 **CA344        `json:",omitnil"`
	N  int            `json:",string"`
}

type CA345 []*CC345
type CB345 struct {
	F0 map[int]*CC345 `json:",omitnil"`
	F1 []*CC345       `json:"k1"`
	F2 *CA345         `json:"k2"`
	F3 []CB345        `json:",omitnil"`
	EmbC
}
type CC345 struct {
	F0 *CC345         `json:"x0,omitempty"`
	F1 map[int]*CB345 `json:",omitnil"`
}

type CA346 struct {
	F0 map[string]CB346 `json:"x0,omitempty"`
	F1 map[string]CC346 `json:",omitnil"`
}
type CB346 []CB346
type CC346 struct {
	F0 []CB346          `json:"k0"`
	F1 *CA346           `json:",omitnil"`
	F2 map[string]CB346 `json:"x2,omitempty"`
	F3 *CB346           `json:"k3"`
	S  []string
}

type CA347 struct {
	F0 **CA347
	F1 *CA347 `json:",omitnil"`
	F2 map[int]*CA347
	S  []string
}
type CB347 map[string]*CC347
type CC347 struct {
	F0 []*CA347
	F1 *CC347  `json:"x1,omitempty"`
	F2 **CB347 `json:"x2,omitempty"`
	N  int     `json:",string"`
	S  []string
}

type CA348 map[string]*CA348
type CB348 map[string]*CB348
type CC348 []CA348

type CA349 struct {
	F0 *CB349 `json:"x0,omitempty"`
	N  int    `json:",string"`
}
type CB349 struct {
	F0 []*CC349    `json:"k0"`
	E  interface{} `json:",omitempty"`
}
type CC349 struct {
	F0 map[string]CC349
	F1 []CC349
	F2 map[string]CC349 `json:",omitnil"`
	F3 **CB349
	N  int `json:",string"`
}

type CA350 struct {
	F0 []CC350          `json:"k0"`
	F1 map[string]CB350 `json:",omitnil"`
	F2 []CC350
	F3 []*CA350 `json:"x3,omitempty"`
	N  int      `json:",string"`
	S  []string
}
type CB350 struct {
	F0 map[string]CB350
	F1 []CA350
	F2 []*CB350 `json:"k2"`
}
type CC350 []CA350

type CA351 []*CC351
type CB351 []CC351
type CC351 []CC351

type CA352 struct {
	F0 **CC352 `json:",omitnil"`
	F1 *CB352
	S  []string
	EmbC
}
type CB352 struct {
	F0 []*CA352 `json:"k0"`
	S  []string
}
type CC352 map[string]*CB352

type CA353 struct {
	F0 map[int]*CC353 `json:"x0,omitempty"`
	F1 *CB353         `json:"x1,omitempty"`
}
type CB353 struct {
	F0 []*CA353 `json:"k0"`
	F1 *CB353   `json:"x1,omitempty"`
	N  int      `json:",string"`
}
type CC353 struct {
	F0 *CC353
	F1 *CC353         `json:"k1"`
	F2 *CC353         `json:",omitnil"`
	F3 map[int]*CB353 `json:",omitnil"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
}

type CA354 struct {
	F0 map[string]CC354 `json:",omitnil"`
	F1 []CC354          `json:",omitnil"`
	F2 map[int]*CC354
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB354 struct {
	F0 map[string]CB354 `json:"k0"`
	F1 **CB354          `json:"k1"`
	F2 []*CB354         `json:"x2,omitempty"`
	F3 map[string]CA354
	N  int `json:",string"`
	S  []string
}
type CC354 struct {
	F0 **CC354 `json:"k0"`
	F1 []CA354 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA355 struct {
	F0 map[string]CA355 `json:"k0"`
	F1 []CA355
	F2 []*CA355
	N  int `json:",string"`
}
type CB355 struct {
	F0 []CC355 `json:"x0,omitempty"`
	N  int     `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC355 []CA355

type CA356 map[string]*CA356
type CB356 []CA356
type CC356 struct {
	F0 *CA356 `json:"x0,omitempty"`
	F1 *CB356 `json:",omitnil"`
	N  int    `json:",string"`
}

type CA357 struct {
	F0 *CA357      `json:"x0,omitempty"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB357 map[string]*CC357
type CC357 struct {
	F0 []CA357
	E  interface{} `json:",omitempty"`
}

type CA358 struct {
	F0 []CB358
	S  []string
	EmbC
}
type CB358 struct {
	F0 []*CA358       `json:"k0"`
	F1 **CC358        `json:"k1"`
	F2 map[int]*CA358 `json:"x2,omitempty"`
}
type CC358 map[string]*CB358

type CA359 struct {
	F0 **CB359 `json:"x0,omitempty"`
	F1 []*CA359
}
type CB359 map[string]*CC359
type CC359 struct {
	F0 **CA359        `json:",omitnil"`
	F1 *CA359         `json:"x1,omitempty"`
	F2 map[int]*CB359 `json:"x2,omitempty"`
	F3 []*CC359       `json:"x3,omitempty"`
	S  []string
	EmbC
}

type CA360 []*CB360
type CB360 struct {
	F0 map[int]*CB360 `json:"k0"`
	F1 *CB360
	F2 *CC360 `json:",omitnil"`
	S  []string
}
type CC360 []CC360

type CA361 struct {
	F0 **CC361     `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}
type CB361 map[string]*CC361
type CC361 struct {
	F0 map[int]*CB361
	F1 *CB361
	N  int `json:",string"`
	S  []string
	EmbC
}

type CA362 struct {
	F0 []*CA362
	F1 []*CA362 `json:"x1,omitempty"`
	F2 **CA362  `json:"k2"`
	N  int      `json:",string"`
}
type CB362 []CC362
type CC362 map[string]*CA362

type CA363 []*CC363
type CB363 struct {
	F0 map[int]*CA363 `json:"x0,omitempty"`
	S  []string
}
type CC363 struct {
	F0 map[string]CC363 `json:"k0"`
	F1 map[string]CC363 `json:"k1"`
	F2 *CC363           `json:"k2"`
	F3 *CB363           `json:"x3,omitempty"`
	S  []string
}

type CA364 struct {
	F0 map[int]*CA364 `json:"x0,omitempty"`
	N  int            `json:",string"`
	S  []string
}
type CB364 struct {
	F0 **CA364
	F1 *CA364   `json:",omitnil"`
	F2 []*CA364 `json:"k2"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC364 struct {
	F0 []CA364
	F1 *CC364   `json:"k1"`
	F2 []*CC364 `json:"k2"`
	N  int      `json:",string"`
	EmbC
}

type CA365 struct {
	F0 map[int]*CB365
	F1 []CA365  `json:",omitnil"`
	F2 []CB365  `json:",omitnil"`
	F3 []*CB365 `json:"k3"`
	S  []string
	EmbC
}
type CB365 []CB365
type CC365 struct {
	F0 map[string]CB365 `json:"x0,omitempty"`
	F1 []*CB365         `json:"k1"`
	F2 []*CA365         `json:",omitnil"`
	N  int              `json:",string"`
}

type CA366 struct {
	F0 **CA366 `json:"x0,omitempty"`
	F1 []CC366 `json:"k1"`
	F2 **CA366
	N  int `json:",string"`
	EmbC
}
type CB366 struct {
	F0 *CC366  `json:",omitnil"`
	F1 []CC366 `json:"x1,omitempty"`
	F2 []CC366 `json:",omitnil"`
	S  []string
}
type CC366 struct {
	F0 map[string]CA366 `json:",omitnil"`
	F1 map[int]*CC366   `json:"k1"`
	F2 map[string]CA366 `json:",omitnil"`
	F3 **CA366          `json:"x3,omitempty"`
}

type CA367 []*CB367
type CB367 map[string]*CA367
type CC367 struct {
	F0 *CB367 `json:"k0"`
	F1 []*CB367
	F2 *CC367   `json:",omitnil"`
	F3 []*CC367 `json:"x3,omitempty"`
	EmbC
}

type CA368 struct {
	F0 []CB368          `json:",omitnil"`
	F1 map[string]CC368 `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}
type CB368 []CA368
type CC368 struct {
	F0 *CB368 `json:"k0"`
	F1 []CA368
}

type CA369 []*CB369
type CB369 map[string]*CA369
type CC369 struct {
	F0 *CA369   `json:"k0"`
	F1 []CC369  `json:",omitnil"`
	F2 []CB369  `json:"k2"`
	F3 []*CC369 `json:"x3,omitempty"`
	S  []string
}

type CA370 []*CB370
type CB370 []CA370
type CC370 struct {
	F0 map[int]*CA370
	F1 **CB370 `json:"x1,omitempty"`
}

type CA371 struct {
	F0 *CB371 `json:",omitnil"`
	F1 *CC371
	F2 **CC371     `json:"x2,omitempty"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB371 struct {
	F0 map[int]*CB371
	F1 *CC371
	F2 map[string]CB371 `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}
type CC371 struct {
	F0 map[string]CB371 `json:"k0"`
	F1 []CB371          `json:",omitnil"`
	F2 *CB371           `json:",omitnil"`
	F3 **CC371          `json:"x3,omitempty"`
	N  int              `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA372 struct {
	F0 **CC372 `json:",omitnil"`
}
type CB372 map[string]*CB372
type CC372 struct {
	F0 **CC372  `json:"x0,omitempty"`
	F1 []*CC372 `json:",omitnil"`
	F2 *CA372
	F3 map[int]*CB372
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA373 map[string]*CA373
type CB373 struct {
	F0 *CB373
	F1 map[int]*CC373
	F2 map[int]*CC373 `json:",omitnil"`
	F3 []*CA373       `json:"x3,omitempty"`
	E  interface{}    `json:",omitempty"`
}
type CC373 struct {
	F0 map[int]*CC373 `json:"k0"`
	F1 *CC373         `json:"x1,omitempty"`
	F2 **CA373        `json:",omitnil"`
}

type CA374 struct {
	F0 map[int]*CB374
	F1 map[string]CA374 `json:"k1"`
	F2 map[int]*CB374   `json:",omitnil"`
	N  int              `json:",string"`
}
type CB374 map[string]*CC374
type CC374 []CC374

type CA375 map[string]*CB375
type CB375 []CB375
type CC375 struct {
	F0 map[string]CA375 `json:"k0"`
	N  int              `json:",string"`
	S  []string
}

type CA376 map[string]*CA376
type CB376 map[string]*CB376
type CC376 map[string]*CB376

type CA377 struct {
	F0 **CB377 `json:"x0,omitempty"`
	F1 map[string]CC377
	F2 map[int]*CC377 `json:"k2"`
	S  []string
}
type CB377 []CA377
type CC377 struct {
	F0 map[int]*CA377 `json:"k0"`
	EmbC
}

type CA378 struct {
	F0 **CB378
	F1 map[string]CB378 `json:"k1"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB378 struct {
	F0 map[int]*CA378 `json:",omitnil"`
	F1 []CB378        `json:"x1,omitempty"`
}
type CC378 []CC378

type CA379 []*CA379
type CB379 []CB379
type CC379 struct {
	F0 []CA379 `json:"k0"`
	F1 []CB379 `json:"k1"`
	F2 **CC379
	F3 map[int]*CC379 `json:"x3,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA380 map[string]*CA380
type CB380 struct {
	F0 *CC380 `json:",omitnil"`
	N  int    `json:",string"`
}
type CC380 []CB380

type CA381 struct {
	F0 **CC381 `json:",omitnil"`
	N  int     `json:",string"`
	S  []string
}
type CB381 struct {
	F0 []CC381  `json:"k0"`
	F1 []*CB381 `json:"k1"`
	N  int      `json:",string"`
}
type CC381 []CB381

type CA382 struct {
	F0 **CB382  `json:",omitnil"`
	F1 **CA382  `json:"k1"`
	F2 []CA382  `json:",omitnil"`
	F3 []*CB382 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB382 struct {
	F0 **CB382
	EmbC
}
type CC382 struct {
	F0 []*CA382         `json:"k0"`
	F1 map[int]*CB382   `json:"k1"`
	F2 []*CB382         `json:"k2"`
	F3 map[string]CC382 `json:"x3,omitempty"`
	N  int              `json:",string"`
}

type CA383 struct {
	F0 map[int]*CB383 `json:"k0"`
	EmbC
}
type CB383 struct {
	F0 []*CA383 `json:",omitnil"`
}
type CC383 []CA383

type CA384 struct {
	F0 **CA384        `json:"k0"`
	F1 map[int]*CC384 `json:",omitnil"`
}
type CB384 map[string]*CC384
type CC384 map[string]*CA384

type CA385 []*CB385
type CB385 struct {
	F0 map[string]CC385 `json:"x0,omitempty"`
	F1 map[string]CB385
	F2 map[string]CA385
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC385 struct {
	F0 map[int]*CB385   `json:"k0"`
	F1 map[int]*CC385   `json:"x1,omitempty"`
	F2 map[string]CB385 `json:",omitnil"`
	F3 map[string]CB385 `json:"x3,omitempty"`
	E  interface{}      `json:",omitempty"`
}

type CA386 struct {
	F0 []CB386 `json:"k0"`
	F1 []CB386
	F2 []*CC386 `json:"k2"`
}
type CB386 struct {
	F0 []CA386
	F1 map[string]CC386 `json:",omitnil"`
	F2 []*CC386         `json:",omitnil"`
	S  []string
	EmbC
}
type CC386 struct {
	F0 []*CC386 `json:"k0"`
	EmbC
}

type CA387 struct {
	F0 map[string]CA387 `json:"k0"`
	F1 []*CA387
	F2 []*CA387 `json:"k2"`
	F3 []*CA387 `json:"k3"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB387 []CB387
type CC387 struct {
	F0 []*CC387 `json:"x0,omitempty"`
	F1 map[int]*CB387
	F2 map[string]CA387 `json:",omitnil"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
	EmbC
}

type CA388 struct {
	F0 **CA388 `json:"x0,omitempty"`
	F1 *CB388  `json:",omitnil"`
	F2 *CB388  `json:"x2,omitempty"`
	F3 **CA388 `json:"x3,omitempty"`
}
type CB388 []CC388
type CC388 struct {
	F0 []*CC388       `json:"k0"`
	F1 map[int]*CB388 `json:"k1"`
	F2 []*CC388       `json:",omitnil"`
	N  int            `json:",string"`
	EmbC
}

type CA389 struct {
	F0 **CB389          `json:"x0,omitempty"`
	F1 map[string]CA389 `json:"x1,omitempty"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
}
type CB389 struct {
	F0 map[int]*CA389   `json:",omitnil"`
	F1 map[string]CB389 `json:"k1"`
}
type CC389 struct {
	F0 map[int]*CC389 `json:"x0,omitempty"`
}

type CA390 map[string]*CC390
type CB390 struct {
	F0 **CB390        `json:",omitnil"`
	F1 map[int]*CB390 `json:",omitnil"`
	F2 []*CC390
	F3 **CA390 `json:"k3"`
}
type CC390 []CA390

type CA391 struct {
	F0 **CB391 `json:"k0"`
}
type CB391 struct {
	F0 map[int]*CC391
	S  []string
}
type CC391 struct {
	F0 []CA391 `json:"k0"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA392 []*CC392
type CB392 map[string]*CC392
type CC392 struct {
	F0 *CB392 `json:"x0,omitempty"`
	S  []string
	EmbC
}

type CA393 map[string]*CC393
type CB393 struct {
	F0 map[string]CB393
	F1 []*CB393 `json:",omitnil"`
	F2 *CA393
	F3 []CB393     `json:"x3,omitempty"`
	E  interface{} `json:",omitempty"`
}
type CC393 struct {
	F0 *CA393 `json:"k0"`
}

type CA394 []*CB394
type CB394 struct {
	F0 []*CB394 `json:"x0,omitempty"`
	N  int      `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC394 map[string]*CA394

type CA395 struct {
	F0 map[string]CC395 `json:"x0,omitempty"`
	F1 **CA395          `json:"k1"`
	E  interface{}      `json:",omitempty"`
}
type CB395 map[string]*CB395
type CC395 struct {
	F0 []*CA395    `json:",omitnil"`
	F1 *CC395      `json:"x1,omitempty"`
	F2 []*CA395    `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}

type CA396 struct {
	F0 map[int]*CC396
	E  interface{} `json:",omitempty"`
}
type CB396 map[string]*CA396
type CC396 []CB396

type CA397 []*CB397
type CB397 struct {
	F0 map[string]CB397 `json:"k0"`
	N  int              `json:",string"`
	EmbC
}
type CC397 struct {
	F0 []*CB397
	F1 *CC397      `json:",omitnil"`
	F2 **CA397     `json:"x2,omitempty"`
	E  interface{} `json:",omitempty"`
}

type CA398 struct {
	F0 map[string]CA398
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB398 struct {
	F0 *CB398   `json:"k0"`
	F1 []*CB398 `json:"x1,omitempty"`
	F2 **CC398
	F3 []CA398 `json:"k3"`
	N  int     `json:",string"`
}
type CC398 struct {
	F0 map[int]*CC398
	EmbC
}

type CA399 []*CC399
type CB399 []CC399
type CC399 struct {
	F0 []CB399
	F1 []CA399        `json:",omitnil"`
	F2 map[int]*CC399 `json:"k2"`
	S  []string
}

type CA400 struct {
	F0 []CC400 `json:"k0"`
}
type CB400 []CA400
type CC400 struct {
	F0 []CC400 `json:"x0,omitempty"`
	N  int     `json:",string"`
}

type CA401 map[string]*CC401
type CB401 struct {
	F0 []*CC401 `json:"x0,omitempty"`
	F1 map[string]CB401
	F2 []*CB401 `json:"k2"`
	F3 *CA401   `json:"k3"`
}
type CC401 struct {
	F0 []CB401          `json:"x0,omitempty"`
	F1 *CB401           `json:",omitnil"`
	F2 map[string]CC401 `json:"x2,omitempty"`
	EmbC
}

type CA402 map[string]*CC402
type CB402 struct {
	F0 []CB402
	F1 []*CA402       `json:",omitnil"`
	F2 map[int]*CA402 `json:",omitnil"`
	F3 *CA402         `json:",omitnil"`
	N  int            `json:",string"`
}
type CC402 []CA402

type CA403 struct {
	F0 []CA403 `json:",omitnil"`
	F1 []*CC403
	F2 map[string]CC403 `json:"k2"`
	N  int              `json:",string"`
}
type CB403 struct {
	F0 map[int]*CC403 `json:"k0"`
	F1 map[int]*CA403 `json:"x1,omitempty"`
	F2 **CC403
	N  int `json:",string"`
	EmbC
}
type CC403 struct {
	F0 **CC403 `json:",omitnil"`
	N  int     `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA404 map[string]*CA404
type CB404 map[string]*CB404
type CC404 struct {
	F0 []CA404 `json:",omitnil"`
	F1 *CA404  `json:"k1"`
	N  int     `json:",string"`
}

type CA405 []*CB405
type CB405 struct {
	F0 []CC405 `json:",omitnil"`
	N  int     `json:",string"`
}
type CC405 []CC405

type CA406 map[string]*CB406
type CB406 struct {
	F0 map[int]*CB406 `json:",omitnil"`
	F1 []*CC406       `json:",omitnil"`
	F2 *CB406
	F3 []*CA406 `json:"k3"`
}
type CC406 []CC406

type CA407 struct {
	F0 *CB407 `json:",omitnil"`
	N  int    `json:",string"`
	EmbC
}
type CB407 []CA407
type CC407 struct {
	F0 []*CA407 `json:"x0,omitempty"`
	F1 *CC407   `json:",omitnil"`
	N  int      `json:",string"`
}

type CA408 map[string]*CB408
type CB408 struct {
	F0 map[string]CC408 `json:",omitnil"`
	F1 map[int]*CC408   `json:"x1,omitempty"`
	S  []string
	EmbC
}
type CC408 map[string]*CB408

type CA409 struct {
	F0 []CB409 `json:"k0"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB409 []CB409
type CC409 map[string]*CA409

type CA410 struct {
	F0 map[int]*CC410 `json:"x0,omitempty"`
	F1 **CB410
	N  int `json:",string"`
	S  []string
}
type CB410 struct {
	F0 map[int]*CB410   `json:"x0,omitempty"`
	F1 map[string]CA410 `json:"k1"`
	F2 map[string]CC410 `json:"k2"`
	F3 []*CB410
	EmbC
}
type CC410 struct {
	F0 map[int]*CB410 `json:"k0"`
	F1 **CB410        `json:"k1"`
	S  []string
	EmbC
}

type CA411 struct {
	F0 map[int]*CB411 `json:"k0"`
	F1 *CA411
	F2 **CB411 `json:"k2"`
	F3 map[string]CC411
	N  int `json:",string"`
	EmbC
}
type CB411 map[string]*CA411
type CC411 []CC411

type CA412 struct {
	F0 **CB412        `json:",omitnil"`
	F1 map[int]*CA412 `json:"k1"`
	F2 **CC412
	F3 *CB412
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB412 struct {
	F0 *CC412
	S  []string
}
type CC412 struct {
	F0 map[int]*CB412
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA413 struct {
	F0 *CC413 `json:"x0,omitempty"`
	S  []string
}
type CB413 struct {
	F0 []*CB413 `json:",omitnil"`
	EmbC
}
type CC413 struct {
	F0 map[string]CA413 `json:"k0"`
	F1 []*CB413         `json:",omitnil"`
	F2 **CC413          `json:"x2,omitempty"`
	F3 map[int]*CC413   `json:"k3"`
	N  int              `json:",string"`
}

type CA414 struct {
	F0 map[string]CA414
	F1 **CA414  `json:"x1,omitempty"`
	F2 []*CB414 `json:"x2,omitempty"`
	F3 []CA414
	N  int `json:",string"`
}
type CB414 struct {
	F0 **CA414 `json:"k0"`
	N  int     `json:",string"`
	S  []string
}
type CC414 struct {
	F0 *CB414           `json:"x0,omitempty"`
	F1 map[string]CC414 `json:"k1"`
	F2 map[int]*CA414
}

type CA415 struct {
	F0 map[int]*CA415
	F1 []CA415        `json:"k1"`
	F2 map[int]*CB415 `json:"k2"`
	F3 map[string]CA415
}
type CB415 struct {
	F0 *CC415  `json:"x0,omitempty"`
	F1 **CC415 `json:",omitnil"`
	F2 **CA415 `json:"k2"`
	F3 *CB415
	S  []string
}
type CC415 struct {
	F0 **CB415 `json:"x0,omitempty"`
	F1 *CC415
	F2 map[int]*CC415 `json:"k2"`
	N  int            `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA416 struct {
	F0 **CA416 `json:"k0"`
	F1 **CA416
	N  int `json:",string"`
}
type CB416 struct {
	F0 map[string]CA416
	F1 **CA416  `json:"x1,omitempty"`
	F2 []*CA416 `json:",omitnil"`
	F3 **CC416
	S  []string
}
type CC416 struct {
	F0 []CC416
	F1 **CA416        `json:"k1"`
	F2 map[int]*CA416 `json:"k2"`
	F3 *CC416         `json:"x3,omitempty"`
	S  []string
	EmbC
}

type CA417 struct {
	F0 []*CB417 `json:"x0,omitempty"`
	N  int      `json:",string"`
	S  []string
}
type CB417 struct {
	F0 []CA417
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC417 struct {
	F0 map[int]*CC417 `json:"x0,omitempty"`
	N  int            `json:",string"`
	S  []string
}

type CA418 struct {
	F0 map[int]*CB418 `json:"k0"`
	N  int            `json:",string"`
}
type CB418 struct {
	F0 []*CA418         `json:"k0"`
	F1 []CB418          `json:"k1"`
	F2 map[string]CB418 `json:"k2"`
	F3 []CA418          `json:",omitnil"`
}
type CC418 struct {
	F0 map[string]CB418 `json:"x0,omitempty"`
	F1 map[string]CC418 `json:",omitnil"`
	F2 map[string]CA418 `json:"k2"`
	F3 *CC418           `json:"k3"`
}

type CA419 map[string]*CC419
type CB419 struct {
	F0 []CA419        `json:"k0"`
	F1 map[int]*CB419 `json:",omitnil"`
	F2 []CC419        `json:"k2"`
	F3 **CA419        `json:"k3"`
	N  int            `json:",string"`
	S  []string
}
type CC419 map[string]*CB419

type CA420 struct {
	F0 map[string]CC420
	S  []string
}
type CB420 struct {
	F0 **CC420          `json:"k0"`
	F1 []CA420          `json:",omitnil"`
	F2 map[string]CB420 `json:",omitnil"`
	F3 **CA420          `json:"k3"`
}
type CC420 []CC420

type CA421 map[string]*CC421
type CB421 struct {
	F0 **CB421 `json:"k0"`
}
type CC421 struct {
	F0 []CB421
	F1 **CB421 `json:",omitnil"`
	F2 **CC421 `json:"k2"`
	S  []string
}

type CA422 struct {
	F0 **CC422 `json:"x0,omitempty"`
	S  []string
}
type CB422 struct {
	F0 *CA422      `json:"x0,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC422 struct {
	F0 []CA422 `json:",omitnil"`
}

type CA423 struct {
	F0 []CB423 `json:"x0,omitempty"`
	F1 **CB423 `json:"x1,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB423 map[string]*CC423
type CC423 struct {
	F0 []CA423 `json:"x0,omitempty"`
	F1 []*CB423
	F2 **CC423 `json:"x2,omitempty"`
	F3 **CB423 `json:"k3"`
	N  int     `json:",string"`
	S  []string
}

type CA424 struct {
	F0 []CB424 `json:"k0"`
	F1 []CB424 `json:"x1,omitempty"`
	N  int     `json:",string"`
	EmbC
}
type CB424 struct {
	F0 map[string]CB424 `json:"k0"`
	F1 map[int]*CA424   `json:"x1,omitempty"`
	F2 *CA424           `json:",omitnil"`
	F3 map[string]CB424 `json:"k3"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
}
type CC424 struct {
	F0 map[int]*CA424 `json:"x0,omitempty"`
	F1 *CA424         `json:"x1,omitempty"`
	F2 map[int]*CC424 `json:",omitnil"`
	N  int            `json:",string"`
	S  []string
}

type CA425 []*CA425
type CB425 struct {
	F0 []CC425  `json:"x0,omitempty"`
	F1 []*CB425 `json:"k1"`
	N  int      `json:",string"`
}
type CC425 []CC425

type CA426 []*CB426
type CB426 struct {
	F0 []CA426        `json:"k0"`
	F1 map[int]*CC426 `json:"x1,omitempty"`
	F2 *CA426         `json:",omitnil"`
	F3 []CA426        `json:"x3,omitempty"`
	E  interface{}    `json:",omitempty"`
	EmbC
}
type CC426 struct {
	F0 map[int]*CC426   `json:"k0"`
	F1 map[string]CA426 `json:"x1,omitempty"`
	F2 map[string]CC426 `json:"x2,omitempty"`
	F3 map[string]CB426
	E  interface{} `json:",omitempty"`
}

type CA427 struct {
	F0 []CC427
	F1 []*CC427
	F2 []CB427 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB427 struct {
	F0 []CB427 `json:",omitnil"`
	F1 **CA427
	F2 **CC427          `json:"k2"`
	F3 map[string]CB427 `json:"x3,omitempty"`
	E  interface{}      `json:",omitempty"`
}
type CC427 struct {
	F0 map[int]*CC427
	F1 map[string]CC427
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA428 map[string]*CC428
type CB428 struct {
	F0 []*CC428         `json:",omitnil"`
	F1 map[string]CC428 `json:"k1"`
	F2 *CA428           `json:"k2"`
	F3 map[string]CC428 `json:",omitnil"`
	S  []string
}
type CC428 struct {
	F0 map[string]CC428
	F1 []*CB428 `json:"k1"`
	F2 []CC428
	EmbC
}

type CA429 struct {
	F0 map[string]CC429 `json:"x0,omitempty"`
	F1 map[int]*CA429   `json:"k1"`
	N  int              `json:",string"`
}
type CB429 map[string]*CC429
type CC429 []CB429

type CA430 struct {
	F0 **CB430          `json:"k0"`
	F1 map[string]CB430 `json:",omitnil"`
	F2 map[string]CB430 `json:",omitnil"`
	S  []string
}
type CB430 []CB430
type CC430 struct {
	F0 *CC430 `json:",omitnil"`
	S  []string
	EmbC
}

type CA431 struct {
	F0 []*CA431    `json:"x0,omitempty"`
	F1 **CB431     `json:"k1"`
	F2 *CB431      `json:"k2"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB431 struct {
	F0 map[string]CA431
	F1 map[string]CA431 `json:"x1,omitempty"`
	F2 map[int]*CB431   `json:",omitnil"`
	EmbC
}
type CC431 struct {
	F0 map[string]CA431
	F1 []*CB431 `json:",omitnil"`
	F2 map[string]CA431
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA432 struct {
	F0 []*CB432 `json:",omitnil"`
	F1 **CB432  `json:",omitnil"`
	F2 **CA432  `json:",omitnil"`
	F3 []CA432  `json:",omitnil"`
}
type CB432 struct {
	F0 *CC432
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CC432 []CC432

type CA433 struct {
	F0 map[int]*CB433 `json:"x0,omitempty"`
	F1 *CB433         `json:",omitnil"`
	N  int            `json:",string"`
	S  []string
	EmbC
}
type CB433 struct {
	F0 map[string]CB433 `json:"x0,omitempty"`
	F1 map[string]CB433
}
type CC433 map[string]*CC433

type CA434 struct {
	F0 []*CC434         `json:"k0"`
	F1 []CC434          `json:"k1"`
	F2 map[string]CC434 `json:",omitnil"`
}
type CB434 struct {
	F0 map[string]CB434 `json:"x0,omitempty"`
	F1 []*CA434
	F2 []*CA434         `json:"x2,omitempty"`
	F3 map[string]CB434 `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}
type CC434 struct {
	F0 *CC434  `json:"k0"`
	F1 **CC434 `json:",omitnil"`
	F2 *CA434  `json:"x2,omitempty"`
	F3 []CA434
	N  int `json:",string"`
	S  []string
}

type CA435 []*CA435
type CB435 struct {
	F0 map[string]CC435
	F1 map[int]*CB435
	F2 []*CB435 `json:"x2,omitempty"`
	F3 **CB435  `json:",omitnil"`
	S  []string
}
type CC435 struct {
	F0 *CB435         `json:",omitnil"`
	F1 map[int]*CB435 `json:"x1,omitempty"`
	F2 map[int]*CB435
	F3 []CA435 `json:",omitnil"`
	N  int     `json:",string"`
	S  []string
}

type CA436 []*CA436
type CB436 struct {
	F0 []*CB436 `json:"k0"`
	F1 []*CA436 `json:"x1,omitempty"`
	F2 *CC436   `json:"x2,omitempty"`
}
type CC436 struct {
	F0 map[string]CB436
}

type CA437 struct {
	F0 map[string]CA437 `json:",omitnil"`
	F1 map[int]*CC437
}
type CB437 struct {
	F0 map[string]CB437 `json:"k0"`
	F1 **CA437          `json:",omitnil"`
	N  int              `json:",string"`
	EmbC
}
type CC437 map[string]*CB437

type CA438 struct {
	F0 *CC438 `json:"x0,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB438 struct {
	F0 *CC438
	F1 []*CA438 `json:"x1,omitempty"`
	F2 *CC438   `json:",omitnil"`
	F3 **CC438  `json:"k3"`
	S  []string
}
type CC438 struct {
	F0 map[string]CA438 `json:",omitnil"`
	F1 map[string]CA438 `json:"k1"`
	F2 *CB438           `json:"x2,omitempty"`
	F3 map[string]CB438 `json:"x3,omitempty"`
	N  int              `json:",string"`
	S  []string
}

type CA439 []*CB439
type CB439 struct {
	F0 map[int]*CB439
	F1 *CA439 `json:"k1"`
	F2 map[string]CA439
	F3 []CC439
	N  int `json:",string"`
	S  []string
}
type CC439 struct {
	F0 []CB439 `json:",omitnil"`
	N  int     `json:",string"`
	EmbC
}

type CA440 []*CA440
type CB440 struct {
	F0 map[string]CB440 `json:"x0,omitempty"`
	N  int              `json:",string"`
	S  []string
}
type CC440 struct {
	F0 []*CC440    `json:"k0"`
	F1 *CB440      `json:",omitnil"`
	F2 []*CB440    `json:"x2,omitempty"`
	F3 []CB440     `json:"x3,omitempty"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}

type CA441 struct {
	F0 **CC441        `json:"k0"`
	F1 map[int]*CC441 `json:"x1,omitempty"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
}
type CB441 struct {
	F0 []CA441  `json:"k0"`
	F1 []*CA441 `json:"x1,omitempty"`
	S  []string
}
type CC441 []CA441

type CA442 struct {
	F0 []*CA442 `json:"k0"`
}
type CB442 struct {
	F0 []CA442
	F1 **CB442        `json:",omitnil"`
	F2 map[int]*CC442 `json:"x2,omitempty"`
}
type CC442 []CA442

type CA443 struct {
	F0 []*CA443 `json:",omitnil"`
	N  int      `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB443 struct {
	F0 map[string]CB443 `json:"x0,omitempty"`
	F1 []*CC443
	F2 map[string]CC443 `json:",omitnil"`
}
type CC443 struct {
	F0 []CB443
	F1 map[string]CC443 `json:"k1"`
	F2 map[int]*CC443   `json:"x2,omitempty"`
	EmbC
}

type CA444 []*CB444
type CB444 struct {
	F0 map[int]*CA444
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC444 struct {
	F0 []*CA444 `json:"x0,omitempty"`
	F1 []CC444  `json:"k1"`
	F2 map[string]CA444
	F3 []*CA444    `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}

type CA445 struct {
	F0 **CB445        `json:"x0,omitempty"`
	F1 map[int]*CC445 `json:"k1"`
	EmbC
}
type CB445 map[string]*CB445
type CC445 map[string]*CA445

type CA446 struct {
	F0 **CB446        `json:",omitnil"`
	F1 map[int]*CB446 `json:"k1"`
	F2 **CB446        `json:",omitnil"`
	F3 map[int]*CB446 `json:"x3,omitempty"`
	N  int            `json:",string"`
	S  []string
}
type CB446 []CB446
type CC446 []CA446

type CA447 struct {
	F0 map[string]CC447
	F1 []*CB447 `json:",omitnil"`
	F2 map[int]*CC447
}
type CB447 struct {
	F0 map[int]*CB447 `json:"k0"`
	F1 []*CC447       `json:",omitnil"`
	F2 **CB447        `json:"k2"`
	F3 map[int]*CC447 `json:"k3"`
	E  interface{}    `json:",omitempty"`
}
type CC447 struct {
	F0 *CC447         `json:"k0"`
	F1 map[int]*CC447 `json:"k1"`
	E  interface{}    `json:",omitempty"`
}

type CA448 struct {
	F0 map[string]CB448 `json:"k0"`
	F1 map[string]CA448 `json:"x1,omitempty"`
	F2 *CB448
	F3 map[string]CB448 `json:"k3"`
	S  []string
}
type CB448 struct {
	F0 map[string]CB448
	F1 map[string]CA448
	F2 **CC448        `json:"x2,omitempty"`
	F3 map[int]*CC448 `json:",omitnil"`
	N  int            `json:",string"`
	S  []string
}
type CC448 struct {
	F0 []CC448
	F1 map[int]*CA448 `json:"k1"`
}

type CA449 map[string]*CB449
type CB449 struct {
	F0 **CC449
	F1 **CC449          `json:"x1,omitempty"`
	F2 []*CC449         `json:"k2"`
	F3 map[string]CC449 `json:"x3,omitempty"`
	S  []string
}
type CC449 struct {
	F0 *CB449 `json:",omitnil"`
	N  int    `json:",string"`
	EmbC
}

type CA450 []*CB450
type CB450 struct {
	F0 **CB450 `json:"k0"`
	N  int     `json:",string"`
	S  []string
}
type CC450 []CC450

type CA451 struct {
	F0 map[string]CA451 `json:",omitnil"`
	F1 map[string]CB451 `json:"k1"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
	EmbC
}
type CB451 struct {
	F0 []CA451          `json:"x0,omitempty"`
	F1 map[string]CA451 `json:"x1,omitempty"`
	F2 *CA451
	F3 map[string]CC451 `json:",omitnil"`
	S  []string
}
type CC451 struct {
	F0 *CC451
	F1 []CB451 `json:",omitnil"`
	F2 []CC451 `json:"k2"`
	F3 *CB451  `json:"x3,omitempty"`
}

type CA452 struct {
	F0 map[string]CC452 `json:",omitnil"`
	F1 []*CB452
	F2 []*CC452         `json:"k2"`
	F3 map[string]CA452 `json:"k3"`
	N  int              `json:",string"`
}
type CB452 struct {
	F0 *CA452 `json:"x0,omitempty"`
	N  int    `json:",string"`
	S  []string
	EmbC
}
type CC452 struct {
	F0 map[string]CB452 `json:"k0"`
	F1 []*CA452
}

type CA453 struct {
	F0 []CB453 `json:"x0,omitempty"`
	F1 []*CA453
	S  []string
	EmbC
}
type CB453 map[string]*CC453
type CC453 []CC453

type CA454 struct {
	F0 map[int]*CA454 `json:"k0"`
	F1 *CA454         `json:"k1"`
	F2 []*CC454       `json:"k2"`
	EmbC
}
type CB454 struct {
	F0 map[string]CA454 `json:"x0,omitempty"`
	F1 map[int]*CC454   `json:"x1,omitempty"`
	F2 []CB454          `json:",omitnil"`
	F3 *CA454           `json:"x3,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC454 struct {
	F0 []CB454     `json:"x0,omitempty"`
	F1 []CA454     `json:"k1"`
	F2 []CA454     `json:"k2"`
	E  interface{} `json:",omitempty"`
}

type CA455 struct {
	F0 map[string]CA455 `json:",omitnil"`
	F1 []*CC455         `json:"x1,omitempty"`
	F2 *CC455           `json:",omitnil"`
	N  int              `json:",string"`
	S  []string
}
type CB455 []CC455
type CC455 []CA455

type CA456 map[string]*CC456
type CB456 map[string]*CC456
type CC456 struct {
	F0 *CB456 `json:",omitnil"`
	F1 **CC456
	S  []string
}

type CA457 struct {
	F0 map[string]CB457 `json:"k0"`
	F1 []*CB457         `json:"k1"`
	N  int              `json:",string"`
}
type CB457 struct {
	F0 map[int]*CC457   `json:",omitnil"`
	F1 map[string]CC457 `json:"x1,omitempty"`
	F2 map[int]*CC457
	F3 *CB457 `json:"k3"`
	N  int    `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC457 struct {
	F0 **CB457 `json:",omitnil"`
	F1 *CB457  `json:"x1,omitempty"`
	N  int     `json:",string"`
}

type CA458 struct {
	F0 map[int]*CB458 `json:"x0,omitempty"`
	F1 []*CA458       `json:"x1,omitempty"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
}
type CB458 struct {
	F0 *CA458         `json:"k0"`
	F1 map[int]*CC458 `json:"x1,omitempty"`
	E  interface{}    `json:",omitempty"`
}
type CC458 struct {
	F0 []CB458 `json:",omitnil"`
	F1 **CA458 `json:"x1,omitempty"`
	F2 []CA458 `json:"x2,omitempty"`
	F3 map[int]*CA458
	N  int `json:",string"`
	EmbC
}

type CA459 struct {
	F0 map[int]*CB459 `json:"x0,omitempty"`
	F1 **CB459        `json:",omitnil"`
	N  int            `json:",string"`
	S  []string
	EmbC
}
type CB459 struct {
	F0 []CC459          `json:"x0,omitempty"`
	F1 *CC459           `json:"k1"`
	F2 **CA459          `json:"x2,omitempty"`
	F3 map[string]CC459 `json:",omitnil"`
	S  []string
}
type CC459 struct {
	F0 map[int]*CC459 `json:"x0,omitempty"`
	F1 []*CA459
	F2 []*CA459
}

type CA460 struct {
	F0 *CA460
	EmbC
}
type CB460 struct {
	F0 map[string]CB460 `json:"x0,omitempty"`
	F1 *CA460           `json:"x1,omitempty"`
	EmbC
}
type CC460 struct {
	F0 []*CB460 `json:"k0"`
	F1 []CB460
	S  []string
}

type CA461 struct {
	F0 map[int]*CA461 `json:"x0,omitempty"`
	F1 []*CC461       `json:"x1,omitempty"`
	F2 []*CC461
	E  interface{} `json:",omitempty"`
}
type CB461 struct {
	F0 map[string]CB461 `json:"k0"`
	F1 []*CC461         `json:",omitnil"`
	S  []string
}
type CC461 map[string]*CB461

type CA462 map[string]*CC462
type CB462 struct {
	F0 *CC462
	F1 **CC462  `json:"x1,omitempty"`
	F2 []*CB462 `json:",omitnil"`
	S  []string
	EmbC
}
type CC462 map[string]*CB462

type CA463 struct {
	F0 **CB463     `json:",omitnil"`
	F1 []CC463     `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
}
type CB463 struct {
	F0 []CC463     `json:",omitnil"`
	E  interface{} `json:",omitempty"`
}
type CC463 struct {
	F0 *CC463
	F1 map[string]CA463
	EmbC
}

type CA464 map[string]*CA464
type CB464 struct {
	F0 []CB464          `json:",omitnil"`
	F1 map[string]CC464 `json:"x1,omitempty"`
	F2 **CB464          `json:",omitnil"`
	N  int              `json:",string"`
}
type CC464 map[string]*CB464

type CA465 []*CA465
type CB465 struct {
	F0 map[string]CC465 `json:",omitnil"`
}
type CC465 struct {
	F0 map[int]*CA465 `json:"k0"`
	F1 map[int]*CC465 `json:"k1"`
	F2 []CB465
	S  []string
}

type CA466 map[string]*CB466
type CB466 struct {
	F0 *CC466 `json:"x0,omitempty"`
}
type CC466 map[string]*CC466

type CA467 map[string]*CC467
type CB467 struct {
	F0 []*CA467    `json:"x0,omitempty"`
	E  interface{} `json:",omitempty"`
}
type CC467 []CB467

type CA468 struct {
	F0 map[string]CA468 `json:"x0,omitempty"`
	F1 map[string]CB468
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB468 struct {
	F0 []CB468
}
type CC468 struct {
	F0 map[int]*CB468 `json:",omitnil"`
	F1 **CA468        `json:"x1,omitempty"`
}

type CA469 map[string]*CC469
type CB469 []CA469
type CC469 struct {
	F0 **CB469 `json:"x0,omitempty"`
	N  int     `json:",string"`
}

type CA470 struct {
	F0 []*CB470         `json:",omitnil"`
	F1 map[string]CC470 `json:",omitnil"`
	F2 []CC470
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CB470 []CB470
type CC470 []CC470

type CA471 struct {
	F0 *CA471
	S  []string
}
type CB471 struct {
	F0 map[string]CA471 `json:"x0,omitempty"`
	N  int              `json:",string"`
	E  interface{}      `json:",omitempty"`
}
type CC471 map[string]*CA471

type CA472 struct {
	F0 map[string]CA472 `json:"k0"`
	F1 map[string]CC472 `json:"k1"`
	F2 map[string]CC472
	S  []string
}
type CB472 struct {
	F0 *CB472           `json:",omitnil"`
	F1 map[string]CB472 `json:"k1"`
	F2 []*CB472         `json:"x2,omitempty"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC472 map[string]*CC472

type CA473 []*CC473
type CB473 struct {
	F0 map[int]*CB473 `json:"x0,omitempty"`
	F1 []CC473
	F2 map[int]*CC473 `json:"k2"`
	N  int            `json:",string"`
	EmbC
}
type CC473 struct {
	F0 []CB473     `json:"k0"`
	F1 *CB473      `json:",omitnil"`
	F2 []CC473     `json:",omitnil"`
	F3 []CC473     `json:",omitnil"`
	N  int         `json:",string"`
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA474 []*CC474
type CB474 map[string]*CA474
type CC474 struct {
	F0 map[string]CC474 `json:"x0,omitempty"`
	S  []string
	EmbC
}

type CA475 map[string]*CB475
type CB475 struct {
	F0 []CA475 `json:",omitnil"`
	F1 map[string]CA475
	F2 map[int]*CB475
	N  int `json:",string"`
}
type CC475 []CB475

type CA476 struct {
	F0 []CA476          `json:",omitnil"`
	F1 map[string]CA476 `json:",omitnil"`
	S  []string
}
type CB476 map[string]*CB476
type CC476 map[string]*CA476

type CA477 struct {
	F0 map[int]*CB477 `json:"x0,omitempty"`
	F1 []*CA477
	F2 **CC477
	F3 []CA477 `json:"k3"`
	S  []string
}
type CB477 struct {
	F0 *CC477
	N  int `json:",string"`
	S  []string
}
type CC477 struct {
	F0 map[int]*CA477 `json:"x0,omitempty"`
	F1 *CC477         `json:"k1"`
	F2 []*CB477       `json:",omitnil"`
	F3 []CC477
}

type CA478 struct {
	F0 map[int]*CB478
	F1 map[int]*CA478 `json:"k1"`
	F2 []CA478        `json:"x2,omitempty"`
	N  int            `json:",string"`
	S  []string
}
type CB478 struct {
	F0 map[string]CB478
	N  int `json:",string"`
}
type CC478 struct {
	F0 []*CA478
	F1 **CC478          `json:",omitnil"`
	F2 map[string]CB478 `json:"x2,omitempty"`
	F3 map[int]*CC478   `json:",omitnil"`
	S  []string
}

type CA479 struct {
	F0 []*CA479 `json:"k0"`
	S  []string
}
type CB479 struct {
	F0 map[int]*CA479 `json:"k0"`
	F1 *CA479         `json:"x1,omitempty"`
	F2 *CC479
	F3 []*CB479
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC479 struct {
	F0 **CC479
	F1 map[string]CC479 `json:"k1"`
	F2 *CA479           `json:"x2,omitempty"`
	EmbC
}

type CA480 struct {
	F0 []CA480 `json:"x0,omitempty"`
	F1 []CA480 `json:"x1,omitempty"`
	F2 []CC480 `json:"x2,omitempty"`
	S  []string
	EmbC
}
type CB480 struct {
	F0 []CB480        `json:",omitnil"`
	F1 map[int]*CB480 `json:"x1,omitempty"`
	N  int            `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}
type CC480 struct {
	F0 *CB480         `json:"k0"`
	F1 []CC480        `json:",omitnil"`
	F2 map[int]*CC480 `json:"k2"`
	EmbC
}

type CA481 struct {
	F0 map[int]*CB481 `json:"k0"`
	F1 *CC481         `json:"x1,omitempty"`
	N  int            `json:",string"`
}
type CB481 struct {
	F0 map[int]*CB481   `json:"x0,omitempty"`
	F1 map[string]CA481 `json:"x1,omitempty"`
	F2 **CB481          `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
}
type CC481 struct {
	F0 []CA481 `json:"k0"`
	F1 []CA481 `json:"x1,omitempty"`
	F2 []CA481
	F3 []*CB481 `json:",omitnil"`
}

type CA482 struct {
	F0 []CC482
	F1 map[int]*CA482 `json:"x1,omitempty"`
	F2 []*CC482       `json:"x2,omitempty"`
	S  []string
	EmbC
}
type CB482 map[string]*CC482
type CC482 struct {
	F0 **CB482        `json:"k0"`
	F1 map[int]*CA482 `json:"k1"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA483 map[string]*CC483
type CB483 struct {
	F0 **CC483 `json:"x0,omitempty"`
	F1 []CC483 `json:",omitnil"`
}
type CC483 struct {
	F0 map[int]*CC483   `json:"k0"`
	F1 map[string]CB483 `json:"x1,omitempty"`
	F2 map[int]*CB483   `json:"k2"`
	F3 map[string]CA483 `json:",omitnil"`
	S  []string
	E  interface{} `json:",omitempty"`
	EmbC
}

type CA484 struct {
	F0 map[string]CA484
	F1 map[int]*CC484 `json:"k1"`
	F2 []*CA484       `json:"k2"`
}
type CB484 struct {
	F0 map[int]*CC484 `json:"x0,omitempty"`
	F1 map[string]CB484
	F2 map[int]*CC484 `json:"x2,omitempty"`
	F3 map[string]CB484
	N  int `json:",string"`
	S  []string
}
type CC484 struct {
	F0 map[int]*CA484 `json:",omitnil"`
	F1 *CC484         `json:"x1,omitempty"`
}

type CA485 struct {
	F0 map[string]CA485 `json:",omitnil"`
	F1 *CB485           `json:",omitnil"`
	F2 **CA485
	E  interface{} `json:",omitempty"`
}
type CB485 struct {
	F0 map[string]CC485 `json:"k0"`
	F1 **CB485          `json:"k1"`
	F2 []*CC485         `json:"x2,omitempty"`
	E  interface{}      `json:",omitempty"`
}
type CC485 map[string]*CA485

type CA486 struct {
	F0 []CB486 `json:",omitnil"`
	F1 *CB486  `json:"x1,omitempty"`
	F2 *CC486  `json:",omitnil"`
	N  int     `json:",string"`
}
type CB486 struct {
	F0 []CB486  `json:"k0"`
	F1 []*CB486 `json:"x1,omitempty"`
	F2 map[string]CB486
	N  int `json:",string"`
	S  []string
}
type CC486 struct {
	F0 map[int]*CA486 `json:"x0,omitempty"`
	N  int            `json:",string"`
}

type CA487 map[string]*CC487
type CB487 struct {
	F0 map[string]CC487 `json:"x0,omitempty"`
	N  int              `json:",string"`
	S  []string
}
type CC487 []CC487

type CA488 map[string]*CC488
type CB488 struct {
	F0 []CC488        `json:"k0"`
	F1 []*CA488       `json:",omitnil"`
	F2 *CA488         `json:"k2"`
	F3 map[int]*CC488 `json:",omitnil"`
	S  []string
	EmbC
}
type CC488 struct {
	F0 []CC488        `json:",omitnil"`
	F1 map[int]*CC488 `json:"x1,omitempty"`
	S  []string
}

type CA489 []*CB489
type CB489 struct {
	F0 *CC489   `json:",omitnil"`
	F1 []*CA489 `json:"x1,omitempty"`
	N  int      `json:",string"`
	EmbC
}
type CC489 struct {
	F0 []*CB489 `json:"x0,omitempty"`
	N  int      `json:",string"`
	S  []string
}

type CA490 struct {
	F0 []*CA490 `json:",omitnil"`
	F1 []CA490  `json:"x1,omitempty"`
	F2 []*CA490
	S  []string
	E  interface{} `json:",omitempty"`
}
type CB490 struct {
	F0 map[int]*CA490 `json:",omitnil"`
	F1 map[int]*CB490 `json:",omitnil"`
	N  int            `json:",string"`
	S  []string
	EmbC
}
type CC490 struct {
	F0 map[int]*CA490 `json:"k0"`
}

type CA491 struct {
	F0 map[int]*CC491 `json:"x0,omitempty"`
	F1 map[int]*CB491 `json:",omitnil"`
	F2 map[int]*CA491 `json:"k2"`
	F3 []*CB491       `json:",omitnil"`
	S  []string
}
type CB491 struct {
	F0 []*CA491 `json:"k0"`
	F1 **CB491
	F2 []CA491        `json:"x2,omitempty"`
	F3 map[int]*CB491 `json:",omitnil"`
	N  int            `json:",string"`
	E  interface{}    `json:",omitempty"`
}
type CC491 map[string]*CC491

type CA492 map[string]*CA492
type CB492 map[string]*CC492
type CC492 struct {
	F0 *CB492 `json:",omitnil"`
}

type CA493 struct {
	F0 []*CB493       `json:",omitnil"`
	F1 map[int]*CA493 `json:"x1,omitempty"`
	N  int            `json:",string"`
	EmbC
}
type CB493 struct {
	F0 *CC493
	N  int `json:",string"`
}
type CC493 struct {
	F0 map[string]CB493 `json:"k0"`
	F1 *CA493           `json:"k1"`
	F2 []*CC493         `json:",omitnil"`
	EmbC
}

type CA494 struct {
	F0 []CB494 `json:"k0"`
	S  []string
}
type CB494 struct {
	F0 map[int]*CB494 `json:",omitnil"`
	F1 **CB494        `json:"x1,omitempty"`
	F2 **CC494        `json:",omitnil"`
}
type CC494 struct {
	F0 []CC494
	N  int `json:",string"`
	S  []string
	E  interface{} `json:",omitempty"`
}

type CA495 struct {
	F0 []*CA495 `json:",omitnil"`
	F1 []*CB495
	N  int `json:",string"`
	S  []string
	EmbC
}
type CB495 map[string]*CA495
type CC495 struct {
	F0 map[string]CA495
	F1 []CC495          `json:",omitnil"`
	F2 map[string]CA495 `json:",omitnil"`
	F3 []CB495          `json:",omitnil"`
	S  []string
}

type CA496 struct {
	F0 []CB496
	F1 map[int]*CB496 `json:",omitnil"`
	F2 *CB496         `json:"x2,omitempty"`
}
type CB496 map[string]*CA496
type CC496 map[string]*CC496

type CA497 struct {
	F0 map[string]CC497 `json:"k0"`
	F1 **CC497          `json:",omitnil"`
	S  []string
	EmbC
}
type CB497 map[string]*CC497
type CC497 struct {
	F0 []CC497  `json:"k0"`
	F1 []*CB497 `json:"x1,omitempty"`
	N  int      `json:",string"`
	S  []string
}

type CA498 []*CB498
type CB498 []CC498
type CC498 map[string]*CA498

type CA499 struct {
	F0 []CB499 `json:",omitnil"`
	F1 *CC499  `json:",omitnil"`
	N  int     `json:",string"`
	S  []string
}
type CB499 struct {
	F0 **CA499     `json:"k0"`
	E  interface{} `json:",omitempty"`
}
type CC499 struct {
	F0 map[int]*CC499 `json:"k0"`
	F1 []CC499        `json:"k1"`
	F2 map[int]*CB499
	F3 *CC499 `json:"x3,omitempty"`
	EmbC
}

type EmbC struct {
	P *int `json:",omitempty"`
	Q bool
}

var concTypes = [][]reflect.Type{
	types((*CA0)(nil), (*CB0)(nil), (*CC0)(nil)),
	types((*CA1)(nil), (*CB1)(nil), (*CC1)(nil)),
	types((*CA2)(nil), (*CB2)(nil), (*CC2)(nil)),
	types((*CA3)(nil), (*CB3)(nil), (*CC3)(nil)),
	types((*CA4)(nil), (*CB4)(nil), (*CC4)(nil)),
	types((*CA5)(nil), (*CB5)(nil), (*CC5)(nil)),
	types((*CA6)(nil), (*CB6)(nil), (*CC6)(nil)),
	types((*CA7)(nil), (*CB7)(nil), (*CC7)(nil)),
	types((*CA8)(nil), (*CB8)(nil), (*CC8)(nil)),
	types((*CA9)(nil), (*CB9)(nil), (*CC9)(nil)),
	types((*CA10)(nil), (*CB10)(nil), (*CC10)(nil)),
	types((*CA11)(nil), (*CB11)(nil), (*CC11)(nil)),
	types((*CA12)(nil), (*CB12)(nil), (*CC12)(nil)),
	types((*CA13)(nil), (*CB13)(nil), (*CC13)(nil)),
	types((*CA14)(nil), (*CB14)(nil), (*CC14)(nil)),
	types((*CA15)(nil), (*CB15)(nil), (*CC15)(nil)),
	types((*CA16)(nil), (*CB16)(nil), (*CC16)(nil)),
	types((*CA17)(nil), (*CB17)(nil), (*CC17)(nil)),
	types((*CA18)(nil), (*CB18)(nil), (*CC18)(nil)),
	types((*CA19)(nil), (*CB19)(nil), (*CC19)(nil)),
	types((*CA20)(nil), (*CB20)(nil), (*CC20)(nil)),
	types((*CA21)(nil), (*CB21)(nil), (*CC21)(nil)),
	types((*CA22)(nil), (*CB22)(nil), (*CC22)(nil)),
	types((*CA23)(nil), (*CB23)(nil), (*CC23)(nil)),
	types((*CA24)(nil), (*CB24)(nil), (*CC24)(nil)),
	types((*CA25)(nil), (*CB25)(nil), (*CC25)(nil)),
	types((*CA26)(nil), (*CB26)(nil), (*CC26)(nil)),
	types((*CA27)(nil), (*CB27)(nil), (*CC27)(nil)),
	types((*CA28)(nil), (*CB28)(nil), (*CC28)(nil)),
	types((*CA29)(nil), (*CB29)(nil), (*CC29)(nil)),
	types((*CA30)(nil), (*CB30)(nil), (*CC30)(nil)),
	types((*CA31)(nil), (*CB31)(nil), (*CC31)(nil)),
	types((*CA32)(nil), (*CB32)(nil), (*CC32)(nil)),
	types((*CA33)(nil), (*CB33)(nil), (*CC33)(nil)),
	types((*CA34)(nil), (*CB34)(nil), (*CC34)(nil)),
	types((*CA35)(nil), (*CB35)(nil), (*CC35)(nil)),
	types((*CA36)(nil), (*CB36)(nil), (*CC36)(nil)),
	types((*CA37)(nil), (*CB37)(nil), (*CC37)(nil)),
	types((*CA38)(nil), (*CB38)(nil), (*CC38)(nil)),
	types((*CA39)(nil), (*CB39)(nil), (*CC39)(nil)),
	types((*CA40)(nil), (*CB40)(nil), (*CC40)(nil)),
	types((*CA41)(nil), (*CB41)(nil), (*CC41)(nil)),
	types((*CA42)(nil), (*CB42)(nil), (*CC42)(nil)),
	types((*CA43)(nil), (*CB43)(nil), (*CC43)(nil)),
	types((*CA44)(nil), (*CB44)(nil), (*CC44)(nil)),
	types((*CA45)(nil), (*CB45)(nil), (*CC45)(nil)),
	types((*CA46)(nil), (*CB46)(nil), (*CC46)(nil)),
	types((*CA47)(nil), (*CB47)(nil), (*CC47)(nil)),
	types((*CA48)(nil), (*CB48)(nil), (*CC48)(nil)),
	types((*CA49)(nil), (*CB49)(nil), (*CC49)(nil)),
	types((*CA50)(nil), (*CB50)(nil), (*CC50)(nil)),
	types((*CA51)(nil), (*CB51)(nil), (*CC51)(nil)),
	types((*CA52)(nil), (*CB52)(nil), (*CC52)(nil)),
	types((*CA53)(nil), (*CB53)(nil), (*CC53)(nil)),
	types((*CA54)(nil), (*CB54)(nil), (*CC54)(nil)),
	types((*CA55)(nil), (*CB55)(nil), (*CC55)(nil)),
	types((*CA56)(nil), (*CB56)(nil), (*CC56)(nil)),
	types((*CA57)(nil), (*CB57)(nil), (*CC57)(nil)),
	types((*CA58)(nil), (*CB58)(nil), (*CC58)(nil)),
	types((*CA59)(nil), (*CB59)(nil), (*CC59)(nil)),
	types((*CA60)(nil), (*CB60)(nil), (*CC60)(nil)),
	types((*CA61)(nil), (*CB61)(nil), (*CC61)(nil)),
	types((*CA62)(nil), (*CB62)(nil), (*CC62)(nil)),
	types((*CA63)(nil), (*CB63)(nil), (*CC63)(nil)),
	types((*CA64)(nil), (*CB64)(nil), (*CC64)(nil)),
	types((*CA65)(nil), (*CB65)(nil), (*CC65)(nil)),
	types((*CA66)(nil), (*CB66)(nil), (*CC66)(nil)),
	types((*CA67)(nil), (*CB67)(nil), (*CC67)(nil)),
	types((*CA68)(nil), (*CB68)(nil), (*CC68)(nil)),
	types((*CA69)(nil), (*CB69)(nil), (*CC69)(nil)),
	types((*CA70)(nil), (*CB70)(nil), (*CC70)(nil)),
	types((*CA71)(nil), (*CB71)(nil), (*CC71)(nil)),
	types((*CA72)(nil), (*CB72)(nil), (*CC72)(nil)),
	types((*CA73)(nil), (*CB73)(nil), (*CC73)(nil)),
	types((*CA74)(nil), (*CB74)(nil), (*CC74)(nil)),
	types((*CA75)(nil), (*CB75)(nil), (*CC75)(nil)),
	types((*CA76)(nil), (*CB76)(nil), (*CC76)(nil)),
	types((*CA77)(nil), (*CB77)(nil), (*CC77)(nil)),
	types((*CA78)(nil), (*CB78)(nil), (*CC78)(nil)),
	types((*CA79)(nil), (*CB79)(nil), (*CC79)(nil)),
	types((*CA80)(nil), (*CB80)(nil), (*CC80)(nil)),
	types((*CA81)(nil), (*CB81)(nil), (*CC81)(nil)),
	types((*CA82)(nil), (*CB82)(nil), (*CC82)(nil)),
	types((*CA83)(nil), (*CB83)(nil), (*CC83)(nil)),
	types((*CA84)(nil), (*CB84)(nil), (*CC84)(nil)),
	types((*CA85)(nil), (*CB85)(nil), (*CC85)(nil)),
	types((*CA86)(nil), (*CB86)(nil), (*CC86)(nil)),
	types((*CA87)(nil), (*CB87)(nil), (*CC87)(nil)),
	types((*CA88)(nil), (*CB88)(nil), (*CC88)(nil)),
	types((*CA89)(nil), (*CB89)(nil), (*CC89)(nil)),
	types((*CA90)(nil), (*CB90)(nil), (*CC90)(nil)),
	types((*CA91)(nil), (*CB91)(nil), (*CC91)(nil)),
	types((*CA92)(nil), (*CB92)(nil), (*CC92)(nil)),
	types((*CA93)(nil), (*CB93)(nil), (*CC93)(nil)),
	types((*CA94)(nil), (*CB94)(nil), (*CC94)(nil)),
	types((*CA95)(nil), (*CB95)(nil), (*CC95)(nil)),
	types((*CA96)(nil), (*CB96)(nil), (*CC96)(nil)),
	types((*CA97)(nil), (*CB97)(nil), (*CC97)(nil)),
	types((*CA98)(nil), (*CB98)(nil), (*CC98)(nil)),
	types((*CA99)(nil), (*CB99)(nil), (*CC99)(nil)),
	types((*CA100)(nil), (*CB100)(nil), (*CC100)(nil)),
	types((*CA101)(nil), (*CB101)(nil), (*CC101)(nil)),
	types((*CA102)(nil), (*CB102)(nil), (*CC102)(nil)),
	types((*CA103)(nil), (*CB103)(nil), (*CC103)(nil)),
	types((*CA104)(nil), (*CB104)(nil), (*CC104)(nil)),
	types((*CA105)(nil), (*CB105)(nil), (*CC105)(nil)),
	types((*CA106)(nil), (*CB106)(nil), (*CC106)(nil)),
	types((*CA107)(nil), (*CB107)(nil), (*CC107)(nil)),
	types((*CA108)(nil), (*CB108)(nil), (*CC108)(nil)),
	types((*CA109)(nil), (*CB109)(nil), (*CC109)(nil)),
	types((*CA110)(nil), (*CB110)(nil), (*CC110)(nil)),
	types((*CA111)(nil), (*CB111)(nil), (*CC111)(nil)),
	types((*CA112)(nil), (*CB112)(nil), (*CC112)(nil)),
	types((*CA113)(nil), (*CB113)(nil), (*CC113)(nil)),
	types((*CA114)(nil), (*CB114)(nil), (*CC114)(nil)),
	types((*CA115)(nil), (*CB115)(nil), (*CC115)(nil)),
	types((*CA116)(nil), (*CB116)(nil), (*CC116)(nil)),
	types((*CA117)(nil), (*CB117)(nil), (*CC117)(nil)),
	types((*CA118)(nil), (*CB118)(nil), (*CC118)(nil)),
	types((*CA119)(nil), (*CB119)(nil), (*CC119)(nil)),
	types((*CA120)(nil), (*CB120)(nil), (*CC120)(nil)),
	types((*CA121)(nil), (*CB121)(nil), (*CC121)(nil)),
	types((*CA122)(nil), (*CB122)(nil), (*CC122)(nil)),
	types((*CA123)(nil), (*CB123)(nil), (*CC123)(nil)),
	types((*CA124)(nil), (*CB124)(nil), (*CC124)(nil)),
	types((*CA125)(nil), (*CB125)(nil), (*CC125)(nil)),
	types((*CA126)(nil), (*CB126)(nil), (*CC126)(nil)),
	types((*CA127)(nil), (*CB127)(nil), (*CC127)(nil)),
	types((*CA128)(nil), (*CB128)(nil), (*CC128)(nil)),
	types((*CA129)(nil), (*CB129)(nil), (*CC129)(nil)),
	types((*CA130)(nil), (*CB130)(nil), (*CC130)(nil)),
	types((*CA131)(nil), (*CB131)(nil), (*CC131)(nil)),
	types((*CA132)(nil), (*CB132)(nil), (*CC132)(nil)),
	types((*CA133)(nil), (*CB133)(nil), (*CC133)(nil)),
	types((*CA134)(nil), (*CB134)(nil), (*CC134)(nil)),
	types((*CA135)(nil), (*CB135)(nil), (*CC135)(nil)),
	types((*CA136)(nil), (*CB136)(nil), (*CC136)(nil)),
	types((*CA137)(nil), (*CB137)(nil), (*CC137)(nil)),
	types((*CA138)(nil), (*CB138)(nil), (*CC138)(nil)),
	types((*CA139)(nil), (*CB139)(nil), (*CC139)(nil)),
	types((*CA140)(nil), (*CB140)(nil), (*CC140)(nil)),
	types((*CA141)(nil), (*CB141)(nil), (*CC141)(nil)),
	types((*CA142)(nil), (*CB142)(nil), (*CC142)(nil)),
	types((*CA143)(nil), (*CB143)(nil), (*CC143)(nil)),
	types((*CA144)(nil), (*CB144)(nil), (*CC144)(nil)),
	types((*CA145)(nil), (*CB145)(nil), (*CC145)(nil)),
	types((*CA146)(nil), (*CB146)(nil), (*CC146)(nil)),
	types((*CA147)(nil), (*CB147)(nil), (*CC147)(nil)),
	types((*CA148)(nil), (*CB148)(nil), (*CC148)(nil)),
	types((*CA149)(nil), (*CB149)(nil), (*CC149)(nil)),
	types((*CA150)(nil), (*CB150)(nil), (*CC150)(nil)),
	types((*CA151)(nil), (*CB151)(nil), (*CC151)(nil)),
	types((*CA152)(nil), (*CB152)(nil), (*CC152)(nil)),
	types((*CA153)(nil), (*CB153)(nil), (*CC153)(nil)),
	types((*CA154)(nil), (*CB154)(nil), (*CC154)(nil)),
	types((*CA155)(nil), (*CB155)(nil), (*CC155)(nil)),
	types((*CA156)(nil), (*CB156)(nil), (*CC156)(nil)),
	types((*CA157)(nil), (*CB157)(nil), (*CC157)(nil)),
	types((*CA158)(nil), (*CB158)(nil), (*CC158)(nil)),
	types((*CA159)(nil), (*CB159)(nil), (*CC159)(nil)),
	types((*CA160)(nil), (*CB160)(nil), (*CC160)(nil)),
	types((*CA161)(nil), (*CB161)(nil), (*CC161)(nil)),
	types((*CA162)(nil), (*CB162)(nil), (*CC162)(nil)),
	types((*CA163)(nil), (*CB163)(nil), (*CC163)(nil)),
	types((*CA164)(nil), (*CB164)(nil), (*CC164)(nil)),
	types((*CA165)(nil), (*CB165)(nil), (*CC165)(nil)),
	types((*CA166)(nil), (*CB166)(nil), (*CC166)(nil)),
	types((*CA167)(nil), (*CB167)(nil), (*CC167)(nil)),
	types((*CA168)(nil), (*CB168)(nil), (*CC168)(nil)),
	types((*CA169)(nil), (*CB169)(nil), (*CC169)(nil)),
	types((*CA170)(nil), (*CB170)(nil), (*CC170)(nil)),
	types((*CA171)(nil), (*CB171)(nil), (*CC171)(nil)),
	types((*CA172)(nil), (*CB172)(nil), (*CC172)(nil)),
	types((*CA173)(nil), (*CB173)(nil), (*CC173)(nil)),
	types((*CA174)(nil), (*CB174)(nil), (*CC174)(nil)),
	types((*CA175)(nil), (*CB175)(nil), (*CC175)(nil)),
	types((*CA176)(nil), (*CB176)(nil), (*CC176)(nil)),
	types((*CA177)(nil), (*CB177)(nil), (*CC177)(nil)),
	types((*CA178)(nil), (*CB178)(nil), (*CC178)(nil)),
	types((*CA179)(nil), (*CB179)(nil), (*CC179)(nil)),
	types((*CA180)(nil), (*CB180)(nil), (*CC180)(nil)),
	types((*CA181)(nil), (*CB181)(nil), (*CC181)(nil)),
	types((*CA182)(nil), (*CB182)(nil), (*CC182)(nil)),
	types((*CA183)(nil), (*CB183)(nil), (*CC183)(nil)),
	types((*CA184)(nil), (*CB184)(nil), (*CC184)(nil)),
	types((*CA185)(nil), (*CB185)(nil), (*CC185)(nil)),
	types((*CA186)(nil), (*CB186)(nil), (*CC186)(nil)),
	types((*CA187)(nil), (*CB187)(nil), (*CC187)(nil)),
	types((*CA188)(nil), (*CB188)(nil), (*CC188)(nil)),
	types((*CA189)(nil), (*CB189)(nil), (*CC189)(nil)),
	types((*CA190)(nil), (*CB190)(nil), (*CC190)(nil)),
	types((*CA191)(nil), (*CB191)(nil), (*CC191)(nil)),
	types((*CA192)(nil), (*CB192)(nil), (*CC192)(nil)),
	types((*CA193)(nil), (*CB193)(nil), (*CC193)(nil)),
	types((*CA194)(nil), (*CB194)(nil), (*CC194)(nil)),
	types((*CA195)(nil), (*CB195)(nil), (*CC195)(nil)),
	types((*CA196)(nil), (*CB196)(nil), (*CC196)(nil)),
	types((*CA197)(nil), (*CB197)(nil), (*CC197)(nil)),
	types((*CA198)(nil), (*CB198)(nil), (*CC198)(nil)),
	types((*CA199)(nil), (*CB199)(nil), (*CC199)(nil)),
	types((*CA200)(nil), (*CB200)(nil), (*CC200)(nil)),
	types((*CA201)(nil), (*CB201)(nil), (*CC201)(nil)),
	types((*CA202)(nil), (*CB202)(nil), (*CC202)(nil)),
	types((*CA203)(nil), (*CB203)(nil), (*CC203)(nil)),
	types((*CA204)(nil), (*CB204)(nil), (*CC204)(nil)),
	types((*CA205)(nil), (*CB205)(nil), (*CC205)(nil)),
	types((*CA206)(nil), (*CB206)(nil), (*CC206)(nil)),
	types((*CA207)(nil), (*CB207)(nil), (*CC207)(nil)),
	types((*CA208)(nil), (*CB208)(nil), (*CC208)(nil)),
	types((*CA209)(nil), (*CB209)(nil), (*CC209)(nil)),
	types((*CA210)(nil), (*CB210)(nil), (*CC210)(nil)),
	types((*CA211)(nil), (*CB211)(nil), (*CC211)(nil)),
	types((*CA212)(nil), (*CB212)(nil), (*CC212)(nil)),
	types((*CA213)(nil), (*CB213)(nil), (*CC213)(nil)),
	types((*CA214)(nil), (*CB214)(nil), (*CC214)(nil)),
	types((*CA215)(nil), (*CB215)(nil), (*CC215)(nil)),
	types((*CA216)(nil), (*CB216)(nil), (*CC216)(nil)),
	types((*CA217)(nil), (*CB217)(nil), (*CC217)(nil)),
	types((*CA218)(nil), (*CB218)(nil), (*CC218)(nil)),
	types((*CA219)(nil), (*CB219)(nil), (*CC219)(nil)),
	types((*CA220)(nil), (*CB220)(nil), (*CC220)(nil)),
	types((*CA221)(nil), (*CB221)(nil), (*CC221)(nil)),
	types((*CA222)(nil), (*CB222)(nil), (*CC222)(nil)),
	types((*CA223)(nil), (*CB223)(nil), (*CC223)(nil)),
	types((*CA224)(nil), (*CB224)(nil), (*CC224)(nil)),
	types((*CA225)(nil), (*CB225)(nil), (*CC225)(nil)),
	types((*CA226)(nil), (*CB226)(nil), (*CC226)(nil)),
	types((*CA227)(nil), (*CB227)(nil), (*CC227)(nil)),
	types((*CA228)(nil), (*CB228)(nil), (*CC228)(nil)),
	types((*CA229)(nil), (*CB229)(nil), (*CC229)(nil)),
	types((*CA230)(nil), (*CB230)(nil), (*CC230)(nil)),
	types((*CA231)(nil), (*CB231)(nil), (*CC231)(nil)),
	types((*CA232)(nil), (*CB232)(nil), (*CC232)(nil)),
	types((*CA233)(nil), (*CB233)(nil), (*CC233)(nil)),
	types((*CA234)(nil), (*CB234)(nil), (*CC234)(nil)),
	types((*CA235)(nil), (*CB235)(nil), (*CC235)(nil)),
	types((*CA236)(nil), (*CB236)(nil), (*CC236)(nil)),
	types((*CA237)(nil), (*CB237)(nil), (*CC237)(nil)),
	types((*CA238)(nil), (*CB238)(nil), (*CC238)(nil)),
	types((*CA239)(nil), (*CB239)(nil), (*CC239)(nil)),
	types((*CA240)(nil), (*CB240)(nil), (*CC240)(nil)),
	types((*CA241)(nil), (*CB241)(nil), (*CC241)(nil)),
	types((*CA242)(nil), (*CB242)(nil), (*CC242)(nil)),
	types((*CA243)(nil), (*CB243)(nil), (*CC243)(nil)),
	types((*CA244)(nil), (*CB244)(nil), (*CC244)(nil)),
	types((*CA245)(nil), (*CB245)(nil), (*CC245)(nil)),
	types((*CA246)(nil), (*CB246)(nil), (*CC246)(nil)),
	types((*CA247)(nil), (*CB247)(nil), (*CC247)(nil)),
	types((*CA248)(nil), (*CB248)(nil), (*CC248)(nil)),
	types((*CA249)(nil), (*CB249)(nil), (*CC249)(nil)),
	types((*CA250)(nil), (*CB250)(nil), (*CC250)(nil)),
	types((*CA251)(nil), (*CB251)(nil), (*CC251)(nil)),
	types((*CA252)(nil), (*CB252)(nil), (*CC252)(nil)),
	types((*CA253)(nil), (*CB253)(nil), (*CC253)(nil)),
	types((*CA254)(nil), (*CB254)(nil), (*CC254)(nil)),
	types((*CA255)(nil), (*CB255)(nil), (*CC255)(nil)),
	types((*CA256)(nil), (*CB256)(nil), (*CC256)(nil)),
	types((*CA257)(nil), (*CB257)(nil), (*CC257)(nil)),
	types((*CA258)(nil), (*CB258)(nil), (*CC258)(nil)),
	types((*CA259)(nil), (*CB259)(nil), (*CC259)(nil)),
	types((*CA260)(nil), (*CB260)(nil), (*CC260)(nil)),
	types((*CA261)(nil), (*CB261)(nil), (*CC261)(nil)),
	types((*CA262)(nil), (*CB262)(nil), (*CC262)(nil)),
	types((*CA263)(nil), (*CB263)(nil), (*CC263)(nil)),
	types((*CA264)(nil), (*CB264)(nil), (*CC264)(nil)),
	types((*CA265)(nil), (*CB265)(nil), (*CC265)(nil)),
	types((*CA266)(nil), (*CB266)(nil), (*CC266)(nil)),
	types((*CA267)(nil), (*CB267)(nil), (*CC267)(nil)),
	types((*CA268)(nil), (*CB268)(nil), (*CC268)(nil)),
	types((*CA269)(nil), (*CB269)(nil), (*CC269)(nil)),
	types((*CA270)(nil), (*CB270)(nil), (*CC270)(nil)),
	types((*CA271)(nil), (*CB271)(nil), (*CC271)(nil)),
	types((*CA272)(nil), (*CB272)(nil), (*CC272)(nil)),
	types((*CA273)(nil), (*CB273)(nil), (*CC273)(nil)),
	types((*CA274)(nil), (*CB274)(nil), (*CC274)(nil)),
	types((*CA275)(nil), (*CB275)(nil), (*CC275)(nil)),
	types((*CA276)(nil), (*CB276)(nil), (*CC276)(nil)),
	types((*CA277)(nil), (*CB277)(nil), (*CC277)(nil)),
	types((*CA278)(nil), (*CB278)(nil), (*CC278)(nil)),
	types((*CA279)(nil), (*CB279)(nil), (*CC279)(nil)),
	types((*CA280)(nil), (*CB280)(nil), (*CC280)(nil)),
	types((*CA281)(nil), (*CB281)(nil), (*CC281)(nil)),
	types((*CA282)(nil), (*CB282)(nil), (*CC282)(nil)),
	types((*CA283)(nil), (*CB283)(nil), (*CC283)(nil)),
	types((*CA284)(nil), (*CB284)(nil), (*CC284)(nil)),
	types((*CA285)(nil), (*CB285)(nil), (*CC285)(nil)),
	types((*CA286)(nil), (*CB286)(nil), (*CC286)(nil)),
	types((*CA287)(nil), (*CB287)(nil), (*CC287)(nil)),
	types((*CA288)(nil), (*CB288)(nil), (*CC288)(nil)),
	types((*CA289)(nil), (*CB289)(nil), (*CC289)(nil)),
	types((*CA290)(nil), (*CB290)(nil), (*CC290)(nil)),
	types((*CA291)(nil), (*CB291)(nil), (*CC291)(nil)),
	types((*CA292)(nil), (*CB292)(nil), (*CC292)(nil)),
	types((*CA293)(nil), (*CB293)(nil), (*CC293)(nil)),
	types((*CA294)(nil), (*CB294)(nil), (*CC294)(nil)),
	types((*CA295)(nil), (*CB295)(nil), (*CC295)(nil)),
	types((*CA296)(nil), (*CB296)(nil), (*CC296)(nil)),
	types((*CA297)(nil), (*CB297)(nil), (*CC297)(nil)),
	types((*CA298)(nil), (*CB298)(nil), (*CC298)(nil)),
	types((*CA299)(nil), (*CB299)(nil), (*CC299)(nil)),
	types((*CA300)(nil), (*CB300)(nil), (*CC300)(nil)),
	types((*CA301)(nil), (*CB301)(nil), (*CC301)(nil)),
	types((*CA302)(nil), (*CB302)(nil), (*CC302)(nil)),
	types((*CA303)(nil), (*CB303)(nil), (*CC303)(nil)),
	types((*CA304)(nil), (*CB304)(nil), (*CC304)(nil)),
	types((*CA305)(nil), (*CB305)(nil), (*CC305)(nil)),
	types((*CA306)(nil), (*CB306)(nil), (*CC306)(nil)),
	types((*CA307)(nil), (*CB307)(nil), (*CC307)(nil)),
	types((*CA308)(nil), (*CB308)(nil), (*CC308)(nil)),
	types((*CA309)(nil), (*CB309)(nil), (*CC309)(nil)),
	types((*CA310)(nil), (*CB310)(nil), (*CC310)(nil)),
	types((*CA311)(nil), (*CB311)(nil), (*CC311)(nil)),
	types((*CA312)(nil), (*CB312)(nil), (*CC312)(nil)),
	types((*CA313)(nil), (*CB313)(nil), (*CC313)(nil)),
	types((*CA314)(nil), (*CB314)(nil), (*CC314)(nil)),
	types((*CA315)(nil), (*CB315)(nil), (*CC315)(nil)),
	types((*CA316)(nil), (*CB316)(nil), (*CC316)(nil)),
	types((*CA317)(nil), (*CB317)(nil), (*CC317)(nil)),
	types((*CA318)(nil), (*CB318)(nil), (*CC318)(nil)),
	types((*CA319)(nil), (*CB319)(nil), (*CC319)(nil)),
	types((*CA320)(nil), (*CB320)(nil), (*CC320)(nil)),
	types((*CA321)(nil), (*CB321)(nil), (*CC321)(nil)),
	types((*CA322)(nil), (*CB322)(nil), (*CC322)(nil)),
	types((*CA323)(nil), (*CB323)(nil), (*CC323)(nil)),
	types((*CA324)(nil), (*CB324)(nil), (*CC324)(nil)),
	types((*CA325)(nil), (*CB325)(nil), (*CC325)(nil)),
	types((*CA326)(nil), (*CB326)(nil), (*CC326)(nil)),
	types((*CA327)(nil), (*CB327)(nil), (*CC327)(nil)),
	types((*CA328)(nil), (*CB328)(nil), (*CC328)(nil)),
	types((*CA329)(nil), (*CB329)(nil), (*CC329)(nil)),
	types((*CA330)(nil), (*CB330)(nil), (*CC330)(nil)),
	types((*CA331)(nil), (*CB331)(nil), (*CC331)(nil)),
	types((*CA332)(nil), (*CB332)(nil), (*CC332)(nil)),
	types((*CA333)(nil), (*CB333)(nil), (*CC333)(nil)),
	types((*CA334)(nil), (*CB334)(nil), (*CC334)(nil)),
	types((*CA335)(nil), (*CB335)(nil), (*CC335)(nil)),
	types((*CA336)(nil), (*CB336)(nil), (*CC336)(nil)),
	types((*CA337)(nil), (*CB337)(nil), (*CC337)(nil)),
	types((*CA338)(nil), (*CB338)(nil), (*CC338)(nil)),
	types((*CA339)(nil), (*CB339)(nil), (*CC339)(nil)),
	types((*CA340)(nil), (*CB340)(nil), (*CC340)(nil)),
	types((*CA341)(nil), (*CB341)(nil), (*CC341)(nil)),
	types((*CA342)(nil), (*CB342)(nil), (*CC342)(nil)),
	types((*CA343)(nil), (*CB343)(nil), (*CC343)(nil)),
	types((*CA344)(nil), (*CB344)(nil), (*CC344)(nil)),
	types((*CA345)(nil), (*CB345)(nil), (*CC345)(nil)),
	types((*CA346)(nil), (*CB346)(nil), (*CC346)(nil)),
	types((*CA347)(nil), (*CB347)(nil), (*CC347)(nil)),
	types((*CA348)(nil), (*CB348)(nil), (*CC348)(nil)),
	types((*CA349)(nil), (*CB349)(nil), (*CC349)(nil)),
	types((*CA350)(nil), (*CB350)(nil), (*CC350)(nil)),
	types((*CA351)(nil), (*CB351)(nil), (*CC351)(nil)),
	types((*CA352)(nil), (*CB352)(nil), (*CC352)(nil)),
	types((*CA353)(nil), (*CB353)(nil), (*CC353)(nil)),
	types((*CA354)(nil), (*CB354)(nil), (*CC354)(nil)),
	types((*CA355)(nil), (*CB355)(nil), (*CC355)(nil)),
	types((*CA356)(nil), (*CB356)(nil), (*CC356)(nil)),
	types((*CA357)(nil), (*CB357)(nil), (*CC357)(nil)),
	types((*CA358)(nil), (*CB358)(nil), (*CC358)(nil)),
	types((*CA359)(nil), (*CB359)(nil), (*CC359)(nil)),
	types((*CA360)(nil), (*CB360)(nil), (*CC360)(nil)),
	types((*CA361)(nil), (*CB361)(nil), (*CC361)(nil)),
	types((*CA362)(nil), (*CB362)(nil), (*CC362)(nil)),
	types((*CA363)(nil), (*CB363)(nil), (*CC363)(nil)),
	types((*CA364)(nil), (*CB364)(nil), (*CC364)(nil)),
	types((*CA365)(nil), (*CB365)(nil), (*CC365)(nil)),
	types((*CA366)(nil), (*CB366)(nil), (*CC366)(nil)),
	types((*CA367)(nil), (*CB367)(nil), (*CC367)(nil)),
	types((*CA368)(nil), (*CB368)(nil), (*CC368)(nil)),
	types((*CA369)(nil), (*CB369)(nil), (*CC369)(nil)),
	types((*CA370)(nil), (*CB370)(nil), (*CC370)(nil)),
	types((*CA371)(nil), (*CB371)(nil), (*CC371)(nil)),
	types((*CA372)(nil), (*CB372)(nil), (*CC372)(nil)),
	types((*CA373)(nil), (*CB373)(nil), (*CC373)(nil)),
	types((*CA374)(nil), (*CB374)(nil), (*CC374)(nil)),
	types((*CA375)(nil), (*CB375)(nil), (*CC375)(nil)),
	types((*CA376)(nil), (*CB376)(nil), (*CC376)(nil)),
	types((*CA377)(nil), (*CB377)(nil), (*CC377)(nil)),
	types((*CA378)(nil), (*CB378)(nil), (*CC378)(nil)),
	types((*CA379)(nil), (*CB379)(nil), (*CC379)(nil)),
	types((*CA380)(nil), (*CB380)(nil), (*CC380)(nil)),
	types((*CA381)(nil), (*CB381)(nil), (*CC381)(nil)),
	types((*CA382)(nil), (*CB382)(nil), (*CC382)(nil)),
	types((*CA383)(nil), (*CB383)(nil), (*CC383)(nil)),
	types((*CA384)(nil), (*CB384)(nil), (*CC384)(nil)),
	types((*CA385)(nil), (*CB385)(nil), (*CC385)(nil)),
	types((*CA386)(nil), (*CB386)(nil), (*CC386)(nil)),
	types((*CA387)(nil), (*CB387)(nil), (*CC387)(nil)),
	types((*CA388)(nil), (*CB388)(nil), (*CC388)(nil)),
	types((*CA389)(nil), (*CB389)(nil), (*CC389)(nil)),
	types((*CA390)(nil), (*CB390)(nil), (*CC390)(nil)),
	types((*CA391)(nil), (*CB391)(nil), (*CC391)(nil)),
	types((*CA392)(nil), (*CB392)(nil), (*CC392)(nil)),
	types((*CA393)(nil), (*CB393)(nil), (*CC393)(nil)),
	types((*CA394)(nil), (*CB394)(nil), (*CC394)(nil)),
	types((*CA395)(nil), (*CB395)(nil), (*CC395)(nil)),
	types((*CA396)(nil), (*CB396)(nil), (*CC396)(nil)),
	types((*CA397)(nil), (*CB397)(nil), (*CC397)(nil)),
	types((*CA398)(nil), (*CB398)(nil), (*CC398)(nil)),
	types((*CA399)(nil), (*CB399)(nil), (*CC399)(nil)),
	types((*CA400)(nil), (*CB400)(nil), (*CC400)(nil)),
	types((*CA401)(nil), (*CB401)(nil), (*CC401)(nil)),
	types((*CA402)(nil), (*CB402)(nil), (*CC402)(nil)),
	types((*CA403)(nil), (*CB403)(nil), (*CC403)(nil)),
	types((*CA404)(nil), (*CB404)(nil), (*CC404)(nil)),
	types((*CA405)(nil), (*CB405)(nil), (*CC405)(nil)),
	types((*CA406)(nil), (*CB406)(nil), (*CC406)(nil)),
	types((*CA407)(nil), (*CB407)(nil), (*CC407)(nil)),
	types((*CA408)(nil), (*CB408)(nil), (*CC408)(nil)),
	types((*CA409)(nil), (*CB409)(nil), (*CC409)(nil)),
	types((*CA410)(nil), (*CB410)(nil), (*CC410)(nil)),
	types((*CA411)(nil), (*CB411)(nil), (*CC411)(nil)),
	types((*CA412)(nil), (*CB412)(nil), (*CC412)(nil)),
	types((*CA413)(nil), (*CB413)(nil), (*CC413)(nil)),
	types((*CA414)(nil), (*CB414)(nil), (*CC414)(nil)),
	types((*CA415)(nil), (*CB415)(nil), (*CC415)(nil)),
	types((*CA416)(nil), (*CB416)(nil), (*CC416)(nil)),
	types((*CA417)(nil), (*CB417)(nil), (*CC417)(nil)),
	types((*CA418)(nil), (*CB418)(nil), (*CC418)(nil)),
	types((*CA419)(nil), (*CB419)(nil), (*CC419)(nil)),
	types((*CA420)(nil), (*CB420)(nil), (*CC420)(nil)),
	types((*CA421)(nil), (*CB421)(nil), (*CC421)(nil)),
	types((*CA422)(nil), (*CB422)(nil), (*CC422)(nil)),
	types((*CA423)(nil), (*CB423)(nil), (*CC423)(nil)),
	types((*CA424)(nil), (*CB424)(nil), (*CC424)(nil)),
	types((*CA425)(nil), (*CB425)(nil), (*CC425)(nil)),
	types((*CA426)(nil), (*CB426)(nil), (*CC426)(nil)),
	types((*CA427)(nil), (*CB427)(nil), (*CC427)(nil)),
	types((*CA428)(nil), (*CB428)(nil), (*CC428)(nil)),
	types((*CA429)(nil), (*CB429)(nil), (*CC429)(nil)),
	types((*CA430)(nil), (*CB430)(nil), (*CC430)(nil)),
	types((*CA431)(nil), (*CB431)(nil), (*CC431)(nil)),
	types((*CA432)(nil), (*CB432)(nil), (*CC432)(nil)),
	types((*CA433)(nil), (*CB433)(nil), (*CC433)(nil)),
	types((*CA434)(nil), (*CB434)(nil), (*CC434)(nil)),
	types((*CA435)(nil), (*CB435)(nil), (*CC435)(nil)),
	types((*CA436)(nil), (*CB436)(nil), (*CC436)(nil)),
	types((*CA437)(nil), (*CB437)(nil), (*CC437)(nil)),
	types((*CA438)(nil), (*CB438)(nil), (*CC438)(nil)),
	types((*CA439)(nil), (*CB439)(nil), (*CC439)(nil)),
	types((*CA440)(nil), (*CB440)(nil), (*CC440)(nil)),
	types((*CA441)(nil), (*CB441)(nil), (*CC441)(nil)),
	types((*CA442)(nil), (*CB442)(nil), (*CC442)(nil)),
	types((*CA443)(nil), (*CB443)(nil), (*CC443)(nil)),
	types((*CA444)(nil), (*CB444)(nil), (*CC444)(nil)),
	types((*CA445)(nil), (*CB445)(nil), (*CC445)(nil)),
	types((*CA446)(nil), (*CB446)(nil), (*CC446)(nil)),
	types((*CA447)(nil), (*CB447)(nil), (*CC447)(nil)),
	types((*CA448)(nil), (*CB448)(nil), (*CC448)(nil)),
	types((*CA449)(nil), (*CB449)(nil), (*CC449)(nil)),
	types((*CA450)(nil), (*CB450)(nil), (*CC450)(nil)),
	types((*CA451)(nil), (*CB451)(nil), (*CC451)(nil)),
	types((*CA452)(nil), (*CB452)(nil), (*CC452)(nil)),
	types((*CA453)(nil), (*CB453)(nil), (*CC453)(nil)),
	types((*CA454)(nil), (*CB454)(nil), (*CC454)(nil)),
	types((*CA455)(nil), (*CB455)(nil), (*CC455)(nil)),
	types((*CA456)(nil), (*CB456)(nil), (*CC456)(nil)),
	types((*CA457)(nil), (*CB457)(nil), (*CC457)(nil)),
	types((*CA458)(nil), (*CB458)(nil), (*CC458)(nil)),
	types((*CA459)(nil), (*CB459)(nil), (*CC459)(nil)),
	types((*CA460)(nil), (*CB460)(nil), (*CC460)(nil)),
	types((*CA461)(nil), (*CB461)(nil), (*CC461)(nil)),
	types((*CA462)(nil), (*CB462)(nil), (*CC462)(nil)),
	types((*CA463)(nil), (*CB463)(nil), (*CC463)(nil)),
	types((*CA464)(nil), (*CB464)(nil), (*CC464)(nil)),
	types((*CA465)(nil), (*CB465)(nil), (*CC465)(nil)),
	types((*CA466)(nil), (*CB466)(nil), (*CC466)(nil)),
	types((*CA467)(nil), (*CB467)(nil), (*CC467)(nil)),
	types((*CA468)(nil), (*CB468)(nil), (*CC468)(nil)),
	types((*CA469)(nil), (*CB469)(nil), (*CC469)(nil)),
	types((*CA470)(nil), (*CB470)(nil), (*CC470)(nil)),
	types((*CA471)(nil), (*CB471)(nil), (*CC471)(nil)),
	types((*CA472)(nil), (*CB472)(nil), (*CC472)(nil)),
	types((*CA473)(nil), (*CB473)(nil), (*CC473)(nil)),
	types((*CA474)(nil), (*CB474)(nil), (*CC474)(nil)),
	types((*CA475)(nil), (*CB475)(nil), (*CC475)(nil)),
	types((*CA476)(nil), (*CB476)(nil), (*CC476)(nil)),
	types((*CA477)(nil), (*CB477)(nil), (*CC477)(nil)),
	types((*CA478)(nil), (*CB478)(nil), (*CC478)(nil)),
	types((*CA479)(nil), (*CB479)(nil), (*CC479)(nil)),
	types((*CA480)(nil), (*CB480)(nil), (*CC480)(nil)),
	types((*CA481)(nil), (*CB481)(nil), (*CC481)(nil)),
	types((*CA482)(nil), (*CB482)(nil), (*CC482)(nil)),
	types((*CA483)(nil), (*CB483)(nil), (*CC483)(nil)),
	types((*CA484)(nil), (*CB484)(nil), (*CC484)(nil)),
	types((*CA485)(nil), (*CB485)(nil), (*CC485)(nil)),
	types((*CA486)(nil), (*CB486)(nil), (*CC486)(nil)),
	types((*CA487)(nil), (*CB487)(nil), (*CC487)(nil)),
	types((*CA488)(nil), (*CB488)(nil), (*CC488)(nil)),
	types((*CA489)(nil), (*CB489)(nil), (*CC489)(nil)),
	types((*CA490)(nil), (*CB490)(nil), (*CC490)(nil)),
	types((*CA491)(nil), (*CB491)(nil), (*CC491)(nil)),
	types((*CA492)(nil), (*CB492)(nil), (*CC492)(nil)),
	types((*CA493)(nil), (*CB493)(nil), (*CC493)(nil)),
	types((*CA494)(nil), (*CB494)(nil), (*CC494)(nil)),
	types((*CA495)(nil), (*CB495)(nil), (*CC495)(nil)),
	types((*CA496)(nil), (*CB496)(nil), (*CC496)(nil)),
	types((*CA497)(nil), (*CB497)(nil), (*CC497)(nil)),
	types((*CA498)(nil), (*CB498)(nil), (*CC498)(nil)),
	types((*CA499)(nil), (*CB499)(nil), (*CC499)(nil)),
}
