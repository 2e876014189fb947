package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/proto"

	"verif/model"
)

type pb = phonenumbers.PhoneNumber

// fromPB projects a library number on the model's number.
func fromPB(p *pb) *model.Num {
	n := &model.Num{CC: p.GetCountryCode(), NN: p.GetNationalNumber(), ILZ: p.GetItalianLeadingZero(),
		NLZ: p.GetNumberOfLeadingZeros(), HasNLZ: p.NumberOfLeadingZeros != nil, Ext: p.GetExtension(),
		Raw: p.GetRawInput(), HasRaw: p.RawInput != nil, Src: int(p.GetCountryCodeSource()), PDCC: p.GetPreferredDomesticCarrierCode()}
	return n
}

// toPB builds a library number.
func toPB(n *model.Num) *pb {
	p := &pb{CountryCode: proto.Int32(n.CC), NationalNumber: proto.Uint64(n.NN)}
	if n.ILZ {
		p.ItalianLeadingZero = proto.Bool(true)
	}
	if n.HasNLZ {
		p.NumberOfLeadingZeros = proto.Int32(n.NLZ)
	}
	if n.Ext != "" {
		p.Extension = proto.String(n.Ext)
	}
	if n.HasRaw {
		p.RawInput = proto.String(n.Raw)
	}
	if n.Src != 0 {
		p.CountryCodeSource = phonenumbers.PhoneNumber_CountryCodeSource(n.Src).Enum()
	}
	if n.PDCC != "" {
		p.PreferredDomesticCarrierCode = proto.String(n.PDCC)
	}
	return p
}

// same compares the observable values of two numbers.
func same(a, b *model.Num) bool { return show(a) == show(b) }

func show(n *model.Num) string {
	if n == nil {
		return "<nil>"
	}
	z := "0"
	if n.ILZ {
		z = "1"
		if n.HasNLZ {
			z = fmt.Sprint(n.NLZ)
		}
	}
	raw := "-"
	if n.HasRaw {
		raw = fmt.Sprintf("%q", n.Raw)
	}
	return fmt.Sprintf("cc=%d nn=%d zeros=%s ext=%q raw=%s src=%d carrier=%q", n.CC, n.NN, z, n.Ext, raw, n.Src, n.PDCC)
}

func showPB(p *pb) string {
	if p == nil {
		return "<nil>"
	}
	return show(fromPB(p))
}

// errClass maps an error of the library on a class; -1 for an undocumented one.
func errClass(err error) model.Err {
	switch {
	case err == nil:
		return model.OK
	case errors.Is(err, phonenumbers.ErrInvalidCountryCode):
		return model.InvalidCountryCode
	case errors.Is(err, phonenumbers.ErrNotANumber):
		return model.NotANumber
	case errors.Is(err, phonenumbers.ErrTooShortNSN):
		return model.TooShortNSN
	case errors.Is(err, phonenumbers.ErrTooShortAfterIDD):
		return model.TooShortAfterIDD
	case errors.Is(err, phonenumbers.ErrNumTooLong):
		return model.TooLong
	}
	return -1
}

func errName(e model.Err) string {
	if e < 0 {
		return "undocumented error"
	}
	return e.String()
}

func onlyDigits(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= '0' && c <= '9' {
			b.WriteRune(c)
		}
	}
	return b.String()
}
