// Package unitconv is a stand-in for the formatting of numbers with SI prefixes.
package unitconv

import (
	"math"
	"strconv"
)

type Mode int

const (
	AutoParse Mode = iota
	SI
	Base1024
	IEC
)

func FormatPrefix(val float64, m Mode, prec int) string {
	i := 0
	for math.Abs(val) >= 1000 && i < 8 {
		val /= 1000
		i++
	}
	return strconv.FormatFloat(val, 'f', prec, 64) + []string{"", "k", "M", "G", "T", "P", "E", "Z", "Y"}[i]
}
