package gen

import "strconv"

func fmtFloat(f float64) string { return strconv.FormatFloat(f, 'G', -1, 64) }
