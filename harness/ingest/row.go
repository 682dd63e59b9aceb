package fastcsv

import (
	"bytes"
	"io"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

func vxDigits(b []byte) bool {
	for _, c := range b {
		if c < '0' || c > '9' {
			return false
		}
	}
	return len(b) > 0
}

// VxRow: the columns of a row are the ones between its commas, in every way the row is parsed.
func VxRow() {
	defer SetStderr(io.Discard)()
	row := []byte{}
	for i, n := 0, zvx.IntRange("length", 0, zvx.Param("length", 8)); i < n; i++ {
		b := zvx.U8("byte" + string(rune('a'+i)))
		zvx.Assume(b != '\n' && (b != '"' || zvx.Param("quotes", 1) == 1))
		row = append(row, b)
	}
	if len(row) > 0 {
		zvx.Assume(row[len(row)-1] != '\r')
	}
	end := []string{"", "\n", "\r\n"}[zvx.Choose("end", 3)]
	keep := append([]byte{}, row...)
	got, err := ParseLine(append(append([]byte{}, row...), end...), "f", 7)
	zvx.Assert(err != nil || got.Number == 7, "a row is numbered wrongly")
	slow, slowErr := parseRowSlow(append([]byte{}, row...))
	if bytes.IndexByte(row, '"') >= 0 {
		// the columns are those of the CSV format
		zvx.Assert((err == nil) == (slowErr == nil), "a row with quotes is not treated like any CSV row")
		if err == nil {
			zvx.Assert(bytes.Equal(got.CertField, slow.CertField) && bytes.Equal(got.ChainField, slow.ChainField) && bytes.Equal(got.ExpirationField, slow.ExpirationField), "a row with quotes is read with wrong columns")
			zvx.Reach("quoted")
		}
		return
	}
	cols := bytes.Split(keep, []byte(","))
	if len(cols) < 5 {
		zvx.Assert(err != nil, "a row with missing columns is accepted")
		zvx.Reach("short")
		return
	}
	last := cols[len(cols)-1]
	dot := bytes.IndexByte(last, '.')
	if len(cols[3]) > 0 && dot > 0 && vxDigits(last[:dot]) && vxDigits(last[dot+1:]) {
		zvx.Assert(err == nil, "a complete row is rejected")
		zvx.Reach("complete")
	}
	if err == nil {
		zvx.Assert(bytes.Equal(got.CertField, cols[3]) && bytes.Equal(got.ChainField, cols[4]) && bytes.Equal(got.ExpirationField, last), "a row is read with wrong columns")
		zvx.Assert(slowErr == nil && bytes.Equal(slow.CertField, cols[3]) && bytes.Equal(slow.ChainField, cols[4]) && bytes.Equal(slow.ExpirationField, last), "the two parsers read different columns")
		zvx.Assert(len(cols[3]) > 0 && len(last) > 0, "a row without a certificate or expiration is accepted")
	}
}

// VxColumns: the columns are the fourth, the fifth and the last one, however many there are, whether
// they have quotes or not.
func VxColumns() {
	defer SetStderr(io.Discard)()
	n := zvx.IntRange("columns", 1, zvx.Param("columns", 12))
	quoted := zvx.IntRange("quoted", -1, zvx.Param("columns", 12)-1)
	row, cols := []byte{}, [][]byte{}
	for i := 0; i < n; i++ {
		b := zvx.U8("byte" + string(rune('a'+i)))
		col := []byte{b}
		if i == n-1 {
			zvx.Assume(zvx.And(b >= '0', b <= '9'))
			col = append(col, ".5"...)
		}
		zvx.Assume(b != '\n' && b != '\r' && b != '"' && b != ',')
		if i > 0 {
			row = append(row, ',')
		}
		if i == quoted {
			// a comma between the quotes is part of the column.
			if zvx.Bool("comma") && i < n-1 {
				col = append(col, ',')
			}
			row = append(append(append(row, '"'), col...), '"')
		} else {
			row = append(row, col...)
		}
		cols = append(cols, col)
	}
	row = append(row, '\n')
	got, err := ParseLine(row, "f", 3)
	if n < 5 {
		zvx.Assert(err != nil, "a row with missing columns is accepted")
		zvx.Reach("short")
		return
	}
	zvx.Assert(err == nil && got.Number == 3, "a complete row is rejected")
	zvx.Assert(bytes.Equal(got.CertField, cols[3]) && bytes.Equal(got.ChainField, cols[4]) && bytes.Equal(got.ExpirationField, cols[n-1]), "a row is read with wrong columns")
	zvx.Reach("complete")
}
