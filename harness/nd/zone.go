package nd

import (
	"encoding/binary"
	"time"
)

// seasonal builds the location from data in the format of the time zone database.
func seasonal() *time.Location {
	head := func(types, chars, times int) []byte {
		b := append([]byte("TZif2"), make([]byte, 15)...)
		for _, n := range []int{0, 0, 0, times, types, chars} { // isutcnt isstdcnt leapcnt timecnt typecnt charcnt
			b = binary.BigEndian.AppendUint32(b, uint32(n))
		}
		return b
	}
	b := head(1, 4, 0)
	b = append(b, 0, 0, 0, 0, 0, 0)
	b = append(b, "AAA\x00"...)
	b = append(b, head(2, 8, 1)...)
	b = binary.BigEndian.AppendUint64(b, uint64(time.Date(1980, 1, 1, 0, 0, 0, 0, time.UTC).Unix()))
	b = append(b, 0)
	b = binary.BigEndian.AppendUint32(b, 3600)
	b = append(b, 0, 0)
	b = binary.BigEndian.AppendUint32(b, 7200)
	b = append(b, 1, 4)
	b = append(b, "AAA\x00BBB\x00"...)
	b = append(b, "\nAAA-1BBB,J90/2,J300/3\n"...)
	loc, err := time.LoadLocationFromTZData("seasonal", b)
	if err != nil {
		panic(err)
	}
	return loc
}
