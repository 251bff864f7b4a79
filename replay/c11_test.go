package featselect

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestVFC11(t *testing.T) {
	v := vfStart(t, "C11")
	dir := os.Getenv("VF_SCRATCH")
	cells := []struct {
		s string
		f float64
	}{{"1", 1}, {"-2.5", -2.5}, {"1e3", 1000}, {"abc", 0}, {"", 0}, {"1.2.3", 0}, {"-7e-2", -0.07}, {"12,5", 0}, {"0", 0}, {"+4", 4}, {"nil", 0}, {"1 2", 0}, {".5", 0.5}, {"3.", 3}, {"--1", 0}, {"5%", 0}, {"-0.000001", -0.000001}, {"123456789.25", 123456789.25}}
	names := []string{"a", "b", "feature one", "x,y", "q\"uote", "1", "é", "", "a"}
	for i := 0; v.more(i, 15000); i++ {
		nc, nr := 2+v.rng.Intn(5), 1+v.rng.Intn(5)
		head := make([]string, nc)
		for k := range head {
			head[k] = names[v.rng.Intn(len(names))]
		}
		tab := make([][]float64, nr)
		txt := [][]string{head}
		for r := range tab {
			row := make([]string, nc)
			tab[r] = make([]float64, nc)
			for k := range row {
				c := cells[v.rng.Intn(len(cells))]
				if v.rng.Intn(3) == 0 {
					c.f = v.float()
					c.s = fmt.Sprint(c.f)
				}
				row[k], tab[r][k] = c.s, c.f
			}
			txt = append(txt, row)
		}
		target := v.rng.Intn(nc)
		arg := target
		if v.rng.Intn(2) == 0 {
			arg = target - nc
		}
		var buf bytes.Buffer
		w := csv.NewWriter(&buf)
		w.WriteAll(txt)
		w.Flush()
		text := buf.String()
		v.run(func() string { return fmt.Sprintf("ParseCSV(%q, %d)", text, arg) }, func() {
			d := ParseCSV(strings.NewReader(text), arg)
			r, c := d.X.Dims()
			v.check(d.TargetCol == target, "target column %d, got %d", target, d.TargetCol)
			v.check(fmt.Sprint(d.Names) == fmt.Sprint(head) && len(d.Names) == nc, "names %v, got %v", head, d.Names)
			v.check(r == nr && c == nc-1 && len(d.Y) == nr, "%d rows and %d features, got %d and %d", nr, nc-1, r, c)
			for a := 0; a < nr; a++ {
				col := 0
				for b := 0; b < nc; b++ {
					if b == target {
						v.check(d.Y[a] == tab[a][b], "target %d = %v, got %v", a, tab[a][b], d.Y[a])
						continue
					}
					v.check(d.X.At(a, col) == tab[a][b], "value of row %d column %d = %v, got %v", a, b, tab[a][b], d.X.At(a, col))
					col++
				}
			}
		})
		// writing
		X := mat.NewDense(nr, nc-1, nil)
		Y := make([]float64, nr)
		for a := 0; a < nr; a++ {
			for b := 0; b < nc-1; b++ {
				X.Set(a, b, v.float())
			}
			Y[a] = v.float()
		}
		d := &Dataset{X: X, Y: Y, Names: head, TargetCol: target}
		Xc, Yc := vfDense(X), vfCopyF(Y)
		v.run(func() string { return fmt.Sprintf("SaveHandle of X=%v Y=%v Names=%q TargetCol=%d", Xc, Yc, head, target) }, func() {
			// the writer wraps the handle in a buffer it never flushes unless the handle is itself big enough
			name := filepath.Join(dir, "d.csv")
			d.Save(name)
			raw, err := ioutil.ReadFile(name)
			v.check(err == nil, "a written file")
			want := [][]string{head}
			for a := 0; a < nr; a++ {
				row := []string{}
				col := 0
				for b := 0; b < nc; b++ {
					if b == target {
						row = append(row, fmt.Sprintf("%f", Yc[a]))
					} else {
						row = append(row, fmt.Sprintf("%f", Xc[a][col]))
						col++
					}
				}
				want = append(want, row)
			}
			var wb bytes.Buffer
			cw := csv.NewWriter(&wb)
			cw.WriteAll(want)
			v.check(string(raw) == wb.String(), "file %q, got %q", wb.String(), raw)
			var hb bytes.Buffer
			d.SaveHandle(&hb)
			v.check(hb.String() == wb.String(), "written text %q, got %q", wb.String(), hb.String())
			v.check(vfSameM(Xc, vfDense(X)) && vfSameF(Yc, Y), "unchanged dataset")
			e := ReadCSV(name, target)
			v.check(e != nil && fmt.Sprint(e.Names) == fmt.Sprint(head) && e.TargetCol == target && len(e.Y) == nr, "names and shape restored")
			for a := 0; a < nr; a++ {
				v.check(math.Abs(e.Y[a]-Yc[a]) <= 5.1e-7+1e-15*math.Abs(Yc[a]), "target %d restored", a)
				for b := 0; b < nc-1; b++ {
					v.check(math.Abs(e.X.At(a, b)-Xc[a][b]) <= 5.1e-7+1e-15*math.Abs(Xc[a][b]), "value %d,%d restored, got %v", a, b, e.X.At(a, b))
				}
			}
		})
	}
	v.done("tables of 2 to 6 columns and 1 to 5 rows, target in any column, quoted names, unparsable cells")
}
