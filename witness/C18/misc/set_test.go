package misc_test

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"testing"

	"github.com/muguangyi/ferry/misc"
)

type wp struct{ a int }

// TestWitnessC18 runs histories of operations against a model.
func TestWitnessC18(t *testing.T) {
	p := &wp{1}
	items := []interface{}{nil, 0, 1, -1, int8(0), int64(1), uint8(1), "", "a", "b", true, false, 1.5, 0.0, p, &wp{1}, [2]int{1, 2}, wp{3}, 'a', struct{}{}}
	for i := 0; i < 300; i++ {
		items = append(items, i*7, fmt.Sprint("s", i), strings.Repeat("x", i))
	}
	rounds := 400
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds = 5000
	}
	for seed := 0; seed < rounds; seed++ {
		r := rand.New(rand.NewSource(int64(seed)))
		n := 1 + r.Intn(len(items))
		pool := append([]interface{}(nil), items...)
		r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		pool = pool[:n]
		s := misc.NewSet()
		other := misc.NewSet()
		model := map[interface{}]bool{}
		steps := 1 + r.Intn(600)
		hist := ""
		fill := r.Intn(3)
		for k := 0; k < steps; k++ {
			x := pool[r.Intn(n)]
			op := r.Intn(10)
			switch {
			case op < 4+fill:
				_, in := model[x]
				hist += fmt.Sprintf("Add(%T %v) ", x, x)
				if got := s.Add(x); got != !in {
					t.Fatalf("seed %d: %s = %v, item present before: %v", seed, tail(hist), got, in)
				}
				model[x] = true
			case op < 9:
				_, in := model[x]
				hist += fmt.Sprintf("Remove(%T %v) ", x, x)
				if got := s.Remove(x); got != in {
					t.Fatalf("seed %d: %s = %v, item present before: %v", seed, tail(hist), got, in)
				}
				delete(model, x)
			default:
				checkSet(t, s, model, hist)
			}
		}
		checkSet(t, s, model, hist)
		checkSet(t, s, model, hist)
		if len(other.ToSlice()) != 0 {
			t.Fatalf("sets are not independent")
		}
	}
}

func tail(s string) string {
	if len(s) > 600 {
		return "..." + s[len(s)-600:]
	}
	return s
}

func checkSet(t *testing.T, s misc.ISet, model map[interface{}]bool, hist string) {
	got := s.ToSlice()
	seen := map[interface{}]bool{}
	for _, x := range got {
		if seen[x] {
			t.Fatalf("%v listed twice after %s", x, tail(hist))
		}
		seen[x] = true
		if !model[x] {
			t.Fatalf("%T %v listed but absent after %s", x, x, tail(hist))
		}
	}
	for x := range model {
		if !seen[x] {
			t.Fatalf("%T %v present but not listed after %s", x, x, tail(hist))
		}
	}
	for i := range got {
		got[i] = "overwritten" // the caller owns the slice
	}
}
