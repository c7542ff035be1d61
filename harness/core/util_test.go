package core

import (
	"math/rand"
	"time"
)

func randNew(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// randTime generates a time: zero, around now, or anywhere in four centuries.
func randTime(r *rand.Rand) time.Time {
	switch r.Intn(5) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(r.Int63n(4e9), 0).UTC()
	}
	return time.Unix(r.Int63n(8e9)-2e9, r.Int63n(1e9)).In(time.FixedZone("z", []int{(r.Intn(48) - 24) * 1800, r.Intn(80000) - 40000}[r.Intn(2)]))
}
