package cacher

import "testing"

func TestReplayC02(t *testing.T) {
	for seed := int64(0); seed < 120; seed++ {
		vHistory(t, 2000+seed, 60)
	}
}
