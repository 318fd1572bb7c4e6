package cacher

import "testing"

func TestReplayC01(t *testing.T) {
	for seed := int64(0); seed < 120; seed++ {
		vHistory(t, 1000+seed, 60)
	}
}
