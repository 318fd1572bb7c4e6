package cacher

import "testing"

func TestReplayC03(t *testing.T) {
	for seed := int64(0); seed < 120; seed++ {
		vHistory(t, 3000+seed, 60)
	}
}
