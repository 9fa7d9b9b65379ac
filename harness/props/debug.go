package props

import (
	"fmt"
	"os"
	"sync"
)

func init() {
	if os.Getenv("VH_METER") == "" {
		return
	}
	var mu sync.Mutex
	max := map[string]float64{}
	f, _ := os.OpenFile(os.Getenv("VH_METER"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
	debugMeter = func(k string, r float64) {
		mu.Lock()
		if r > max[k] {
			max[k] = r
			fmt.Fprintf(f, "%.4f %s\n", r, k)
		}
		mu.Unlock()
	}
}
