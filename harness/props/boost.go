package props

import "verif/engine"

// init sets how far the quick tier goes: about 10 to 20 seconds on 8 idle cores.
func init() {
	engine.Boost = map[string]int{"C01": 7, "C02": 7, "C03": 8, "C04": 12, "C05": 8, "C06": 7, "C07": 5, "C08": 4, "C09": 3, "C10": 3,
		"C11": 2, "C12": 3, "C13": 3, "C14": 8, "C15": 5, "C16": 3, "C17": 3, "C20": 2, "C21": 2, "C22": 4, "C24": 7, "C25": 3}
}
