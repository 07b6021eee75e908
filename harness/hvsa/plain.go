package hvsa

import "os"

// plain tells that the code under test runs uninstrumented, on real threads.
func plain() bool { return os.Getenv("VERIF_PLAIN") == "1" }
