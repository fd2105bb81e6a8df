// Drives the coverage bridge the way a Go application does. Arguments: a script of
//   a<i> call function i of the linked payload     L  dlopen the second payload
//   b<i> call function i of the loaded payload     E  print whether coverage is enabled
//   D    dump coverage data
package main

/*
#cgo LDFLAGS: -lpayload_a -ldl
#include <dlfcn.h>
#include <stdio.h>
int pa_call(int, int);
static int (*pb)(int, int);
static int loadB(const char* path) {
  void* h = dlopen(path, RTLD_LAZY);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 0; }
  pb = (int (*)(int, int))dlsym(h, "pb_call");
  return pb != 0;
}
static int callB(int i, int x) { return pb(i, x); }
*/
import "C"

import (
	"fmt"
	"os"

	"mirror/go/lib/cpp"
)

func main() {
	for n, a := range os.Args[1:] {
		switch a[0] {
		case 'a':
			C.pa_call(C.int(a[1]-'0'), C.int(n))
		case 'b':
			C.callB(C.int(a[1]-'0'), C.int(n))
		case 'L':
			if C.loadB(C.CString(os.Getenv("PAYLOAD_B"))) == 0 {
				os.Exit(9)
			}
		case 'E':
			fmt.Println("enabled", cpp.ProbeEnabled())
		case 'D':
			cpp.DumpCppCoverageData()
		}
	}
	os.Exit(0)
}
