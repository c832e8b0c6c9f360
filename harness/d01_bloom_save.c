/* D01: saving a bloom filter is atomic and durable under crashes and I/O errors */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "obj_bloom.h"
#include "save.h"
const dst_harness harness = { .property = "D01", .name = "bloom-save", .run = save_run,
  .rule = "one run = one to four successive saves of growing or different filters to one path (absolute or relative, over nothing, foreign content, an older filter or a directory) with failing system calls and allocations and/or machine crashes at any system call, and sometimes another process saving to the same path before any of those calls; each crash leaving any journal prefix and any mix of old, new, zero and torn unsynced pages; non-trivial: a save was acknowledged or a fault fired; distinct by the hash of the whole event log" };
