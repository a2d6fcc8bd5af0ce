// Linked into the command-line tools under test.
#include <cstddef>
#include "alloc.hh"
