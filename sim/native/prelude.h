/* Included before the backend in the instrumented build: with the system headers
 * already read, constants lose their const, so that the tracing block size is a
 * run-time knob the simulator can set. */
#include <stdio.h>
#include <assert.h>
#include <math.h>
#include <stdlib.h>
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <time.h>
#include <float.h>
#define const
