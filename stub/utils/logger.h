// Verification stand-in for utils/logger.h: log output is dropped (it does not influence the verified state).
#ifndef __LOGGER__
#define __LOGGER__
#include <string>
#include <cstring>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <vector>
#include <chrono>
#include <memory>
#include <cstddef>
#include <algorithm>
#include <thread>
#include <cstdarg>
#include <sys/stat.h>
#include <unistd.h>
#include <omp.h>
#include <mpi.h>
#include "enum-field.h"
#include "comms/comms.h"
static inline double v_timer() { return 0.; }
#define LogAll(...)   do { } while (0)
#define LogDebug(...) do { } while (0)
#define LogError(...) do { } while (0)
#define LogMsg(...)   do { } while (0)
#define LogOut(...)   do { } while (0)
#define LogFlush()    do { } while (0)
#define Timer()       v_timer()
#endif
