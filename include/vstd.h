// standard headers, seen before 'private' is redefined
#include <algorithm>
#include <array>
#include <chrono>
#include <complex>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <list>
#include <set>
#include <queue>
#include <numeric>
#include <omp.h>
#include <mpi.h>
#include <hdf5.h>
#include <fftw3-mpi.h>
#include <immintrin.h>
#include <sys/stat.h>
#include <unistd.h>
