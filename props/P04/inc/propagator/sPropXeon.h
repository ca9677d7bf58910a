// kernels are taken at their contract (see h.cpp)
