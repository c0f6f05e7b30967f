// Gauss-Lobatto: same oracle as C01, end points included, degree 2n-3.
#define RULE0 1
#define RULE1 1
#include "C01.cxx"
