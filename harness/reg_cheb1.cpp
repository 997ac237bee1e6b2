#define NS ChebyshevI
#define FNAME "ChebyshevI"
#define FAM CHEB1
#define FN regCheb1
#define EXTRA RIPPLE
#include "reg_pole.inc"
