#define NS ChebyshevI
#define FNAME "ChebyshevI"
#define FAM CHEB1
#define FN userCheb1
#define EXTRA RIPPLE
#include "c38_pole.inc"
