#define NS ChebyshevII
#define FNAME "ChebyshevII"
#define FAM CHEB2
#define FN regCheb2
#define EXTRA ATT
#include "reg_pole.inc"
